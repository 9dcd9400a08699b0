# Package bytes, and where the lines of a stream of bytes end.
package bytes
group none

fun indexOf(string, string) int

func Index(s, sep) (r)
  noalloc
  trusted "bytes: where the separator occurs first, -1 if it does not"
  requires len(sep) == 2
  ensures r == indexOf(str(s), str(sep)) && -1 <= r
  ensures r >= 0 ==> r + 2 <= len(s) && s[r] == sep[0] && s[r+1] == sep[1]

# lineEnd(m, p): where the first CRLF at or after p is, if hasLine(m, p) says that there is one.
fun hasLine(map[int]int, int) bool
fun lineEnd(map[int]int, int) int
axiom lineEndDef: forall m map[int]int :: forall p, n int {indexOf(bytes(m, p, n), "\r\n")} :: n >= 0 && indexOf(bytes(m, p, n), "\r\n") >= 0 ==> hasLine(m, p) && lineEnd(m, p) == p + indexOf(bytes(m, p, n), "\r\n")

package strings
group none
fun splitN(string) int
fun splitAt(string, int) string

func Split(s, sep) (r)
  trusted "strings: the parts between the separators"
  requires len(sep) == 1 && sep[0] == 32
  ensures fresh(arr(r)) && len(r) == splitN(s) && len(r) >= 1 && forall i int {r[i]} :: 0 <= i < len(r) ==> r[i] == splitAt(s, i)
