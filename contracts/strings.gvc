# Strings of the standard library.
package strings
group none

# Replacer: gone is the set of bytes its results do not contain.
ghost Replacer.gone map[int]bool

pred replaces(o []string, i int, b int) = i < len(o) && len(o[i]) == 1 && o[i][0] == b
pred lacks(o []string, i int, b int) = i < len(o) ==> forall j int {o[i][j]} :: 0 <= j < len(o[i]) ==> o[i][j] != b

func NewReplacer(oldnew) (r)
  trusted "strings: replaces each of the first strings of the pairs by the second; a single byte that is replaced and in no replacement does not occur in the result"
  ensures r != nil && fresh(r)
  ensures forall b int {r.gone[b]} :: r.gone[b] <==> len(oldnew) <= 6 && (replaces(oldnew, 0, b) || replaces(oldnew, 2, b) || replaces(oldnew, 4, b)) && lacks(oldnew, 1, b) && lacks(oldnew, 3, b) && lacks(oldnew, 5, b)

func (r *Replacer) Replace(s) (t)
  noalloc
  trusted "strings: the replaced string"
  requires r != nil
  ensures forall i int {t[i]} :: 0 <= i < len(t) ==> !r.gone[t[i]]


fun eqFold(string, string) bool
func EqualFold(s, t) (r)
  noalloc
  trusted "strings: equal without regard to case"
  ensures r <==> eqFold(s, t)

fun lower(string) string
func ToLower(s) (r)
  noalloc
  trusted "strings: the string in lower case"
  ensures r == lower(s)

# strings.Builder: s is what was written to it.
ghost Builder.s string

func (b *Builder) WriteString(x) (n, err)
  noalloc
  trusted "strings: appends the string"
  modifies b.s
  ensures b.s == old(b.s) + x && n == len(x) && err is nil

func (b *Builder) String() (r)
  noalloc
  trusted "strings: what was written"
  ensures r == b.s

func (b *Builder) Len() (r)
  noalloc
  trusted "strings: the length of what was written"
  ensures r == len(b.s)

func (b *Builder) Reset()
  noalloc
  trusted "strings: makes it empty"
  modifies b.s
  ensures b.s == ""
