# go-lib byteutils.
package byteutils
group none

func S2B(s) (b)
  noalloc
  trusted "go-lib byteutils: the bytes of the string, without a copy; they must not be written"
  ensures len(b) == len(s) && forall i int {b[i]} :: 0 <= i < len(b) ==> b[i] == s[i]
