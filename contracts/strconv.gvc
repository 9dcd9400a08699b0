# Numbers as text.
package strconv
group none

# What the text denotes, and whether it denotes anything.
fun floatText(float64) string
fun isInt(string) bool
fun intOf(string) int
fun isFloat(string) bool
fun floatOf(string) float64
axiom intText: forall n int {itoa(n)} :: isInt(itoa(n)) && intOf(itoa(n)) == n

func Atoi(s) (n, err)
  trusted "strconv: the integer the text denotes, and an error exactly when it denotes none"
  ensures err is nil <==> isInt(s)
  ensures err is nil ==> n == intOf(s)

func ParseInt(s, base, bitSize) (n, err)
  trusted "strconv: the integer the text denotes, and an error exactly when it denotes none"
  requires base == 10 && bitSize == 64
  ensures err is nil <==> isInt(s)
  ensures err is nil ==> n == intOf(s)

func Itoa(n) (s)
  noalloc
  trusted "strconv: the decimal form"
  ensures s == itoa(n)

func FormatInt(n, base) (s)
  noalloc
  trusted "strconv: the decimal form"
  requires base == 10
  ensures s == itoa(n)

func FormatFloat(f, fmt, prec, bitSize) (s)
  noalloc
  trusted "strconv: the shortest text that denotes the number"
  requires fmt == 102 && prec == -1 && bitSize == 64
  ensures s == floatText(f)

func ParseFloat(s, bitSize) (f, err)
  trusted "strconv: the number the text denotes, and an error exactly when it denotes none"
  requires bitSize == 64
  ensures err is nil <==> isFloat(s)
  ensures err is nil ==> f == floatOf(s)
