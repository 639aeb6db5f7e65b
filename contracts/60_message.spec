// ---------------------------------------------------------------- message: text utilities (C27)
pred hexdigit(n) := n < 10 ? 48 + n : 87 + n
func message.ToHexString(b) (r)
  props C27
  requires len(b) <= 549755813888
  inv <i int, pos int, c []byte> pos == 2 * i && len(c) == 2 * len(b) && forall k int :: {b[k]} 0 <= k && k < i ==> c[2 * k] == hexdigit(b[k] / 16) && c[2 * k + 1] == hexdigit(b[k] % 16)
  ensures [C27] size: len(r) == 2 * len(b)
  ensures [C27] digits: forall k int :: {b[k]} 0 <= k && k < len(b) ==> r[2 * k] == hexdigit(b[k] / 16) && r[2 * k + 1] == hexdigit(b[k] % 16)

// squeeze(s, n): the first n bytes of s without its blanks and tabs
ufn squeeze(Str, Int) Str
axiom forall s Str, n int :: {squeeze(s, n)} n <= 0 ==> squeeze(s, n) == ""
axiom forall s Str, n int, m int :: {squeeze(s, n), squeeze(s, m)} 0 <= n && n < len(s) && m == n + 1 ==> squeeze(s, m) == (s[n] == 32 || s[n] == 9 ? squeeze(s, n) : squeeze(s, n) + s[n:n + 1])
func message.ReduceString(input) (r)
  props C27
  inv <i int, retval string, newString string> newString == lower(input) && retval == squeeze(newString, i)
  ensures [C27] squeezed: r == squeeze(lower(input), len(lower(input)))
func message.GetQuotedString(str) (r)
  props C27
  ensures [C27] quoted: r == "\"" + str + "\""
