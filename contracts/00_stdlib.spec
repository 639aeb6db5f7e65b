// Trusted contracts of the standard-library functions the code under verification calls.

trusted func errors.New(text) (e)
  ensures e != nil
  ensures fresh(e)

trusted func fmt.Errorf(format, a) (e)
  ensures e != nil
  ensures fresh(e)

trusted func fmt.Sprintf(format, a) (s)
trusted func fmt.Printf(format, a) (n, e)
trusted func fmt.Println(a) (n, e)
trusted func log.Printf(format, a)
trusted func log.Println(a)

trusted func sync.Mutex.Lock(m)
  requires m != nil
trusted func sync.Mutex.Unlock(m)
  requires m != nil

trusted func os.Getpid() (n)

trusted func time.Now() (t)
trusted func time.Time.Second(t) (n)
  ensures 0 <= n && n <= 59

// ---- text. index(s, t): position of the first occurrence of t in s, or -1.
ufn index(Str, Str) Int
ufn lower(Str) Str
ufn upper(Str) Str
ufn trim(Str) Str
ufn eqfold(Str, Str) Bool
ufn itoa(Int) Str
ufn atoi(Str) Int
ufn isnum(Str) Bool

axiom forall s Str, t Str :: {index(s, t)} -1 <= index(s, t) && (index(s, t) >= 0 ==> index(s, t) + len(t) <= len(s) && s[index(s, t):index(s, t) + len(t)] == t)
axiom forall s Str, t Str, i int :: {index(s, t), s[i]} len(t) == 1 && 0 <= i && i < len(s) && (index(s, t) < 0 || i < index(s, t)) ==> s[i] != t[0]
axiom forall s Str, t Str :: {index(s, t)} len(t) == 1 && index(s, t) >= 0 ==> s[index(s, t)] == t[0]
axiom forall a Str :: {lower(a)} (lower(a) == "") <==> (a == "")
axiom forall a Str :: {index(lower(a), ":")} (index(lower(a), ":") == -1) <==> (index(a, ":") == -1)
axiom forall a Str :: {index(trim(a), ":")} (index(trim(a), ":") == -1) <==> (index(a, ":") == -1)
axiom forall a Str :: {upper(a)} (upper(a) == "") <==> (a == "")
axiom !isnum("")
axiom forall a Str :: {lower(lower(a))} lower(lower(a)) == lower(a)
axiom forall a Str :: {trim(trim(a))} trim(trim(a)) == trim(a)
axiom forall c int :: {upper(runestr(c))} 0 <= c && c < 128 ==> upper(runestr(c)) == unit(97 <= c && c <= 122 ? c - 32 : c)
axiom forall c int :: {upper(runestr(c))} 128 <= c && c <= 255 ==> len(upper(runestr(c))) >= 1 && upper(runestr(c))[0] >= 128
axiom forall a Str :: {eqfold(a, a)} eqfold(a, a)
axiom forall a Str, b Str :: {eqfold(a, b)} (a == b ==> eqfold(a, b)) && (eqfold(a, b) ==> eqfold(b, a))
axiom forall a Str, b Str, c Str :: {eqfold(a, b), eqfold(b, c)} eqfold(a, b) && eqfold(b, c) ==> eqfold(a, c)
axiom forall n int :: {itoa(n)} len(itoa(n)) >= 1 && atoi(itoa(n)) == n && isnum(itoa(n))

pred digit(c) := 48 <= c && c <= 57
pred alpha(c) := (65 <= c && c <= 90) || (97 <= c && c <= 122)
pred alldigits(s) := forall i int :: {s[i]} 0 <= i && i < len(s) ==> digit(s[i])

trusted func strings.Index(s, t) (r)
  ensures r == index(s, t)
trusted func strings.IndexByte(s, c) (r)
  ensures r == index(s, unit(c))
trusted func strings.Contains(s, t) (r)
  ensures r <==> index(s, t) != -1
trusted func strings.HasPrefix(s, t) (r)
  ensures r <==> len(t) <= len(s) && s[0:len(t)] == t
trusted func strings.HasSuffix(s, t) (r)
  ensures r <==> len(t) <= len(s) && s[len(s)-len(t):] == t
trusted func strings.ToLower(s) (r)
  ensures r == lower(s)
trusted func strings.ToUpper(s) (r)
  ensures r == upper(s)
trusted func strings.EqualFold(s, t) (r)
  ensures r <==> eqfold(s, t)
trusted func strings.TrimSpace(s) (r)
  ensures r == trim(s)
  ensures exists i int :: {s[i:i+len(r)]} 0 <= i && i + len(r) <= len(s) && r == s[i:i+len(r)]
  ensures len(r) <= len(s)

trusted func strconv.Itoa(n) (s)
  ensures s == itoa(n)
trusted func strconv.Atoi(s) (n, e)
  ensures e == nil <==> isnum(s)
  ensures e == nil ==> n == atoi(s)
  ensures e == nil && len(s) > 0 && alldigits(s) ==> n >= 0

// ---- floating point and hexadecimal texts. Float operations are uninterpreted; FormatFloat with
// precision -1 is the shortest text that ParseFloat of the same width reads back as the same value.
ufn ftoa(Float, Int, Int, Int) Str
ufn atof(Str, Int) Float
ufn f32of(Float) Float
ufn hex(Int) Str
ufn unhex(Str) Int
ufn ishex(Str) Bool
axiom forall x Float :: {ftoa(x, 102, -1, 32)} f32of(atof(ftoa(x, 102, -1, 32), 32)) == x
axiom forall n int :: {hex(n)} 0 <= n ==> len(hex(n)) >= 1 && (n <= 4294967295 ==> len(hex(n)) <= 8)
axiom forall n int, k int :: {unhex("00000000"[0:k] + hex(n))} 0 <= k && k <= 8 && 0 <= n && n <= 4294967295 ==> ishex("00000000"[0:k] + hex(n)) && unhex("00000000"[0:k] + hex(n)) == n
trusted func strconv.FormatFloat(x, f, prec, bits) (s)
  ensures s == ftoa(x, f, prec, bits)
trusted func strconv.ParseFloat(s, bits) (x, e)
  ensures e == nil ==> x == atof(s, bits)
  ensures s == ftoa(f32of(atof(s, 32)), 102, -1, 32) ==> x == atof(s, bits)
trusted func strconv.FormatUint(n, base) (s)
  requires 2 <= base && base <= 36
  ensures base == 16 ==> s == hex(n)
trusted func strconv.ParseInt(s, base, bits) (n, e)
  ensures base == 16 && bits == 64 && ishex(s) ==> n == unhex(s) && e == nil
  ensures base == 10 && bits == 32 ==> (e == nil ==> isnum(s) && n == atoi(s)) && -2147483648 <= n && n <= 2147483647

ghost bytes.Buffer.s Str
trusted func bytes.Buffer.WriteByte(b, c) (e)
  requires b != nil
  modifies b.s
  ensures b.s == old(b.s) + unit(c) && e == nil
trusted func bytes.Buffer.WriteString(b, t) (n, e)
  requires b != nil
  modifies b.s
  ensures b.s == old(b.s) + t && n == len(t) && e == nil
trusted func bytes.Buffer.String(b) (r)
  requires b != nil
  ensures r == b.s
trusted func bytes.Buffer.Len(b) (r)
  requires b != nil
  ensures r == len(b.s)
ghost strings.Builder.s Str
trusted func strings.Builder.WriteByte(b, c) (e)
  requires b != nil
  modifies b.s
  ensures b.s == old(b.s) + unit(c) && e == nil
trusted func strings.Builder.WriteString(b, t) (n, e)
  requires b != nil
  modifies b.s
  ensures b.s == old(b.s) + t && n == len(t) && e == nil
trusted func strings.Builder.String(b) (r)
  requires b != nil
  ensures r == b.s
trusted func strings.Builder.Len(b) (r)
  requires b != nil
  ensures r == len(b.s)

trusted func net.ParseIP(s) (ip)
trusted func net.IP.String(ip) (s)

// join(A, n, sep): the first n texts of A in order, separated by sep
ufn join(Strs, Int, Str) Str
axiom forall A Strs, n int, s Str :: {join(A, n, s)} (n <= 0 ==> join(A, n, s) == "") && (n == 1 ==> join(A, n, s) == A[0])
axiom forall A Strs, n int, m int, s Str :: {join(A, n, s), join(A, m, s)} n >= 1 && m == n + 1 ==> join(A, m, s) == join(A, n, s) + s + A[n]
axiom forall A Strs, B Strs, n int, s Str :: {join(A, n, s), join(B, n, s)} (forall i int :: {A[i]} 0 <= i && i < n ==> A[i] == B[i]) ==> join(A, n, s) == join(B, n, s)
// time.Parse: no panic for any text; nothing is assumed about the time it returns
trusted func time.Parse(layout, s) (t, e)
trusted func time.Time.Location(t) (l)
  ensures l != nil
trusted func time.Location.String(l) (s)
