// ---------------------------------------------------------------- core: lexer (C03, C04, C05)
constfield core.Debug ParserDebug false

pred lx(l) := l != nil && 0 <= l.ptr && l.ptr <= len(l.buffer)
pred tokch(c) := alpha(c) || digit(c) || c == 45 || c == 46 || c == 33 || c == 37 || c == 42 || c == 95 || c == 43 || c == 96 || c == 39 || c == 126
pred hexdig(c) := digit(c) || (65 <= c && c <= 70) || (97 <= c && c <= 102)

func core.NewStringTokenizer(buffer) (r)
  props C03
  ensures [C03] start: fresh(r) && r != nil && r.buffer == buffer && r.ptr == 0
func core.StringTokenizer.HasMoreChars(this) (r)
  props C03
  requires this != nil
  ensures [C03] more: r <==> this.ptr < len(this.buffer)
func core.StringTokenizer.IsDigit(this, c) (r)
  props C04
  requires this != nil
  ensures [C04] digit: r <==> digit(c)
func core.StringTokenizer.IsAlpha(this, c) (r)
  props C04
  requires this != nil
  ensures [C04] letter: r <==> alpha(c)
func core.StringTokenizer.IsHexDigit(this, c) (r)
  props C04
  requires this != nil
  ensures [C04] hex: r <==> hexdig(c)
func core.StringTokenizer.LookAheadK(this, k) (c, e)
  props C03
  requires lx(this) && k >= 0 && k <= 1099511627776
  ensures [C03] peek: (e == nil <==> this.ptr + k < len(this.buffer)) && (e == nil ==> c == this.buffer[this.ptr + k]) && (e != nil ==> c == 0)
func core.StringTokenizer.LookAhead(this) (c, e)
  props C03
  requires lx(this)
  ensures [C03] peek: (e == nil <==> this.ptr < len(this.buffer)) && (e == nil ==> c == this.buffer[this.ptr]) && (e != nil ==> c == 0)
func core.StringTokenizer.GetNextChar(this) (c, e)
  props C03
  requires lx(this)
  modifies this.ptr
  ensures [C03] next: (e == nil <==> old(this.ptr) < len(this.buffer)) && (e == nil ==> c == this.buffer[old(this.ptr)] && this.ptr == old(this.ptr) + 1) && (e != nil ==> c == 0 && this.ptr == old(this.ptr))
func core.StringTokenizer.Consume(this)
  props C03
  requires lx(this) && this.ptr <= this.savedPtr && this.savedPtr <= len(this.buffer)
  modifies this.ptr
  ensures [C03] forward: this.ptr == this.savedPtr
func core.StringTokenizer.ConsumeK(this, k)
  props C03
  requires lx(this) && 0 <= k && this.ptr + k <= len(this.buffer)
  modifies this.ptr
  ensures [C03] forward: this.ptr == old(this.ptr) + k && lx(this)
func core.StringTokenizer.NextToken(this) (r)
  props C04
  requires lx(this)
  modifies this.ptr
  let p := this.ptr
  inv <b *bytes.Buffer> b.s == this.buffer[p:this.ptr]
  inv forall i int :: {this.buffer[i]} p <= i && i < this.ptr ==> this.buffer[i] != 10
  ensures [C04] line: lx(this) && p <= this.ptr && r == this.buffer[p:this.ptr] && (p < len(this.buffer) ==> p < this.ptr)
    && (forall i int :: {this.buffer[i]} p <= i && i < this.ptr - 1 ==> this.buffer[i] != 10) && (this.ptr == len(this.buffer) || this.buffer[this.ptr - 1] == 10)
func core.StringTokenizer.GetLine(this) (r)
  props C04
  requires lx(this)
  modifies this.ptr
  let p := this.ptr
  inv <b *bytes.Buffer> b.s == this.buffer[p:this.ptr]
  inv forall i int :: {this.buffer[i]} p <= i && i < this.ptr ==> this.buffer[i] != 10
  ensures [C04] line: lx(this) && p <= this.ptr && r == this.buffer[p:this.ptr] && (p < len(this.buffer) ==> p < this.ptr)
    && (forall i int :: {this.buffer[i]} p <= i && i < this.ptr - 1 ==> this.buffer[i] != 10) && (this.ptr == len(this.buffer) || this.buffer[this.ptr - 1] == 10)
func core.StringTokenizer.PeekLine(this) (r)
  props C03
  requires lx(this)
  modifies this.ptr
  ensures [C03] stays: this.ptr == old(this.ptr)
func core.StringTokenizer.GetLines(this) (r)
  props C03
  requires lx(this)
  modifies this.ptr
  ensures [C03] all: this.ptr == len(this.buffer) && r != nil && fresh(r)
func core.StringTokenizer.GetNextTokenByDelim(this, delim) (r, e)
  props C04
  requires lx(this)
  modifies this.ptr
  let p := this.ptr
  inv <b *bytes.Buffer> b.s == this.buffer[p:this.ptr]
  inv forall i int :: {this.buffer[i]} p <= i && i < this.ptr ==> this.buffer[i] != delim
  ensures [C04] upto: lx(this) && p <= this.ptr && (e == nil <==> this.ptr < len(this.buffer)) && (e == nil ==> r == this.buffer[p:this.ptr] && this.buffer[this.ptr] == delim) && (e != nil ==> r == "")
  ensures [C04] first: forall i int :: {this.buffer[i]} p <= i && i < this.ptr ==> this.buffer[i] != delim

// ---- CoreLexer
func core.NewCoreLexer(name, buffer) (r)
  props C03
  ensures [C03] start: fresh(r) && r != nil && r.buffer == buffer && r.ptr == 0 && r.savedPtr == 0
  ensures [C03] tables: tabs(r) && r.currentLexer != nil && fresh(r.globalSymbolTable) && fresh(r.lexerTables)
func core.CoreLexer.Super(this, name, buffer)
  props C03
  requires this != nil
  modifies this.buffer, this.ptr, this.globalSymbolTable, this.lexerTables, this.currentLexer, this.currentLexerName
  ensures [C03] start: this.buffer == buffer && this.ptr == 0
  ensures [C03] tables: tabs(this) && this.currentLexer != nil && fresh(this.globalSymbolTable) && fresh(this.lexerTables)
func core.CoreLexer.PeekNextId(this) (r)
  props C03 C04
  requires lx(this)
  modifies this.ptr, this.savedPtr
  let p := this.ptr
  ensures [C03] stays: this.ptr == p && p <= this.savedPtr && this.savedPtr <= len(this.buffer)
  ensures [C04] run: r == this.buffer[p:this.savedPtr] && (forall i int :: {this.buffer[i]} p <= i && i < this.savedPtr ==> tokch(this.buffer[i])) && (this.savedPtr == len(this.buffer) || !tokch(this.buffer[this.savedPtr]))
func core.CoreLexer.GetNextId(this) (r)
  props C03 C04
  requires lx(this)
  modifies this.ptr
  let p := this.ptr
  ensures [C03 C04] run: lx(this) && p <= this.ptr && r == this.buffer[p:this.ptr] && (forall i int :: {this.buffer[i]} p <= i && i < this.ptr ==> tokch(this.buffer[i])) && (this.ptr == len(this.buffer) || !tokch(this.buffer[this.ptr]))
func core.CoreLexer.GetNextToken(this) (r)
  props C03
  requires this != nil
  ensures [C03] last: r == this.currentMatch
func core.CoreLexer.PeekNextToken(this) (r, e)
  props C03
  requires lx(this)
  modifies this.ptr, this.savedPtr
  ensures [C03] stays: this.ptr == old(this.ptr)
  ensures [C03] peek: (e == nil <==> this.ptr < len(this.buffer)) && (e == nil ==> r != nil && fresh(r) && this.ptr < this.savedPtr) && this.ptr <= this.savedPtr && this.savedPtr <= len(this.buffer)
func core.CoreLexer.PeekNextTokenK(this, n) (r, e)
  props C03
  requires lx(this) && 0 <= n && n <= 1073741824
  modifies this.ptr, this.savedPtr
  inv <i int, s []*core.Token> forall k int :: {s[k]} 0 <= k && k < i ==> s[k] != nil && fresh(s[k])
  inv <i int> i > 0 ==> old(this.ptr) < this.ptr
  inv <i int> i == 0 ==> this.ptr == old(this.ptr)
  ensures [C03] stays: this.ptr == old(this.ptr)
  ensures [C03] saved: this.ptr <= this.savedPtr && this.savedPtr <= len(this.buffer) && (e == nil && n > 0 ==> this.ptr < this.savedPtr)
  ensures [C03] tokens: len(r) == n && (e == nil ==> forall k int :: {r[k]} 0 <= k && k < n ==> r[k] != nil && fresh(r[k]))
  ensures [C03] end: (n == 1 ==> (e == nil <==> this.ptr < len(this.buffer))) && (n > 0 && this.ptr == len(this.buffer) ==> e != nil)
// a token class: a character, an identifier, a keyword, a digit or a letter
pred tokclass(t) := (0 <= t && t < 256) || (2048 < t && t < 4096) || t == 4098 || t == 4099
func core.CoreLexer.Match(this, tok) (t, e)
  props C03 C04
  requires lx(this) && tokclass(tok)
  modifies this.ptr, this.currentMatch
  let p := this.ptr
  ensures [C03] forward: lx(this) && p <= this.ptr && (e == nil ==> (p < this.ptr || (2048 < tok && tok < 4095)))
  ensures [C03] token: (e == nil ==> t != nil && fresh(t) && t == this.currentMatch) && (e != nil ==> t == nil && this.currentMatch == old(this.currentMatch))
  ensures [C03] char: 0 <= tok && tok < 256 ==> (e == nil <==> p < len(this.buffer) && this.buffer[p] == tok) && this.ptr == (e == nil ? p + 1 : p)
  ensures [C04] id: tok == 4095 ==> (e == nil <==> p < len(this.buffer) && tokch(this.buffer[p])) && (e != nil ==> this.ptr == p)
  ensures [C04] run: tok == 4095 && e == nil ==> t.tokenValue == this.buffer[p:this.ptr] && t.tokenValue != "" && (forall i int :: {this.buffer[i]} p <= i && i < this.ptr ==> tokch(this.buffer[i])) && (this.ptr == len(this.buffer) || !tokch(this.buffer[this.ptr]))
  ensures [C04] digit: tok == 4098 ==> (e == nil <==> p < len(this.buffer) && digit(this.buffer[p]))
  ensures [C04] letter: tok == 4099 ==> (e == nil <==> p < len(this.buffer) && alpha(this.buffer[p]))
  ensures [C03] type: e == nil ==> t.tokenType == tok
func core.CoreLexer.SPorHT(this)
  props C03 C04
  requires lx(this)
  modifies this.ptr
  let p := this.ptr
  inv forall i int :: {this.buffer[i]} p <= i && i < this.ptr ==> this.buffer[i] == 32 || this.buffer[i] == 9
  inv <c byte> (this.ptr < len(this.buffer) ==> c == this.buffer[this.ptr]) && (this.ptr >= len(this.buffer) ==> c == 0)
  ensures [C03 C04 C05] forward: lx(this) && p <= this.ptr
  ensures [C04] blanks: forall i int :: {this.buffer[i]} p <= i && i < this.ptr ==> this.buffer[i] == 32 || this.buffer[i] == 9
  ensures [C04] all: this.ptr == len(this.buffer) || (this.buffer[this.ptr] != 32 && this.buffer[this.ptr] != 9)
func core.CoreLexer.StartsId(this) (r)
  props C03 C04
  requires lx(this)
  ensures [C03 C04] starts: r <==> this.ptr < len(this.buffer) && tokch(this.buffer[this.ptr])
func core.CoreLexer.Ttoken(this) (r)
  props C03 C04
  requires lx(this)
  modifies this.ptr
  let p := this.ptr
  inv <b *bytes.Buffer> b.s == this.buffer[p:this.ptr]
  inv forall i int :: {this.buffer[i]} p <= i && i < this.ptr ==> tokch(this.buffer[i])
  ensures [C03 C04 C05] forward: lx(this) && p <= this.ptr
  ensures [C03 C04] text: r == this.buffer[p:this.ptr]
  ensures [C03 C04] run: (forall i int :: {this.buffer[i]} p <= i && i < this.ptr ==> tokch(this.buffer[i])) && (this.ptr == len(this.buffer) || !tokch(this.buffer[this.ptr]))
func core.CoreLexer.TtokenAllowSpace(this) (r)
  props C03 C04
  requires lx(this)
  modifies this.ptr
  let p := this.ptr
  inv <b *bytes.Buffer> b.s == this.buffer[p:this.ptr]
  inv forall i int :: {this.buffer[i]} p <= i && i < this.ptr ==> tokch(this.buffer[i]) || this.buffer[i] == 32 || this.buffer[i] == 9
  ensures [C03 C04 C05] forward: lx(this) && p <= this.ptr
  ensures [C04] text: r == this.buffer[p:this.ptr]
  ensures [C04] run: (forall i int :: {this.buffer[i]} p <= i && i < this.ptr ==> tokch(this.buffer[i]) || this.buffer[i] == 32 || this.buffer[i] == 9) && (this.ptr == len(this.buffer) || !(tokch(this.buffer[this.ptr]) || this.buffer[this.ptr] == 32 || this.buffer[this.ptr] == 9))
// position of the first unescaped closing character c at or after i, -1 when there is none
ufn closing(Str, Int, Int) Int
axiom forall s Str, i int, c int :: {closing(s, i, c)} i >= len(s) ==> closing(s, i, c) == -1
axiom forall s Str, i int, c int :: {closing(s, i, c), s[i]} 0 <= i && i < len(s) && s[i] == c ==> closing(s, i, c) == i
axiom forall s Str, i int, c int :: {closing(s, i, c), s[i]} 0 <= i && i < len(s) && s[i] != c && s[i] != 92 ==> closing(s, i, c) == closing(s, i + 1, c)
axiom forall s Str, i int, c int :: {closing(s, i, c), s[i]} 0 <= i && i < len(s) && c != 92 && s[i] == 92 ==> closing(s, i, c) == closing(s, i + 2, c)
func core.CoreLexer.QuotedString(this) (r, e)
  props C03 C05
  requires lx(this)
  modifies this.ptr
  let p := this.ptr
  let q := closing(this.buffer, this.ptr + 1, 34)
  inv <b *bytes.Buffer> this.ptr < len(this.buffer) ==> b.s == this.buffer[p+1:this.ptr]
  inv closing(this.buffer, this.ptr, 34) == q
  inv p < this.ptr
  ensures [C03 C04 C05] forward: lx(this) && p <= this.ptr
  ensures [C05] unterminated: p < len(this.buffer) && this.buffer[p] == 34 && q < 0 ==> e != nil
  ensures [C05] verbatim: p < len(this.buffer) && this.buffer[p] == 34 && q >= 0 ==> e == nil && r == this.buffer[p+1:q] && this.ptr == q + 1
  ensures [C05] delimiter: e == nil && p < len(this.buffer) && this.buffer[p] == 34 ==> p + 1 < this.ptr && this.buffer[this.ptr-1] == 34 && r == this.buffer[p+1:this.ptr-1]
  ensures [C05] not-quoted: p >= len(this.buffer) || this.buffer[p] != 34 ==> r == "" && this.ptr == p && (e == nil <==> p < len(this.buffer))
func core.CoreLexer.Comment(this) (r, e)
  props C03 C05
  requires lx(this)
  modifies this.ptr
  let p := this.ptr
  let q := closing(this.buffer, this.ptr + 1, 41)
  inv <b *bytes.Buffer> b.s == this.buffer[p+1:this.ptr]
  inv closing(this.buffer, this.ptr, 41) == q
  inv p < this.ptr
  ensures [C03 C04 C05] forward: lx(this) && p <= this.ptr
  ensures [C05] unterminated: p < len(this.buffer) && this.buffer[p] == 40 && q < 0 ==> e != nil
  ensures [C05] verbatim: p < len(this.buffer) && this.buffer[p] == 40 && q >= 0 ==> e == nil && r == this.buffer[p+1:q] && this.ptr == q + 1
  ensures [C05] delimiter: e == nil && p < len(this.buffer) && this.buffer[p] == 40 ==> p + 1 < this.ptr && this.buffer[this.ptr-1] == 41 && r == this.buffer[p+1:this.ptr-1]
  ensures [C05] not-comment: p >= len(this.buffer) || this.buffer[p] != 40 ==> r == "" && this.ptr == p && (e == nil <==> p < len(this.buffer))
func core.CoreLexer.ByteStringNoSemicolon(this) (r)
  props C03 C04
  requires lx(this)
  modifies this.ptr
  let p := this.ptr
  inv <b *bytes.Buffer> b.s == this.buffer[p:this.ptr]
  inv forall i int :: {this.buffer[i]} p <= i && i < this.ptr ==> this.buffer[i] != 10 && this.buffer[i] != 59
  ensures [C03 C04 C05] forward: lx(this) && p <= this.ptr
  ensures [C04] text: r == this.buffer[p:this.ptr]
  ensures [C04] run: (forall i int :: {this.buffer[i]} p <= i && i < this.ptr ==> this.buffer[i] != 10 && this.buffer[i] != 59) && (this.ptr == len(this.buffer) || this.buffer[this.ptr] == 10 || this.buffer[this.ptr] == 59)
func core.CoreLexer.ByteStringNoComma(this) (r)
  props C03 C04
  requires lx(this)
  modifies this.ptr
  let p := this.ptr
  inv <b *bytes.Buffer> b.s == this.buffer[p:this.ptr]
  inv forall i int :: {this.buffer[i]} p <= i && i < this.ptr ==> this.buffer[i] != 10 && this.buffer[i] != 44
  ensures [C03 C04 C05] forward: lx(this) && p <= this.ptr
  ensures [C04] text: r == this.buffer[p:this.ptr]
  ensures [C04] run: (forall i int :: {this.buffer[i]} p <= i && i < this.ptr ==> this.buffer[i] != 10 && this.buffer[i] != 44) && (this.ptr == len(this.buffer) || this.buffer[this.ptr] == 10 || this.buffer[this.ptr] == 44)
func core.CoreLexer.CharAsString(this, c) (r)
  props C04
  requires this != nil
  ensures [C04] text: r == unit(c)
func core.CoreLexer.NCharAsString(this, n) (r)
  props C03 C04
  requires lx(this) && 0 <= n && n <= 1099511627776
  inv <b *bytes.Buffer, i int> b.s == this.buffer[this.ptr:this.ptr + i] && this.ptr + i <= len(this.buffer)
  ensures [C04] text: r == this.buffer[this.ptr:imin(this.ptr + n, len(this.buffer))]
func core.CoreLexer.Number(this) (n, e)
  props C03 C04
  requires lx(this)
  modifies this.ptr
  let p := this.ptr
  inv <b *bytes.Buffer> b.s == this.buffer[p:this.ptr]
  inv forall i int :: {this.buffer[i]} p <= i && i < this.ptr ==> digit(this.buffer[i])
  inv p < this.ptr
  ensures [C03 C04 C05] forward: lx(this) && p <= this.ptr
  ensures [C04] none: p == len(this.buffer) || !digit(this.buffer[p]) ==> e != nil && this.ptr == p && n == -1
  ensures [C04] run: (forall i int :: {this.buffer[i]} p <= i && i < this.ptr ==> digit(this.buffer[i])) && (this.ptr == len(this.buffer) || !digit(this.buffer[this.ptr]))
  ensures [C04] value: p < this.ptr ==> (e == nil <==> isnum(this.buffer[p:this.ptr])) && (e == nil ==> n == atoi(this.buffer[p:this.ptr]) && n >= 0)
  ensures [C04] empty: p == this.ptr ==> e != nil
func core.CoreLexer.MarkInputPosition(this) (r)
  props C03
  requires this != nil
  ensures [C03] mark: r == this.ptr
func core.CoreLexer.GetPtr(this) (r)
  props C03
  requires this != nil
  ensures [C03] mark: r == this.ptr
func core.CoreLexer.GetBuffer(this) (r)
  props C03
  requires this != nil
  ensures [C03] text: r == this.buffer
func core.CoreLexer.RewindInputPosition(this, position)
  props C03
  requires lx(this) && 0 <= position && position <= len(this.buffer)
  modifies this.ptr
  ensures [C03] rewind: this.ptr == position
func core.CoreLexer.GetRest(this) (r)
  props C03
  requires lx(this)
  ensures [C03] rest: r == this.buffer[this.ptr:]
func core.CoreLexer.GetString(this, c) (r, e)
  props C03 C05
  requires lx(this) && c != 92
  modifies this.ptr
  let p := this.ptr
  let q := closing(this.buffer, this.ptr, c)
  inv <b *bytes.Buffer> (forall i int :: {this.buffer[i]} p <= i && i < this.ptr ==> this.buffer[i] != 92) ==> b.s == this.buffer[p:this.ptr]
  inv closing(this.buffer, this.ptr, c) == q
  ensures [C03] forward: lx(this) && p <= this.ptr && (e == nil ==> p < this.ptr)
  ensures [C05] end: (e == nil <==> q >= 0) && this.ptr == (q >= 0 ? q + 1 : p)
  ensures [C05] plain: q >= 0 && (forall i int :: {this.buffer[i]} p <= i && i < q ==> this.buffer[i] != 92) ==> r == this.buffer[p:q]

func core.CoreLexer.AddKeyword(this, name, value)
  props C25
  requires this != nil && this.currentLexer != nil && this.globalSymbolTable != nil
  modifies mapof(this.currentLexer), mapof(this.globalSymbolTable)
  ensures [C25] keyword: has(this.currentLexer, name) && this.currentLexer[name] == value
  ensures [C25] others: forall k Str :: {this.currentLexer[k]} k != name ==> (has(this.currentLexer, k) <==> old(has(this.currentLexer, k))) && this.currentLexer[k] == old(this.currentLexer[k])
pred tabs(l) := l.globalSymbolTable != nil && l.lexerTables != nil && (forall k Str :: {l.lexerTables[k]} has(l.lexerTables, k) ==> l.lexerTables[k] != nil && allocated(l.lexerTables[k]))
pred plex(l) := lx(l) && tabs(l)
func core.CoreLexer.AddLexer(this, name) (r)
  props C25
  requires this != nil && tabs(this)
  modifies this.currentLexer, mapof(this.lexerTables)
  ensures [C25] selected: r == this.currentLexer && r != nil && has(this.lexerTables, name) && this.lexerTables[name] == r
  ensures [C25] new: old(has(this.lexerTables, name)) ? r == old(this.lexerTables[name]) : fresh(r)
  ensures [C25] empty: !old(has(this.lexerTables, name)) ==> forall k Str :: {has(r, k)} !has(r, k)
  ensures [C25] others: forall k Str :: {this.lexerTables[k]} k != name ==> (has(this.lexerTables, k) <==> old(has(this.lexerTables, k))) && this.lexerTables[k] == old(this.lexerTables[k])
  ensures [C25] tables: tabs(this)
func core.CoreLexer.SelectLexer(this, name)
  props C25
  requires this != nil && tabs(this)
  modifies this.currentLexer, this.currentLexerName
  ensures [C25] selected: this.currentLexer == (has(this.lexerTables, name) ? this.lexerTables[name] : nil) && this.currentLexerName == name
func parser.SIPLexer.SelectLexer(this, name)
  props C25
  requires this != nil && tabs(this)
  modifies this.currentLexer, this.currentLexerName, mapof(this.lexerTables), mapof(this.globalSymbolTable)
  ensures [C25] selected: this.currentLexer == this.lexerTables[name] && this.currentLexerName == name && this.currentLexer != nil
  ensures [C25] tables: tabs(this)

// ---------------------------------------------------------------- core: hosts (C06)
pred v6(s) := index(s, ":") != -1
pred hostok(h) := h != nil && (h.addressType == 2 <==> v6(h.hostname))
pred bracketed(s) := len(s) > 0 && s[0] == 91 && s[len(s)-1] == 93
func core.NewHost(name) (r)
  props C06
  ensures [C06] host: name == "" ==> r == nil
  ensures [C06] host: name != "" ==> fresh(r) && hostok(r) && r.hostname == name && r.inetAddress == nil
func core.Host.String(this) (r)
  props C06
  requires hostok(this)
  ensures [C06] text: r == (v6(this.hostname) && !bracketed(this.hostname) ? "[" + this.hostname + "]" : this.hostname)
func core.Host.GetHostName(this) (r)
  props C06
  requires this != nil
  ensures [C06] text: r == this.hostname
func core.Host.GetAddress(this) (r)
  props C06
  requires this != nil
  ensures [C06] text: r == this.hostname
func core.Host.GetIpAddress(this) (r)
  props C06
  requires this != nil
  modifies this.inetAddress
  ensures [C06] text: this.hostname == "" ==> r == ""
  ensures [C06] address: this.hostname != "" && this.addressType != 0 ==> r == this.hostname
func core.Host.SetHostName(this, name)
  props C06
  requires hostok(this)
  modifies this.hostname, this.addressType, this.inetAddress
  ensures [C06] text: this.hostname == (name == "" ? old(this.hostname) : lower(trim(name)))
  ensures [C06] valid: hostok(this) && (name != "" ==> this.addressType != 1)
func core.Host.SetHostAddress(this, name)
  props C06
  requires hostok(this)
  modifies this.hostname, this.addressType, this.inetAddress
  ensures [C06] text: this.hostname == (name == "" ? old(this.hostname) : trim(name))
  ensures [C06] valid: hostok(this) && (name != "" ==> this.addressType != 0)
func core.Host.SetAddress(this, name)
  props C06
  requires hostok(this)
  modifies this.hostname, this.addressType, this.inetAddress
  ensures [C06] text: this.hostname == (name == "" ? old(this.hostname) : trim(name))
  ensures [C06] valid: hostok(this)
func core.Host.GetInetAddress(this) (r)
  props C06
  requires this != nil
  modifies this.inetAddress
func core.Host.Clone(this) (r)
  props C09
  requires this != nil
  ensures [C09] copy: typeis(r, *core.Host) && fresh(r) && r.(*core.Host) != nil && r.(*core.Host).hostname == this.hostname && r.(*core.Host).addressType == this.addressType
pred hpok(p) := p != nil && (p.host == nil || hostok(p.host))
pred hosttext(h) := v6(h.hostname) && !bracketed(h.hostname) ? "[" + h.hostname + "]" : h.hostname
pred hptext(p) := p.host == nil ? "" : (p.port == -1 ? hosttext(p.host) : hosttext(p.host) + ":" + itoa(p.port))
func core.NewHostPort() (r)
  props C06
  ensures [C06] empty: fresh(r) && r != nil && r.host == nil && r.port == -1
func core.HostPort.String(this) (r)
  props C06
  requires hpok(this)
  ensures [C06] text: r == hptext(this)
func core.HostPort.GetHost(this) (r)
  props C06
  requires this != nil
  ensures [C06] host: r == this.host
func core.HostPort.GetPort(this) (r)
  props C06
  requires this != nil
  ensures [C06] port: r == this.port
func core.HostPort.HasPort(this) (r)
  props C06
  requires this != nil
  ensures [C06] port: r <==> this.port != -1
func core.HostPort.RemovePort(this)
  props C06
  requires this != nil
  modifies this.port
  ensures [C06] port: this.port == -1
func core.HostPort.SetHost(this, h)
  props C06
  requires this != nil
  modifies this.host
  ensures [C06] host: this.host == h
func core.HostPort.SetPort(this, p)
  props C06
  requires this != nil
  modifies this.port
  ensures [C06] port: this.port == p
func core.HostPort.Clone(this) (r)
  props C09
  requires this != nil
  ensures [C09] copy: typeis(r, *core.HostPort) && fresh(r) && r.(*core.HostPort) != nil && r.(*core.HostPort).port == this.port
  ensures [C09] host: this.host == nil ? r.(*core.HostPort).host == nil : fresh(r.(*core.HostPort).host) && r.(*core.HostPort).host != nil && r.(*core.HostPort).host.hostname == this.host.hostname && r.(*core.HostPort).host.addressType == this.host.addressType

pred px(p) := p != nil && p.lexer != nil && plex(as(p.lexer, *core.CoreLexer))
pred L(p) := as(p.lexer, *core.CoreLexer)
pred labelch(c) := alpha(c) || digit(c) || c == 45
pred hostch(c) := labelch(c) || c == 46
pred v6ch(c) := hexdig(c) || c == 46 || c == 58 || c == 91
func core.NewHostNameParser(name) (r)
  props C06
  ensures [C06] start: fresh(r) && px(r) && L(r).buffer == name && L(r).ptr == 0
func core.NewHostNameParserFromLexer(lexer) (r)
  props C06
  requires lexer != nil && plex(as(lexer, *core.CoreLexer))
  modifies as(lexer, *core.CoreLexer).currentLexer, as(lexer, *core.CoreLexer).currentLexerName, mapof(as(lexer, *core.CoreLexer).lexerTables), mapof(as(lexer, *core.CoreLexer).globalSymbolTable)
  ensures [C06] start: fresh(r) && px(r) && r.lexer == lexer
func core.HostNameParser.DomainLabel(this) (r, e)
  props C06
  requires px(this)
  modifies L(this).ptr
  let l := L(this)
  let p := L(this).ptr
  inv <b *bytes.Buffer> b.s == l.buffer[p:l.ptr]
  inv forall i int :: {l.buffer[i]} p <= i && i < l.ptr ==> labelch(l.buffer[i])
  ensures [C06] run: e == nil && lx(l) && p <= l.ptr && r == l.buffer[p:l.ptr] && (forall i int :: {l.buffer[i]} p <= i && i < l.ptr ==> labelch(l.buffer[i])) && (l.ptr == len(l.buffer) || !labelch(l.buffer[l.ptr]))
func core.HostNameParser.Ipv6Reference(this) (r, e)
  props C06
  requires px(this)
  modifies L(this).ptr
  let l := L(this)
  let p := L(this).ptr
  inv <b *bytes.Buffer> b.s == l.buffer[p:l.ptr]
  inv forall i int :: {l.buffer[i]} p <= i && i < l.ptr ==> v6ch(l.buffer[i])
  ensures [C06] forward: lx(l) && p <= l.ptr
  ensures [C06] reference: e == nil ==> p < l.ptr && r == l.buffer[p:l.ptr] && l.buffer[l.ptr-1] == 93 && (forall i int :: {l.buffer[i]} p <= i && i < l.ptr - 1 ==> v6ch(l.buffer[i]))
  ensures [C06] rejected: e != nil ==> (forall i int :: {l.buffer[i]} p <= i && i < l.ptr ==> v6ch(l.buffer[i])) && (l.ptr == len(l.buffer) || !(v6ch(l.buffer[l.ptr]) || l.buffer[l.ptr] == 93))
func core.HostNameParser.GetHost(this) (h, e)
  props C06
  requires px(this)
  modifies L(this).ptr
  let l := L(this)
  let p := L(this).ptr
  inv <b *bytes.Buffer> b.s == l.buffer[p:l.ptr]
  inv forall i int :: {l.buffer[i]} p <= i && i < l.ptr ==> hostch(l.buffer[i])
  inv l.ptr == len(l.buffer) || !labelch(l.buffer[l.ptr])
  ensures [C06] forward: lx(l) && p <= l.ptr
  ensures [C06] host: e == nil ==> fresh(h) && hostok(h) && p < l.ptr && h.hostname == l.buffer[p:l.ptr]
  ensures [C06] fails: e != nil ==> h == nil
  ensures [C06] name: !(p < len(l.buffer) && l.buffer[p] == 91) ==> (e == nil <==> p < l.ptr) && (forall i int :: {l.buffer[i]} p <= i && i < l.ptr ==> hostch(l.buffer[i])) && (l.ptr == len(l.buffer) || !hostch(l.buffer[l.ptr]))
  ensures [C06] reference: p < len(l.buffer) && l.buffer[p] == 91 && e == nil ==> l.buffer[l.ptr-1] == 93 && (forall i int :: {l.buffer[i]} p <= i && i < l.ptr - 1 ==> v6ch(l.buffer[i]))
  ensures [C06] rejected: p < len(l.buffer) && l.buffer[p] == 91 && e != nil ==> (forall i int :: {l.buffer[i]} p <= i && i < l.ptr ==> v6ch(l.buffer[i])) && (l.ptr == len(l.buffer) || !(v6ch(l.buffer[l.ptr]) || l.buffer[l.ptr] == 93))
func core.HostNameParser.GetHostPort(this) (hp, e)
  props C06
  requires px(this)
  modifies L(this).ptr
  let l := L(this)
  let p := L(this).ptr
  let s := L(this).buffer
  post q := p + len(hp.host.hostname)
  ensures [C06] forward: lx(l) && p <= l.ptr
  ensures [C06] fails: e != nil ==> hp == nil
  ensures [C06] host: e == nil ==> fresh(hp) && hpok(hp) && hp.host != nil && p < q && q <= len(s) && hp.host.hostname == s[p:q]
  ensures [C06] name: e == nil && s[p] != 91 ==> (forall i int :: {s[i]} p <= i && i < q ==> hostch(s[i])) && (q == len(s) || !hostch(s[q]))
  ensures [C06] port: e == nil && q < len(s) && s[q] == 58 ==> q + 1 < l.ptr && hp.port == atoi(s[q+1:l.ptr]) && hp.port >= 0 && (forall i int :: {s[i]} q < i && i < l.ptr ==> digit(s[i])) && (l.ptr == len(s) || !digit(s[l.ptr]))
  ensures [C06] no-port: e == nil && !(q < len(s) && s[q] == 58) ==> hp.port == -1 && l.ptr == q

func core.CoreParser.GetLexer(this) (r)
  props C05
  requires this != nil
  ensures [C05] lexer: r == this.lexer
func core.CoreParser.SetLexer(this, l)
  props C05
  requires this != nil
  modifies this.lexer
  ensures [C05] lexer: this.lexer == l
func core.CoreParser.NameValue(this, sep) (v, e)
  props C05
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch
  let l := L(this)
  let p := L(this).ptr
  let s := L(this).buffer
  ensures [C05] forward: lx(l) && p <= l.ptr && (e == nil ==> p < l.ptr)
  ensures [C05] result: e == nil ? fresh(v) && v != nil && typeis(v.value, string) && v.name != "" && v.separator == "=" : v == nil
  ensures [C05] name: e == nil ==> v.name == s[p:p+len(v.name)] && p + len(v.name) <= len(s) && (forall i int :: {s[i]} p <= i && i < p + len(v.name) ==> tokch(s[i])) && (p + len(v.name) == len(s) || !tokch(s[p + len(v.name)]))
  ensures [C05] quoted: e == nil && v.isQuotedString ==> v.quotes == "\"" && l.ptr > p + len(v.name) + len(v.value.(string)) + 2 && v.value.(string) == s[l.ptr-1-len(v.value.(string)):l.ptr-1] && s[l.ptr-1] == 34 && s[l.ptr-2-len(v.value.(string))] == 34
  ensures [C05] plain: e == nil && !v.isQuotedString ==> v.quotes == "" && (v.value.(string) == "" || v.value.(string) == s[l.ptr-len(v.value.(string)):l.ptr])
