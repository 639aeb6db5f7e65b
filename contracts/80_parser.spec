
// ---------------------------------------------------------------- parsers (C01, C02)
func parser.NewSIPLexer(name, buffer) (r)
  props C01 C25
  ensures [C01,C25] start: fresh(r) && plex(addr(r.CoreLexer)) && addr(r.CoreLexer).buffer == buffer && addr(r.CoreLexer).ptr == 0 && fresh(addr(r.CoreLexer).globalSymbolTable) && fresh(addr(r.CoreLexer).lexerTables)
func parser.SIPLexer.GetHeaderName(this, s) (r)
  props C25
  requires this != nil
  ensures [C25] name: r == (index(s, ":") >= 1 ? s[0:index(s, ":")] : "")
func parser.SIPLexer.GetHeaderValue(this, s) (r)
  props C25
  requires this != nil
  ensures [C25] value: r == (index(s, ":") >= 0 ? s[index(s, ":")+1:] : "")
func parser.NewSIPParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.SIPParser.SipVersion(this) (r, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
func parser.SIPParser.Method(this) (r, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] some: e == nil ==> old(L(this).ptr) < L(this).ptr
func parser.NewURLParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewURLParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.URLParser.Unreserved(this) (r, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] stays: e != nil ==> L(this).ptr == old(L(this).ptr)
  ensures [C01,C02] moves: e == nil ==> old(L(this).ptr) < L(this).ptr
func parser.URLParser.Reserved(this) (r, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] stays: e != nil ==> L(this).ptr == old(L(this).ptr)
  ensures [C01,C02] moves: e == nil ==> old(L(this).ptr) < L(this).ptr
func parser.URLParser.Escaped(this) (r, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] stays: e != nil ==> L(this).ptr == old(L(this).ptr)
  ensures [C01,C02] moves: e == nil ==> old(L(this).ptr) < L(this).ptr
func parser.URLParser.Mark(this) (r, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] stays: e != nil ==> L(this).ptr == old(L(this).ptr)
  ensures [C01,C02] moves: e == nil ==> old(L(this).ptr) < L(this).ptr
func parser.URLParser.IsEscaped(this) (r)
  props C01 C02
  requires px(this)
  ensures [C01,C02] three: r ==> L(this).ptr + 3 <= len(L(this).buffer)
func parser.URLParser.Uric(this) (r)
  props C01 C02
  requires px(this)
  modifies L(this).ptr
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] moves: (r == "" ==> L(this).ptr == old(L(this).ptr)) && (r != "" ==> old(L(this).ptr) < L(this).ptr)
func parser.URLParser.UricNoSlash(this) (r)
  props C01 C02
  requires px(this)
  modifies L(this).ptr
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] moves: (r == "" ==> L(this).ptr == old(L(this).ptr)) && (r != "" ==> old(L(this).ptr) < L(this).ptr)
func parser.URLParser.UricString(this) (r)
  props C01 C02
  requires px(this)
  modifies L(this).ptr
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <b *bytes.Buffer> (b.s == "" ==> L(this).ptr == old(L(this).ptr)) && (b.s != "" ==> old(L(this).ptr) < L(this).ptr)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] moves: (r == "" ==> L(this).ptr == old(L(this).ptr)) && (r != "" ==> old(L(this).ptr) < L(this).ptr)
func parser.URLParser.ParamNameOrValue(this) (r, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
func parser.URLParser.Hvalue(this) (r, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
func parser.URLParser.UrlString(this) (r, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
func parser.URLParser.User(this) (r, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
func parser.URLParser.Password(this) (r, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
func parser.URLParser.Base_phone_number(this) (r, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <i int> 0 <= i && i <= L(this).ptr
  inv <i int> i > 0 ==> old(L(this).ptr) < L(this).ptr
  inv <i int> i == 0 ==> old(L(this).ptr) == L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] moves: e == nil && old(L(this).ptr) < len(L(this).buffer) ==> old(L(this).ptr) < L(this).ptr
func parser.URLParser.Local_number(this) (r, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <i int> 0 <= i && i <= L(this).ptr
  inv <i int> i > 0 ==> old(L(this).ptr) < L(this).ptr
  inv <i int> i == 0 ==> old(L(this).ptr) == L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] moves: e == nil && old(L(this).ptr) < len(L(this).buffer) ==> old(L(this).ptr) < L(this).ptr
func parser.URLParser.UriParam(this) (r, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] pair: e == nil ==> r != nil && fresh(r)
func parser.URLParser.Qheader(this) (r, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] pair: e == nil ==> r != nil && fresh(r)
func parser.URLParser.PeekScheme(this) (r, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).savedPtr
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
func parser.URLParser.Tel_parameters(this) (r, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <l *core.NameValueList> nvok(l)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] params: e == nil ==> fresh(r) && nvok(r)
  ensures [C01,C02] moves: e == nil ==> old(L(this).ptr) < L(this).ptr
func parser.URLParser.Global_phone_number(this) (r, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] number: e == nil ==> fresh(r) && telok(r)
  ensures [C01,C02] moves: e == nil && old(L(this).ptr) < len(L(this).buffer) ==> old(L(this).ptr) < L(this).ptr
func parser.URLParser.Local_phone_number(this) (r, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] number: e == nil ==> fresh(r) && telok(r)
  ensures [C01,C02] moves: e == nil && old(L(this).ptr) < len(L(this).buffer) ==> old(L(this).ptr) < L(this).ptr
func parser.URLParser.ParseTelephoneNumber(this) (r, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] number: e == nil ==> fresh(r) && telok(r)
  ensures [C01,C02] moves: e == nil ==> old(L(this).ptr) < L(this).ptr
func parser.URLParser.TelURL(this) (r, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] url: e == nil ==> fresh(r) && telok(r.telephoneNumber)
  ensures [C01,C02] moves: e == nil ==> old(L(this).ptr) < L(this).ptr
func parser.URLParser.SipURL(this) (r, e)
  flag owners
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable)
  inv forall e int :: {as(e, *list.Element).owner} old(allocated(e)) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <u *address.SipURIImpl> uok(u)
  inv <u *address.SipURIImpl> fresh(u) && fresh(u.uriParms) && fresh(u.qheaders)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] url: e == nil ==> fresh(r) && uok(r) && fresh(r.uriParms)
  ensures [C01,C02] moves: e == nil ==> old(L(this).ptr) < L(this).ptr
func parser.URLParser.UriReference(this) (r, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] url: e == nil ==> urival(r)
  ensures [C01,C02] own: e == nil && typeis(r, *address.SipURIImpl) ==> fresh(r.(*address.SipURIImpl)) && fresh(r.(*address.SipURIImpl).uriParms)
  ensures [C01,C02] moves: e == nil ==> old(L(this).ptr) < L(this).ptr
func parser.URLParser.Parse(this) (r, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] url: e == nil ==> urival(r)
  ensures [C01,C02] own: e == nil && typeis(r, *address.SipURIImpl) ==> fresh(r.(*address.SipURIImpl)) && fresh(r.(*address.SipURIImpl).uriParms)
  ensures [C01,C02] moves: e == nil ==> old(L(this).ptr) < L(this).ptr
func parser.NewAddressParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewAddressParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.AddressParser.NameAddr(this) (r, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] address: e == nil ==> fresh(r) && addrok(r) && r.address != nil
  ensures [C01,C02] own: e == nil && typeis(r.address, *address.SipURIImpl) ==> fresh(r.address.(*address.SipURIImpl)) && fresh(r.address.(*address.SipURIImpl).uriParms)
  ensures [C01,C02] moves: e == nil ==> old(L(this).ptr) < L(this).ptr
func parser.AddressParser.Address(this) (r, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable)
  loopdec <k int> len(L(this).buffer) - L(this).ptr - k
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <k int> 0 <= k && k <= len(L(this).buffer) - L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] address: e == nil ==> fresh(r) && addrok(r) && r.address != nil
  ensures [C01,C02] own: e == nil && typeis(r.address, *address.SipURIImpl) ==> fresh(r.address.(*address.SipURIImpl)) && fresh(r.address.(*address.SipURIImpl).uriParms)
  ensures [C01,C02] moves: e == nil ==> old(L(this).ptr) < L(this).ptr
func parser.ParametersParser.Parse(this, h) (e)
  flag inline
  inv pok(as(h.val, *header.Parameters))
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <c byte> c == 59 ==> L(this).ptr < len(L(this).buffer) && L(this).buffer[L(this).ptr] == 59
func parser.ChallengeParser.Parse(this, h) (e)
  flag inline
  inv pok(as(h.val, *header.Parameters))
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <c byte> c == 59 ==> L(this).ptr < len(L(this).buffer) && L(this).buffer[L(this).ptr] == 59
// h is the extension header of the text t from p on: name up to the first colon, value the trimmed rest of the line, which ends at q
pred extline(h, t, p, q) := p + len(h.headerName) < len(t) && h.headerName == t[p:p + len(h.headerName)] && t[p + len(h.headerName)] == 58 && (forall i int :: {t[i]} p <= i && i < p + len(h.headerName) ==> t[i] != 58)
  && p + len(h.headerName) < q && q <= len(t) && h.value == trim(t[p + len(h.headerName) + 1:q]) && (forall i int :: {t[i]} p + len(h.headerName) < i && i < q - 1 ==> t[i] != 10) && (q == len(t) || t[q - 1] == 10)
func parser.NewHeaderParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewHeaderParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.HeaderParser.HeaderName(this, tok)
  props C01 C02
  requires px(this) && tokclass(tok)
  modifies L(this).ptr, L(this).currentMatch
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
func parser.HeaderParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  let p := L(this).ptr
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.Extension)
  ensures [C01,C02] text: e == nil ==> extline(h.(*header.Extension), L(this).buffer, old(L(this).ptr), L(this).ptr)
func parser.NewAcceptEncodingParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewAcceptEncodingParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.AcceptEncodingParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <l *header.AcceptEncodingList> hdrs(addr(l.SIPHeaderList.List))
  inv <l *header.AcceptEncodingList> fresh(l)
  inv <x *header.AcceptEncoding> pok(x)
  inv <x *header.AcceptEncoding> fresh(x) && fresh(x.parameters)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.AcceptEncodingList)
func parser.NewAcceptLanguageParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewAcceptLanguageParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.AcceptLanguageParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <l *header.AcceptLanguageList> hdrs(addr(l.SIPHeaderList.List))
  inv <l *header.AcceptLanguageList> fresh(l)
  inv <x *header.AcceptLanguage> pok(x)
  inv <x *header.AcceptLanguage> fresh(x) && fresh(x.parameters)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.AcceptLanguageList)
func parser.NewAcceptParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewAcceptParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.AcceptParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <l *header.AcceptList> hdrs(addr(l.SIPHeaderList.List))
  inv <l *header.AcceptList> fresh(l)
  inv <x *header.Accept> pok(x)
  inv <x *header.Accept> fresh(x) && fresh(x.parameters)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.AcceptList)
func parser.NewAlertInfoParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewAlertInfoParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.AlertInfoParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <l *header.AlertInfoList> hdrs(addr(l.SIPHeaderList.List))
  inv <l *header.AlertInfoList> fresh(l)
  inv <x *header.AlertInfo> pok(x)
  inv <x *header.AlertInfo> fresh(x) && fresh(x.parameters)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.AlertInfoList)
func parser.NewAllowEventsParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewAllowEventsParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.AllowEventsParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <l *header.AllowEventsList> hdrs(addr(l.SIPHeaderList.List))
  inv <l *header.AllowEventsList> fresh(l)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.AllowEventsList)
func parser.NewAllowParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewAllowParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.AllowParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <l *header.AllowList> hdrs(addr(l.SIPHeaderList.List))
  inv <l *header.AllowList> fresh(l)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.AllowList)
func parser.NewAuthenticationInfoParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewAuthenticationInfoParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.AuthenticationInfoParser.Parse(this) (h, e)
  flag owners
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <x *header.AuthenticationInfo> pok(x)
  inv <x *header.AuthenticationInfo> fresh(x) && fresh(x.parameters)
  inv forall e int :: {as(e, *list.Element).owner} old(allocated(e)) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.AuthenticationInfo)
func parser.NewAuthorizationParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewAuthorizationParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.AuthorizationParser.Parse(this) (h, e)
  flag owners
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <x *header.Authorization> pok(x)
  inv <x *header.Authorization> fresh(x) && fresh(x.parameters)
  inv forall e int :: {as(e, *list.Element).owner} old(allocated(e)) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.Authorization)
func parser.NewCSeqParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewCSeqParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.CSeqParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.CSeq)
func parser.NewCallIDParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewCallIDParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.CallIDParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.CallID)
func parser.NewCallInfoParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewCallInfoParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.CallInfoParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <l *header.CallInfoList> hdrs(addr(l.SIPHeaderList.List))
  inv <l *header.CallInfoList> fresh(l)
  inv <x *header.CallInfo> pok(x)
  inv <x *header.CallInfo> fresh(x) && fresh(x.parameters)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.CallInfoList)
func parser.NewContactParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewContactParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.ContactParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <l *header.ContactList> hdrs(addr(l.SIPHeaderList.List))
  inv <l *header.ContactList> fresh(l)
  inv <x *header.Contact> pok(x)
  inv <x *header.Contact> fresh(x) && fresh(x.parameters)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.ContactList)
func parser.NewContentDispositionParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewContentDispositionParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.ContentDispositionParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <x *header.ContentDisposition> pok(x)
  inv <x *header.ContentDisposition> fresh(x) && fresh(x.parameters)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.ContentDisposition)
func parser.NewContentEncodingParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewContentEncodingParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.ContentEncodingParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <l *header.ContentEncodingList> hdrs(addr(l.SIPHeaderList.List))
  inv <l *header.ContentEncodingList> fresh(l)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.ContentEncodingList)
func parser.NewContentLanguageParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewContentLanguageParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.ContentLanguageParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <l *header.ContentLanguageList> hdrs(addr(l.SIPHeaderList.List))
  inv <l *header.ContentLanguageList> fresh(l)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.ContentLanguageList)
func parser.NewContentLengthParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewContentLengthParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.ContentLengthParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.ContentLength)
  ensures [C01,C02] length: e == nil ==> h.(*header.ContentLength).contentLength >= 0
func parser.NewContentTypeParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewContentTypeParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.ContentTypeParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <x *header.ContentType> pok(x)
  inv <x *header.ContentType> fresh(x) && fresh(x.parameters)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.ContentType)
func parser.NewDateParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewDateParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.DateParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.Date)
func parser.NewErrorInfoParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewErrorInfoParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.ErrorInfoParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <l *header.ErrorInfoList> hdrs(addr(l.SIPHeaderList.List))
  inv <l *header.ErrorInfoList> fresh(l)
  inv <x *header.ErrorInfo> pok(x)
  inv <x *header.ErrorInfo> fresh(x) && fresh(x.parameters)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.ErrorInfoList)
func parser.NewEventParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewEventParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.EventParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <x *header.Event> pok(x)
  inv <x *header.Event> fresh(x) && fresh(x.parameters)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.Event)
func parser.NewExpiresParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewExpiresParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.ExpiresParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.Expires)
func parser.NewFromParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewFromParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.FromParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <x *header.From> pok(x)
  inv <x *header.From> fresh(x) && fresh(x.parameters)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.From)
func parser.NewInReplyToParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewInReplyToParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.InReplyToParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <l *header.InReplyToList> hdrs(addr(l.SIPHeaderList.List))
  inv <l *header.InReplyToList> fresh(l)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.InReplyToList)
func parser.NewMaxForwardsParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewMaxForwardsParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.MaxForwardsParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.MaxForwards)
func parser.NewMimeVersionParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewMimeVersionParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.MimeVersionParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.MimeVersion)
func parser.NewMinExpiresParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewMinExpiresParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.MinExpiresParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.MinExpires)
func parser.NewOrganizationParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewOrganizationParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.OrganizationParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.Organization)
func parser.NewPriorityParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewPriorityParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.PriorityParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.Priority)
func parser.NewProxyAuthenticateParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewProxyAuthenticateParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.ProxyAuthenticateParser.Parse(this) (h, e)
  flag owners
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <x *header.ProxyAuthenticate> pok(x)
  inv <x *header.ProxyAuthenticate> fresh(x) && fresh(x.parameters)
  inv forall e int :: {as(e, *list.Element).owner} old(allocated(e)) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.ProxyAuthenticate)
func parser.NewProxyAuthorizationParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewProxyAuthorizationParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.ProxyAuthorizationParser.Parse(this) (h, e)
  flag owners
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <x *header.ProxyAuthorization> pok(x)
  inv <x *header.ProxyAuthorization> fresh(x) && fresh(x.parameters)
  inv forall e int :: {as(e, *list.Element).owner} old(allocated(e)) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.ProxyAuthorization)
func parser.NewProxyRequireParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewProxyRequireParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.ProxyRequireParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <l *header.ProxyRequireList> hdrs(addr(l.SIPHeaderList.List))
  inv <l *header.ProxyRequireList> fresh(l)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.ProxyRequireList)
func parser.NewRAckParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewRAckParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.RAckParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.RAck)
func parser.NewRSeqParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewRSeqParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.RSeqParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.RSeq)
func parser.NewReasonParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewReasonParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.ReasonParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <l *header.ReasonList> hdrs(addr(l.SIPHeaderList.List))
  inv <l *header.ReasonList> fresh(l)
  inv <x *header.Reason> pok(x)
  inv <x *header.Reason> fresh(x) && fresh(x.parameters)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.ReasonList)
func parser.NewRecordRouteParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewRecordRouteParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.RecordRouteParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <l *header.RecordRouteList> hdrs(addr(l.SIPHeaderList.List))
  inv <l *header.RecordRouteList> fresh(l)
  inv <x *header.RecordRoute> pok(x)
  inv <x *header.RecordRoute> fresh(x) && fresh(x.parameters)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.RecordRouteList)
func parser.NewReferToParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewReferToParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.ReferToParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <x *header.ReferTo> pok(x)
  inv <x *header.ReferTo> fresh(x) && fresh(x.parameters)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.ReferTo)
func parser.NewReplyToParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewReplyToParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.ReplyToParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <x *header.ReplyTo> pok(x)
  inv <x *header.ReplyTo> fresh(x) && fresh(x.parameters)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.ReplyTo)
func parser.NewRequestLineParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewRequestLineParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.RequestLineParser.Parse(this) (r, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] line: e == nil ==> fresh(r) && rlok(r)
func parser.NewRequireParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewRequireParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.RequireParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <l *header.RequireList> hdrs(addr(l.SIPHeaderList.List))
  inv <l *header.RequireList> fresh(l)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.RequireList)
func parser.NewRetryAfterParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewRetryAfterParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.RetryAfterParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <x *header.RetryAfter> pok(x)
  inv <x *header.RetryAfter> fresh(x) && fresh(x.parameters)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.RetryAfter)
func parser.NewRouteParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewRouteParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.RouteParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <l *header.RouteList> hdrs(addr(l.SIPHeaderList.List))
  inv <l *header.RouteList> fresh(l)
  inv <x *header.Route> pok(x)
  inv <x *header.Route> fresh(x) && fresh(x.parameters)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.RouteList)
func parser.NewServerParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewServerParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.ServerParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <x *header.Server> prods(x)
  inv <c byte> c == 40 ==> L(this).ptr < len(L(this).buffer) && L(this).buffer[L(this).ptr] == 40
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.Server)
func parser.NewStatusLineParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewStatusLineParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.StatusLineParser.StatusCode(this) (r, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
func parser.StatusLineParser.ReasonPhrase(this) (r)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
func parser.StatusLineParser.Parse(this) (r, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] line: e == nil ==> fresh(r)
func parser.NewSubjectParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewSubjectParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.SubjectParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.Subject)
func parser.NewSubscriptionStateParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewSubscriptionStateParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.SubscriptionStateParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <x *header.SubscriptionState> pok(x)
  inv <x *header.SubscriptionState> fresh(x) && fresh(x.parameters)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.SubscriptionState)
func parser.NewSupportedParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewSupportedParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.SupportedParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <l *header.SupportedList> hdrs(addr(l.SIPHeaderList.List))
  inv <l *header.SupportedList> fresh(l)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.SupportedList)
func parser.NewTimeStampParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewTimeStampParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.TimeStampParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.TimeStamp)
func parser.NewToParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewToParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.ToParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <x *header.To> pok(x)
  inv <x *header.To> fresh(x) && fresh(x.parameters)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.To)
func parser.NewUnsupportedParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewUnsupportedParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.UnsupportedParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <l *header.UnsupportedList> hdrs(addr(l.SIPHeaderList.List))
  inv <l *header.UnsupportedList> fresh(l)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.UnsupportedList)
func parser.NewUserAgentParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewUserAgentParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.UserAgentParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <x *header.UserAgent> prods(x)
  inv <c byte> c == 40 ==> L(this).ptr < len(L(this).buffer) && L(this).buffer[L(this).ptr] == 40
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.UserAgent)
func parser.NewViaParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewViaParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.ViaParser.NameValue(this) (r, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] pair: e == nil ==> r != nil && fresh(r)
  ensures [C01,C02] moves: e == nil ==> old(L(this).ptr) < L(this).ptr
func parser.ViaParser.ParseVia(this, v) (e)
  props C01 C02
  requires px(this) && pok(v)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), v.sentProtocol, v.sentBy, v.comment, ll(v.parameters).n, ll(v.parameters).at, ll(v.parameters).idx, every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv pok(v)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] via: pok(v)
  ensures [C01,C02] moves: e == nil ==> old(L(this).ptr) < L(this).ptr
func parser.ViaParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <l *header.ViaList> hdrs(addr(l.SIPHeaderList.List))
  inv <l *header.ViaList> fresh(l)
  inv <x *header.Via> pok(x)
  inv <x *header.Via> fresh(x) && fresh(x.parameters)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.ViaList)
func parser.NewWWWAuthenticateParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewWWWAuthenticateParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.WWWAuthenticateParser.Parse(this) (h, e)
  flag owners
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <x *header.WWWAuthenticate> pok(x)
  inv <x *header.WWWAuthenticate> fresh(x) && fresh(x.parameters)
  inv forall e int :: {as(e, *list.Element).owner} old(allocated(e)) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.WWWAuthenticate)
func parser.NewWarningParser(s) (r)
  props C01 C02
  ensures [C01,C02] start: fresh(r) && px(r) && L(r).buffer == s && L(r).ptr == 0
  ensures [C01,C02] lexer: fresh(L(r)) && fresh(L(r).lexerTables) && fresh(L(r).globalSymbolTable)
func parser.NewWarningParserFromLexer(lexer) (r)
  props C01 C02
  requires lexer != nil && plex(as(lexer.val, *core.CoreLexer))
  modifies as(lexer.val, *core.CoreLexer).currentLexer, as(lexer.val, *core.CoreLexer).currentLexerName, mapof(as(lexer.val, *core.CoreLexer).lexerTables), mapof(as(lexer.val, *core.CoreLexer).globalSymbolTable)
  ensures [C01,C02] start: fresh(r) && px(r) && r.lexer == lexer
func parser.WarningParser.Parse(this) (h, e)
  props C01 C02
  requires px(this)
  modifies L(this).ptr, L(this).currentMatch, L(this).savedPtr, L(this).currentLexer, L(this).currentLexerName, mapof(L(this).lexerTables), mapof(L(this).globalSymbolTable), every(core.NameValue.value)
  inv plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  inv <l *header.WarningList> hdrs(addr(l.SIPHeaderList.List))
  inv <l *header.WarningList> fresh(l)
  ensures [C01,C02] forward: plex(L(this)) && old(L(this).ptr) <= L(this).ptr
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h) && typeis(h, *header.WarningList)
