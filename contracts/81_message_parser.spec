
// ---------------------------------------------------------------- from a header line to its parser to the header (C25)
pred hname(line) := trim(lower(index(line, ":") >= 1 ? line[0:index(line, ":")] : ""))
func parser.CreateParser(line) (r, e)
  props C25
  let n := hname(line)
  ensures [C25] error: e != nil <==> n == "" || index(line, ":") + 1 >= len(line)
  ensures [C01,C02,C25] parser: e == nil ==> r != nil && r.val > 0 && typeis(r, parser.Parser)
  ensures [C01,C02,C25] start: e == nil ==> fresh(as(r.val, *core.CoreParser)) && px(as(r.val, *core.CoreParser))
  ensures [C01,C02,C25] line: e == nil ==> L(as(r.val, *core.CoreParser)).buffer == line && L(as(r.val, *core.CoreParser)).ptr == 0
  ensures [C01,C02,C25] lexer: e == nil ==> fresh(L(as(r.val, *core.CoreParser)))
  ensures [C01,C02,C25] tables: e == nil ==> fresh(L(as(r.val, *core.CoreParser)).lexerTables) && fresh(L(as(r.val, *core.CoreParser)).globalSymbolTable)
  ensures [C25] via: e == nil && (n == "via" || n == "v") ==> typeis(r, *parser.ViaParser)
  ensures [C25] from: e == nil && (n == "from" || n == "f") ==> typeis(r, *parser.FromParser)
  ensures [C25] to: e == nil && (n == "to" || n == "t") ==> typeis(r, *parser.ToParser)
  ensures [C25] cseq: e == nil && (n == "cseq") ==> typeis(r, *parser.CSeqParser)
  ensures [C25] call-id: e == nil && (n == "call-id" || n == "i") ==> typeis(r, *parser.CallIDParser)
  ensures [C25] contact: e == nil && (n == "contact" || n == "m") ==> typeis(r, *parser.ContactParser)
  ensures [C25] content-type: e == nil && (n == "content-type" || n == "c") ==> typeis(r, *parser.ContentTypeParser)
  ensures [C25] content-length: e == nil && (n == "content-length" || n == "l") ==> typeis(r, *parser.ContentLengthParser)
  ensures [C25] max-forwards: e == nil && (n == "max-forwards") ==> typeis(r, *parser.MaxForwardsParser)
  ensures [C25] route: e == nil && (n == "route") ==> typeis(r, *parser.RouteParser)
  ensures [C25] record-route: e == nil && (n == "record-route") ==> typeis(r, *parser.RecordRouteParser)
  ensures [C25] subject: e == nil && (n == "subject" || n == "s") ==> typeis(r, *parser.SubjectParser)
  ensures [C25] supported: e == nil && (n == "supported" || n == "k") ==> typeis(r, *parser.SupportedParser)
  ensures [C25] event: e == nil && (n == "event" || n == "o") ==> typeis(r, *parser.EventParser)
  ensures [C25] allow-events: e == nil && (n == "allow-events" || n == "u") ==> typeis(r, *parser.AllowEventsParser)
  ensures [C25] refer-to: e == nil && (n == "refer-to" || n == "r") ==> typeis(r, *parser.ReferToParser)
  ensures [C25] content-encoding: e == nil && (n == "content-encoding" || n == "e") ==> typeis(r, *parser.ContentEncodingParser)
  ensures [C25] accept: e == nil && (n == "accept") ==> typeis(r, *parser.AcceptParser)
  ensures [C25] accept-encoding: e == nil && (n == "accept-encoding") ==> typeis(r, *parser.AcceptEncodingParser)
  ensures [C25] accept-language: e == nil && (n == "accept-language") ==> typeis(r, *parser.AcceptLanguageParser)
  ensures [C25] alert-info: e == nil && (n == "alert-info") ==> typeis(r, *parser.AlertInfoParser)
  ensures [C25] allow: e == nil && (n == "allow") ==> typeis(r, *parser.AllowParser)
  ensures [C25] authentication-info: e == nil && (n == "authentication-info") ==> typeis(r, *parser.AuthenticationInfoParser)
  ensures [C25] authorization: e == nil && (n == "authorization") ==> typeis(r, *parser.AuthorizationParser)
  ensures [C25] call-info: e == nil && (n == "call-info") ==> typeis(r, *parser.CallInfoParser)
  ensures [C25] content-disposition: e == nil && (n == "content-disposition") ==> typeis(r, *parser.ContentDispositionParser)
  ensures [C25] content-language: e == nil && (n == "content-language") ==> typeis(r, *parser.ContentLanguageParser)
  ensures [C25] date: e == nil && (n == "date") ==> typeis(r, *parser.DateParser)
  ensures [C25] error-info: e == nil && (n == "error-info") ==> typeis(r, *parser.ErrorInfoParser)
  ensures [C25] expires: e == nil && (n == "expires") ==> typeis(r, *parser.ExpiresParser)
  ensures [C25] in-reply-to: e == nil && (n == "in-reply-to") ==> typeis(r, *parser.InReplyToParser)
  ensures [C25] mime-version: e == nil && (n == "mime-version") ==> typeis(r, *parser.MimeVersionParser)
  ensures [C25] min-expires: e == nil && (n == "min-expires") ==> typeis(r, *parser.MinExpiresParser)
  ensures [C25] organization: e == nil && (n == "organization") ==> typeis(r, *parser.OrganizationParser)
  ensures [C25] priority: e == nil && (n == "priority") ==> typeis(r, *parser.PriorityParser)
  ensures [C25] proxy-authenticate: e == nil && (n == "proxy-authenticate") ==> typeis(r, *parser.ProxyAuthenticateParser)
  ensures [C25] proxy-authorization: e == nil && (n == "proxy-authorization") ==> typeis(r, *parser.ProxyAuthorizationParser)
  ensures [C25] proxy-require: e == nil && (n == "proxy-require") ==> typeis(r, *parser.ProxyRequireParser)
  ensures [C25] rack: e == nil && (n == "rack") ==> typeis(r, *parser.RAckParser)
  ensures [C25] rseq: e == nil && (n == "rseq") ==> typeis(r, *parser.RSeqParser)
  ensures [C25] reason: e == nil && (n == "reason") ==> typeis(r, *parser.ReasonParser)
  ensures [C25] reply-to: e == nil && (n == "reply-to") ==> typeis(r, *parser.ReplyToParser)
  ensures [C25] require: e == nil && (n == "require") ==> typeis(r, *parser.RequireParser)
  ensures [C25] retry-after: e == nil && (n == "retry-after") ==> typeis(r, *parser.RetryAfterParser)
  ensures [C25] server: e == nil && (n == "server") ==> typeis(r, *parser.ServerParser)
  ensures [C25] subscription-state: e == nil && (n == "subscription-state") ==> typeis(r, *parser.SubscriptionStateParser)
  ensures [C25] timestamp: e == nil && (n == "timestamp") ==> typeis(r, *parser.TimeStampParser)
  ensures [C25] unsupported: e == nil && (n == "unsupported") ==> typeis(r, *parser.UnsupportedParser)
  ensures [C25] user-agent: e == nil && (n == "user-agent") ==> typeis(r, *parser.UserAgentParser)
  ensures [C25] warning: e == nil && (n == "warning") ==> typeis(r, *parser.WarningParser)
  ensures [C25] www-authenticate: e == nil && (n == "www-authenticate") ==> typeis(r, *parser.WWWAuthenticateParser)
  ensures [C25] other: e == nil && n != "via" && n != "v" && n != "from" && n != "f" && n != "to" && n != "t" && n != "cseq" && n != "call-id" && n != "i" && n != "contact" && n != "m" && n != "content-type" && n != "c" && n != "content-length" && n != "l" && n != "max-forwards" && n != "route" && n != "record-route" && n != "subject" && n != "s" && n != "supported" && n != "k" && n != "event" && n != "o" && n != "allow-events" && n != "u" && n != "refer-to" && n != "r" && n != "content-encoding" && n != "e" && n != "accept" && n != "accept-encoding" && n != "accept-language" && n != "alert-info" && n != "allow" && n != "authentication-info" && n != "authorization" && n != "call-info" && n != "content-disposition" && n != "content-language" && n != "date" && n != "error-info" && n != "expires" && n != "in-reply-to" && n != "mime-version" && n != "min-expires" && n != "organization" && n != "priority" && n != "proxy-authenticate" && n != "proxy-authorization" && n != "proxy-require" && n != "rack" && n != "rseq" && n != "reason" && n != "reply-to" && n != "require" && n != "retry-after" && n != "server" && n != "subscription-state" && n != "timestamp" && n != "unsupported" && n != "user-agent" && n != "warning" && n != "www-authenticate" ==> typeis(r, *parser.HeaderParser)
interface parser.Parser.Parse(this) (h, e)
  flag imposed
  props C25
  requires this != nil && this.val > 0 && px(as(this.val, *core.CoreParser))
  modifies L(as(this.val, *core.CoreParser)).ptr, L(as(this.val, *core.CoreParser)).currentMatch, L(as(this.val, *core.CoreParser)).savedPtr, L(as(this.val, *core.CoreParser)).currentLexer, L(as(this.val, *core.CoreParser)).currentLexerName, mapof(L(as(this.val, *core.CoreParser)).lexerTables), mapof(L(as(this.val, *core.CoreParser)).globalSymbolTable), every(core.NameValue.value)
  ensures [C01,C02,C19,C25] header: e == nil ==> hok(h) && fresh(h)
  ensures [C01,C02,C19,C25] length: e == nil && typeis(h, *header.ContentLength) ==> h.(*header.ContentLength).contentLength >= 0
  ensures [C25] via: e == nil && typeis(this, *parser.ViaParser) ==> typeis(h, *header.ViaList)
  ensures [C25] from: e == nil && typeis(this, *parser.FromParser) ==> typeis(h, *header.From)
  ensures [C25] to: e == nil && typeis(this, *parser.ToParser) ==> typeis(h, *header.To)
  ensures [C25] cseq: e == nil && typeis(this, *parser.CSeqParser) ==> typeis(h, *header.CSeq)
  ensures [C25] call-id: e == nil && typeis(this, *parser.CallIDParser) ==> typeis(h, *header.CallID)
  ensures [C25] contact: e == nil && typeis(this, *parser.ContactParser) ==> typeis(h, *header.ContactList)
  ensures [C25] content-type: e == nil && typeis(this, *parser.ContentTypeParser) ==> typeis(h, *header.ContentType)
  ensures [C25] content-length: e == nil && typeis(this, *parser.ContentLengthParser) ==> typeis(h, *header.ContentLength)
  ensures [C25] max-forwards: e == nil && typeis(this, *parser.MaxForwardsParser) ==> typeis(h, *header.MaxForwards)
  ensures [C25] route: e == nil && typeis(this, *parser.RouteParser) ==> typeis(h, *header.RouteList)
  ensures [C25] record-route: e == nil && typeis(this, *parser.RecordRouteParser) ==> typeis(h, *header.RecordRouteList)
  ensures [C25] subject: e == nil && typeis(this, *parser.SubjectParser) ==> typeis(h, *header.Subject)
  ensures [C25] supported: e == nil && typeis(this, *parser.SupportedParser) ==> typeis(h, *header.SupportedList)
  ensures [C25] event: e == nil && typeis(this, *parser.EventParser) ==> typeis(h, *header.Event)
  ensures [C25] allow-events: e == nil && typeis(this, *parser.AllowEventsParser) ==> typeis(h, *header.AllowEventsList)
  ensures [C25] refer-to: e == nil && typeis(this, *parser.ReferToParser) ==> typeis(h, *header.ReferTo)
  ensures [C25] content-encoding: e == nil && typeis(this, *parser.ContentEncodingParser) ==> typeis(h, *header.ContentEncodingList)
  ensures [C25] accept: e == nil && typeis(this, *parser.AcceptParser) ==> typeis(h, *header.AcceptList)
  ensures [C25] accept-encoding: e == nil && typeis(this, *parser.AcceptEncodingParser) ==> typeis(h, *header.AcceptEncodingList)
  ensures [C25] accept-language: e == nil && typeis(this, *parser.AcceptLanguageParser) ==> typeis(h, *header.AcceptLanguageList)
  ensures [C25] alert-info: e == nil && typeis(this, *parser.AlertInfoParser) ==> typeis(h, *header.AlertInfoList)
  ensures [C25] allow: e == nil && typeis(this, *parser.AllowParser) ==> typeis(h, *header.AllowList)
  ensures [C25] authentication-info: e == nil && typeis(this, *parser.AuthenticationInfoParser) ==> typeis(h, *header.AuthenticationInfo)
  ensures [C25] authorization: e == nil && typeis(this, *parser.AuthorizationParser) ==> typeis(h, *header.Authorization)
  ensures [C25] call-info: e == nil && typeis(this, *parser.CallInfoParser) ==> typeis(h, *header.CallInfoList)
  ensures [C25] content-disposition: e == nil && typeis(this, *parser.ContentDispositionParser) ==> typeis(h, *header.ContentDisposition)
  ensures [C25] content-language: e == nil && typeis(this, *parser.ContentLanguageParser) ==> typeis(h, *header.ContentLanguageList)
  ensures [C25] date: e == nil && typeis(this, *parser.DateParser) ==> typeis(h, *header.Date)
  ensures [C25] error-info: e == nil && typeis(this, *parser.ErrorInfoParser) ==> typeis(h, *header.ErrorInfoList)
  ensures [C25] expires: e == nil && typeis(this, *parser.ExpiresParser) ==> typeis(h, *header.Expires)
  ensures [C25] in-reply-to: e == nil && typeis(this, *parser.InReplyToParser) ==> typeis(h, *header.InReplyToList)
  ensures [C25] mime-version: e == nil && typeis(this, *parser.MimeVersionParser) ==> typeis(h, *header.MimeVersion)
  ensures [C25] min-expires: e == nil && typeis(this, *parser.MinExpiresParser) ==> typeis(h, *header.MinExpires)
  ensures [C25] organization: e == nil && typeis(this, *parser.OrganizationParser) ==> typeis(h, *header.Organization)
  ensures [C25] priority: e == nil && typeis(this, *parser.PriorityParser) ==> typeis(h, *header.Priority)
  ensures [C25] proxy-authenticate: e == nil && typeis(this, *parser.ProxyAuthenticateParser) ==> typeis(h, *header.ProxyAuthenticate)
  ensures [C25] proxy-authorization: e == nil && typeis(this, *parser.ProxyAuthorizationParser) ==> typeis(h, *header.ProxyAuthorization)
  ensures [C25] proxy-require: e == nil && typeis(this, *parser.ProxyRequireParser) ==> typeis(h, *header.ProxyRequireList)
  ensures [C25] rack: e == nil && typeis(this, *parser.RAckParser) ==> typeis(h, *header.RAck)
  ensures [C25] rseq: e == nil && typeis(this, *parser.RSeqParser) ==> typeis(h, *header.RSeq)
  ensures [C25] reason: e == nil && typeis(this, *parser.ReasonParser) ==> typeis(h, *header.ReasonList)
  ensures [C25] reply-to: e == nil && typeis(this, *parser.ReplyToParser) ==> typeis(h, *header.ReplyTo)
  ensures [C25] require: e == nil && typeis(this, *parser.RequireParser) ==> typeis(h, *header.RequireList)
  ensures [C25] retry-after: e == nil && typeis(this, *parser.RetryAfterParser) ==> typeis(h, *header.RetryAfter)
  ensures [C25] server: e == nil && typeis(this, *parser.ServerParser) ==> typeis(h, *header.Server)
  ensures [C25] subscription-state: e == nil && typeis(this, *parser.SubscriptionStateParser) ==> typeis(h, *header.SubscriptionState)
  ensures [C25] timestamp: e == nil && typeis(this, *parser.TimeStampParser) ==> typeis(h, *header.TimeStamp)
  ensures [C25] unsupported: e == nil && typeis(this, *parser.UnsupportedParser) ==> typeis(h, *header.UnsupportedList)
  ensures [C25] user-agent: e == nil && typeis(this, *parser.UserAgentParser) ==> typeis(h, *header.UserAgent)
  ensures [C25] warning: e == nil && typeis(this, *parser.WarningParser) ==> typeis(h, *header.WarningList)
  ensures [C25] www-authenticate: e == nil && typeis(this, *parser.WWWAuthenticateParser) ==> typeis(h, *header.WWWAuthenticate)
  ensures [C25] other: e == nil && typeis(this, *parser.HeaderParser) ==> typeis(h, *header.Extension) && extline(h.(*header.Extension), old(L(as(this.val, *core.CoreParser)).buffer), old(L(as(this.val, *core.CoreParser)).ptr), L(as(this.val, *core.CoreParser)).ptr)

// ---------------------------------------------------------------- the message parser's parsers of single parts
func parser.NewStringMsgParser() (r)
  props C01 C19
  ensures [C01,C19] empty: fresh(r) && r.bufferPointer == 0 && r.contentLength == 0 && r.readBody && r.currentMessageBytes == nil && r.parseExceptionListener == nil
func parser.StringMsgParser.ParseAddress(this, s) (r, e)
  props C01 C02
  requires this != nil
  ensures [C01,C02] address: e == nil ==> fresh(r) && addrok(r)
func parser.StringMsgParser.ParseHostPort(this, s) (r, e)
  props C01 C02
  requires this != nil
func parser.StringMsgParser.ParseHost(this, s) (r, e)
  props C01 C02
  requires this != nil
func parser.StringMsgParser.ParSetelephoneNumber(this, s) (r, e)
  props C01 C02
  requires this != nil
  ensures [C01,C02] number: e == nil ==> fresh(r) && telok(r)
func parser.StringMsgParser.ParseSIPUrl(this, s) (r, e)
  props C01 C02
  requires this != nil
  ensures [C01,C02] url: e == nil ==> uok(r)
func parser.StringMsgParser.ParseUrl(this, s) (r, e)
  props C01 C02
  requires this != nil
  ensures [C01,C02] url: e == nil ==> r != nil
func parser.StringMsgParser.ParseSIPHeader(this, s) (h, e)
  props C01 C02
  requires this != nil
  modifies every(core.NameValue.value)
  ensures [C01,C02] header: e == nil ==> hok(h) && fresh(h)
func parser.StringMsgParser.ParseSIPRequestLine(this, s) (r, e)
  props C01 C02
  requires this != nil
  modifies every(core.NameValue.value)
  ensures [C01,C02] line: e == nil ==> fresh(r) && rlok(r)
func parser.StringMsgParser.ParseSIPStatusLine(this, s) (r, e)
  props C01 C02
  requires this != nil
  ensures [C01,C02] line: e == nil ==> fresh(r)


// the application's listener: it may look at the message, and decides whether parsing goes on
interface parser.ParseExceptionListener.HandleException(this, x, m, h, t) (e)
// ---------------------------------------------------------------- messages
pred crlf(c) := c == 13 || c == 10
pred blank(b, k) := b[k] == 10 && k + 1 < len(b) && (b[k + 1] == 10 || (b[k + 1] == 13 && k + 2 < len(b) && b[k + 2] == 10))
pred hend(b, k) := b[k + 1] == 10 ? k + 2 : k + 3
pred noblank(b, s, e) := forall j int :: {b[j]} s <= j && j < e && j < len(b) ==> !blank(b, j)
pred startat(b, s) := 0 <= s && s < len(b) && !crlf(b[s]) && (forall j int :: {b[j]} 0 <= j && j < s ==> crlf(b[j]))
pred headend(b, s, k) := startat(b, s) && s <= k && k < len(b) && blank(b, k) && noblank(b, s, k)
pred clpos(m) := m.contentLengthHeader == nil || m.contentLengthHeader.contentLength >= 0
pred mrr(m) := typeis(m, *message.SIPRequest) || typeis(m, *message.SIPResponse)
func parser.StringMsgParser.ParseMessage(this, text) (m, e)
  flag paths
  props C01 C02 C19
  requires this != nil
  modifies this.messageHeaders, this.currentLine, this.currentHeader, every(core.NameValue.value), every(list.Element.owner), every(list.List.n), every(list.List.at), every(list.List.idx), every(header.ContentLength.contentLength)
  inv <m message.Message> mrr(m)
  inv <m message.Message> m.val > 0
  inv <m message.Message> fresh(as(m.val, *message.SIPMessage))
  inv <m message.Message> fresh(as(m.val, *message.SIPMessage).headers) && as(m.val, *message.SIPMessage).headers != nil
  inv <m message.Message> fresh(as(m.val, *message.SIPMessage).nameTable) && as(m.val, *message.SIPMessage).nameTable != nil
  inv <m message.Message> lwf(as(m.val, *message.SIPMessage).headers)
  inv <m message.Message> mA(as(m.val, *message.SIPMessage))
  inv <m message.Message> mU(as(m.val, *message.SIPMessage))
  inv <m message.Message> mB(as(m.val, *message.SIPMessage))
  inv <m message.Message> tt1(as(m.val, *message.SIPMessage))
  inv <m message.Message> clpos(as(m.val, *message.SIPMessage))
  inv <m message.Message> body(as(m.val, *message.SIPMessage)) == ""
  inv <n int, t *core.StringTokenizer> n <= t.ptr && len(this.messageHeaders) <= n
  inv <i int> 0 <= i
  ensures [C01,C02,C19] message: e == nil ==> mrr(m) && m.val > 0
  ensures [C01,C02,C19] new: e == nil ==> fresh(as(m.val, *message.SIPMessage)) && fresh(as(m.val, *message.SIPMessage).headers) && fresh(as(m.val, *message.SIPMessage).nameTable)
  ensures [C01,C02,C19] lists: e == nil ==> as(m.val, *message.SIPMessage).headers != nil && as(m.val, *message.SIPMessage).nameTable != nil && mA(as(m.val, *message.SIPMessage)) && mU(as(m.val, *message.SIPMessage))
  ensures [C01,C02,C19] table: e == nil ==> mB(as(m.val, *message.SIPMessage)) && tt1(as(m.val, *message.SIPMessage))
  ensures [C19,C01,C02] length: e == nil ==> clpos(as(m.val, *message.SIPMessage))
  ensures [C19] body: e == nil ==> body(as(m.val, *message.SIPMessage)) == ""
func parser.StringMsgParser.ParseSIPMessageFromByte(this, b) (m, e)
  props C01 C02 C19
  requires this != nil
  modifies this.messageHeaders, this.currentLine, this.currentHeader, this.bufferPointer, this.bodyIsString, this.currentMessageBytes, this.currentMessage, this.contentLength, every(core.NameValue.value), every(list.Element.owner), every(list.List.n), every(list.List.at), every(list.List.idx), every(header.ContentLength.contentLength)
  watch decl Int := after parser.StringMsgParser.ParseMessage: e == nil && as(m.val, *message.SIPMessage).contentLengthHeader != nil ? as(m.val, *message.SIPMessage).contentLengthHeader.contentLength : 0
  inv <s int> 0 <= s && s <= len(b)
  inv <s int> forall j int :: {b[j]} 0 <= j && j < s ==> crlf(b[j])
  inv <s int, k int, f int> (f < 0 ==> noblank(b, s, k)) && (f >= 0 ==> s < k && blank(b, k - 1) && f == hend(b, k - 1) && noblank(b, s, k - 1))
  inv <n int, c []byte> 1 <= n && n <= len(c) && c[0] != 13
  inv <t *core.StringTokenizer, c *bytes.Buffer> t.ptr > 0 ==> c.s != ""
  ensures [C01,C02,C19] message: e == nil && m != nil ==> mrr(m) && m.val > 0 && mok(as(m.val, *message.SIPMessage))
  ensures [C19] nothing: (forall j int :: {b[j]} 0 <= j && j < len(b) ==> crlf(b[j])) ==> m == nil && e == nil
  ensures [C19] unterminated: forall s int :: {b[s]} startat(b, s) && noblank(b, s, len(b)) ==> e != nil
  ensures [C19] some: forall s int :: {b[s]} startat(b, s) ==> e != nil || m != nil
  ensures [C19] body: forall s int, k int :: {b[s], b[k]} headend(b, s, k) && e == nil && m != nil && this.readBody && decl != 0 ==> body(as(m.val, *message.SIPMessage)) == str(b)[hend(b, k):hend(b, k) + decl] && hend(b, k) + decl <= len(b)
  ensures [C19] none: e == nil && m != nil && (decl == 0 || !this.readBody) ==> body(as(m.val, *message.SIPMessage)) == ""
  ensures [C19] declared: e == nil && m != nil && decl != 0 && this.readBody ==> as(m.val, *message.SIPMessage).contentLengthHeader != nil && as(m.val, *message.SIPMessage).contentLengthHeader.contentLength == decl
  ensures [C19] beyond: forall s int, k int :: {b[s], b[k]} headend(b, s, k) && this.readBody && decl > len(b) - hend(b, k) ==> e != nil
func parser.StringMsgParser.ParseSIPMessage(this, s) (m, e)
  props C01 C02
  requires this != nil
  modifies this.messageHeaders, this.currentLine, this.currentHeader, this.bufferPointer, this.bodyIsString, this.currentMessageBytes, this.currentMessage, this.contentLength, every(core.NameValue.value), every(list.Element.owner), every(list.List.n), every(list.List.at), every(list.List.idx), every(header.ContentLength.contentLength)
  ensures [C01,C02] message: e == nil && m != nil ==> mrr(m) && m.val > 0 && mok(as(m.val, *message.SIPMessage))
func parser.StringMsgParser.GetBodyAsBytes(this) (r)
  props C01 C19
  requires this != nil && 0 <= this.bufferPointer && this.bufferPointer <= len(this.currentMessageBytes) && 0 <= this.contentLength && this.contentLength <= 9223372036854775807 - this.bufferPointer
  modifies this.bufferPointer, this.contentLength
  let n := this.contentLength
  let p := this.bufferPointer
  let b := this.currentMessageBytes
  ensures [C01,C19] none: n == 0 ==> r == nil
  ensures [C19] body: n != 0 && p + n <= len(b) ==> r != nil && str(r) == str(b)[p:p + n]
  ensures [C19] rest: n != 0 && p + n > len(b) ==> r != nil && str(r) == str(b)[p:len(b)]

