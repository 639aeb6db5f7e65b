// ---------------------------------------------------------------- headers: field headers (C23, C24, C26)
// the text of a header: its name, ': ', the body and CRLF
pred line(name, body) := name + ": " + body + "\r\n"
func header.NewContentLength() (r)
  props C24
  ensures [C24] name: fresh(r) && r != nil && r.headerName == "Content-Length" && r.contentLength == 0
func header.NewContentLengthFromInt(n) (r)
  props C24
  ensures [C24] name: fresh(r) && r != nil && r.headerName == "Content-Length" && r.contentLength == n
func header.ContentLength.EncodeBody(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] body: r == itoa(this.contentLength)
func header.ContentLength.String(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] line: r == line(this.headerName, itoa(this.contentLength))
func header.ContentLength.SetContentLength(this, n) (e)
  props C23
  requires this != nil
  modifies this.contentLength
  ensures [C23] reject: (n < 0) <==> e != nil
  ensures [C23] kept: e != nil ==> this.contentLength == old(this.contentLength)
  ensures [C23] stored: e == nil ==> this.contentLength == n
func header.ContentLength.GetContentLength(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.contentLength
func header.NewMaxForwards() (r)
  props C24
  ensures [C24] name: fresh(r) && r != nil && r.headerName == "Max-Forwards" && true
func header.MaxForwards.EncodeBody(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] body: r == itoa(this.maxForwards)
func header.MaxForwards.String(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] line: r == line(this.headerName, itoa(this.maxForwards))
func header.MaxForwards.SetMaxForwards(this, n) (e)
  props C23
  requires this != nil
  modifies this.maxForwards
  ensures [C23] reject: (n < 0 || n > 255) <==> e != nil
  ensures [C23] kept: e != nil ==> this.maxForwards == old(this.maxForwards)
  ensures [C23] stored: e == nil ==> this.maxForwards == n
func header.MaxForwards.GetMaxForwards(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.maxForwards
func header.MaxForwards.HasReachedZero(this) (r)
  props C23
  requires this != nil
  ensures [C23] zero: r <==> this.maxForwards == 0
func header.MaxForwards.DecrementMaxForwards(this) (e)
  props C23
  requires this != nil
  modifies this.maxForwards
  ensures [C23] reject: e != nil <==> old(this.maxForwards) <= 0
  ensures [C23] kept: e != nil ==> this.maxForwards == old(this.maxForwards)
  ensures [C23] one-less: e == nil ==> this.maxForwards == old(this.maxForwards) - 1
func header.NewExpires() (r)
  props C24
  ensures [C24] name: fresh(r) && r != nil && r.headerName == "Expires" && true
func header.Expires.EncodeBody(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] body: r == itoa(this.expires)
func header.Expires.String(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] line: r == line(this.headerName, itoa(this.expires))
func header.Expires.SetExpires(this, n) (e)
  props C23
  requires this != nil
  modifies this.expires
  ensures [C23] reject: (n < 0) <==> e != nil
  ensures [C23] kept: e != nil ==> this.expires == old(this.expires)
  ensures [C23] stored: e == nil ==> this.expires == n
func header.Expires.GetExpires(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.expires
func header.NewMinExpires() (r)
  props C24
  ensures [C24] name: fresh(r) && r != nil && r.headerName == "Min-Expires" && true
func header.MinExpires.EncodeBody(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] body: r == itoa(this.expires)
func header.MinExpires.String(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] line: r == line(this.headerName, itoa(this.expires))
func header.MinExpires.SetExpires(this, n) (e)
  props C23
  requires this != nil
  modifies this.expires
  ensures [C23] reject: (n < 0) <==> e != nil
  ensures [C23] kept: e != nil ==> this.expires == old(this.expires)
  ensures [C23] stored: e == nil ==> this.expires == n
func header.MinExpires.GetExpires(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.expires
func header.NewRSeq() (r)
  props C24
  ensures [C24] name: fresh(r) && r != nil && r.headerName == "RSeq" && true
func header.RSeq.EncodeBody(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] body: r == itoa(this.sequenceNumber)
func header.RSeq.String(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] line: r == line(this.headerName, itoa(this.sequenceNumber))
func header.RSeq.SetSequenceNumber(this, n) (e)
  props C23
  requires this != nil
  modifies this.sequenceNumber
  ensures [C23] reject: (n <= 0) <==> e != nil
  ensures [C23] kept: e != nil ==> this.sequenceNumber == old(this.sequenceNumber)
  ensures [C23] stored: e == nil ==> this.sequenceNumber == n
func header.RSeq.GetSequenceNumber(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.sequenceNumber
func header.NewRAck() (r)
  props C24
  ensures [C24] name: fresh(r) && r != nil && r.headerName == "RAck" && true
func header.RAck.EncodeBody(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] body: r == itoa(this.rSeqNumber) + " " + itoa(this.cSeqNumber) + " " + this.method
func header.RAck.String(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] line: r == line(this.headerName, itoa(this.rSeqNumber) + " " + itoa(this.cSeqNumber) + " " + this.method)
func header.RAck.SetCSeqNumber(this, n) (e)
  props C23
  requires this != nil
  modifies this.cSeqNumber
  ensures [C23] reject: (n <= 0) <==> e != nil
  ensures [C23] kept: e != nil ==> this.cSeqNumber == old(this.cSeqNumber)
  ensures [C23] stored: e == nil ==> this.cSeqNumber == n
func header.RAck.SetRSeqNumber(this, n) (e)
  props C23
  requires this != nil
  modifies this.rSeqNumber
  ensures [C23] reject: (n <= 0) <==> e != nil
  ensures [C23] kept: e != nil ==> this.rSeqNumber == old(this.rSeqNumber)
  ensures [C23] stored: e == nil ==> this.rSeqNumber == n
func header.RAck.SetMethod(this, m) (e)
  props C23
  requires this != nil
  modifies this.method
  ensures [C23] reject: e == nil
  ensures [C23] kept: e != nil ==> this.method == old(this.method)
  ensures [C23] stored: e == nil ==> this.method == m
func header.RAck.GetCSeqNumber(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.cSeqNumber
func header.RAck.GetRSeqNumber(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.rSeqNumber
func header.RAck.GetMethod(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.method
func header.NewMimeVersion() (r)
  props C24
  ensures [C24] name: fresh(r) && r != nil && r.headerName == "MIME-Version" && true
func header.MimeVersion.EncodeBody(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] body: r == itoa(this.majorVersion) + "." + itoa(this.minorVersion)
func header.MimeVersion.String(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] line: r == line(this.headerName, itoa(this.majorVersion) + "." + itoa(this.minorVersion))
func header.MimeVersion.SetMinorVersion(this, n) (e)
  props C23
  requires this != nil
  modifies this.minorVersion
  ensures [C23] reject: (n < 0) <==> e != nil
  ensures [C23] kept: e != nil ==> this.minorVersion == old(this.minorVersion)
  ensures [C23] stored: e == nil ==> this.minorVersion == n
func header.MimeVersion.SetMajorVersion(this, n) (e)
  props C23
  requires this != nil
  modifies this.majorVersion
  ensures [C23] reject: (n < 0) <==> e != nil
  ensures [C23] kept: e != nil ==> this.majorVersion == old(this.majorVersion)
  ensures [C23] stored: e == nil ==> this.majorVersion == n
func header.MimeVersion.GetMinorVersion(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.minorVersion
func header.MimeVersion.GetMajorVersion(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.majorVersion
func header.NewCSeq(n, m) (r)
  props C24
  ensures [C24] name: fresh(r) && r != nil && r.headerName == "CSeq" && r.seqno == n && r.method == m
func header.CSeq.EncodeBody(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] body: r == itoa(this.seqno) + " " + upper(this.method)
func header.CSeq.String(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] line: r == line(this.headerName, itoa(this.seqno) + " " + upper(this.method))
func header.CSeq.SetSequenceNumber(this, n) (e)
  props C23
  requires this != nil
  modifies this.seqno
  ensures [C23] reject: (n < 0) <==> e != nil
  ensures [C23] kept: e != nil ==> this.seqno == old(this.seqno)
  ensures [C23] stored: e == nil ==> this.seqno == n
func header.CSeq.SetMethod(this, m) (e)
  props C23
  requires this != nil
  modifies this.method
  ensures [C23] reject: (m == "") <==> e != nil
  ensures [C23] kept: e != nil ==> this.method == old(this.method)
  ensures [C23] stored: e == nil ==> this.method == m
func header.CSeq.GetMethod(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.method
func header.CSeq.GetSequenceNumber(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.seqno
func header.NewWarning() (r)
  props C24
  ensures [C24] name: fresh(r) && r != nil && r.headerName == "Warning" && true
func header.Warning.EncodeBody(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] body: r == itoa(this.code) + " " + this.agent + (this.text == "" ? "" : " \"" + this.text + "\"")
func header.Warning.String(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] line: r == line(this.headerName, itoa(this.code) + " " + this.agent + (this.text == "" ? "" : " \"" + this.text + "\""))
func header.Warning.SetCode(this, n) (e)
  props C23
  requires this != nil
  modifies this.code
  ensures [C23] reject: (n < 300 || n > 399) <==> e != nil
  ensures [C23] kept: e != nil ==> this.code == old(this.code)
  ensures [C23] stored: e == nil ==> this.code == n
func header.Warning.SetAgent(this, s) (e)
  props C23
  requires this != nil
  modifies this.agent
  ensures [C23] reject: (s == "") <==> e != nil
  ensures [C23] kept: e != nil ==> this.agent == old(this.agent)
  ensures [C23] stored: e == nil ==> this.agent == s
func header.Warning.SetText(this, s) (e)
  props C23
  requires this != nil
  modifies this.text
  ensures [C23] reject: (s == "") <==> e != nil
  ensures [C23] kept: e != nil ==> this.text == old(this.text)
  ensures [C23] stored: e == nil ==> this.text == s
func header.Warning.GetCode(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.code
func header.Warning.GetAgent(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.agent
func header.Warning.GetText(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.text
func header.NewSubject() (r)
  props C24
  ensures [C24] name: fresh(r) && r != nil && r.headerName == "Subject" && true
func header.Subject.EncodeBody(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] body: r == this.subject
func header.Subject.String(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] line: r == line(this.headerName, this.subject)
func header.Subject.SetSubject(this, s) (e)
  props C23
  requires this != nil
  modifies this.subject
  ensures [C23] reject: (s == "") <==> e != nil
  ensures [C23] kept: e != nil ==> this.subject == old(this.subject)
  ensures [C23] stored: e == nil ==> this.subject == s
func header.Subject.GetSubject(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.subject
func header.NewOrganization() (r)
  props C24
  ensures [C24] name: fresh(r) && r != nil && r.headerName == "Organization" && true
func header.Organization.EncodeBody(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] body: r == this.organization
func header.Organization.String(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] line: r == line(this.headerName, this.organization)
func header.Organization.SetOrganization(this, s) (e)
  props C23
  requires this != nil
  modifies this.organization
  ensures [C23] reject: (s == "") <==> e != nil
  ensures [C23] kept: e != nil ==> this.organization == old(this.organization)
  ensures [C23] stored: e == nil ==> this.organization == s
func header.Organization.GetOrganization(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.organization
func header.NewPriority() (r)
  props C24
  ensures [C24] name: fresh(r) && r != nil && r.headerName == "Priority" && true
func header.Priority.EncodeBody(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] body: r == this.priority
func header.Priority.String(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] line: r == line(this.headerName, this.priority)
func header.Priority.SetPriority(this, s) (e)
  props C23
  requires this != nil
  modifies this.priority
  ensures [C23] reject: (s == "") <==> e != nil
  ensures [C23] kept: e != nil ==> this.priority == old(this.priority)
  ensures [C23] stored: e == nil ==> this.priority == s
func header.Priority.GetPriority(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.priority
func header.NewAllow() (r)
  props C24
  ensures [C24] name: fresh(r) && r != nil && r.headerName == "Allow" && true
func header.Allow.EncodeBody(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] body: r == this.method
func header.Allow.String(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] line: r == line(this.headerName, this.method)
func header.Allow.SetMethod(this, s) (e)
  props C23
  requires this != nil
  modifies this.method
  ensures [C23] reject: (s == "") <==> e != nil
  ensures [C23] kept: e != nil ==> this.method == old(this.method)
  ensures [C23] stored: e == nil ==> this.method == s
func header.Allow.GetMethod(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.method
func header.NewAllowEvents() (r)
  props C24
  ensures [C24] name: fresh(r) && r != nil && r.headerName == "Allow-Events" && true
func header.AllowEvents.EncodeBody(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] body: r == this.eventType
func header.AllowEvents.String(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] line: r == line(this.headerName, this.eventType)
func header.AllowEvents.SetEventType(this, s) (e)
  props C23
  requires this != nil
  modifies this.eventType
  ensures [C23] reject: (s == "") <==> e != nil
  ensures [C23] kept: e != nil ==> this.eventType == old(this.eventType)
  ensures [C23] stored: e == nil ==> this.eventType == s
func header.AllowEvents.GetEventType(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.eventType
func header.NewSupported() (r)
  props C24
  ensures [C24] name: fresh(r) && r != nil && r.headerName == "Supported" && true
func header.Supported.EncodeBody(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] body: r == this.optionTag
func header.Supported.String(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] line: r == line(this.headerName, this.optionTag)
func header.Supported.SetOptionTag(this, s) (e)
  props C23
  requires this != nil
  modifies this.optionTag
  ensures [C23] reject: (s == "") <==> e != nil
  ensures [C23] kept: e != nil ==> this.optionTag == old(this.optionTag)
  ensures [C23] stored: e == nil ==> this.optionTag == s
func header.Supported.GetOptionTag(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.optionTag
func header.NewRequire() (r)
  props C24
  ensures [C24] name: fresh(r) && r != nil && r.headerName == "Require" && true
func header.Require.EncodeBody(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] body: r == this.optionTag
func header.Require.String(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] line: r == line(this.headerName, this.optionTag)
func header.Require.SetOptionTag(this, s) (e)
  props C23
  requires this != nil
  modifies this.optionTag
  ensures [C23] reject: (s == "") <==> e != nil
  ensures [C23] kept: e != nil ==> this.optionTag == old(this.optionTag)
  ensures [C23] stored: e == nil ==> this.optionTag == s
func header.Require.GetOptionTag(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.optionTag
func header.NewProxyRequire() (r)
  props C24
  ensures [C24] name: fresh(r) && r != nil && r.headerName == "Proxy-Require" && true
func header.ProxyRequire.EncodeBody(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] body: r == this.optionTag
func header.ProxyRequire.String(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] line: r == line(this.headerName, this.optionTag)
func header.ProxyRequire.SetOptionTag(this, s) (e)
  props C23
  requires this != nil
  modifies this.optionTag
  ensures [C23] reject: (s == "") <==> e != nil
  ensures [C23] kept: e != nil ==> this.optionTag == old(this.optionTag)
  ensures [C23] stored: e == nil ==> this.optionTag == s
func header.ProxyRequire.GetOptionTag(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.optionTag
func header.NewUnsupported() (r)
  props C24
  ensures [C24] name: fresh(r) && r != nil && r.headerName == "Unsupported" && true
func header.Unsupported.EncodeBody(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] body: r == this.optionTag
func header.Unsupported.String(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] line: r == line(this.headerName, this.optionTag)
func header.Unsupported.SetOptionTag(this, s) (e)
  props C23
  requires this != nil
  modifies this.optionTag
  ensures [C23] reject: (s == "") <==> e != nil
  ensures [C23] kept: e != nil ==> this.optionTag == old(this.optionTag)
  ensures [C23] stored: e == nil ==> this.optionTag == s
func header.Unsupported.GetOptionTag(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.optionTag
func header.NewContentEncoding() (r)
  props C24
  ensures [C24] name: fresh(r) && r != nil && r.headerName == "Content-Encoding" && true
func header.ContentEncoding.EncodeBody(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] body: r == this.contentEncoding
func header.ContentEncoding.String(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] line: r == line(this.headerName, this.contentEncoding)
func header.ContentEncoding.SetEncoding(this, s) (e)
  props C23
  requires this != nil
  modifies this.contentEncoding
  ensures [C23] reject: (s == "") <==> e != nil
  ensures [C23] kept: e != nil ==> this.contentEncoding == old(this.contentEncoding)
  ensures [C23] stored: e == nil ==> this.contentEncoding == s
func header.ContentEncoding.GetEncoding(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.contentEncoding
pred cid(c) := c == nil ? "" : (c.host == "" ? c.localId : c.localId + "@" + c.host)
pred cidbad(s) := s == "" || index(s, "@") == 0 || (index(s, "@") > 0 && index(s, "@") == len(s) - 1)
func header.NewCallIdentifier(s) (r, e)
  props C23 C26
  ensures [C23,C26] reject: (cidbad(s) <==> e != nil) && (e != nil <==> r == nil)
  ensures [C26] parts: e == nil ==> fresh(r) && (index(s, "@") < 0 ? r.localId == s && r.host == "" : r.localId == s[0:index(s, "@")] && r.host == s[index(s, "@") + 1:])
  ensures [C23,C24,C26] text: e == nil ==> fresh(r) && cid(r) == s
func header.CallIdentifier.SetCallID(this, s) (e)
  props C23 C26
  requires this != nil
  modifies this.localId, this.host
  ensures [C23,C26] reject: cidbad(s) <==> e != nil
  ensures [C23,C26] kept: e != nil ==> this.localId == old(this.localId) && this.host == old(this.host)
  ensures [C26] parts: e == nil ==> (index(s, "@") < 0 ? this.localId == s && this.host == "" : this.localId == s[0:index(s, "@")] && this.host == s[index(s, "@") + 1:])
  ensures [C23,C26] text: e == nil ==> cid(this) == s
func header.CallIdentifier.String(this) (r)
  props C26
  requires this != nil
  ensures [C26] text: r == cid(this)
func header.CallIdentifier.GetLocalId(this) (r)
  props C26
  requires this != nil
  ensures [C26] get: r == this.localId
func header.CallIdentifier.GetHost(this) (r)
  props C26
  requires this != nil
  ensures [C26] get: r == this.host
func header.CallIdentifier.SetLocalId(this, s)
  props C26
  requires this != nil
  modifies this.localId
  ensures [C26] set: this.localId == s
func header.CallIdentifier.SetHost(this, s)
  props C26
  requires this != nil
  modifies this.host
  ensures [C26] set: this.host == s
func header.NewCallID(s) (r, e)
  props C23 C24 C26
  ensures [C23,C26] reject: (cidbad(s) <==> e != nil) && (e != nil <==> r == nil)
  ensures [C23,C24,C26] text: e == nil ==> fresh(r) && r.headerName == "Call-ID" && r.callIdentifier != nil && cid(r.callIdentifier) == s
func header.CallID.GetCallIdentifer(this) (r)
  props C26
  requires this != nil
  ensures [C26] get: r == this.callIdentifier
func header.CallID.SetCallIdentifier(this, c)
  props C26
  requires this != nil
  modifies this.callIdentifier
  ensures [C26] set: this.callIdentifier == c
func header.CallID.GetCallId(this) (r)
  props C23 C26
  requires this != nil
  ensures [C23,C26] get: r == cid(this.callIdentifier)
func header.CallID.SetCallId(this, s) (e)
  props C23 C26
  requires this != nil
  modifies this.callIdentifier
  ensures [C23,C26] reject: cidbad(s) <==> e != nil
  ensures [C23,C26] kept: e != nil ==> this.callIdentifier == old(this.callIdentifier)
  ensures [C23,C26] text: e == nil ==> this.callIdentifier != nil && cid(this.callIdentifier) == s
func header.CallID.EncodeBody(this) (r)
  props C24 C26
  requires this != nil && true
  ensures [C24,C26] body: r == cid(this.callIdentifier)
func header.CallID.String(this) (r)
  props C24 C26
  requires this != nil && true
  ensures [C24,C26] line: r == line(this.headerName, cid(this.callIdentifier))
func header.NewInReplyTo() (r)
  props C24
  ensures [C24] name: fresh(r) && r != nil && r.headerName == "In-Reply-To" && r.callId == nil
func header.InReplyTo.GetCallId(this) (r)
  props C23 C26
  requires this != nil
  ensures [C23,C26] get: r == cid(this.callId)
func header.InReplyTo.SetCallId(this, s) (e)
  props C23 C26
  requires this != nil
  modifies this.callId
  ensures [C23,C26] reject: cidbad(s) <==> e != nil
  ensures [C23,C26] kept: e != nil ==> this.callId == old(this.callId)
  ensures [C23,C26] text: e == nil ==> this.callId != nil && cid(this.callId) == s
func header.InReplyTo.EncodeBody(this) (r)
  props C24 C26
  requires this != nil && true
  ensures [C24,C26] body: r == cid(this.callId)
func header.InReplyTo.String(this) (r)
  props C24 C26
  requires this != nil && true
  ensures [C24,C26] line: r == line(this.headerName, cid(this.callId))
func header.NewStatusLine() (r)
  props C24
  ensures [C24] version: fresh(r) && r != nil && r.sipVersion == "SIP/2.0"
func header.StatusLine.String(this) (r)
  props C24
  requires this != nil
  ensures [C24] line: r == this.sipVersion + " " + itoa(this.statusCode) + " " + this.reasonPhrase + "\r\n"
func header.StatusLine.GetSipVersion(this) (r)
  props C24
  requires this != nil
  ensures [C24] get: r == this.sipVersion
func header.StatusLine.SetSipVersion(this, v)
  props C24
  requires this != nil
  modifies this.sipVersion
  ensures [C24] set: this.sipVersion == v
func header.StatusLine.GetStatusCode(this) (r)
  props C24
  requires this != nil
  ensures [C24] get: r == this.statusCode
func header.StatusLine.SetStatusCode(this, v)
  props C24
  requires this != nil
  modifies this.statusCode
  ensures [C24] set: this.statusCode == v
func header.StatusLine.GetReasonPhrase(this) (r)
  props C24
  requires this != nil
  ensures [C24] get: r == this.reasonPhrase
func header.StatusLine.SetReasonPhrase(this, v)
  props C24
  requires this != nil
  modifies this.reasonPhrase
  ensures [C24] set: this.reasonPhrase == v
func header.RequestLine.GetSipVersion(this) (r)
  props C24
  requires this != nil
  ensures [C24] get: r == this.sipVersion
func header.RequestLine.SetSipVersion(this, v)
  props C24
  requires this != nil
  modifies this.sipVersion
  ensures [C24] set: this.sipVersion == v
func header.RequestLine.GetMethod(this) (r)
  props C24
  requires this != nil
  ensures [C24] get: r == this.method
func header.RequestLine.SetMethod(this, v)
  props C24
  requires this != nil
  modifies this.method
  ensures [C24] set: this.method == v
func header.RequestLine.GetUri(this) (r)
  props C24
  requires this != nil
  ensures [C24] get: r == this.uri
func header.RequestLine.SetUri(this, v)
  props C24
  requires this != nil
  modifies this.uri
  ensures [C24] set: this.uri == v
