
// ---------------------------------------------------------------- messages derived from messages (C21)
func header.RequestLine.Clone(this) (r)
  props C21
  requires this != nil
  ensures [C21] copy: typeis(r, *header.RequestLine) && fresh(r.(*header.RequestLine)) && r.(*header.RequestLine).uri == this.uri && r.(*header.RequestLine).method == this.method && r.(*header.RequestLine).sipVersion == this.sipVersion
func message.SIPResponse.SetStatusCode(this, c)
  props C21
  requires this != nil
  modifies this.statusLine, this.statusLine.statusCode
  ensures [C21] set: this.statusLine != nil && this.statusLine.statusCode == c && (this.statusLine == old(this.statusLine) || fresh(this.statusLine))
func message.SIPResponse.SetReasonPhrase(this, s)
  props C21
  requires this != nil
  modifies this.statusLine, this.statusLine.reasonPhrase
  ensures [C21] set: this.statusLine != nil && this.statusLine.reasonPhrase == s && (this.statusLine == old(this.statusLine) || fresh(this.statusLine))
  ensures [C21] code: old(this.statusLine) != nil ==> this.statusLine == old(this.statusLine)
func message.SIPResponse.GetStatusCode(this) (r)
  props C21
  requires this != nil && this.statusLine != nil
  ensures [C21] get: r == this.statusLine.statusCode
func message.SIPResponse.GetReasonPhrase(this) (r)
  props C21
  requires this != nil
  ensures [C21] get: r == (this.statusLine == nil ? "" : this.statusLine.reasonPhrase)
func message.SIPResponse.GetReasonPhraseFromInt(this, c) (r)
  props C21
func message.SIPRequest.SetMethod(this, m)
  props C21
  requires this != nil
  modifies this.requestLine, this.requestLine.method, this.cSeqHeader.method
  ensures [C21] set: this.requestLine != nil && this.requestLine.method == m && (this.requestLine == old(this.requestLine) || fresh(this.requestLine) && this.requestLine.uri == nil && this.requestLine.sipVersion == "SIP/2.0")
  ensures [C21] same: old(this.requestLine) != nil ==> this.requestLine == old(this.requestLine)
func message.SIPRequest.SetRequestLine(this, l)
  props C21
  requires this != nil
  modifies this.requestLine
  ensures [C21] set: this.requestLine == l

pred lenname(m) := forall i int :: {m.headers.at[i]} 0 <= i && i < m.headers.n && hk(val(m.headers, i)) == "content-length" ==> typeis(val(m.headers, i), *header.ContentLength)
pred carried(v) := typeis(v, *header.From) || typeis(v, *header.To) || typeis(v, *header.ViaList) || typeis(v, *header.CallID) || typeis(v, *header.RecordRouteList) || typeis(v, *header.CSeq) || typeis(v, *header.MaxForwards) || typeis(v, *header.TimeStamp)
pred cancelled(v) := !(typeis(v, *header.RequireList) || typeis(v, *header.ProxyRequireList) || typeis(v, *header.ContentLength) || typeis(v, *header.ContentType))
func message.SIPRequest.CreateResponse2(this, code, reason) (r)
  flag paths
  props C21
  requires mok(this) && lenname(this)
  modifies every(list.Element.owner)
  let l := this.headers
  let u := this.headers
  inv <n *message.SIPResponse> mok(n)
  inv <n *message.SIPResponse> fresh(n) && fresh(n.headers) && fresh(n.nameTable)
  inv forall e int :: {as(e, *list.Element).owner} old(allocated(e)) && old(allocated(as(e, *list.Element).owner)) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
  inv lwf(l)
  inv mA(this)
  inv mB(this)
  inv <it *list.Element> it != nil ==> it.owner == ref(l) && mem(l, it)
  inv <it *list.Element, n *message.SIPResponse> forall i int :: {l.at[i]} (it == nil ? l.n : l.idx[ref(it)]) <= i && i < l.n && hk(val(l, i)) != "content-length" ==> !has(n.nameTable, hk(val(l, i)))
  inv <it *list.Element, n *message.SIPResponse> forall i int :: {l.at[i]} 0 <= i && i < (it == nil ? l.n : l.idx[ref(it)]) && carried(val(l, i)) ==> has(n.nameTable, hk(val(l, i))) && mt(n, hk(val(l, i))) == val(l, i)
  inv <n *message.SIPResponse> forall q Str :: {has(n.nameTable, q)} has(n.nameTable, q) && q != "content-length" ==> has(this.nameTable, q) && mt(this, q) == mt(n, q) && carried(mt(n, q))
  ensures [C21] fresh: fresh(r) && mok(r)
  ensures [C21] original: forall e int :: {as(e, *list.Element).owner} old(allocated(e)) && old(allocated(as(e, *list.Element).owner)) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
  ensures [C21] status: r.statusLine != nil && r.statusLine.statusCode == code && (reason != "" ==> r.statusLine.reasonPhrase == reason)
  ensures [C21] kept: forall i int :: {l.at[i]} 0 <= i && i < l.n && carried(val(l, i)) ==> has(r.nameTable, hk(val(l, i))) && mt(r, hk(val(l, i))) == val(l, i)
  ensures [C21] only: forall q Str :: {has(r.nameTable, q)} has(r.nameTable, q) && q != "content-length" ==> has(this.nameTable, q) && mt(this, q) == mt(r, q) && carried(mt(r, q))
  ensures [C21] parties: r.fromHeader == this.fromHeader && r.toHeader == this.toHeader && r.callIdHeader == this.callIdHeader && r.cSeqHeader == this.cSeqHeader
  ensures [C21] via: has(this.nameTable, "via") && typeis(mt(this, "via"), *header.ViaList) ==> has(r.nameTable, "via") && mt(r, "via") == mt(this, "via")
func message.SIPRequest.CreateResponse(this, code) (r)
  props C21
  requires mok(this) && lenname(this)
  modifies every(list.Element.owner)
  let l := this.headers
  ensures [C21] fresh: fresh(r) && mok(r)
  ensures [C21] original: forall e int :: {as(e, *list.Element).owner} old(allocated(e)) && old(allocated(as(e, *list.Element).owner)) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
  ensures [C21] status: r.statusLine != nil && r.statusLine.statusCode == code
  ensures [C21] parties: r.fromHeader == this.fromHeader && r.toHeader == this.toHeader && r.callIdHeader == this.callIdHeader && r.cSeqHeader == this.cSeqHeader
  ensures [C21] via: has(this.nameTable, "via") && typeis(mt(this, "via"), *header.ViaList) ==> has(r.nameTable, "via") && mt(r, "via") == mt(this, "via")
