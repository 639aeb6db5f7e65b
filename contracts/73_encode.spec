// ---------------------------------------------------------------- requests and responses as tables and as texts (C18, C20)
pred mtext(m, hs) := join(hs, m.headers.n, "") + cltext(m) + "\r\n" + body(m)
func message.SIPMessage.SetCallIdFromString(this, s)
  props C20
  requires mok(this)
  modifies mapof(this.nameTable), this.headers.n, this.headers.at, this.headers.idx, every(list.Element.owner), this.fromHeader, this.toHeader, this.cSeqHeader, this.callIdHeader, this.maxForwardsHeader, this.contentLengthHeader, this.callIdHeader.callIdentifier
  let old_ := this.callIdHeader
  ensures [C20] set: !cidbad(s) ==> this.callIdHeader != nil && this.callIdHeader.callIdentifier != nil && cid(this.callIdHeader.callIdentifier) == s
  ensures [C20] same: old_ != nil ==> this.callIdHeader == old_ && this.headers.n == old(this.headers.n) && this.headers.at == old(this.headers.at)
  ensures [C20] malformed: cidbad(s) ==> this.callIdHeader == old_ && (old_ != nil ==> old_.callIdentifier == old(this.callIdHeader.callIdentifier)) && this.headers.n == old(this.headers.n) && this.headers.at == old(this.headers.at)
  ensures [C20] others: forall q Str :: {has(this.nameTable, q)} q != "call-id" ==> (has(this.nameTable, q) <==> old(has(this.nameTable, q))) && mt(this, q) == old(mt(this, q))
  ensures [C20] valid: mok(this)
func message.NewSIPRequest() (r)
  props C20
  modifies every(list.Element.owner)
  ensures [C20] valid: fresh(r) && mok(r) && fresh(r.headers) && fresh(r.nameTable) && r.requestLine == nil
  ensures [C20] other-lists: forall e int :: {as(e, *list.Element).owner} old(allocated(e)) && old(as(e, *list.Element).owner) != ref(r.headers) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
  ensures [C20] body: body(r) == ""
  ensures [C20] length: r.headers.n == 1 && r.contentLengthHeader != nil && r.contentLengthHeader.contentLength == 0
  ensures [C20] only: forall q Str :: {has(r.nameTable, q)} has(r.nameTable, q) <==> q == "content-length"
func message.NewSIPResponse() (r)
  props C20
  modifies every(list.Element.owner)
  ensures [C20] valid: fresh(r) && mok(r) && fresh(r.headers) && fresh(r.nameTable) && r.statusLine == nil
  ensures [C20] other-lists: forall e int :: {as(e, *list.Element).owner} old(allocated(e)) && old(as(e, *list.Element).owner) != ref(r.headers) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
  ensures [C20] body: body(r) == ""
  ensures [C20] length: r.headers.n == 1 && r.contentLengthHeader != nil && r.contentLengthHeader.contentLength == 0
  ensures [C20] only: forall q Str :: {has(r.nameTable, q)} has(r.nameTable, q) <==> q == "content-length"
func message.SIPResponse.String(this) (r)
  props C18 C20
  requires mok(this)
  let l := this.headers
  let hs := array k Str :: (typeis(val(this.headers, k), *header.ContentLength) ? "" : htext(val(this.headers, k).tag, val(this.headers, k).val))
  ensures [C18,C20] text: r == (this.statusLine == nil ? "" : this.statusLine.sipVersion + " " + itoa(this.statusLine.statusCode) + " " + this.statusLine.reasonPhrase + "\r\n") + mtext(this, hs)
func message.SIPResponse.EncodeAsBytes(this) (r)
  props C18
  requires mok(this)
  let l := this.headers
  let hs := array k Str :: (typeis(val(this.headers, k), *header.ContentLength) ? "" : htext(val(this.headers, k).tag, val(this.headers, k).val))
  let text := (this.statusLine == nil ? "" : this.statusLine.sipVersion + " " + itoa(this.statusLine.statusCode) + " " + this.statusLine.reasonPhrase + "\r\n") + mtext(this, hs)
  inv <i int, retval []byte> forall k int :: {retval[k]} 0 <= k && k < i ==> retval[k] == text[k]
  ensures [C18] text: str(r) == (this.statusLine == nil ? "" : this.statusLine.sipVersion + " " + itoa(this.statusLine.statusCode) + " " + this.statusLine.reasonPhrase + "\r\n") + mtext(this, hs)
func message.SIPRequest.String(this) (r)
  props C18 C20
  requires mok(this) && (this.requestLine == nil || rlok(this.requestLine))
  modifies this.requestLine.method
  let l := this.headers
  let hs := array k Str :: (typeis(val(this.headers, k), *header.ContentLength) ? "" : htext(val(this.headers, k).tag, val(this.headers, k).val))
  ensures [C18,C20] text: r == (this.requestLine == nil ? "" : rline(this.requestLine)) + mtext(this, hs)
  ensures [C18,C20] method: this.requestLine != nil ==> this.requestLine.method == (old(this.requestLine.method) == "" && this.cSeqHeader != nil ? this.cSeqHeader.method : old(this.requestLine.method))
func message.SIPRequest.EncodeAsBytes(this) (r)
  props C18
  requires mok(this) && (this.requestLine == nil || rlok(this.requestLine))
  let l := this.headers
  let hs := array k Str :: (typeis(val(this.headers, k), *header.ContentLength) ? "" : htext(val(this.headers, k).tag, val(this.headers, k).val))
  let text := (this.requestLine == nil ? "" : rline(this.requestLine)) + mtext(this, hs)
  inv <i int, retval []byte> forall k int :: {retval[k]} 0 <= k && k < i ==> retval[k] == text[k]
  ensures [C18] text: str(r) == (this.requestLine == nil ? "" : rline(this.requestLine)) + mtext(this, hs)
