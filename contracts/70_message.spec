
// ---------------------------------------------------------------- dialog identifiers (C22)
pred haddr(h) := h.addr.(*address.AddressImpl)
pred dhok(h) := hadr(h) && haddr(h).address != nil
pred part(h, t) := ":" + auhp(haddr(h)) + (t == "" ? "" : ":" + t)
pred dialog(m, local, lt, remote, rt) := lower(cid(m.callIdHeader.callIdentifier) + part(local, lt) + part(remote, rt))
pred dmok(m) := m != nil && m.callIdHeader != nil && m.fromHeader != nil && m.toHeader != nil && dhok(m.fromHeader) && dhok(m.toHeader)
pred tags(m) := uniq(m.fromHeader.parameters) && uniq(m.toHeader.parameters)
func header.From.GetUserAtHostPort(this) (r)
  props C22
  requires dhok(this)
  ensures [C22] text: r == auhp(haddr(this))
func header.To.GetUserAtHostPort(this) (r)
  props C22
  requires dhok(this)
  ensures [C22] text: r == auhp(haddr(this))
func message.SIPMessage.GetCallId(this) (r)
  props C20 C22
  requires this != nil
  ensures [C20,C22] get: (this.callIdHeader == nil ? r == nil : typeis(r, *header.CallID) && r.(*header.CallID) == this.callIdHeader)
func message.SIPMessage.GetFrom(this) (r)
  props C20 C22
  requires this != nil
  ensures [C20,C22] get: (this.fromHeader == nil ? r == nil : typeis(r, *header.From) && r.(*header.From) == this.fromHeader)
func message.SIPMessage.GetTo(this) (r)
  props C20 C22
  requires this != nil
  ensures [C20,C22] get: (this.toHeader == nil ? r == nil : typeis(r, *header.To) && r.(*header.To) == this.toHeader)
func message.SIPRequest.GetDialogId(this, isServer) (r)
  props C22
  requires dmok(this)
  ensures [C22] id: tags(this) ==> forall a Str, b Str :: plook(this.fromHeader.parameters, "tag", a) && plook(this.toHeader.parameters, "tag", b) ==> r == (isServer ? dialog(this, this.toHeader, b, this.fromHeader, a) : dialog(this, this.fromHeader, a, this.toHeader, b))
func message.SIPRequest.GetDialogId2(this, isServer, toTag) (r)
  props C22
  requires dmok(this)
  ensures [C22] id: tags(this) ==> forall a Str :: plook(this.fromHeader.parameters, "tag", a) ==> r == (isServer ? dialog(this, this.toHeader, toTag, this.fromHeader, a) : dialog(this, this.fromHeader, a, this.toHeader, toTag))
func message.SIPResponse.GetDialogId(this, isServer) (r)
  props C22
  requires dmok(this)
  ensures [C22] id: tags(this) ==> forall a Str, b Str :: plook(this.fromHeader.parameters, "tag", a) && plook(this.toHeader.parameters, "tag", b) ==> r == (isServer ? dialog(this, this.toHeader, b, this.fromHeader, a) : dialog(this, this.fromHeader, a, this.toHeader, b))
func message.SIPResponse.GetDialogId2(this, isServer, toTag) (r)
  props C22
  requires dmok(this)
  ensures [C22] id: tags(this) ==> forall a Str :: plook(this.fromHeader.parameters, "tag", a) ==> r == (isServer ? dialog(this, this.toHeader, toTag, this.fromHeader, a) : dialog(this, this.fromHeader, a, this.toHeader, toTag))
