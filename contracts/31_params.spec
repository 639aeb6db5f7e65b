// ---------------------------------------------------------------- headers with parameters (C23, C24)
pred ptext(l) := join((array i int :: nvtext(nv(l, i))), ll(l).n, l.separator)
pred psfx(l) := ll(l).n > 0 ? ";" + ptext(l) : ""
pred pok(h) := h != nil && nvok(h.parameters)
// every parameter of list l named p has the text value v
pred pval(l, p, v) := forall i int :: {ll(l).at[i]} 0 <= i && i < ll(l).n && eqfold(nv(l, i).name, p) ==> nv(l, i).value != nil && nv(l, i).value.(string) == v
// the parameters of h other than those named p are as on entry, in the same order
pred psame(h, p) := h.parameters == old(h.parameters) && ll(h.parameters).n >= old(ll(h.parameters).n) && forall i int :: {old(ll(h.parameters).at)[i]} {ll(h.parameters).at[i]} 0 <= i && i < old(ll(h.parameters).n) ==>
   ll(h.parameters).at[i] == old(ll(h.parameters).at)[i] && nv(h.parameters, i).name == old(nv(h.parameters, i).name) && (!eqfold(nv(h.parameters, i).name, p) ==> nv(h.parameters, i).value == old(nv(h.parameters, i).value))
pred pkept(h) := h.parameters == old(h.parameters) && ll(h.parameters).n == old(ll(h.parameters).n) && forall i int :: {old(ll(h.parameters).at)[i]} {ll(h.parameters).at[i]} 0 <= i && i < old(ll(h.parameters).n) ==>
   ll(h.parameters).at[i] == old(ll(h.parameters).at)[i] && nv(h.parameters, i).name == old(nv(h.parameters, i).name) && nv(h.parameters, i).value == old(nv(h.parameters, i).value)
func header.NewParameters(name) (r)
  props C23 C24
  ensures [C23,C24] empty: fresh(r) && pok(r) && fresh(r.parameters) && r.headerName == name && ll(r.parameters).n == 0 && r.parameters.separator == ";"
func header.Parameters.super(this, name)
  props C23 C24
  requires this != nil
  modifies this.headerName, this.parameters
  ensures [C23,C24] empty: pok(this) && fresh(this.parameters) && this.headerName == name && ll(this.parameters).n == 0 && this.parameters.separator == ";"
func header.Parameters.GetParameter(this, name) (r)
  props C23
  requires pok(this)
  ensures [C23] absent: !named(this.parameters, name) ==> r == ""
  ensures [C23] value: uniq(this.parameters) ==> forall i int :: {ll(this.parameters).at[i]} 0 <= i && i < ll(this.parameters).n && eqfold(nv(this.parameters, i).name, name) ==> r == (nv(this.parameters, i).value == nil ? "" : nv(this.parameters, i).value.(string))
func header.Parameters.GetParameterValue(this, name) (r)
  props C23
  requires pok(this)
  ensures [C23] absent: !named(this.parameters, name) ==> r == ""
  ensures [C23] value: uniq(this.parameters) ==> forall i int :: {ll(this.parameters).at[i]} 0 <= i && i < ll(this.parameters).n && eqfold(nv(this.parameters, i).name, name) ==> r == (nv(this.parameters, i).value == nil ? "" : nv(this.parameters, i).value.(string))
func header.Parameters.HasParameter(this, name) (r)
  props C23
  requires pok(this)
  ensures [C23] has: r <==> named(this.parameters, name)
func header.Parameters.HasParameters(this) (r)
  props C23
  requires this != nil
  ensures [C23] any: r <==> this.parameters != nil && ll(this.parameters).n > 0
func header.Parameters.GetParameters(this) (r)
  props C23
  requires this != nil
  ensures [C23] get: r == this.parameters
func header.Parameters.SetParameters(this, l)
  props C23
  requires this != nil
  modifies this.parameters
  ensures [C23] set: this.parameters == l
func header.Parameters.RemoveParameters(this)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx
  ensures [C23] none: ll(this.parameters).n == 0
func header.Parameters.RemoveParameter(this, name)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(list.Element.owner)
  ensures [C23] valid: pok(this) && (old(uniq(this.parameters)) ==> uniq(this.parameters) && !named(this.parameters, name))
func header.Parameters.SetParameter(this, name, value) (e)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(core.NameValue.value)
  ensures [C23] set: e == nil && pok(this) && named(this.parameters, name)
  ensures [C23] value: old(uniq(this.parameters)) ==> uniq(this.parameters) && pval(this.parameters, name, value)
  ensures [C23] kept: psame(this, name)
func header.NewRetryAfter() (r)
  props C23 C24
  ensures [C24] name: fresh(r) && r != nil && r.headerName == "Retry-After" && r.retryAfter == 0 && r.comment == ""
  ensures [C23,C24] params: pok(r) && fresh(r.parameters) && ll(r.parameters).n == 0
func header.RetryAfter.EncodeBody(this) (r)
  props C24
  requires pok(this) && true
  ensures [C24] body: r == itoa(this.retryAfter) + (this.comment == "" ? "" : " (" + this.comment + ")") + psfx(this.parameters)
func header.RetryAfter.String(this) (r)
  props C24
  requires pok(this) && true
  ensures [C24] line: r == line(this.headerName, itoa(this.retryAfter) + (this.comment == "" ? "" : " (" + this.comment + ")") + psfx(this.parameters))
func header.RetryAfter.SetRetryAfter(this, n) (e)
  props C23
  requires this != nil
  modifies this.retryAfter
  ensures [C23] reject: (n < 0) <==> e != nil
  ensures [C23] kept: e != nil ==> this.retryAfter == old(this.retryAfter)
  ensures [C23] stored: e == nil ==> this.retryAfter == n
func header.RetryAfter.GetRetryAfter(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.retryAfter
func header.RetryAfter.SetComment(this, s) (e)
  props C23
  requires this != nil
  modifies this.comment
  ensures [C23] reject: (s == "") <==> e != nil
  ensures [C23] kept: e != nil ==> this.comment == old(this.comment)
  ensures [C23] stored: e == nil ==> this.comment == s
func header.RetryAfter.GetComment(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.comment
func header.RetryAfter.SetDuration(this, n) (e)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(core.NameValue.value)
  ensures [C23] reject: (n < 0) <==> e != nil
  ensures [C23] kept: e != nil ==> pkept(this)
  ensures [C23] others: e == nil ==> pok(this) && psame(this, "duration")
  ensures [C23] stored: e == nil && old(uniq(this.parameters)) ==> uniq(this.parameters) && named(this.parameters, "duration") && pval(this.parameters, "duration", itoa(n))
func header.RetryAfter.GetDuration(this) (r)
  props C23
  requires pok(this)
  ensures [C23] get: uniq(this.parameters) ==> forall i int :: {ll(this.parameters).at[i]} 0 <= i && i < ll(this.parameters).n && eqfold(nv(this.parameters, i).name, "duration") && nv(this.parameters, i).value != nil ==> isnum(nv(this.parameters, i).value.(string)) ==> r == atoi(nv(this.parameters, i).value.(string))
func header.NewSubscriptionState() (r)
  props C23 C24
  ensures [C24] name: fresh(r) && r != nil && r.headerName == "Subscription-State" && r.expires == -1 && r.retryAfter == -1 && r.reasonCode == "" && r.state == ""
  ensures [C23,C24] params: pok(r) && fresh(r.parameters) && ll(r.parameters).n == 0
func header.SubscriptionState.EncodeBody(this) (r)
  props C24
  requires pok(this) && true
  ensures [C24] body: r == this.state + (this.reasonCode == "" ? "" : ";reason=" + this.reasonCode) + (this.retryAfter == -1 ? "" : ";retry-after=" + itoa(this.retryAfter)) + (this.expires == -1 ? "" : ";expires=" + itoa(this.expires)) + psfx(this.parameters)
func header.SubscriptionState.String(this) (r)
  props C24
  requires pok(this) && true
  ensures [C24] line: r == line(this.headerName, this.state + (this.reasonCode == "" ? "" : ";reason=" + this.reasonCode) + (this.retryAfter == -1 ? "" : ";retry-after=" + itoa(this.retryAfter)) + (this.expires == -1 ? "" : ";expires=" + itoa(this.expires)) + psfx(this.parameters))
func header.SubscriptionState.SetExpires(this, n) (e)
  props C23
  requires this != nil
  modifies this.expires
  ensures [C23] reject: (n <= 0) <==> e != nil
  ensures [C23] kept: e != nil ==> this.expires == old(this.expires)
  ensures [C23] stored: e == nil ==> this.expires == n
func header.SubscriptionState.GetExpires(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.expires
func header.SubscriptionState.SetRetryAfter(this, n) (e)
  props C23
  requires this != nil
  modifies this.retryAfter
  ensures [C23] reject: (n <= 0) <==> e != nil
  ensures [C23] kept: e != nil ==> this.retryAfter == old(this.retryAfter)
  ensures [C23] stored: e == nil ==> this.retryAfter == n
func header.SubscriptionState.GetRetryAfter(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.retryAfter
func header.SubscriptionState.SetReasonCode(this, s) (e)
  props C23
  requires this != nil
  modifies this.reasonCode
  ensures [C23] reject: (s == "") <==> e != nil
  ensures [C23] kept: e != nil ==> this.reasonCode == old(this.reasonCode)
  ensures [C23] stored: e == nil ==> this.reasonCode == s
func header.SubscriptionState.GetReasonCode(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.reasonCode
func header.SubscriptionState.SetState(this, s) (e)
  props C23
  requires this != nil
  modifies this.state
  ensures [C23] reject: (s == "") <==> e != nil
  ensures [C23] kept: e != nil ==> this.state == old(this.state)
  ensures [C23] stored: e == nil ==> this.state == s
func header.SubscriptionState.GetState(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.state
func header.NewEvent() (r)
  props C23 C24
  ensures [C24] name: fresh(r) && r != nil && r.headerName == "Event" && r.eventType == ""
  ensures [C23,C24] params: pok(r) && fresh(r.parameters) && ll(r.parameters).n == 0
func header.Event.EncodeBody(this) (r)
  props C24
  requires pok(this) && true
  ensures [C24] body: r == this.eventType + psfx(this.parameters)
func header.Event.String(this) (r)
  props C24
  requires pok(this) && true
  ensures [C24] line: r == line(this.headerName, this.eventType + psfx(this.parameters))
func header.Event.SetEventType(this, s) (e)
  props C23
  requires this != nil
  modifies this.eventType
  ensures [C23] reject: (s == "") <==> e != nil
  ensures [C23] kept: e != nil ==> this.eventType == old(this.eventType)
  ensures [C23] stored: e == nil ==> this.eventType == s
func header.Event.GetEventType(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.eventType
func header.Event.SetEventId(this, s) (e)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(core.NameValue.value)
  ensures [C23] reject: (s == "") <==> e != nil
  ensures [C23] kept: e != nil ==> pkept(this)
  ensures [C23] others: e == nil ==> pok(this) && psame(this, "id")
  ensures [C23] stored: e == nil && old(uniq(this.parameters)) ==> uniq(this.parameters) && named(this.parameters, "id") && pval(this.parameters, "id", s)
func header.Event.GetEventId(this) (r)
  props C23
  requires pok(this)
  ensures [C23] get: uniq(this.parameters) ==> forall i int :: {ll(this.parameters).at[i]} 0 <= i && i < ll(this.parameters).n && eqfold(nv(this.parameters, i).name, "id") && nv(this.parameters, i).value != nil ==> r == nv(this.parameters, i).value.(string)
func header.NewContentDisposition() (r)
  props C23 C24
  ensures [C24] name: fresh(r) && r != nil && r.headerName == "Content-Disposition" && r.dispositionType == ""
  ensures [C23,C24] params: pok(r) && fresh(r.parameters) && ll(r.parameters).n == 0
func header.ContentDisposition.EncodeBody(this) (r)
  props C24
  requires pok(this) && true
  ensures [C24] body: r == this.dispositionType + psfx(this.parameters)
func header.ContentDisposition.String(this) (r)
  props C24
  requires pok(this) && true
  ensures [C24] line: r == line(this.headerName, this.dispositionType + psfx(this.parameters))
func header.ContentDisposition.SetDispositionType(this, s) (e)
  props C23
  requires this != nil
  modifies this.dispositionType
  ensures [C23] reject: (s == "") <==> e != nil
  ensures [C23] kept: e != nil ==> this.dispositionType == old(this.dispositionType)
  ensures [C23] stored: e == nil ==> this.dispositionType == s
func header.ContentDisposition.GetDispositionType(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.dispositionType
func header.ContentDisposition.SetHandling(this, s) (e)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(core.NameValue.value)
  ensures [C23] reject: (s == "") <==> e != nil
  ensures [C23] kept: e != nil ==> pkept(this)
  ensures [C23] others: e == nil ==> pok(this) && psame(this, "handling")
  ensures [C23] stored: e == nil && old(uniq(this.parameters)) ==> uniq(this.parameters) && named(this.parameters, "handling") && pval(this.parameters, "handling", s)
func header.ContentDisposition.GetHandling(this) (r)
  props C23
  requires pok(this)
  ensures [C23] get: uniq(this.parameters) ==> forall i int :: {ll(this.parameters).at[i]} 0 <= i && i < ll(this.parameters).n && eqfold(nv(this.parameters, i).name, "handling") && nv(this.parameters, i).value != nil ==> r == nv(this.parameters, i).value.(string)
func header.NewReason() (r)
  props C23 C24
  ensures [C24] name: fresh(r) && r != nil && r.headerName == "Reason" && r.protocol == ""
  ensures [C23,C24] params: pok(r) && fresh(r.parameters) && ll(r.parameters).n == 0
func header.Reason.EncodeBody(this) (r)
  props C24
  requires pok(this) && true
  ensures [C24] body: r == this.protocol + psfx(this.parameters)
func header.Reason.String(this) (r)
  props C24
  requires pok(this) && true
  ensures [C24] line: r == line(this.headerName, this.protocol + psfx(this.parameters))
func header.Reason.SetProtocol(this, s) (e)
  props C23
  requires this != nil
  modifies this.protocol
  ensures [C23] reject: e == nil
  ensures [C23] kept: e != nil ==> this.protocol == old(this.protocol)
  ensures [C23] stored: e == nil ==> this.protocol == s
func header.Reason.GetProtocol(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.protocol
func header.Reason.SetCause(this, n) (e)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(core.NameValue.value)
  ensures [C23] reject: (n < 0) <==> e != nil
  ensures [C23] kept: e != nil ==> pkept(this)
  ensures [C23] others: e == nil ==> pok(this) && psame(this, "cause")
  ensures [C23] stored: e == nil && old(uniq(this.parameters)) ==> uniq(this.parameters) && named(this.parameters, "cause") && pval(this.parameters, "cause", itoa(n))
func header.Reason.GetCause(this) (r)
  props C23
  requires pok(this)
  ensures [C23] get: uniq(this.parameters) ==> forall i int :: {ll(this.parameters).at[i]} 0 <= i && i < ll(this.parameters).n && eqfold(nv(this.parameters, i).name, "cause") && nv(this.parameters, i).value != nil ==> isnum(nv(this.parameters, i).value.(string)) ==> r == atoi(nv(this.parameters, i).value.(string))
func header.Reason.SetText(this, s) (e)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(core.NameValue.value)
  ensures [C23] reject: (false) <==> e != nil
  ensures [C23] kept: e != nil ==> pkept(this)
  ensures [C23] others: e == nil ==> pok(this) && psame(this, "text")
  ensures [C23] stored: e == nil && old(uniq(this.parameters)) ==> uniq(this.parameters) && named(this.parameters, "text") && pval(this.parameters, "text", s)
func header.Reason.GetText(this) (r)
  props C23
  requires pok(this)
  ensures [C23] get: uniq(this.parameters) ==> forall i int :: {ll(this.parameters).at[i]} 0 <= i && i < ll(this.parameters).n && eqfold(nv(this.parameters, i).name, "text") && nv(this.parameters, i).value != nil ==> r == nv(this.parameters, i).value.(string)
func header.NewAcceptLanguage() (r)
  props C23 C24
  ensures [C24] name: fresh(r) && r != nil && r.headerName == "Accept-Language" && r.languageRange == ""
  ensures [C23,C24] params: pok(r) && fresh(r.parameters) && ll(r.parameters).n == 0
func header.AcceptLanguage.EncodeBody(this) (r)
  props C24
  requires pok(this) && true
  ensures [C24] body: r == this.languageRange + psfx(this.parameters)
func header.AcceptLanguage.String(this) (r)
  props C24
  requires pok(this) && true
  ensures [C24] line: r == line(this.headerName, this.languageRange + psfx(this.parameters))
func header.NewContentType() (r)
  props C23 C24
  ensures [C24] name: fresh(r) && r != nil && r.headerName == "Content-Type" && r.mediaRange == nil
  ensures [C23,C24] params: pok(r) && fresh(r.parameters) && ll(r.parameters).n == 0
func header.ContentType.EncodeBody(this) (r)
  props C24
  requires pok(this) && this.mediaRange != nil
  ensures [C24] body: r == this.mediaRange.mtype + "/" + this.mediaRange.subtype + psfx(this.parameters)
func header.ContentType.String(this) (r)
  props C24
  requires pok(this) && this.mediaRange != nil
  ensures [C24] line: r == line(this.headerName, this.mediaRange.mtype + "/" + this.mediaRange.subtype + psfx(this.parameters))
func header.ContentType.SetContentType(this, s) (e)
  props C23
  requires this != nil
  modifies this.mediaRange, this.mediaRange.mtype
  ensures [C23] reject: s == "" <==> e != nil
  ensures [C23] kept: e != nil ==> this.mediaRange == old(this.mediaRange) && this.mediaRange.mtype == old(this.mediaRange.mtype)
  ensures [C23] stored: e == nil ==> this.mediaRange != nil && (old(this.mediaRange) == nil ? fresh(this.mediaRange) && this.mediaRange.subtype == "" : this.mediaRange == old(this.mediaRange)) && this.mediaRange.mtype == s
func header.ContentType.SetContentSubType(this, s) (e)
  props C23
  requires this != nil
  modifies this.mediaRange, this.mediaRange.subtype
  ensures [C23] reject: s == "" <==> e != nil
  ensures [C23] kept: e != nil ==> this.mediaRange == old(this.mediaRange) && this.mediaRange.subtype == old(this.mediaRange.subtype)
  ensures [C23] stored: e == nil ==> this.mediaRange != nil && (old(this.mediaRange) == nil ? fresh(this.mediaRange) && this.mediaRange.mtype == "" : this.mediaRange == old(this.mediaRange)) && this.mediaRange.subtype == s
func header.ContentType.GetContentType(this) (r)
  props C23
  requires this != nil
  ensures [C23] get: r == (this.mediaRange == nil ? "" : this.mediaRange.mtype)
func header.ContentType.GetContentSubType(this) (r)
  props C23
  requires this != nil
  ensures [C23] get: r == (this.mediaRange == nil ? "" : this.mediaRange.subtype)
func header.MediaRange.String(this) (r)
  props C24
  requires this != nil
  ensures [C24] text: r == this.mtype + "/" + this.subtype
func header.Protocol.String(this) (r)
  props C24
  requires this != nil
  ensures [C24] text: r == upper(this.protocolName) + "/" + this.protocolVersion + "/" + upper(this.transport)
func header.NewProtocol() (r)
  props C24
  ensures [C24] default: fresh(r) && r != nil && r.protocolName == "SIP" && r.protocolVersion == "2.0" && r.transport == "UDP"
func header.NewVia() (r)
  props C23 C24
  ensures [C24] name: fresh(r) && r != nil && r.headerName == "Via" && r.sentProtocol != nil && r.sentBy == nil && r.comment == ""
  ensures [C23,C24] params: pok(r) && fresh(r.parameters) && ll(r.parameters).n == 0
func header.Via.EncodeBody(this) (r)
  props C24
  requires pok(this) && this.sentProtocol != nil && hpok(this.sentBy)
  ensures [C24] body: r == upper(this.sentProtocol.protocolName) + "/" + this.sentProtocol.protocolVersion + "/" + upper(this.sentProtocol.transport) + " " + hptext(this.sentBy) + (this.comment == "" ? "" : " (" + this.comment + ")") + psfx(this.parameters)
func header.Via.String(this) (r)
  props C24
  requires pok(this) && this.sentProtocol != nil && hpok(this.sentBy)
  ensures [C24] line: r == line(this.headerName, upper(this.sentProtocol.protocolName) + "/" + this.sentProtocol.protocolVersion + "/" + upper(this.sentProtocol.transport) + " " + hptext(this.sentBy) + (this.comment == "" ? "" : " (" + this.comment + ")") + psfx(this.parameters))
func header.Via.SetTTL(this, n) (e)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(core.NameValue.value)
  ensures [C23] reject: (n < 0 && n != -1) <==> e != nil
  ensures [C23] kept: e != nil ==> pkept(this)
  ensures [C23] others: e == nil ==> pok(this) && psame(this, "ttl")
  ensures [C23] stored: e == nil && old(uniq(this.parameters)) ==> uniq(this.parameters) && named(this.parameters, "ttl") && pval(this.parameters, "ttl", itoa(n))
func header.Via.GetTTL(this) (r)
  props C23
  requires pok(this)
  ensures [C23] get: uniq(this.parameters) ==> forall i int :: {ll(this.parameters).at[i]} 0 <= i && i < ll(this.parameters).n && eqfold(nv(this.parameters, i).name, "ttl") && nv(this.parameters, i).value != nil ==> isnum(nv(this.parameters, i).value.(string)) ==> r == atoi(nv(this.parameters, i).value.(string))
func header.Via.SetReceived(this, s) (e)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(core.NameValue.value)
  ensures [C23] reject: (s == "") <==> e != nil
  ensures [C23] kept: e != nil ==> pkept(this)
  ensures [C23] others: e == nil ==> pok(this) && psame(this, "received")
  ensures [C23] stored: e == nil && old(uniq(this.parameters)) ==> uniq(this.parameters) && named(this.parameters, "received") && pval(this.parameters, "received", s)
func header.Via.GetReceived(this) (r)
  props C23
  requires pok(this)
  ensures [C23] get: uniq(this.parameters) ==> forall i int :: {ll(this.parameters).at[i]} 0 <= i && i < ll(this.parameters).n && eqfold(nv(this.parameters, i).name, "received") && nv(this.parameters, i).value != nil ==> r == nv(this.parameters, i).value.(string)
func header.Via.SetBranch(this, s) (e)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(core.NameValue.value)
  ensures [C23] reject: (s == "") <==> e != nil
  ensures [C23] kept: e != nil ==> pkept(this)
  ensures [C23] others: e == nil ==> pok(this) && psame(this, "branch")
  ensures [C23] stored: e == nil && old(uniq(this.parameters)) ==> uniq(this.parameters) && named(this.parameters, "branch") && pval(this.parameters, "branch", s)
func header.Via.GetBranch(this) (r)
  props C23
  requires pok(this)
  ensures [C23] get: uniq(this.parameters) ==> forall i int :: {ll(this.parameters).at[i]} 0 <= i && i < ll(this.parameters).n && eqfold(nv(this.parameters, i).name, "branch") && nv(this.parameters, i).value != nil ==> r == nv(this.parameters, i).value.(string)
func header.Via.GetMAddr(this) (r)
  props C23
  requires pok(this)
  ensures [C23] get: uniq(this.parameters) ==> forall i int :: {ll(this.parameters).at[i]} 0 <= i && i < ll(this.parameters).n && eqfold(nv(this.parameters, i).name, "maddr") && nv(this.parameters, i).value != nil ==> r == nv(this.parameters, i).value.(string)
func header.Via.RemovePort(this)
  props C23
  requires this != nil
  modifies every(core.HostPort.port)
  ensures [C23] host-kept: this.sentBy == old(this.sentBy) && (this.sentBy != nil ==> this.sentBy.port == -1)
func header.Via.HasPort(this) (r)
  props C23
  requires this != nil
  ensures [C23] has: r <==> this.sentBy != nil && this.sentBy.port != -1
func header.Via.GetPort(this) (r)
  props C23
  requires this != nil
  ensures [C23] get: r == (this.sentBy == nil ? -1 : this.sentBy.port)
func header.Via.SetPort(this, n)
  props C23
  requires this != nil
  modifies this.sentBy, every(core.HostPort.port)
  ensures [C23] set: this.sentBy != nil && this.sentBy.port == n && (old(this.sentBy) != nil ==> this.sentBy == old(this.sentBy))
func header.Contact.SetExpires(this, n) (e)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(core.NameValue.value)
  ensures [C23] reject: (n < 0) <==> e != nil
  ensures [C23] kept: e != nil ==> pkept(this)
  ensures [C23] others: e == nil ==> pok(this) && psame(this, "expires")
  ensures [C23] stored: e == nil && old(uniq(this.parameters)) ==> uniq(this.parameters) && named(this.parameters, "expires") && pval(this.parameters, "expires", itoa(n))
func header.Contact.GetExpires(this) (r)
  props C23
  requires pok(this)
  ensures [C23] get: uniq(this.parameters) ==> forall i int :: {ll(this.parameters).at[i]} 0 <= i && i < ll(this.parameters).n && eqfold(nv(this.parameters, i).name, "expires") && nv(this.parameters, i).value != nil ==> isnum(nv(this.parameters, i).value.(string)) ==> r == atoi(nv(this.parameters, i).value.(string))
func header.Contact.SetQValue(this, q) (e)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(core.NameValue.value)
  ensures [C23] reject: (q < 0 || q > 1) <==> e != nil
  ensures [C23] kept: e != nil ==> pkept(this)
  ensures [C23] others: e == nil ==> pok(this) && psame(this, "q")
  ensures [C23] stored: e == nil && old(uniq(this.parameters)) ==> uniq(this.parameters) && named(this.parameters, "q") && pval(this.parameters, "q", ftoa(q, 102, -1, 32))
func header.Contact.GetQValue(this) (r)
  props C23
  requires pok(this)
  ensures [C23] get: uniq(this.parameters) ==> forall i int :: {ll(this.parameters).at[i]} 0 <= i && i < ll(this.parameters).n && eqfold(nv(this.parameters, i).name, "q") && nv(this.parameters, i).value != nil ==> nv(this.parameters, i).value.(string) == ftoa(f32of(atof(nv(this.parameters, i).value.(string), 32)), 102, -1, 32) ==> r == f32of(atof(nv(this.parameters, i).value.(string), 32))
func header.Accept.SetQValue(this, q) (e)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(core.NameValue.value)
  ensures [C23] reject: (q < 0 || q > 1) <==> e != nil
  ensures [C23] kept: e != nil ==> pkept(this)
  ensures [C23] others: e == nil ==> pok(this) && psame(this, "q")
  ensures [C23] stored: e == nil && old(uniq(this.parameters)) ==> uniq(this.parameters) && named(this.parameters, "q") && pval(this.parameters, "q", ftoa(q, 102, -1, 32))
func header.Accept.GetQValue(this) (r)
  props C23
  requires pok(this)
  ensures [C23] get: uniq(this.parameters) ==> forall i int :: {ll(this.parameters).at[i]} 0 <= i && i < ll(this.parameters).n && eqfold(nv(this.parameters, i).name, "q") && nv(this.parameters, i).value != nil ==> nv(this.parameters, i).value.(string) == ftoa(f32of(atof(nv(this.parameters, i).value.(string), 32)), 102, -1, 32) ==> r == f32of(atof(nv(this.parameters, i).value.(string), 32))
func header.AcceptEncoding.SetQValue(this, q) (e)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(core.NameValue.value)
  ensures [C23] reject: (q < 0 || q > 1) <==> e != nil
  ensures [C23] kept: e != nil ==> pkept(this)
  ensures [C23] others: e == nil ==> pok(this) && psame(this, "q")
  ensures [C23] stored: e == nil && old(uniq(this.parameters)) ==> uniq(this.parameters) && named(this.parameters, "q") && pval(this.parameters, "q", ftoa(q, 102, -1, 32))
func header.AcceptEncoding.GetQValue(this) (r)
  props C23
  requires pok(this)
  ensures [C23] get: uniq(this.parameters) ==> forall i int :: {ll(this.parameters).at[i]} 0 <= i && i < ll(this.parameters).n && eqfold(nv(this.parameters, i).name, "q") && nv(this.parameters, i).value != nil ==> nv(this.parameters, i).value.(string) == ftoa(f32of(atof(nv(this.parameters, i).value.(string), 32)), 102, -1, 32) ==> r == f32of(atof(nv(this.parameters, i).value.(string), 32))
func header.AcceptLanguage.SetQValue(this, q) (e)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(core.NameValue.value)
  ensures [C23] reject: (q < 0 || q > 1) <==> e != nil
  ensures [C23] kept: e != nil ==> pkept(this)
  ensures [C23] others: e == nil ==> pok(this) && psame(this, "q")
  ensures [C23] stored: e == nil && old(uniq(this.parameters)) ==> uniq(this.parameters) && named(this.parameters, "q") && pval(this.parameters, "q", ftoa(q, 102, -1, 32))
func header.AcceptLanguage.GetQValue(this) (r)
  props C23
  requires pok(this)
  ensures [C23] get: uniq(this.parameters) ==> forall i int :: {ll(this.parameters).at[i]} 0 <= i && i < ll(this.parameters).n && eqfold(nv(this.parameters, i).name, "q") && nv(this.parameters, i).value != nil ==> nv(this.parameters, i).value.(string) == ftoa(f32of(atof(nv(this.parameters, i).value.(string), 32)), 102, -1, 32) ==> r == f32of(atof(nv(this.parameters, i).value.(string), 32))
func header.NewTimeStamp() (r)
  props C24
  ensures [C24] name: fresh(r) && r != nil && r.headerName == "Timestamp" && r.delay == -1
func header.TimeStamp.EncodeBody(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] body: r == ftoa(this.timeStamp, 102, -1, 32) + (this.delay == -1 ? "" : " " + ftoa(this.delay, 102, -1, 32))
func header.TimeStamp.String(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] line: r == line(this.headerName, ftoa(this.timeStamp, 102, -1, 32) + (this.delay == -1 ? "" : " " + ftoa(this.delay, 102, -1, 32)))
func header.TimeStamp.SetTimeStamp(this, t) (e)
  props C23
  requires this != nil
  modifies this.timeStamp
  ensures [C23] reject: (t < 0) <==> e != nil
  ensures [C23] kept: e != nil ==> this.timeStamp == old(this.timeStamp)
  ensures [C23] stored: e == nil ==> this.timeStamp == t
func header.TimeStamp.GetTimeStamp(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.timeStamp
func header.TimeStamp.SetDelay(this, t) (e)
  props C23
  requires this != nil
  modifies this.delay
  ensures [C23] reject: (t < 0 && !(t == -1)) <==> e != nil
  ensures [C23] kept: e != nil ==> this.delay == old(this.delay)
  ensures [C23] stored: e == nil ==> this.delay == t
func header.TimeStamp.GetDelay(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.delay
pred quotesAuthentication(s) := s == "qop" || s == "realm" || s == "cnonce" || s == "nonce" || s == "username" || s == "domain" || s == "opaque" || s == "nextnonce" || s == "uri" || s == "algorithm" || s == "response"
func header.Authentication.SetParameter(this, name, value) (e)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(core.NameValue.value), every(list.Element.owner)
  ensures [C23] reject: e != nil <==> name == "" || (old(!named(this.parameters, lower(name))) && quotesAuthentication(lower(name)) && len(value) > 0 && value[0] == 34)
  ensures [C23] kept: e != nil ==> pkept(this)
  ensures [C23] valid: pok(this) && this.parameters == old(this.parameters)
  ensures [C23] other-lists: forall e int :: {as(e, *list.Element).owner} old(allocated(e)) && old(as(e, *list.Element).owner) != ref(ll(this.parameters)) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
  ensures [C23] stored: e == nil && old(uniq(this.parameters)) && lower(name) == name ==> uniq(this.parameters) && named(this.parameters, name) && pval(this.parameters, name, value)
pred quotesAuthenticationInfo(s) := s == "qop" || s == "nextnonce" || s == "realm" || s == "cnonce" || s == "nonce" || s == "opaque" || s == "username" || s == "domain" || s == "algorithm" || s == "rspauth"
func header.AuthenticationInfo.SetParameter(this, name, value) (e)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(core.NameValue.value), every(list.Element.owner)
  ensures [C23] reject: e != nil <==> name == "" || (old(!named(this.parameters, lower(name))) && quotesAuthenticationInfo(lower(name)) && len(value) > 0 && value[0] == 34)
  ensures [C23] kept: e != nil ==> pkept(this)
  ensures [C23] valid: pok(this) && this.parameters == old(this.parameters)
  ensures [C23] other-lists: forall e int :: {as(e, *list.Element).owner} old(allocated(e)) && old(as(e, *list.Element).owner) != ref(ll(this.parameters)) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
  ensures [C23] stored: e == nil && old(uniq(this.parameters)) && lower(name) == name ==> uniq(this.parameters) && named(this.parameters, name) && pval(this.parameters, name, value)
func header.Authentication.SetRealm(this, s) (e)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(core.NameValue.value), every(list.Element.owner)
  ensures [C23] reject: e != nil <==> s == "" || (old(!named(this.parameters, "realm")) && len(s) > 0 && s[0] == 34)
  ensures [C23] kept: e != nil ==> pkept(this)
  ensures [C23] stored: e == nil && old(uniq(this.parameters)) ==> uniq(this.parameters) && named(this.parameters, "realm") && pval(this.parameters, "realm", s)
func header.Authentication.GetRealm(this) (r)
  props C23
  requires pok(this)
  ensures [C23] get: uniq(this.parameters) ==> forall i int :: {ll(this.parameters).at[i]} 0 <= i && i < ll(this.parameters).n && eqfold(nv(this.parameters, i).name, "realm") && nv(this.parameters, i).value != nil ==> r == nv(this.parameters, i).value.(string)
func header.Authentication.SetNonce(this, s) (e)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(core.NameValue.value), every(list.Element.owner)
  ensures [C23] reject: e != nil <==> s == "" || (old(!named(this.parameters, "nonce")) && len(s) > 0 && s[0] == 34)
  ensures [C23] kept: e != nil ==> pkept(this)
  ensures [C23] stored: e == nil && old(uniq(this.parameters)) ==> uniq(this.parameters) && named(this.parameters, "nonce") && pval(this.parameters, "nonce", s)
func header.Authentication.GetNonce(this) (r)
  props C23
  requires pok(this)
  ensures [C23] get: uniq(this.parameters) ==> forall i int :: {ll(this.parameters).at[i]} 0 <= i && i < ll(this.parameters).n && eqfold(nv(this.parameters, i).name, "nonce") && nv(this.parameters, i).value != nil ==> r == nv(this.parameters, i).value.(string)
func header.Authentication.SetAlgorithm(this, s) (e)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(core.NameValue.value), every(list.Element.owner)
  ensures [C23] reject: e != nil <==> s == "" || (old(!named(this.parameters, "algorithm")) && len(s) > 0 && s[0] == 34)
  ensures [C23] kept: e != nil ==> pkept(this)
  ensures [C23] stored: e == nil && old(uniq(this.parameters)) ==> uniq(this.parameters) && named(this.parameters, "algorithm") && pval(this.parameters, "algorithm", s)
func header.Authentication.GetAlgorithm(this) (r)
  props C23
  requires pok(this)
  ensures [C23] get: uniq(this.parameters) ==> forall i int :: {ll(this.parameters).at[i]} 0 <= i && i < ll(this.parameters).n && eqfold(nv(this.parameters, i).name, "algorithm") && nv(this.parameters, i).value != nil ==> r == nv(this.parameters, i).value.(string)
func header.Authentication.SetQop(this, s) (e)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(core.NameValue.value), every(list.Element.owner)
  ensures [C23] reject: e != nil <==> s == "" || (old(!named(this.parameters, "qop")) && len(s) > 0 && s[0] == 34)
  ensures [C23] kept: e != nil ==> pkept(this)
  ensures [C23] stored: e == nil && old(uniq(this.parameters)) ==> uniq(this.parameters) && named(this.parameters, "qop") && pval(this.parameters, "qop", s)
func header.Authentication.GetQop(this) (r)
  props C23
  requires pok(this)
  ensures [C23] get: uniq(this.parameters) ==> forall i int :: {ll(this.parameters).at[i]} 0 <= i && i < ll(this.parameters).n && eqfold(nv(this.parameters, i).name, "qop") && nv(this.parameters, i).value != nil ==> r == nv(this.parameters, i).value.(string)
func header.Authentication.SetOpaque(this, s) (e)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(core.NameValue.value), every(list.Element.owner)
  ensures [C23] reject: e != nil <==> s == "" || (old(!named(this.parameters, "opaque")) && len(s) > 0 && s[0] == 34)
  ensures [C23] kept: e != nil ==> pkept(this)
  ensures [C23] stored: e == nil && old(uniq(this.parameters)) ==> uniq(this.parameters) && named(this.parameters, "opaque") && pval(this.parameters, "opaque", s)
func header.Authentication.GetOpaque(this) (r)
  props C23
  requires pok(this)
  ensures [C23] get: uniq(this.parameters) ==> forall i int :: {ll(this.parameters).at[i]} 0 <= i && i < ll(this.parameters).n && eqfold(nv(this.parameters, i).name, "opaque") && nv(this.parameters, i).value != nil ==> r == nv(this.parameters, i).value.(string)
func header.Authentication.SetDomain(this, s) (e)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(core.NameValue.value), every(list.Element.owner)
  ensures [C23] reject: e != nil <==> s == "" || (old(!named(this.parameters, "domain")) && len(s) > 0 && s[0] == 34)
  ensures [C23] kept: e != nil ==> pkept(this)
  ensures [C23] stored: e == nil && old(uniq(this.parameters)) ==> uniq(this.parameters) && named(this.parameters, "domain") && pval(this.parameters, "domain", s)
func header.Authentication.GetDomain(this) (r)
  props C23
  requires pok(this)
  ensures [C23] get: uniq(this.parameters) ==> forall i int :: {ll(this.parameters).at[i]} 0 <= i && i < ll(this.parameters).n && eqfold(nv(this.parameters, i).name, "domain") && nv(this.parameters, i).value != nil ==> r == nv(this.parameters, i).value.(string)
func header.Authentication.SetCNonce(this, s) (e)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(core.NameValue.value), every(list.Element.owner)
  ensures [C23] reject: e != nil <==> (old(!named(this.parameters, "cnonce")) && len(s) > 0 && s[0] == 34)
  ensures [C23] kept: e != nil ==> pkept(this)
  ensures [C23] stored: e == nil && old(uniq(this.parameters)) ==> uniq(this.parameters) && named(this.parameters, "cnonce") && pval(this.parameters, "cnonce", s)
func header.Authentication.GetCNonce(this) (r)
  props C23
  requires pok(this)
  ensures [C23] get: uniq(this.parameters) ==> forall i int :: {ll(this.parameters).at[i]} 0 <= i && i < ll(this.parameters).n && eqfold(nv(this.parameters, i).name, "cnonce") && nv(this.parameters, i).value != nil ==> r == nv(this.parameters, i).value.(string)
func header.Authentication.SetResponse(this, s) (e)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(core.NameValue.value), every(list.Element.owner)
  ensures [C23] reject: e != nil <==> s == "" || (old(!named(this.parameters, "response")) && len(s) > 0 && s[0] == 34)
  ensures [C23] kept: e != nil ==> pkept(this)
  ensures [C23] stored: e == nil && old(uniq(this.parameters)) ==> uniq(this.parameters) && named(this.parameters, "response") && pval(this.parameters, "response", s)
func header.Authentication.GetResponse(this) (r)
  props C23
  requires pok(this)
  ensures [C23] get: uniq(this.parameters) ==> forall i int :: {ll(this.parameters).at[i]} 0 <= i && i < ll(this.parameters).n && eqfold(nv(this.parameters, i).name, "response") && nv(this.parameters, i).value != nil ==> r == nv(this.parameters, i).value.(string)
func header.Authentication.SetUsername(this, s) (e)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(core.NameValue.value), every(list.Element.owner)
  ensures [C23] reject: e != nil <==> (old(!named(this.parameters, "username")) && len(s) > 0 && s[0] == 34)
  ensures [C23] kept: e != nil ==> pkept(this)
  ensures [C23] stored: e == nil && old(uniq(this.parameters)) ==> uniq(this.parameters) && named(this.parameters, "username") && pval(this.parameters, "username", s)
func header.Authentication.GetUsername(this) (r)
  props C23
  requires pok(this)
  ensures [C23] get: uniq(this.parameters) ==> forall i int :: {ll(this.parameters).at[i]} 0 <= i && i < ll(this.parameters).n && eqfold(nv(this.parameters, i).name, "username") && nv(this.parameters, i).value != nil ==> r == nv(this.parameters, i).value.(string)
func header.AuthenticationInfo.SetCNonce(this, s) (e)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(core.NameValue.value), every(list.Element.owner)
  ensures [C23] reject: e != nil <==> (old(!named(this.parameters, "cnonce")) && len(s) > 0 && s[0] == 34)
  ensures [C23] kept: e != nil ==> pkept(this)
  ensures [C23] stored: e == nil && old(uniq(this.parameters)) ==> uniq(this.parameters) && named(this.parameters, "cnonce") && pval(this.parameters, "cnonce", s)
func header.AuthenticationInfo.GetCNonce(this) (r)
  props C23
  requires pok(this)
  ensures [C23] get: uniq(this.parameters) ==> forall i int :: {ll(this.parameters).at[i]} 0 <= i && i < ll(this.parameters).n && eqfold(nv(this.parameters, i).name, "cnonce") && nv(this.parameters, i).value != nil ==> r == nv(this.parameters, i).value.(string)
func header.AuthenticationInfo.SetNextNonce(this, s) (e)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(core.NameValue.value), every(list.Element.owner)
  ensures [C23] reject: e != nil <==> (old(!named(this.parameters, "nextnonce")) && len(s) > 0 && s[0] == 34)
  ensures [C23] kept: e != nil ==> pkept(this)
  ensures [C23] stored: e == nil && old(uniq(this.parameters)) ==> uniq(this.parameters) && named(this.parameters, "nextnonce") && pval(this.parameters, "nextnonce", s)
func header.AuthenticationInfo.GetNextNonce(this) (r)
  props C23
  requires pok(this)
  ensures [C23] get: uniq(this.parameters) ==> forall i int :: {ll(this.parameters).at[i]} 0 <= i && i < ll(this.parameters).n && eqfold(nv(this.parameters, i).name, "nextnonce") && nv(this.parameters, i).value != nil ==> r == nv(this.parameters, i).value.(string)
func header.AuthenticationInfo.SetQop(this, s) (e)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(core.NameValue.value), every(list.Element.owner)
  ensures [C23] reject: e != nil <==> (old(!named(this.parameters, "qop")) && len(s) > 0 && s[0] == 34)
  ensures [C23] kept: e != nil ==> pkept(this)
  ensures [C23] stored: e == nil && old(uniq(this.parameters)) ==> uniq(this.parameters) && named(this.parameters, "qop") && pval(this.parameters, "qop", s)
func header.AuthenticationInfo.GetQop(this) (r)
  props C23
  requires pok(this)
  ensures [C23] get: uniq(this.parameters) ==> forall i int :: {ll(this.parameters).at[i]} 0 <= i && i < ll(this.parameters).n && eqfold(nv(this.parameters, i).name, "qop") && nv(this.parameters, i).value != nil ==> r == nv(this.parameters, i).value.(string)
func header.AuthenticationInfo.SetResponse(this, s) (e)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(core.NameValue.value), every(list.Element.owner)
  ensures [C23] reject: e != nil <==> (old(!named(this.parameters, "rspauth")) && len(s) > 0 && s[0] == 34)
  ensures [C23] kept: e != nil ==> pkept(this)
  ensures [C23] stored: e == nil && old(uniq(this.parameters)) ==> uniq(this.parameters) && named(this.parameters, "rspauth") && pval(this.parameters, "rspauth", s)
func header.AuthenticationInfo.GetResponse(this) (r)
  props C23
  requires pok(this)
  ensures [C23] get: uniq(this.parameters) ==> forall i int :: {ll(this.parameters).at[i]} 0 <= i && i < ll(this.parameters).n && eqfold(nv(this.parameters, i).name, "rspauth") && nv(this.parameters, i).value != nil ==> r == nv(this.parameters, i).value.(string)
func header.Authentication.SetNonceCount(this, n) (e)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(core.NameValue.value), every(list.Element.owner)
  ensures [C23] reject: e != nil <==> n < 0 || n > 4294967295
  ensures [C23] kept: e != nil ==> pkept(this)
  ensures [C23] stored: e == nil && old(uniq(this.parameters)) ==> uniq(this.parameters) && named(this.parameters, "nc") && pval(this.parameters, "nc", "00000000"[0:8 - len(hex(n))] + hex(n))
func header.Authentication.GetNonceCount(this) (r)
  props C23
  requires pok(this)
  ensures [C23] get: uniq(this.parameters) ==> forall i int :: {ll(this.parameters).at[i]} 0 <= i && i < ll(this.parameters).n && eqfold(nv(this.parameters, i).name, "nc") && nv(this.parameters, i).value != nil ==> ishex(nv(this.parameters, i).value.(string)) ==> r == unhex(nv(this.parameters, i).value.(string))
func header.AuthenticationInfo.SetNonceCount(this, n) (e)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(core.NameValue.value), every(list.Element.owner)
  ensures [C23] reject: e != nil <==> n < 0 || n > 4294967295
  ensures [C23] kept: e != nil ==> pkept(this)
  ensures [C23] stored: e == nil && old(uniq(this.parameters)) ==> uniq(this.parameters) && named(this.parameters, "nc") && pval(this.parameters, "nc", "00000000"[0:8 - len(hex(n))] + hex(n))
func header.AuthenticationInfo.GetNonceCount(this) (r)
  props C23
  requires pok(this)
  ensures [C23] get: uniq(this.parameters) ==> forall i int :: {ll(this.parameters).at[i]} 0 <= i && i < ll(this.parameters).n && eqfold(nv(this.parameters, i).name, "nc") && nv(this.parameters, i).value != nil ==> ishex(nv(this.parameters, i).value.(string)) ==> r == unhex(nv(this.parameters, i).value.(string))
func header.Authentication.EncodeBody(this) (r)
  props C24
  requires pok(this) && true
  ensures [C24] body: r == this.scheme + " " + ptext(this.parameters)
func header.Authentication.String(this) (r)
  props C24
  requires pok(this) && true
  ensures [C24] line: r == line(this.headerName, this.scheme + " " + ptext(this.parameters))
func header.AuthenticationInfo.EncodeBody(this) (r)
  props C24
  requires pok(this) && true
  ensures [C24] body: r == ptext(this.parameters)
func header.AuthenticationInfo.String(this) (r)
  props C24
  requires pok(this) && true
  ensures [C24] line: r == line(this.headerName, ptext(this.parameters))
func header.NewAcceptEncoding() (r)
  props C23 C24
  ensures [C24] name: fresh(r) && r != nil && r.headerName == "Accept-Encoding" && r.contentCoding == ""
  ensures [C23,C24] params: pok(r) && fresh(r.parameters) && ll(r.parameters).n == 0
func header.AcceptEncoding.EncodeBody(this) (r)
  props C24
  requires pok(this) && true
  ensures [C24] body: r == this.contentCoding + psfx(this.parameters)
func header.AcceptEncoding.String(this) (r)
  props C24
  requires pok(this) && true
  ensures [C24] line: r == line(this.headerName, this.contentCoding + psfx(this.parameters))
func header.AcceptEncoding.SetEncoding(this, s) (e)
  props C23
  requires this != nil
  modifies this.contentCoding
  ensures [C23] reject: (s == "") <==> e != nil
  ensures [C23] kept: e != nil ==> this.contentCoding == old(this.contentCoding)
  ensures [C23] stored: e == nil ==> this.contentCoding == s
func header.AcceptEncoding.GetEncoding(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.contentCoding
func header.NewAccept() (r)
  props C23 C24
  ensures [C24] name: fresh(r) && r != nil && r.headerName == "Accept" && r.mediaRange == nil
  ensures [C23,C24] params: pok(r) && fresh(r.parameters) && ll(r.parameters).n == 0
func header.Accept.EncodeBody(this) (r)
  props C24
  requires pok(this) && true
  ensures [C24] body: r == (this.mediaRange == nil ? "" : this.mediaRange.mtype + "/" + this.mediaRange.subtype) + psfx(this.parameters)
func header.Accept.String(this) (r)
  props C24
  requires pok(this) && true
  ensures [C24] line: r == line(this.headerName, (this.mediaRange == nil ? "" : this.mediaRange.mtype + "/" + this.mediaRange.subtype) + psfx(this.parameters))
func header.CallInfo.SetPurpose(this, s) (e)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(core.NameValue.value)
  ensures [C23] reject: (s == "") <==> e != nil
  ensures [C23] kept: e != nil ==> pkept(this)
  ensures [C23] others: e == nil ==> pok(this) && psame(this, "purpose")
  ensures [C23] stored: e == nil && old(uniq(this.parameters)) ==> uniq(this.parameters) && named(this.parameters, "purpose") && pval(this.parameters, "purpose", s)
func header.CallInfo.GetPurpose(this) (r)
  props C23
  requires pok(this)
  ensures [C23] get: uniq(this.parameters) ==> forall i int :: {ll(this.parameters).at[i]} 0 <= i && i < ll(this.parameters).n && eqfold(nv(this.parameters, i).name, "purpose") && nv(this.parameters, i).value != nil ==> r == nv(this.parameters, i).value.(string)
func header.ErrorInfo.SetErrorMessage(this, s) (e)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(core.NameValue.value)
  ensures [C23] reject: (s == "") <==> e != nil
  ensures [C23] kept: e != nil ==> pkept(this)
  ensures [C23] others: e == nil ==> pok(this) && psame(this, "message")
  ensures [C23] stored: e == nil && old(uniq(this.parameters)) ==> uniq(this.parameters) && named(this.parameters, "message") && pval(this.parameters, "message", s)
func header.ErrorInfo.GetErrorMessage(this) (r)
  props C23
  requires pok(this)
  ensures [C23] get: uniq(this.parameters) ==> forall i int :: {ll(this.parameters).at[i]} 0 <= i && i < ll(this.parameters).n && eqfold(nv(this.parameters, i).name, "message") && nv(this.parameters, i).value != nil ==> r == nv(this.parameters, i).value.(string)
func header.From.SetTag(this, s) (e)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(core.NameValue.value)
  ensures [C23] reject: (s == "" || trim(s) == "") <==> e != nil
  ensures [C23] kept: e != nil ==> pkept(this)
  ensures [C23] others: e == nil ==> pok(this) && psame(this, "tag")
  ensures [C23] stored: e == nil && old(uniq(this.parameters)) ==> uniq(this.parameters) && named(this.parameters, "tag") && pval(this.parameters, "tag", s)
func header.From.GetTag(this) (r)
  props C23 C22
  requires pok(this)
  ensures [C22] look: plook(this.parameters, "tag", r)
  ensures [C23] get: uniq(this.parameters) ==> forall i int :: {ll(this.parameters).at[i]} 0 <= i && i < ll(this.parameters).n && eqfold(nv(this.parameters, i).name, "tag") && nv(this.parameters, i).value != nil ==> r == nv(this.parameters, i).value.(string)
func header.From.HasTag(this) (r)
  props C23
  requires pok(this)
  ensures [C23] has: r <==> named(this.parameters, "tag")
func header.To.SetTag(this, s) (e)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(core.NameValue.value)
  ensures [C23] reject: (s == "" || trim(s) == "") <==> e != nil
  ensures [C23] kept: e != nil ==> pkept(this)
  ensures [C23] others: e == nil ==> pok(this) && psame(this, "tag")
  ensures [C23] stored: e == nil && old(uniq(this.parameters)) ==> uniq(this.parameters) && named(this.parameters, "tag") && pval(this.parameters, "tag", s)
func header.To.GetTag(this) (r)
  props C23 C22
  requires pok(this)
  ensures [C22] look: plook(this.parameters, "tag", r)
  ensures [C23] get: uniq(this.parameters) ==> forall i int :: {ll(this.parameters).at[i]} 0 <= i && i < ll(this.parameters).n && eqfold(nv(this.parameters, i).name, "tag") && nv(this.parameters, i).value != nil ==> r == nv(this.parameters, i).value.(string)
func header.To.HasTag(this) (r)
  props C23
  requires pok(this)
  ensures [C23] has: r <==> named(this.parameters, "tag")
func header.NewContentLanguage() (r)
  props C24
  ensures [C24] name: fresh(r) && r != nil && r.headerName == "Content-Language" && r.locale == ""
func header.ContentLanguage.EncodeBody(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] body: r == this.locale
func header.ContentLanguage.String(this) (r)
  props C24
  requires this != nil && true
  ensures [C24] line: r == line(this.headerName, this.locale)
func header.ContentLanguage.SetLanguageTag(this, s)
  props C23
  requires this != nil
  modifies this.locale
  ensures [C23] stored: this.locale == s
func header.ContentLanguage.SetContentLanguage(this, s)
  props C23
  requires this != nil
  modifies this.locale
  ensures [C23] stored: this.locale == s
func header.ContentLanguage.GetLanguageTag(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.locale
func header.ContentLanguage.GetContentLanguage(this) (r)
  props C23
  requires this != nil && true
  ensures [C23] get: r == this.locale
func header.NewExtension(name) (r)
  props C24
  ensures [C24] name: fresh(r) && r != nil && r.headerName == name && r.value == ""
func header.Extension.SetValue(this, s)
  props C24
  requires this != nil
  modifies this.value
  ensures [C24] set: this.value == s
func header.Extension.String(this) (r)
  props C24
  requires this != nil
  ensures [C24] line: r == line(this.headerName, this.value)
pred prods(h) := h != nil && h.productTokens != nil && lwf(h.productTokens) && ltag(ref(h.productTokens)) == 0 && forall i int :: {h.productTokens.at[i]} 0 <= i && i < h.productTokens.n ==> typeis(val(h.productTokens, i), string)
func header.NewServer() (r)
  props C24
  ensures [C24] name: fresh(r) && r.headerName == "Server" && prods(r) && fresh(r.productTokens) && r.productTokens.n == 0
func header.Server.AddProductToken(this, s)
  props C24
  requires prods(this)
  modifies this.productTokens.n, this.productTokens.at, this.productTokens.idx
  ensures [C24] last: prods(this) && this.productTokens.n == old(this.productTokens.n) + 1 && val(this.productTokens, old(this.productTokens.n)).(string) == s
  ensures [C24] others: forall i int :: {this.productTokens.at[i]} 0 <= i && i < old(this.productTokens.n) ==> this.productTokens.at[i] == old(this.productTokens.at[i])
func header.Server.SetProduct(this, p) (e)
  props C23
  requires this != nil
  modifies this.productTokens
  ensures [C23] reject: p == nil <==> e != nil
  ensures [C23] kept: e != nil ==> this.productTokens == old(this.productTokens)
  ensures [C23] stored: e == nil ==> this.productTokens == p
func header.Server.GetProduct(this) (r)
  props C23
  requires this != nil
  ensures [C23] get: r == (this.productTokens == nil || this.productTokens.n == 0 ? nil : this.productTokens)
func header.Server.EncodeProduct(this) (r)
  props C24
  requires prods(this)
  let A := array i int :: val(this.productTokens, i).(string)
  inv <e *list.Element, b *bytes.Buffer> e == nil ? b.s == join(A, this.productTokens.n, "/") : b.s == (this.productTokens.idx[ref(e)] == 0 ? "" : join(A, this.productTokens.idx[ref(e)], "/") + "/")
  ensures [C24] text: r == join(A, this.productTokens.n, "/")
func header.Server.EncodeBody(this) (r)
  props C24
  requires prods(this)
  ensures [C24] body: r == join((array i int :: val(this.productTokens, i).(string)), this.productTokens.n, "/")
func header.Server.String(this) (r)
  props C24
  requires prods(this)
  ensures [C24] line: r == line(this.headerName, join((array i int :: val(this.productTokens, i).(string)), this.productTokens.n, "/"))
func header.NewUserAgent() (r)
  props C24
  ensures [C24] name: fresh(r) && r.headerName == "User-Agent" && prods(r) && fresh(r.productTokens) && r.productTokens.n == 0
func header.UserAgent.AddProductToken(this, s)
  props C24
  requires prods(this)
  modifies this.productTokens.n, this.productTokens.at, this.productTokens.idx
  ensures [C24] last: prods(this) && this.productTokens.n == old(this.productTokens.n) + 1 && val(this.productTokens, old(this.productTokens.n)).(string) == s
  ensures [C24] others: forall i int :: {this.productTokens.at[i]} 0 <= i && i < old(this.productTokens.n) ==> this.productTokens.at[i] == old(this.productTokens.at[i])
func header.UserAgent.SetProduct(this, p) (e)
  props C23
  requires this != nil
  modifies this.productTokens
  ensures [C23] reject: p == nil <==> e != nil
  ensures [C23] kept: e != nil ==> this.productTokens == old(this.productTokens)
  ensures [C23] stored: e == nil ==> this.productTokens == p
func header.UserAgent.GetProduct(this) (r)
  props C23
  requires this != nil
  ensures [C23] get: r == (this.productTokens == nil || this.productTokens.n == 0 ? nil : this.productTokens)
func header.UserAgent.EncodeProduct(this) (r)
  props C24
  requires prods(this)
  let A := array i int :: val(this.productTokens, i).(string)
  inv <e *list.Element, b *bytes.Buffer> e == nil ? b.s == join(A, this.productTokens.n, "/") : b.s == (this.productTokens.idx[ref(e)] == 0 ? "" : join(A, this.productTokens.idx[ref(e)], "/") + "/")
  ensures [C24] text: r == join(A, this.productTokens.n, "/")
func header.UserAgent.EncodeBody(this) (r)
  props C24
  requires prods(this)
  ensures [C24] body: r == join((array i int :: val(this.productTokens, i).(string)), this.productTokens.n, "/")
func header.UserAgent.String(this) (r)
  props C24
  requires prods(this)
  ensures [C24] line: r == line(this.headerName, join((array i int :: val(this.productTokens, i).(string)), this.productTokens.n, "/"))
func header.Via.SetMAddr(this, s) (e)
  props C23
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(core.NameValue.value)
  ensures [C23] reject: s == "" <==> e != nil
  ensures [C23] kept: e != nil ==> pkept(this)
  ensures [C23] stored: e == nil && old(uniq(this.parameters)) ==> uniq(this.parameters) && named(this.parameters, "maddr")
func header.Via.SetProtocol(this, s) (e)
  props C23
  requires this != nil
  modifies this.sentProtocol, every(header.Protocol.protocolName)
  ensures [C23] reject: s == "" <==> e != nil
  ensures [C23] kept: e != nil ==> this.sentProtocol == old(this.sentProtocol) && this.sentProtocol.protocolName == old(this.sentProtocol.protocolName)
  ensures [C23] stored: e == nil ==> this.sentProtocol != nil && this.sentProtocol.protocolName == s && (old(this.sentProtocol) != nil ==> this.sentProtocol == old(this.sentProtocol))
func header.Via.GetProtocol(this) (r)
  props C23
  requires this != nil
  ensures [C23] get: r == (this.sentProtocol == nil ? "" : this.sentProtocol.protocolName)
func header.Via.setTransport(this, s) (e)
  props C23
  requires this != nil
  modifies this.sentProtocol, every(header.Protocol.transport)
  ensures [C23] reject: s == "" <==> e != nil
  ensures [C23] kept: e != nil ==> this.sentProtocol == old(this.sentProtocol) && this.sentProtocol.transport == old(this.sentProtocol.transport)
  ensures [C23] stored: e == nil ==> this.sentProtocol != nil && this.sentProtocol.transport == s && (old(this.sentProtocol) != nil ==> this.sentProtocol == old(this.sentProtocol))
func header.Via.GetTransport(this) (r)
  props C23
  requires this != nil
  ensures [C23] get: r == (this.sentProtocol == nil ? "" : this.sentProtocol.transport)
func header.Via.SetProtocolVersion(this, s)
  props C23
  requires this != nil
  modifies this.sentProtocol, every(header.Protocol.protocolVersion)
  ensures [C23] stored: this.sentProtocol != nil && this.sentProtocol.protocolVersion == s && (old(this.sentProtocol) != nil ==> this.sentProtocol == old(this.sentProtocol))
func header.Via.GetProtocolVersion(this) (r)
  props C23
  requires this != nil
  ensures [C23] get: r == (this.sentProtocol == nil ? "" : this.sentProtocol.protocolVersion)
