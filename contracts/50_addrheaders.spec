// ---------------------------------------------------------------- header: headers with an address (C24), request line
pred hadr(h) := pok(h) && typeis(h.addr, *address.AddressImpl) && addrok(h.addr.(*address.AddressImpl))
// the body of an address header: the address, in angle brackets when it is a bare URI
pred atext(h) := addrtext(h.addr.(*address.AddressImpl))
pred abody(h) := (h.addr.(*address.AddressImpl).addressType == 1 ? "<" + atext(h) + ">" : atext(h)) + psfx(h.parameters)
pred cbody(h) := h.wildCardFlag ? "*" : (h.addr.(*address.AddressImpl).addressType == 0 ? atext(h) : "<" + atext(h) + ">") + psfx(h.parameters)
func header.NewFrom() (r)
  props C24
  ensures [C24] name: fresh(r) && r.headerName == "From" && pok(r) && fresh(r.parameters) && ll(r.parameters).n == 0 && r.parameters.separator == ";" && r.addr == nil
func header.From.EncodeBody(this) (r)
  props C24
  requires hadr(this)
  ensures [C24] body: r == abody(this)
func header.From.String(this) (r)
  props C24
  requires hadr(this)
  ensures [C24] line: r == line(this.headerName, abody(this))
func header.NewTo() (r)
  props C24
  ensures [C24] name: fresh(r) && r.headerName == "To" && pok(r) && fresh(r.parameters) && ll(r.parameters).n == 0 && r.parameters.separator == ";" && r.addr == nil
func header.To.EncodeBody(this) (r)
  props C24
  requires pok(this) && (this.addr == nil || hadr(this))
  ensures [C24] body: r == (this.addr == nil ? "" : abody(this))
func header.To.String(this) (r)
  props C24
  requires pok(this) && (this.addr == nil || hadr(this))
  ensures [C24] line: r == line(this.headerName, (this.addr == nil ? "" : abody(this)))
func header.NewRecordRoute() (r)
  props C24
  ensures [C24] name: fresh(r) && r.headerName == "Record-Route" && pok(r) && fresh(r.parameters) && ll(r.parameters).n == 0 && r.parameters.separator == ";" && r.addr == nil
func header.RecordRoute.EncodeBody(this) (r)
  props C24
  requires hadr(this)
  ensures [C24] body: r == abody(this)
func header.RecordRoute.String(this) (r)
  props C24
  requires hadr(this)
  ensures [C24] line: r == line(this.headerName, abody(this))
func header.NewReferTo() (r)
  props C24
  ensures [C24] name: fresh(r) && r.headerName == "Refer-To" && pok(r) && fresh(r.parameters) && ll(r.parameters).n == 0 && r.parameters.separator == ";" && r.addr == nil
func header.ReferTo.EncodeBody(this) (r)
  props C24
  requires hadr(this)
  ensures [C24] body: r == abody(this)
func header.ReferTo.String(this) (r)
  props C24
  requires hadr(this)
  ensures [C24] line: r == line(this.headerName, abody(this))
func header.NewReplyTo() (r)
  props C24
  ensures [C24] name: fresh(r) && r.headerName == "Reply-To" && pok(r) && fresh(r.parameters) && ll(r.parameters).n == 0 && r.parameters.separator == ";" && r.addr == nil
func header.ReplyTo.EncodeBody(this) (r)
  props C24
  requires hadr(this)
  ensures [C24] body: r == abody(this)
func header.ReplyTo.String(this) (r)
  props C24
  requires hadr(this)
  ensures [C24] line: r == line(this.headerName, abody(this))
func header.NewRoute() (r)
  props C24
  ensures [C24] name: fresh(r) && r.headerName == "Route" && pok(r) && fresh(r.parameters) && ll(r.parameters).n == 0 && r.parameters.separator == ";" && r.addr == nil
func header.Route.EncodeBody(this) (r)
  props C24
  requires hadr(this)
  ensures [C24] body: r == atext(this) + psfx(this.parameters)
func header.Route.String(this) (r)
  props C24
  requires hadr(this)
  ensures [C24] line: r == line(this.headerName, atext(this) + psfx(this.parameters))
func header.NewRouteFromAddress(a) (r)
  props C24
  ensures [C24] name: fresh(r) && r.headerName == "Route" && pok(r) && fresh(r.parameters) && ll(r.parameters).n == 0 && r.parameters.separator == ";" && r.addr == a
func header.NewRecordRouteFromAddress(a) (r)
  props C24
  ensures [C24] name: fresh(r) && r.headerName == "Record-Route" && pok(r) && fresh(r.parameters) && ll(r.parameters).n == 0 && r.parameters.separator == ";" && r.addr == a
func header.NewReplyToFromAddress(a) (r)
  props C24
  ensures [C24] name: fresh(r) && r.headerName == "Reply-To" && pok(r) && fresh(r.parameters) && ll(r.parameters).n == 0 && r.parameters.separator == ";" && r.addr == a
func header.NewContact() (r)
  props C24
  ensures [C24] name: fresh(r) && r.headerName == "Contact" && pok(r) && fresh(r.parameters) && ll(r.parameters).n == 0 && r.parameters.separator == ";" && r.addr == nil && !r.wildCardFlag
func header.Contact.EncodeBody(this) (r)
  props C24
  requires pok(this) && (this.wildCardFlag || hadr(this))
  ensures [C24] body: r == cbody(this)
func header.Contact.String(this) (r)
  props C24
  requires pok(this) && (this.wildCardFlag || hadr(this))
  ensures [C24] line: r == line(this.headerName, cbody(this))
func header.Contact.GetWildCardFlag(this) (r)
  props C24
  requires this != nil
  ensures [C24] get: r <==> this.wildCardFlag
func header.Contact.SetAddress(this, a)
  props C24
  requires this != nil
  modifies this.addr, this.wildCardFlag
  ensures [C24] set: this.addr == a && !this.wildCardFlag
func header.AddressParameters.SetAddress(this, a)
  props C24
  requires this != nil
  modifies this.addr
  ensures [C24] set: this.addr == a
func header.AddressParameters.GetAddress(this) (r)
  props C24
  requires this != nil
  ensures [C24] get: r == this.addr
func header.From.SetAddress(this, a)
  props C24
  requires this != nil
  modifies this.addr
  ensures [C24] set: this.addr == a
func header.NewAlertInfo() (r)
  props C24
  ensures [C24] name: fresh(r) && r.headerName == "Alert-Info" && pok(r) && fresh(r.parameters) && ll(r.parameters).n == 0 && r.parameters.separator == ";"
func header.AlertInfo.EncodeBody(this) (r)
  props C24
  requires pok(this) && urival(this.uri)
  ensures [C24] body: r == "<" + uritext(this.uri) + ">" + psfx(this.parameters)
func header.AlertInfo.String(this) (r)
  props C24
  requires pok(this) && urival(this.uri)
  ensures [C24] line: r == line(this.headerName, "<" + uritext(this.uri) + ">" + psfx(this.parameters))
func header.NewCallInfo() (r)
  props C24
  ensures [C24] name: fresh(r) && r.headerName == "Call-Info" && pok(r) && fresh(r.parameters) && ll(r.parameters).n == 0 && r.parameters.separator == ";"
func header.CallInfo.EncodeBody(this) (r)
  props C24
  requires pok(this) && urival(this.info)
  ensures [C24] body: r == "<" + uritext(this.info) + ">" + psfx(this.parameters)
func header.CallInfo.String(this) (r)
  props C24
  requires pok(this) && urival(this.info)
  ensures [C24] line: r == line(this.headerName, "<" + uritext(this.info) + ">" + psfx(this.parameters))
func header.NewErrorInfo() (r)
  props C24
  ensures [C24] name: fresh(r) && r.headerName == "Error-Info" && pok(r) && fresh(r.parameters) && ll(r.parameters).n == 0 && r.parameters.separator == ";"
func header.ErrorInfo.EncodeBody(this) (r)
  props C24
  requires pok(this) && urival(this.errorInfo)
  ensures [C24] body: r == "<" + uritext(this.errorInfo) + ">" + psfx(this.parameters)
func header.ErrorInfo.String(this) (r)
  props C24
  requires pok(this) && urival(this.errorInfo)
  ensures [C24] line: r == line(this.headerName, "<" + uritext(this.errorInfo) + ">" + psfx(this.parameters))
pred rline(l) := (l.method == "" ? "" : l.method + " ") + (l.uri == nil ? "" : uritext(l.uri) + " ") + l.sipVersion + "\r\n"
pred rlok(l) := l != nil && (l.uri == nil || urival(l.uri))
func header.NewRequestLine() (r)
  props C24
  ensures [C24] init: fresh(r) && r != nil && r.sipVersion == "SIP/2.0" && r.uri == nil && r.method == ""
func header.NewRequestLineFromString(u, m) (r)
  props C24
  ensures [C24] init: fresh(r) && r != nil && r.sipVersion == "SIP/2.0" && r.uri == u && r.method == m
func header.RequestLine.String(this) (r)
  props C24
  requires rlok(this)
  ensures [C24] line: r == rline(this)
func header.RequestLine.SetSIPVersion(this, v)
  props C24
  requires this != nil
  modifies this.sipVersion
  ensures [C24] set: this.sipVersion == v
func header.From.RemoveTag(this)
  props C24
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(list.Element.owner)
  ensures [C24] gone: pgone(this.parameters, "tag")
  ensures [C24] others: pothers(this.parameters, "tag")
func header.To.RemoveTag(this)
  props C24
  requires pok(this)
  modifies ll(this.parameters).n, ll(this.parameters).at, ll(this.parameters).idx, every(list.Element.owner)
  ensures [C24] gone: pgone(this.parameters, "tag")
  ensures [C24] others: pothers(this.parameters, "tag")
