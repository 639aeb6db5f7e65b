// ---------------------------------------------------------------- SIP and tel URIs, addresses (C10)
pred uitext(i) := i.password != "" ? i.user + ":" + i.password : i.user
pred aok(a) := a != nil && (a.hostPort == nil || hpok(a.hostPort))
pred autext(a) := a.hostPort == nil ? "" : (a.userInfo == nil ? "" : uitext(a.userInfo) + "@") + hptext(a.hostPort)
pred uok(u) := u != nil && (u.authority == nil || aok(u.authority)) && nvok(u.uriParms) && nvok(u.qheaders) && u.uriParms != u.qheaders
pred hsfx(l) := ll(l).n > 0 ? "?" + ptext(l) : ""
pred sitext(u) := u.scheme + ":" + (u.authority == nil ? "" : autext(u.authority)) + psfx(u.uriParms) + hsfx(u.qheaders)
pred telok(t) := t != nil && nvok(t.parms)
pred teltext(t) := (t.isglobal ? "+" : "") + t.phoneNumber + psfx(t.parms)
// what a look-up of parameter p in list l with unique names has to give
pred plook(l, p, r) := (!named(l, p) ==> r == "") && (uniq(l) ==> forall i int :: {ll(l).at[i]} 0 <= i && i < ll(l).n && eqfold(nv(l, i).name, p) ==> r == (nv(l, i).value == nil ? "" : nv(l, i).value.(string)))
pred pset(l, p, v) := nvok(l) && named(l, p) && (old(uniq(l)) ==> uniq(l) && pval(l, p, v))
// every parameter of l not named p is still there
pred pothers(l, p) := forall k int :: {old(ll(l).at)[k]} 0 <= k && k < old(ll(l).n) && !eqfold(old(nv(l, k).name), p) ==> 0 <= ll(l).idx[old(ll(l).at)[k]] && ll(l).idx[old(ll(l).at)[k]] < ll(l).n && ll(l).at[ll(l).idx[old(ll(l).at)[k]]] == old(ll(l).at)[k]
pred pgone(l, p) := nvok(l) && (old(uniq(l)) ==> uniq(l) && !named(l, p))

func address.NewUserInfo() (r)
  props C10
  ensures [C10] new: fresh(r) && r != nil && r.user == "" && r.password == ""
func address.UserInfo.Clone(this) (r)
  props C10
  requires this != nil
  ensures [C10] copy: typeis(r, *address.UserInfo) && fresh(r) && r.(*address.UserInfo) != nil && r.(*address.UserInfo).user == this.user && r.(*address.UserInfo).password == this.password && r.(*address.UserInfo).userType == this.userType
func address.UserInfo.String(this) (r)
  props C10
  requires this != nil
  ensures [C10] text: r == uitext(this)
func address.UserInfo.GetUser(this) (r)
  props C10
  requires this != nil
  ensures [C10] get: r == this.user
func address.UserInfo.GetPassword(this) (r)
  props C10
  requires this != nil
  ensures [C10] get: r == this.password
func address.UserInfo.GetUserType(this) (r)
  props C10
  requires this != nil
  ensures [C10] get: r == this.userType
func address.UserInfo.ClearPassword(this)
  props C10
  requires this != nil
  modifies this.password
  ensures [C10] none: this.password == ""
func address.UserInfo.SetPassword(this, p)
  props C10
  requires this != nil
  modifies this.password
  ensures [C10] set: this.password == p
func address.UserInfo.SetUserType(this, t)
  props C10
  requires this != nil
  modifies this.userType
  ensures [C10] set: this.userType == (t == 0 || t == 1 ? t : old(this.userType))
func address.UserInfo.SetUser(this, s)
  props C10
  requires this != nil
  modifies this.user, this.userType
  ensures [C10] set: this.user == s
  ensures [C10] kind: this.userType == (index(s, "#") >= 0 || index(s, ";") >= 0 ? 0 : 1)
func address.NewAuthority() (r)
  props C10
  ensures [C10] new: fresh(r) && r != nil && r.hostPort == nil && r.userInfo == nil
func address.Authority.String(this) (r)
  props C10
  requires aok(this)
  ensures [C10] text: r == autext(this)
func address.Authority.GetHostPort(this) (r)
  props C10
  requires this != nil
  ensures [C10] get: r == this.hostPort
func address.Authority.GetUserInfo(this) (r)
  props C10
  requires this != nil
  ensures [C10] get: r == this.userInfo
func address.Authority.GetUser(this) (r)
  props C10
  requires this != nil
  ensures [C10] get: r == (this.userInfo == nil ? "" : this.userInfo.user)
func address.Authority.GetPassword(this) (r)
  props C10
  requires this != nil
  ensures [C10] get: r == (this.userInfo == nil ? "" : this.userInfo.password)
func address.Authority.GetHost(this) (r)
  props C10
  requires this != nil
  ensures [C10] get: r == (this.hostPort == nil ? nil : this.hostPort.host)
func address.Authority.GetPort(this) (r)
  props C10
  requires this != nil
  ensures [C10] get: r == (this.hostPort == nil ? -1 : this.hostPort.port)
func address.Authority.RemovePort(this)
  props C10
  requires aok(this)
  modifies this.hostPort.port
  ensures [C10] none: this.hostPort != nil ==> this.hostPort.port == -1
  ensures [C10] ok: aok(this)
func address.Authority.SetPassword(this, p)
  props C10
  requires this != nil
  modifies this.userInfo, this.userInfo.password
  ensures [C10] set: this.userInfo != nil && (this.userInfo == old(this.userInfo) || (old(this.userInfo) == nil && fresh(this.userInfo))) && this.userInfo.password == p && this.userInfo.user == old(this.userInfo == nil ? "" : this.userInfo.user)
func address.Authority.SetUser(this, s)
  props C10
  requires this != nil
  modifies this.userInfo, this.userInfo.user, this.userInfo.userType
  ensures [C10] set: this.userInfo != nil && (this.userInfo == old(this.userInfo) || (old(this.userInfo) == nil && fresh(this.userInfo))) && this.userInfo.user == s && this.userInfo.password == old(this.userInfo == nil ? "" : this.userInfo.password)
func address.Authority.SetHost(this, h)
  props C10
  requires aok(this) && (h == nil || hostok(h))
  modifies this.hostPort, this.hostPort.host
  ensures [C10] set: this.hostPort != nil && (this.hostPort == old(this.hostPort) || (old(this.hostPort) == nil && fresh(this.hostPort))) && this.hostPort.host == h && this.hostPort.port == old(this.hostPort == nil ? -1 : this.hostPort.port)
  ensures [C10] ok: aok(this)
func address.Authority.SetPort(this, p)
  props C10
  requires aok(this)
  modifies this.hostPort, this.hostPort.port
  ensures [C10] set: this.hostPort != nil && (this.hostPort == old(this.hostPort) || (old(this.hostPort) == nil && fresh(this.hostPort))) && this.hostPort.port == p && this.hostPort.host == old(this.hostPort == nil ? nil : this.hostPort.host)
  ensures [C10] ok: aok(this)
func address.Authority.SetHostPort(this, h)
  props C10
  requires this != nil
  modifies this.hostPort
  ensures [C10] set: this.hostPort == h
func address.Authority.SetUserInfo(this, u)
  props C10
  requires this != nil
  modifies this.userInfo
  ensures [C10] set: this.userInfo == u
func address.Authority.RemoveUserInfo(this)
  props C10
  requires this != nil
  modifies this.userInfo
  ensures [C10] none: this.userInfo == nil
func address.Authority.Clone(this) (r)
  props C10
  requires aok(this)
  ensures [C10] copy: typeis(r, *address.Authority) && fresh(r) && aok(r.(*address.Authority)) && autext(r.(*address.Authority)) == old(autext(this))
  ensures [C10] independent: (r.(*address.Authority).hostPort == nil <==> this.hostPort == nil) && (this.hostPort != nil ==> fresh(r.(*address.Authority).hostPort)) && (r.(*address.Authority).userInfo == nil <==> this.userInfo == nil) && (this.userInfo != nil ==> fresh(r.(*address.Authority).userInfo))
func address.NewTelephoneNumber() (r)
  props C10
  ensures [C10] new: fresh(r) && fresh(r.parms) && telok(r) && ll(r.parms).n == 0 && r.phoneNumber == "" && !r.isglobal
func address.TelephoneNumber.String(this) (r)
  props C10
  requires telok(this)
  ensures [C10] text: r == teltext(this)
func address.TelephoneNumber.GetPhoneNumber(this) (r)
  props C10
  requires this != nil
  ensures [C10] get: r == this.phoneNumber
func address.TelephoneNumber.SetPhoneNumber(this, s)
  props C10
  requires this != nil
  modifies this.phoneNumber
  ensures [C10] set: this.phoneNumber == s
func address.TelephoneNumber.IsGlobal(this) (r)
  props C10
  requires this != nil
  ensures [C10] get: r <==> this.isglobal
func address.TelephoneNumber.SetGlobal(this, g)
  props C10
  requires this != nil
  modifies this.isglobal
  ensures [C10] set: this.isglobal <==> g
func address.TelephoneNumber.SetParameters(this, l)
  props C10
  requires this != nil
  modifies this.parms
  ensures [C10] set: this.parms == l
func address.TelephoneNumber.GetPostDial(this) (r)
  props C10
  requires telok(this)
  ensures [C10] get: plook(this.parms, "postdial", r)
func address.TelephoneNumber.GetIsdnSubaddress(this) (r)
  props C10
  requires telok(this)
  ensures [C10] get: plook(this.parms, "isub", r)
func address.TelephoneNumber.GetParameter(this, name) (r)
  props C10
  requires telok(this)
  ensures [C10] get: plook(this.parms, name, r)
func address.TelephoneNumber.HasParm(this, name) (r)
  props C10
  requires telok(this)
  ensures [C10] has: r <==> named(this.parms, name)
func address.TelephoneNumber.HasIsdnSubaddress(this) (r)
  props C10
  requires telok(this)
  ensures [C10] has: r <==> named(this.parms, "isub")
func address.TelephoneNumber.SetPostDial(this, v)
  props C10
  requires telok(this)
  modifies ll(this.parms).n, ll(this.parms).at, ll(this.parms).idx, every(list.Element.owner)
  ensures [C10] set: telok(this) && pset(this.parms, "postdial", v)
  ensures [C10] others: pothers(this.parms, "postdial")
func address.TelephoneNumber.SetIsdnSubaddress(this, v)
  props C10
  requires telok(this)
  modifies ll(this.parms).n, ll(this.parms).at, ll(this.parms).idx, every(list.Element.owner)
  ensures [C10] set: telok(this) && pset(this.parms, "isub", v)
  ensures [C10] others: pothers(this.parms, "isub")
func address.TelephoneNumber.SetParameter(this, name, v)
  props C10
  requires telok(this)
  modifies ll(this.parms).n, ll(this.parms).at, ll(this.parms).idx, every(list.Element.owner)
  ensures [C10] set: telok(this) && pset(this.parms, name, v)
  ensures [C10] others: pothers(this.parms, name)
func address.TelephoneNumber.SetParm(this, name, v)
  props C10
  requires telok(this) && typeis(v, string)
  modifies ll(this.parms).n, ll(this.parms).at, ll(this.parms).idx, every(list.Element.owner)
  ensures [C10] set: telok(this) && pset(this.parms, name, v.(string))
  ensures [C10] others: pothers(this.parms, name)
func address.TelephoneNumber.RemovePostDial(this)
  props C10
  requires telok(this)
  modifies ll(this.parms).n, ll(this.parms).at, ll(this.parms).idx, every(list.Element.owner)
  ensures [C10] gone: telok(this) && pgone(this.parms, "postdial")
  ensures [C10] others: pothers(this.parms, "postdial")
func address.TelephoneNumber.RemoveIsdnSubaddress(this)
  props C10
  requires telok(this)
  modifies ll(this.parms).n, ll(this.parms).at, ll(this.parms).idx, every(list.Element.owner)
  ensures [C10] gone: telok(this) && pgone(this.parms, "isub")
  ensures [C10] others: pothers(this.parms, "isub")
func address.TelephoneNumber.RemoveParameter(this, name)
  props C10
  requires telok(this)
  modifies ll(this.parms).n, ll(this.parms).at, ll(this.parms).idx, every(list.Element.owner)
  ensures [C10] gone: telok(this) && pgone(this.parms, name)
  ensures [C10] others: pothers(this.parms, name)
func address.TelephoneNumber.DeleteParm(this, name)
  props C10
  requires telok(this)
  modifies ll(this.parms).n, ll(this.parms).at, ll(this.parms).idx, every(list.Element.owner)
  ensures [C10] gone: telok(this) && pgone(this.parms, name)
  ensures [C10] others: pothers(this.parms, name)
func address.TelephoneNumber.Clone(this) (r)
  props C10
  requires telok(this)
  inv <e *list.Element, o *address.TelephoneNumber> telok(o) && telok(this) && ll(o.parms).n == (e == nil ? ll(this.parms).n : ll(this.parms).idx[ref(e)])
  inv <e *list.Element, o *address.TelephoneNumber> forall i int :: {ll(o.parms).at[i]} 0 <= i && i < ll(o.parms).n ==> fresh(nv(o.parms, i)) && nvsame(nv(o.parms, i), nv(this.parms, i))
  ensures [C10] copy: typeis(r, *address.TelephoneNumber) && fresh(r) && telok(r.(*address.TelephoneNumber)) && fresh(r.(*address.TelephoneNumber).parms) && r.(*address.TelephoneNumber).phoneNumber == this.phoneNumber && (r.(*address.TelephoneNumber).isglobal <==> this.isglobal) && ll(r.(*address.TelephoneNumber).parms).n == ll(this.parms).n
  ensures [C10] pairs: forall i int :: {ll(r.(*address.TelephoneNumber).parms).at[i]} 0 <= i && i < ll(this.parms).n ==> fresh(nv(r.(*address.TelephoneNumber).parms, i)) && nvsame(nv(r.(*address.TelephoneNumber).parms, i), nv(this.parms, i))
func address.NewTelURLImpl() (r)
  props C10
  ensures [C10] new: fresh(r) && r != nil && r.scheme == "tel" && r.telephoneNumber == nil
func address.TelURLImpl.SetTelephoneNumber(this, t)
  props C10
  requires this != nil
  modifies this.telephoneNumber
  ensures [C10] set: this.telephoneNumber == t
func address.TelURLImpl.GetScheme(this) (r)
  props C10
  requires this != nil
  ensures [C10] get: r == this.scheme
func address.TelURLImpl.IsSipURI(this) (r)
  props C10
  requires this != nil
  ensures [C10] no: !r
func address.TelURLImpl.GetPhoneNumber(this) (r)
  props C10
  requires this != nil && telok(this.telephoneNumber)
  ensures [C10] get: r == this.telephoneNumber.phoneNumber
func address.TelURLImpl.SetPhoneNumber(this, s)
  props C10
  requires this != nil && telok(this.telephoneNumber)
  modifies this.telephoneNumber.phoneNumber
  ensures [C10] set: this.telephoneNumber.phoneNumber == s
func address.TelURLImpl.IsGlobal(this) (r)
  props C10
  requires this != nil && telok(this.telephoneNumber)
  ensures [C10] get: r <==> this.telephoneNumber.isglobal
func address.TelURLImpl.SetGlobal(this, g)
  props C10
  requires this != nil && telok(this.telephoneNumber)
  modifies this.telephoneNumber.isglobal
  ensures [C10] set: this.telephoneNumber.isglobal <==> g
func address.TelURLImpl.String(this) (r)
  props C10
  requires this != nil && telok(this.telephoneNumber)
  ensures [C10] text: r == this.scheme + ":" + teltext(this.telephoneNumber)
func address.TelURLImpl.GetIsdnSubAddress(this) (r)
  props C10
  requires this != nil && telok(this.telephoneNumber)
  ensures [C10] get: plook(this.telephoneNumber.parms, "isub", r)
func address.TelURLImpl.GetPostDial(this) (r)
  props C10
  requires this != nil && telok(this.telephoneNumber)
  ensures [C10] get: plook(this.telephoneNumber.parms, "postdial", r)
func address.TelURLImpl.GetParameter(this, name) (r)
  props C10
  requires this != nil && telok(this.telephoneNumber)
  ensures [C10] get: plook(this.telephoneNumber.parms, name, r)
func address.TelURLImpl.SetIsdnSubAddress(this, v)
  props C10
  requires this != nil && telok(this.telephoneNumber)
  modifies ll(this.telephoneNumber.parms).n, ll(this.telephoneNumber.parms).at, ll(this.telephoneNumber.parms).idx, every(list.Element.owner)
  ensures [C10] set: this != nil && telok(this.telephoneNumber) && pset(this.telephoneNumber.parms, "isub", v)
  ensures [C10] others: pothers(this.telephoneNumber.parms, "isub")
func address.TelURLImpl.SetPostDial(this, v)
  props C10
  requires this != nil && telok(this.telephoneNumber)
  modifies ll(this.telephoneNumber.parms).n, ll(this.telephoneNumber.parms).at, ll(this.telephoneNumber.parms).idx, every(list.Element.owner)
  ensures [C10] set: this != nil && telok(this.telephoneNumber) && pset(this.telephoneNumber.parms, "postdial", v)
  ensures [C10] others: pothers(this.telephoneNumber.parms, "postdial")
func address.TelURLImpl.SetParameter(this, name, v)
  props C10
  requires this != nil && telok(this.telephoneNumber)
  modifies ll(this.telephoneNumber.parms).n, ll(this.telephoneNumber.parms).at, ll(this.telephoneNumber.parms).idx, every(list.Element.owner)
  ensures [C10] set: this != nil && telok(this.telephoneNumber) && pset(this.telephoneNumber.parms, name, v)
  ensures [C10] others: pothers(this.telephoneNumber.parms, name)
func address.TelURLImpl.RemoveParameter(this, name)
  props C10
  requires this != nil && telok(this.telephoneNumber)
  modifies ll(this.telephoneNumber.parms).n, ll(this.telephoneNumber.parms).at, ll(this.telephoneNumber.parms).idx, every(list.Element.owner)
  ensures [C10] gone: this != nil && telok(this.telephoneNumber) && pgone(this.telephoneNumber.parms, name)
  ensures [C10] others: pothers(this.telephoneNumber.parms, name)
func address.NewURIImpl(s) (r)
  props C10
  ensures [C10] reject: r == nil <==> index(s, ":") <= 0
  ensures [C10] parts: r != nil ==> fresh(r) && r.uriString == s && r.scheme == s[0:index(s, ":")]
func address.URIImpl.String(this) (r)
  props C10
  requires this != nil
  ensures [C10] text: r == this.uriString
func address.URIImpl.GetScheme(this) (r)
  props C10
  requires this != nil
  ensures [C10] get: r == this.scheme
func address.NewSipURIImpl() (r)
  props C10
  ensures [C10] new: fresh(r) && fresh(r.uriParms) && fresh(r.qheaders) && uok(r) && r.scheme == "sip" && r.authority == nil && ll(r.uriParms).n == 0 && ll(r.qheaders).n == 0 && r.uriParms.separator == ";" && r.qheaders.separator == "&"
func address.SipURIImpl.SetScheme(this, s) (e)
  props C10
  requires this != nil
  modifies this.scheme
  ensures [C10] reject: e != nil <==> lower(s) != "sip" && lower(s) != "sips"
  ensures [C10] kept: e != nil ==> this.scheme == old(this.scheme)
  ensures [C10] set: e == nil ==> this.scheme == lower(s)
func address.SipURIImpl.GetScheme(this) (r)
  props C10
  requires this != nil
  ensures [C10] get: r == this.scheme
func address.SipURIImpl.SetSecure(this, b)
  props C10
  requires this != nil
  modifies this.scheme
  ensures [C10] set: this.scheme == (b ? "sips" : "sip")
func address.SipURIImpl.IsSecure(this) (r)
  props C10
  requires this != nil
  ensures [C10] get: r <==> lower(this.scheme) == "sips"
func address.SipURIImpl.IsSipURI(this) (r)
  props C10
  requires this != nil
  ensures [C10] yes: r
func address.SipURIImpl.String(this) (r)
  props C10
  requires uok(this)
  ensures [C10] text: r == sitext(this)
func address.SipURIImpl.GetAuthority(this) (r)
  props C10
  requires this != nil
  ensures [C10] get: r == this.authority
func address.SipURIImpl.SetAuthority(this, a)
  props C10
  requires this != nil
  modifies this.authority
  ensures [C10] set: this.authority == a
func address.SipURIImpl.GetUriParms(this) (r)
  props C10
  requires this != nil
  ensures [C10] get: r == this.uriParms
func address.SipURIImpl.GetQheaders(this) (r)
  props C10
  requires this != nil
  ensures [C10] get: r == this.qheaders
func address.SipURIImpl.GetHeaderNames(this) (r)
  props C10
  requires this != nil
  ensures [C10] get: r == this.qheaders
func address.SipURIImpl.SetUriParms(this, l)
  props C10
  requires this != nil
  modifies this.uriParms
  ensures [C10] set: this.uriParms == l
func address.SipURIImpl.SetQheaders(this, l)
  props C10
  requires this != nil
  modifies this.qheaders
  ensures [C10] set: this.qheaders == l
func address.SipURIImpl.ClearUriParms(this)
  props C10
  requires uok(this)
  modifies this.uriParms
  ensures [C10] none: uok(this) && fresh(this.uriParms) && ll(this.uriParms).n == 0 && this.uriParms.separator == ";"
func address.SipURIImpl.RemoveUriParms(this)
  props C10
  requires uok(this)
  modifies this.uriParms
  ensures [C10] none: uok(this) && fresh(this.uriParms) && ll(this.uriParms).n == 0 && this.uriParms.separator == ";"
func address.SipURIImpl.ClearQheaders(this)
  props C10
  requires uok(this)
  modifies this.qheaders
  ensures [C10] none: uok(this) && fresh(this.qheaders) && ll(this.qheaders).n == 0 && this.qheaders.separator == "&"
func address.SipURIImpl.RemoveHeaders(this)
  props C10
  requires uok(this)
  modifies this.qheaders
  ensures [C10] none: uok(this) && fresh(this.qheaders) && ll(this.qheaders).n == 0 && this.qheaders.separator == "&"
func address.SipURIImpl.GetUser(this) (r)
  props C10
  requires this != nil
  ensures [C10] get: r == (this.authority == nil || this.authority.userInfo == nil ? "" : this.authority.userInfo.user)
func address.SipURIImpl.GetUserPassword(this) (r)
  props C10
  requires this != nil
  ensures [C10] get: r == (this.authority == nil || this.authority.userInfo == nil ? "" : this.authority.userInfo.password)
func address.SipURIImpl.GetHostPort(this) (r)
  props C10
  requires this != nil
  ensures [C10] get: r == (this.authority == nil ? nil : this.authority.hostPort)
func address.SipURIImpl.GetPort(this) (r)
  props C10
  requires this != nil
  ensures [C10] get: r == (this.authority == nil || this.authority.hostPort == nil ? -1 : this.authority.hostPort.port)
func address.SipURIImpl.GetHost(this) (r)
  props C10
  requires uok(this)
  ensures [C10] get: r == (this.authority == nil || this.authority.hostPort == nil || this.authority.hostPort.host == nil ? "" : hosttext(this.authority.hostPort.host))
func address.SipURIImpl.GetUserAtHost(this) (r)
  props C10
  requires uok(this)
  ensures [C10] text: r == ((this.authority == nil || this.authority.userInfo == nil ? "" : this.authority.userInfo.user) == "" ? "" : (this.authority == nil || this.authority.userInfo == nil ? "" : this.authority.userInfo.user) + "@") + (this.authority == nil || this.authority.hostPort == nil || this.authority.hostPort.host == nil ? "" : hosttext(this.authority.hostPort.host))
func address.SipURIImpl.GetUserAtHostPort(this) (r)
  props C10
  requires uok(this)
  ensures [C10] text: r == ((this.authority == nil || this.authority.userInfo == nil ? "" : this.authority.userInfo.user) == "" ? "" : (this.authority == nil || this.authority.userInfo == nil ? "" : this.authority.userInfo.user) + "@") + (this.authority == nil || this.authority.hostPort == nil || this.authority.hostPort.host == nil ? "" : hosttext(this.authority.hostPort.host)) + ((this.authority == nil || this.authority.hostPort == nil ? -1 : this.authority.hostPort.port) == -1 ? "" : ":" + itoa((this.authority == nil || this.authority.hostPort == nil ? -1 : this.authority.hostPort.port)))
func address.SipURIImpl.SetUser(this, s)
  props C10
  requires uok(this)
  modifies this.authority, this.authority.userInfo, (this.authority == nil ? nil : this.authority.userInfo).user, (this.authority == nil ? nil : this.authority.userInfo).userType
  ensures [C10] set: uok(this) && this.authority != nil && (this.authority == old(this.authority) || (old(this.authority) == nil && fresh(this.authority))) && (this.authority == nil || this.authority.userInfo == nil ? "" : this.authority.userInfo.user) == s
  ensures [C10] others: (this.authority == nil || this.authority.userInfo == nil ? "" : this.authority.userInfo.password) == old((this.authority == nil || this.authority.userInfo == nil ? "" : this.authority.userInfo.password)) && (this.authority == nil || this.authority.hostPort == nil ? nil : this.authority.hostPort.host) == old((this.authority == nil || this.authority.hostPort == nil ? nil : this.authority.hostPort.host)) && (this.authority == nil || this.authority.hostPort == nil ? -1 : this.authority.hostPort.port) == old((this.authority == nil || this.authority.hostPort == nil ? -1 : this.authority.hostPort.port))
  ensures [C10] parts: this.authority.userInfo != nil && (fresh(this.authority.userInfo) || (old(this.authority) != nil && this.authority.userInfo == old(this.authority.userInfo)))
func address.SipURIImpl.SetUserPassword(this, s)
  props C10
  requires uok(this)
  modifies this.authority, this.authority.userInfo, (this.authority == nil ? nil : this.authority.userInfo).password
  ensures [C10] set: uok(this) && this.authority != nil && (this.authority == old(this.authority) || (old(this.authority) == nil && fresh(this.authority))) && (this.authority == nil || this.authority.userInfo == nil ? "" : this.authority.userInfo.password) == s
  ensures [C10] others: (this.authority == nil || this.authority.userInfo == nil ? "" : this.authority.userInfo.user) == old((this.authority == nil || this.authority.userInfo == nil ? "" : this.authority.userInfo.user)) && (this.authority == nil || this.authority.hostPort == nil ? nil : this.authority.hostPort.host) == old((this.authority == nil || this.authority.hostPort == nil ? nil : this.authority.hostPort.host)) && (this.authority == nil || this.authority.hostPort == nil ? -1 : this.authority.hostPort.port) == old((this.authority == nil || this.authority.hostPort == nil ? -1 : this.authority.hostPort.port))
  ensures [C10] parts: this.authority.userInfo != nil && (fresh(this.authority.userInfo) || (old(this.authority) != nil && this.authority.userInfo == old(this.authority.userInfo)))
func address.SipURIImpl.SetHost(this, h)
  props C10
  requires uok(this) && (h == nil || hostok(h))
  modifies this.authority, this.authority.hostPort, (this.authority == nil ? nil : this.authority.hostPort).host
  ensures [C10] set: uok(this) && this.authority != nil && (this.authority == old(this.authority) || (old(this.authority) == nil && fresh(this.authority))) && this.authority.hostPort != nil && (this.authority == nil || this.authority.hostPort == nil ? nil : this.authority.hostPort.host) == h
  ensures [C10] others: (this.authority == nil || this.authority.userInfo == nil ? "" : this.authority.userInfo.user) == old((this.authority == nil || this.authority.userInfo == nil ? "" : this.authority.userInfo.user)) && (this.authority == nil || this.authority.userInfo == nil ? "" : this.authority.userInfo.password) == old((this.authority == nil || this.authority.userInfo == nil ? "" : this.authority.userInfo.password)) && (this.authority == nil || this.authority.hostPort == nil ? -1 : this.authority.hostPort.port) == old((this.authority == nil || this.authority.hostPort == nil ? -1 : this.authority.hostPort.port))
func address.SipURIImpl.SetHostString(this, s)
  props C10
  requires uok(this)
  modifies this.authority, this.authority.hostPort, (this.authority == nil ? nil : this.authority.hostPort).host
  ensures [C10] set: uok(this) && this.authority != nil && (this.authority == old(this.authority) || (old(this.authority) == nil && fresh(this.authority))) && this.authority.hostPort != nil && (s == "" ? (this.authority == nil || this.authority.hostPort == nil ? nil : this.authority.hostPort.host) == nil : (this.authority == nil || this.authority.hostPort == nil ? nil : this.authority.hostPort.host) != nil && (this.authority == nil || this.authority.hostPort == nil ? nil : this.authority.hostPort.host).hostname == s)
  ensures [C10] others: (this.authority == nil || this.authority.userInfo == nil ? "" : this.authority.userInfo.user) == old((this.authority == nil || this.authority.userInfo == nil ? "" : this.authority.userInfo.user)) && (this.authority == nil || this.authority.userInfo == nil ? "" : this.authority.userInfo.password) == old((this.authority == nil || this.authority.userInfo == nil ? "" : this.authority.userInfo.password)) && (this.authority == nil || this.authority.hostPort == nil ? -1 : this.authority.hostPort.port) == old((this.authority == nil || this.authority.hostPort == nil ? -1 : this.authority.hostPort.port))
func address.SipURIImpl.SetPort(this, p)
  props C10
  requires uok(this)
  modifies this.authority, this.authority.hostPort, (this.authority == nil ? nil : this.authority.hostPort).port
  ensures [C10] set: uok(this) && this.authority != nil && (this.authority == old(this.authority) || (old(this.authority) == nil && fresh(this.authority))) && this.authority.hostPort != nil && (this.authority == nil || this.authority.hostPort == nil ? -1 : this.authority.hostPort.port) == p
  ensures [C10] others: (this.authority == nil || this.authority.userInfo == nil ? "" : this.authority.userInfo.user) == old((this.authority == nil || this.authority.userInfo == nil ? "" : this.authority.userInfo.user)) && (this.authority == nil || this.authority.userInfo == nil ? "" : this.authority.userInfo.password) == old((this.authority == nil || this.authority.userInfo == nil ? "" : this.authority.userInfo.password)) && (this.authority == nil || this.authority.hostPort == nil ? nil : this.authority.hostPort.host) == old((this.authority == nil || this.authority.hostPort == nil ? nil : this.authority.hostPort.host))
func address.SipURIImpl.SetHostPort(this, h)
  props C10
  requires uok(this) && (h == nil || hpok(h))
  modifies this.authority, this.authority.hostPort
  ensures [C10] set: uok(this) && this.authority != nil && (this.authority == old(this.authority) || (old(this.authority) == nil && fresh(this.authority))) && this.authority.hostPort == h
  ensures [C10] others: (this.authority == nil || this.authority.userInfo == nil ? "" : this.authority.userInfo.user) == old((this.authority == nil || this.authority.userInfo == nil ? "" : this.authority.userInfo.user)) && (this.authority == nil || this.authority.userInfo == nil ? "" : this.authority.userInfo.password) == old((this.authority == nil || this.authority.userInfo == nil ? "" : this.authority.userInfo.password))
  ensures [C10] parts: this.authority.userInfo == old(this.authority == nil ? nil : this.authority.userInfo)
func address.SipURIImpl.ClearPassword(this)
  props C10
  requires uok(this)
  modifies (this.authority == nil ? nil : this.authority.userInfo).password
  ensures [C10] none: uok(this) && (this.authority == nil || this.authority.userInfo == nil ? "" : this.authority.userInfo.password) == ""
  ensures [C10] others: this.authority == old(this.authority) && (this.authority == nil || this.authority.userInfo == nil ? "" : this.authority.userInfo.user) == old((this.authority == nil || this.authority.userInfo == nil ? "" : this.authority.userInfo.user)) && (this.authority == nil || this.authority.hostPort == nil ? nil : this.authority.hostPort.host) == old((this.authority == nil || this.authority.hostPort == nil ? nil : this.authority.hostPort.host)) && (this.authority == nil || this.authority.hostPort == nil ? -1 : this.authority.hostPort.port) == old((this.authority == nil || this.authority.hostPort == nil ? -1 : this.authority.hostPort.port))
func address.SipURIImpl.RemoveUser(this)
  props C10
  requires uok(this)
  modifies this.authority.userInfo
  ensures [C10] none: uok(this) && (this.authority == nil || this.authority.userInfo == nil ? "" : this.authority.userInfo.user) == "" && (this.authority == nil || this.authority.userInfo == nil ? "" : this.authority.userInfo.password) == ""
  ensures [C10] others: this.authority == old(this.authority) && (this.authority == nil || this.authority.hostPort == nil ? nil : this.authority.hostPort.host) == old((this.authority == nil || this.authority.hostPort == nil ? nil : this.authority.hostPort.host)) && (this.authority == nil || this.authority.hostPort == nil ? -1 : this.authority.hostPort.port) == old((this.authority == nil || this.authority.hostPort == nil ? -1 : this.authority.hostPort.port))
func address.SipURIImpl.RemovePort(this)
  props C10
  requires uok(this)
  modifies (this.authority == nil ? nil : this.authority.hostPort).port
  ensures [C10] none: uok(this) && (this.authority == nil || this.authority.hostPort == nil ? -1 : this.authority.hostPort.port) == -1
  ensures [C10] others: this.authority == old(this.authority) && (this.authority == nil || this.authority.userInfo == nil ? "" : this.authority.userInfo.user) == old((this.authority == nil || this.authority.userInfo == nil ? "" : this.authority.userInfo.user)) && (this.authority == nil || this.authority.userInfo == nil ? "" : this.authority.userInfo.password) == old((this.authority == nil || this.authority.userInfo == nil ? "" : this.authority.userInfo.password)) && (this.authority == nil || this.authority.hostPort == nil ? nil : this.authority.hostPort.host) == old((this.authority == nil || this.authority.hostPort == nil ? nil : this.authority.hostPort.host))
func address.SipURIImpl.GetMethod(this) (r)
  props C10
  requires uok(this)
  ensures [C10] get: plook(this.uriParms, "method", r)
func address.SipURIImpl.GetMethodParam(this) (r)
  props C10
  requires uok(this)
  ensures [C10] get: plook(this.uriParms, "method", r)
func address.SipURIImpl.GetUserType(this) (r)
  props C10
  requires uok(this)
  ensures [C10] get: plook(this.uriParms, "user", r)
func address.SipURIImpl.GetUserParam(this) (r)
  props C10
  requires uok(this)
  ensures [C10] get: plook(this.uriParms, "user", r)
func address.SipURIImpl.GetMAddrParam(this) (r)
  props C10
  requires uok(this)
  ensures [C10] get: plook(this.uriParms, "maddr", r)
func address.SipURIImpl.GetTransportParam(this) (r)
  props C10
  requires uok(this)
  ensures [C10] get: plook(this.uriParms, "transport", r)
func address.SipURIImpl.GetParameter(this, name) (r)
  props C10
  requires uok(this)
  ensures [C10] get: plook(this.uriParms, name, r)
func address.SipURIImpl.GetHeader(this, name) (r)
  props C10
  requires uok(this)
  ensures [C10] get: plook(this.qheaders, name, r)
func address.SipURIImpl.GetParm(this, name) (r)
  props C10
  requires uok(this)
  ensures [C10] absent: !named(this.uriParms, name) ==> r == nil
  ensures [C10] value: uniq(this.uriParms) ==> forall i int :: {ll(this.uriParms).at[i]} 0 <= i && i < ll(this.uriParms).n && eqfold(nv(this.uriParms, i).name, name) ==> r == nv(this.uriParms, i).value
func address.SipURIImpl.IsUserTelephoneSubscriber(this) (r)
  props C10
  requires uok(this)
  ensures [C10] absent: !named(this.uriParms, "user") ==> !r
  ensures [C10] value: uniq(this.uriParms) ==> forall i int :: {ll(this.uriParms).at[i]} 0 <= i && i < ll(this.uriParms).n && eqfold(nv(this.uriParms, i).name, "user") ==> (r <==> nv(this.uriParms, i).value != nil && nv(this.uriParms, i).value.(string) == "phone")
func address.SipURIImpl.GetTTLParam(this) (r)
  props C10
  requires uok(this)
  ensures [C10] absent: !named(this.uriParms, "ttl") ==> r == -1
  ensures [C10] value: uniq(this.uriParms) ==> forall i int :: {ll(this.uriParms).at[i]} 0 <= i && i < ll(this.uriParms).n && eqfold(nv(this.uriParms, i).name, "ttl") && nv(this.uriParms, i).value != nil && isnum(nv(this.uriParms, i).value.(string)) ==> r == atoi(nv(this.uriParms, i).value.(string))
func address.SipURIImpl.HasParameter(this, name) (r)
  props C10
  requires uok(this)
  ensures [C10] has: r <==> named(this.uriParms, name)
func address.SipURIImpl.HasTransport(this) (r)
  props C10
  requires uok(this)
  ensures [C10] has: r <==> named(this.uriParms, "transport")
func address.SipURIImpl.HasLrParam(this) (r)
  props C10
  requires uok(this)
  ensures [C10] has: r <==> named(this.uriParms, "lr")
func address.SipURIImpl.GetLrParam(this) (r)
  props C10
  requires uok(this)
  ensures [C10] has: r == (named(this.uriParms, "lr") ? "true" : "")
func address.SipURIImpl.RemoveTTL(this)
  props C10
  requires uok(this)
  modifies ll(this.uriParms).n, ll(this.uriParms).at, ll(this.uriParms).idx, every(list.Element.owner)
  ensures [C10] gone: uok(this) && pgone(this.uriParms, "ttl")
  ensures [C10] others: pothers(this.uriParms, "ttl")
func address.SipURIImpl.RemoveMAddr(this)
  props C10
  requires uok(this)
  modifies ll(this.uriParms).n, ll(this.uriParms).at, ll(this.uriParms).idx, every(list.Element.owner)
  ensures [C10] gone: uok(this) && pgone(this.uriParms, "maddr")
  ensures [C10] others: pothers(this.uriParms, "maddr")
func address.SipURIImpl.RemoveTransport(this)
  props C10
  requires uok(this)
  modifies ll(this.uriParms).n, ll(this.uriParms).at, ll(this.uriParms).idx, every(list.Element.owner)
  ensures [C10] gone: uok(this) && pgone(this.uriParms, "transport")
  ensures [C10] others: pothers(this.uriParms, "transport")
func address.SipURIImpl.RemoveUserType(this)
  props C10
  requires uok(this)
  modifies ll(this.uriParms).n, ll(this.uriParms).at, ll(this.uriParms).idx, every(list.Element.owner)
  ensures [C10] gone: uok(this) && pgone(this.uriParms, "user")
  ensures [C10] others: pothers(this.uriParms, "user")
func address.SipURIImpl.RemoveMethod(this)
  props C10
  requires uok(this)
  modifies ll(this.uriParms).n, ll(this.uriParms).at, ll(this.uriParms).idx, every(list.Element.owner)
  ensures [C10] gone: uok(this) && pgone(this.uriParms, "method")
  ensures [C10] others: pothers(this.uriParms, "method")
func address.SipURIImpl.RemoveParameter(this, name)
  props C10
  requires uok(this)
  modifies ll(this.uriParms).n, ll(this.uriParms).at, ll(this.uriParms).idx, every(list.Element.owner)
  ensures [C10] gone: uok(this) && pgone(this.uriParms, name)
  ensures [C10] others: pothers(this.uriParms, name)
func address.SipURIImpl.RemoveHeader(this, name)
  props C10
  requires uok(this)
  modifies ll(this.qheaders).n, ll(this.qheaders).at, ll(this.qheaders).idx, every(list.Element.owner)
  ensures [C10] gone: uok(this) && pgone(this.qheaders, name)
  ensures [C10] others: pothers(this.qheaders, name)
func address.SipURIImpl.SetMethod(this, v)
  props C10
  requires uok(this)
  modifies ll(this.uriParms).n, ll(this.uriParms).at, ll(this.uriParms).idx, every(list.Element.owner)
  ensures [C10] set: uok(this) && pset(this.uriParms, "method", v)
  ensures [C10] others: pothers(this.uriParms, "method")
func address.SipURIImpl.SetMethodParam(this, v)
  props C10
  requires uok(this)
  modifies ll(this.uriParms).n, ll(this.uriParms).at, ll(this.uriParms).idx, every(list.Element.owner)
  ensures [C10] set: uok(this) && pset(this.uriParms, "method", v)
  ensures [C10] others: pothers(this.uriParms, "method")
func address.SipURIImpl.SetUserParam(this, v)
  props C10
  requires uok(this)
  modifies ll(this.uriParms).n, ll(this.uriParms).at, ll(this.uriParms).idx, every(list.Element.owner)
  ensures [C10] set: uok(this) && pset(this.uriParms, "user", v)
  ensures [C10] others: pothers(this.uriParms, "user")
func address.SipURIImpl.SetParameter(this, name, v)
  props C10
  requires uok(this)
  modifies ll(this.uriParms).n, ll(this.uriParms).at, ll(this.uriParms).idx, every(list.Element.owner)
  ensures [C10] set: uok(this) && (name != "ttl" || isnum(v) ? pset(this.uriParms, name, v) : ll(this.uriParms).n == old(ll(this.uriParms).n) && ll(this.uriParms).at == old(ll(this.uriParms).at))
  ensures [C10] others: pothers(this.uriParms, name)
func address.SipURIImpl.SetUriParm(this, name, v)
  props C10
  requires uok(this) && (v == nil || typeis(v, string))
  modifies ll(this.uriParms).n, ll(this.uriParms).at, ll(this.uriParms).idx, every(list.Element.owner)
  ensures [C10] set: uok(this) && named(this.uriParms, name) && (old(uniq(this.uriParms)) ==> uniq(this.uriParms) && (v != nil ==> pval(this.uriParms, name, v.(string))))
  ensures [C10] others: pothers(this.uriParms, name)
func address.SipURIImpl.SetUriParameter(this, v)
  props C10
  requires uok(this) && v != nil
  modifies ll(this.uriParms).n, ll(this.uriParms).at, ll(this.uriParms).idx, every(list.Element.owner)
  ensures [C10] set: uok(this) && ll(this.uriParms).n > 0 && nv(this.uriParms, ll(this.uriParms).n - 1) == v && (old(uniq(this.uriParms)) ==> uniq(this.uriParms))
  ensures [C10] others: pothers(this.uriParms, v.name)
  ensures [C10] other-lists: forall e int :: {as(e, *list.Element).owner} old(allocated(e)) && old(as(e, *list.Element).owner) != ref(ll(this.uriParms)) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
func address.SipURIImpl.SetQHeader(this, v)
  props C10
  requires uok(this) && v != nil
  modifies ll(this.qheaders).n, ll(this.qheaders).at, ll(this.qheaders).idx
  ensures [C10] set: uok(this) && ll(this.qheaders).n == old(ll(this.qheaders).n) + 1 && nv(this.qheaders, ll(this.qheaders).n - 1) == v
  ensures [C10] others: forall i int :: {ll(this.qheaders).at[i]} 0 <= i && i < old(ll(this.qheaders).n) ==> ll(this.qheaders).at[i] == old(ll(this.qheaders).at)[i]
func address.SipURIImpl.SetDefaultParm(this, name, v)
  props C10
  requires uok(this) && (v == nil || typeis(v, string))
  modifies ll(this.uriParms).n, ll(this.uriParms).at, ll(this.uriParms).idx
  ensures [C10] there: old(named(this.uriParms, name)) ==> ll(this.uriParms).n == old(ll(this.uriParms).n) && ll(this.uriParms).at == old(ll(this.uriParms).at)
  ensures [C10] added: uok(this) && named(this.uriParms, name) && (old(uniq(this.uriParms)) ==> uniq(this.uriParms))
  ensures [C10] others: pothers(this.uriParms, name)
func address.SipURIImpl.SetLrParam(this)
  props C10
  requires uok(this)
  modifies ll(this.uriParms).n, ll(this.uriParms).at, ll(this.uriParms).idx
  ensures [C10] there: old(named(this.uriParms, "lr")) ==> ll(this.uriParms).n == old(ll(this.uriParms).n) && ll(this.uriParms).at == old(ll(this.uriParms).at)
  ensures [C10] added: uok(this) && named(this.uriParms, "lr") && (old(uniq(this.uriParms)) ==> uniq(this.uriParms))
  ensures [C10] others: pothers(this.uriParms, "lr")
func address.SipURIImpl.SetHeader(this, name, v)
  props C10
  requires uok(this)
  modifies ll(this.qheaders).n, ll(this.qheaders).at, ll(this.qheaders).idx, every(core.NameValue.value)
  ensures [C10] set: uok(this) && pset(this.qheaders, name, v)
  ensures [C10] others: pothers(this.qheaders, name) && forall i int :: {old(ll(this.qheaders).at)[i]} 0 <= i && i < old(ll(this.qheaders).n) && !eqfold(old(nv(this.qheaders, i).name), name) ==> as(old(ll(this.qheaders).at)[i], *list.Element).Value.(*core.NameValue).value == old(nv(this.qheaders, i).value)
func address.SipURIImpl.SetMAddr(this, v)
  props C10
  requires uok(this)
  modifies ll(this.uriParms).n, ll(this.uriParms).at, ll(this.uriParms).idx, every(core.NameValue.value)
  ensures [C10] set: uok(this) && pset(this.uriParms, "maddr", v)
  ensures [C10] others: pothers(this.uriParms, "maddr")
func address.SipURIImpl.SetMAddrParam(this, v) (e)
  props C10
  requires uok(this)
  modifies ll(this.uriParms).n, ll(this.uriParms).at, ll(this.uriParms).idx, every(list.Element.owner)
  ensures [C10] reject: e != nil <==> v == ""
  ensures [C10] kept: e != nil ==> ll(this.uriParms).n == old(ll(this.uriParms).n) && ll(this.uriParms).at == old(ll(this.uriParms).at)
  ensures [C10] set: e == nil ==> uok(this) && pset(this.uriParms, "maddr", v)
  ensures [C10] others: pothers(this.uriParms, "maddr")
func address.SipURIImpl.SetTTLParam(this, n) (e)
  props C10
  requires uok(this)
  modifies ll(this.uriParms).n, ll(this.uriParms).at, ll(this.uriParms).idx, every(list.Element.owner)
  ensures [C10] reject: e != nil <==> n <= 0
  ensures [C10] kept: e != nil ==> ll(this.uriParms).n == old(ll(this.uriParms).n) && ll(this.uriParms).at == old(ll(this.uriParms).at)
  ensures [C10] set: e == nil ==> uok(this) && pset(this.uriParms, "ttl", itoa(n))
  ensures [C10] others: pothers(this.uriParms, "ttl")
func address.SipURIImpl.SetTransportParam(this, v) (e)
  props C10
  requires uok(this)
  modifies ll(this.uriParms).n, ll(this.uriParms).at, ll(this.uriParms).idx, every(list.Element.owner)
  ensures [C10] reject: e != nil <==> upper(v) != "UDP" && upper(v) != "TCP"
  ensures [C10] kept: e != nil ==> ll(this.uriParms).n == old(ll(this.uriParms).n) && ll(this.uriParms).at == old(ll(this.uriParms).at)
  ensures [C10] set: e == nil ==> uok(this) && pset(this.uriParms, "transport", lower(v))
  ensures [C10] others: pothers(this.uriParms, "transport")
func address.SipURIImpl.GetTelephoneSubscriber(this) (r)
  props C10
  requires this != nil
  modifies this.telephoneSubscriber
  ensures [C10] get: r != nil && r == this.telephoneSubscriber && (old(this.telephoneSubscriber) != nil ==> r == old(this.telephoneSubscriber))
func address.SipURIImpl.SetTelephoneSubscriber(this, t)
  props C10
  requires this != nil
  modifies this.telephoneSubscriber
  ensures [C10] set: this.telephoneSubscriber == t
func address.SipURIImpl.Clone(this) (r)
  props C10
  requires uok(this) && (this.telephoneSubscriber == nil || telok(this.telephoneSubscriber))
  ensures [C10] copy: typeis(r, *address.SipURIImpl) && fresh(r) && uok(r.(*address.SipURIImpl)) && sitext(r.(*address.SipURIImpl)) == old(sitext(this))
  ensures [C10] independent: fresh(r.(*address.SipURIImpl).uriParms) && fresh(r.(*address.SipURIImpl).qheaders) && (r.(*address.SipURIImpl).authority == nil || fresh(r.(*address.SipURIImpl).authority))

// the text of whatever URI x holds
pred urival(x) := (typeis(x, *address.SipURIImpl) && uok(x.(*address.SipURIImpl))) || (typeis(x, *address.TelURLImpl) && x.(*address.TelURLImpl) != nil && telok(x.(*address.TelURLImpl).telephoneNumber)) || (typeis(x, *address.URIImpl) && x.(*address.URIImpl) != nil)
pred uritext(x) := typeis(x, *address.SipURIImpl) ? sitext(x.(*address.SipURIImpl)) : (typeis(x, *address.TelURLImpl) ? x.(*address.TelURLImpl).scheme + ":" + teltext(x.(*address.TelURLImpl).telephoneNumber) : x.(*address.URIImpl).uriString)
pred addrok(a) := a != nil && (a.address == nil || urival(a.address))
pred addrtext(a) := a.addressType == 2 ? "*" : (a.displayName == "" ? "" : "\"" + a.displayName + "\" ") + (a.address == nil ? "" : (a.addressType == 0 || a.displayName != "" ? "<" + uritext(a.address) + ">" : uritext(a.address)))

func address.AddressImpl.String(this) (r)
  props C10
  requires addrok(this)
  ensures [C10] text: r == addrtext(this)
func address.AddressImpl.GetAddressType(this) (r)
  props C10
  requires this != nil
  ensures [C10] get: r == this.addressType
func address.AddressImpl.GetDisplayName(this) (r)
  props C10
  requires this != nil
  ensures [C10] get: r == this.displayName
func address.AddressImpl.GetURI(this) (r)
  props C10
  requires this != nil
  ensures [C10] get: r == this.address
func address.AddressImpl.SetAddressType(this, t)
  props C10
  requires this != nil
  modifies this.addressType
  ensures [C10] set: this.addressType == t
func address.AddressImpl.SetDisplayName(this, s)
  props C10
  requires this != nil
  modifies this.displayName, this.addressType
  ensures [C10] set: this.displayName == s && this.addressType == 0
func address.AddressImpl.SetAddess(this, u)
  props C10
  requires this != nil
  modifies this.address
  ensures [C10] set: this.address == u
func address.AddressImpl.SetURI(this, u)
  props C10
  requires this != nil
  modifies this.address
  ensures [C10] set: this.address == u
func address.AddressImpl.HasDisplayName(this) (r)
  props C10
  requires this != nil
  ensures [C10] has: r <==> this.displayName != ""
func address.AddressImpl.RemoveDisplayName(this)
  props C10
  requires this != nil
  modifies this.displayName
  ensures [C10] none: this.displayName == ""
func address.AddressImpl.IsSIPAddress(this) (r)
  props C10
  requires this != nil
  ensures [C10] is: r <==> typeis(this.address, *address.SipURIImpl)
func address.AddressImpl.IsWildcard(this) (r)
  props C10
  requires this != nil
  ensures [C10] is: r <==> this.addressType == 2
func address.AddressImpl.SetWildCardFlag(this)
  props C10
  requires this != nil
  modifies this.addressType
  ensures [C10] set: this.addressType == 2
func address.AddressImpl.GetHostPort(this) (r, e)
  props C10
  requires addrok(this)
  ensures [C10] reject: e == nil <==> typeis(this.address, *address.SipURIImpl)
  ensures [C10] get: e == nil ==> r == (this.address.(*address.SipURIImpl).authority == nil ? nil : this.address.(*address.SipURIImpl).authority.hostPort)
func address.AddressImpl.GetPort(this) (r, e)
  props C10
  requires addrok(this)
  ensures [C10] reject: e == nil <==> typeis(this.address, *address.SipURIImpl)
  ensures [C10] get: r == (typeis(this.address, *address.SipURIImpl) ? (this.address.(*address.SipURIImpl).authority == nil || this.address.(*address.SipURIImpl).authority.hostPort == nil ? -1 : this.address.(*address.SipURIImpl).authority.hostPort.port) : -1)
func address.AddressImpl.GetHost(this) (r, e)
  props C10
  requires addrok(this)
  ensures [C10] reject: e == nil <==> typeis(this.address, *address.SipURIImpl)
  ensures [C10] get: r == (typeis(this.address, *address.SipURIImpl) && (this.address.(*address.SipURIImpl).authority == nil || this.address.(*address.SipURIImpl).authority.hostPort == nil ? nil : this.address.(*address.SipURIImpl).authority.hostPort.host) != nil ? (this.address.(*address.SipURIImpl).authority == nil || this.address.(*address.SipURIImpl).authority.hostPort == nil ? nil : this.address.(*address.SipURIImpl).authority.hostPort.host).hostname : "")
func address.AddressImpl.RemoveParameter(this, p) (e)
  props C10
  requires addrok(this)
  modifies ll(this.address.(*address.SipURIImpl).uriParms).n, ll(this.address.(*address.SipURIImpl).uriParms).at, ll(this.address.(*address.SipURIImpl).uriParms).idx, every(list.Element.owner)
  ensures [C10] reject: e == nil <==> typeis(this.address, *address.SipURIImpl)
  ensures [C10] gone: e == nil ==> pgone(this.address.(*address.SipURIImpl).uriParms, p) && pothers(this.address.(*address.SipURIImpl).uriParms, p)
func address.AddressImpl.SetUser(this, s)
  props C10
  requires addrok(this)
  modifies this.address.(*address.SipURIImpl).authority, this.address.(*address.SipURIImpl).authority.userInfo, this.address.(*address.SipURIImpl).authority.userInfo.user, this.address.(*address.SipURIImpl).authority.userInfo.userType
  ensures [C10] set: typeis(this.address, *address.SipURIImpl) ==> (this.address.(*address.SipURIImpl).authority == nil || this.address.(*address.SipURIImpl).authority.userInfo == nil ? "" : this.address.(*address.SipURIImpl).authority.userInfo.user) == s
func address.AddressImpl.GetUserAtHostPort(this) (r)
  props C10
  requires addrok(this) && this.address != nil
  ensures [C10] text: r == (typeis(this.address, *address.SipURIImpl) ? ((this.address.(*address.SipURIImpl).authority == nil || this.address.(*address.SipURIImpl).authority.userInfo == nil ? "" : this.address.(*address.SipURIImpl).authority.userInfo.user) == "" ? "" : (this.address.(*address.SipURIImpl).authority == nil || this.address.(*address.SipURIImpl).authority.userInfo == nil ? "" : this.address.(*address.SipURIImpl).authority.userInfo.user) + "@") + (this.address.(*address.SipURIImpl).authority == nil || this.address.(*address.SipURIImpl).authority.hostPort == nil || this.address.(*address.SipURIImpl).authority.hostPort.host == nil ? "" : hosttext(this.address.(*address.SipURIImpl).authority.hostPort.host)) + ((this.address.(*address.SipURIImpl).authority == nil || this.address.(*address.SipURIImpl).authority.hostPort == nil ? -1 : this.address.(*address.SipURIImpl).authority.hostPort.port) == -1 ? "" : ":" + itoa((this.address.(*address.SipURIImpl).authority == nil || this.address.(*address.SipURIImpl).authority.hostPort == nil ? -1 : this.address.(*address.SipURIImpl).authority.hostPort.port))) : uritext(this.address))

// user@host:port of a SIP URI
pred uhp(u) := ((u.authority == nil || u.authority.userInfo == nil ? "" : u.authority.userInfo.user) == "" ? "" : (u.authority == nil || u.authority.userInfo == nil ? "" : u.authority.userInfo.user) + "@") + (u.authority == nil || u.authority.hostPort == nil || u.authority.hostPort.host == nil ? "" : hosttext(u.authority.hostPort.host)) + ((u.authority == nil || u.authority.hostPort == nil ? -1 : u.authority.hostPort.port) == -1 ? "" : ":" + itoa((u.authority == nil || u.authority.hostPort == nil ? -1 : u.authority.hostPort.port)))
pred auhp(a) := typeis(a.address, *address.SipURIImpl) ? uhp(a.address.(*address.SipURIImpl)) : uritext(a.address)
