// ---------------------------------------------------------------- C17 collision list

ufn ipeq(Str, Str) Bool
trusted func net.IP.Equal(a, b) (r)
  ensures r <==> ipeq(str(a), str(b))

axiom forall a Str :: {ipeq(a, a)} ipeq(a, a)
axiom forall a Str, b Str :: {ipeq(a, b)} ipeq(a, b) ==> ipeq(b, a)
axiom forall a Str, b Str, c Str :: {ipeq(a, b), ipeq(b, c)} ipeq(a, b) && ipeq(b, c) ==> ipeq(a, c)

pred caok(a) := (typeis(a, *rtp.HostAddress) && a.(*rtp.HostAddress) != nil) || (typeis(a, *rtp.IPAddress) && a.(*rtp.IPAddress) != nil)
pred same(a, b) := (typeis(a, *rtp.HostAddress) && typeis(b, *rtp.HostAddress) && a.(*rtp.HostAddress).host == b.(*rtp.HostAddress).host && a.(*rtp.HostAddress).port == b.(*rtp.HostAddress).port)
  || (typeis(a, *rtp.IPAddress) && typeis(b, *rtp.IPAddress) && ipeq(str(a.(*rtp.IPAddress).ip), str(b.(*rtp.IPAddress).ip)) && a.(*rtp.IPAddress).port == b.(*rtp.IPAddress).port)

func rtp.HostAddress.IsSameAddress(this, addr) (r)
  props C17
  requires this != nil && (addr == nil || caok(addr))
  ensures [C17] equal: r <==> typeis(addr, *rtp.HostAddress) && addr.(*rtp.HostAddress).host == this.host && addr.(*rtp.HostAddress).port == this.port
func rtp.HostAddress.IsFromSameHost(this, addr) (r)
  props C17
  requires this != nil && (addr == nil || caok(addr))
  ensures [C17] equal: r <==> typeis(addr, *rtp.HostAddress) && addr.(*rtp.HostAddress).host == this.host
func rtp.HostAddress.Clone(this) (r)
  props C17
  requires this != nil
  ensures [C17] copy: typeis(r, *rtp.HostAddress) && fresh(r) && r.(*rtp.HostAddress) != nil && r.(*rtp.HostAddress).host == this.host && r.(*rtp.HostAddress).port == this.port
func rtp.IPAddress.IsSameAddress(this, addr) (r)
  props C17
  requires this != nil && (addr == nil || caok(addr))
  ensures [C17] equal: r <==> typeis(addr, *rtp.IPAddress) && ipeq(str(this.ip), str(addr.(*rtp.IPAddress).ip)) && addr.(*rtp.IPAddress).port == this.port
func rtp.IPAddress.IsFromSameHost(this, addr) (r)
  props C17
  requires this != nil && (addr == nil || caok(addr))
  ensures [C17] equal: r <==> typeis(addr, *rtp.IPAddress) && ipeq(str(this.ip), str(addr.(*rtp.IPAddress).ip))
func rtp.IPAddress.Clone(this) (r)
  props C17
  requires this != nil
  ensures [C17] copy: typeis(r, *rtp.IPAddress) && fresh(r) && r.(*rtp.IPAddress) != nil && r.(*rtp.IPAddress).ip == this.ip && r.(*rtp.IPAddress).port == this.port

pred at(l, i) := val(l, i).(*rtp.AddressTime)
pred clok(c) := c != nil && c.addresslist != nil && lwf(c.addresslist)
  && (forall i int :: {c.addresslist.at[i]} 0 <= i && i < c.addresslist.n ==> typeis(val(c.addresslist, i), *rtp.AddressTime) && at(c.addresslist, i) != nil && allocated(at(c.addresslist, i)) && caok(at(c.addresslist, i).addr))
  && (forall i int, j int :: {c.addresslist.at[i], c.addresslist.at[j]} 0 <= i && i < j && j < c.addresslist.n ==> at(c.addresslist, i) != at(c.addresslist, j) && !same(at(c.addresslist, i).addr, at(c.addresslist, j).addr))
pred listed(c, a) := exists i int :: {c.addresslist.at[i]} 0 <= i && i < c.addresslist.n && same(at(c.addresslist, i).addr, a)

fieldinv rtp.CollisionList.addresslist (this, v) := v == nil || ltag(ref(v)) == 0
func rtp.NewCollisionList() (r)
  props C17
  ensures [C17] empty: fresh(r) && clok(r) && r.addresslist.n == 0

func rtp.CollisionList.Clear(this)
  props C17
  requires clok(this)
  modifies this.addresslist.n, this.addresslist.at, this.addresslist.idx
  ensures [C17] empty: clok(this) && this.addresslist.n == 0

func rtp.CollisionList.HasAddress(this, addr) (r)
  props C17
  requires clok(this) && (addr == nil || caok(addr))
  inv <it *list.Element> forall i int :: {this.addresslist.at[i]} 0 <= i && i < (it == nil ? this.addresslist.n : this.addresslist.idx[ref(it)]) ==> !same(at(this.addresslist, i).addr, addr)
  ensures [C17] has: r <==> listed(this, addr)

func rtp.CollisionList.UpdateAddress(this, addr, tm) (r, e)
  props C17
  requires clok(this) && (addr == nil || caok(addr))
  modifies this.addresslist.n, this.addresslist.at, this.addresslist.idx, every(rtp.RTPTime.sec), every(rtp.RTPTime.microsec)
  let l := this.addresslist
  inv <it *list.Element> forall i int :: {l.at[i]} 0 <= i && i < (it == nil ? l.n : l.idx[ref(it)]) ==> !same(at(l, i).addr, addr)
  ensures [C17] nil-address: addr == nil ==> e != nil && !r && l.n == old(l.n) && l.at == old(l.at)
  ensures [C17] accepted: addr != nil ==> e == nil
  ensures [C17] created: addr != nil ==> (r <==> !old(listed(this, addr)))
  ensures [C17] valid-list: lwf(l)
  ensures [C17] valid-types: forall i int :: {l.at[i]} 0 <= i && i < l.n ==> typeis(val(l, i), *rtp.AddressTime) && at(l, i) != nil && allocated(at(l, i)) && caok(at(l, i).addr)
  ensures [C17] valid-distinct: forall i int, j int :: {l.at[i], l.at[j]} 0 <= i && i < j && j < l.n ==> at(l, i) != at(l, j) && !same(at(l, i).addr, at(l, j).addr)
  ensures [C17] valid: clok(this)
  ensures [C17] kept: !r ==> l.n == old(l.n) && l.at == old(l.at)
  ensures [C17] added: r ==> l.n == old(l.n) + 1 && same(at(l, l.n-1).addr, addr) && at(l, l.n-1).recvtime.sec == tm.sec && at(l, l.n-1).recvtime.microsec == tm.microsec
  ensures [C17] others: forall i int :: {l.at[i]} 0 <= i && i < old(l.n) ==> l.at[i] == old(l.at[i]) && at(l, i).addr == old(at(l, i).addr)
  ensures [C17] time: addr != nil ==> forall i int :: {l.at[i]} 0 <= i && i < old(l.n) ==> (same(at(l, i).addr, addr) ? (at(l, i).recvtime.sec == tm.sec && at(l, i).recvtime.microsec == tm.microsec) : (at(l, i).recvtime.sec == old(at(l, i).recvtime.sec) && at(l, i).recvtime.microsec == old(at(l, i).recvtime.microsec)))

func rtp.CollisionList.Timeout(this, now, delay)
  props C17
  requires clok(this) && now != nil && delay != nil && tok(now) && tok(delay) && tval(now) >= tval(delay)
  requires forall i int :: {this.addresslist.at[i]} 0 <= i && i < this.addresslist.n ==> tok(at(this.addresslist, i).recvtime)
  modifies this.addresslist.n, this.addresslist.at, this.addresslist.idx, every(list.Element.owner)
  let l := this.addresslist
  let oat := this.addresslist.at
  let oidx := this.addresslist.idx
  let on := this.addresslist.n
  let limit := tval(now) - tval(delay)
  // p entries have been decided; the undecided rest is the tail of the old list
  inv <it *list.Element> lwf(l) && l.n <= on
  inv <it *list.Element> forall i int :: {l.at[i]} (it == nil ? l.n : l.idx[ref(it)]) <= i && i < l.n ==> l.at[i] == oat[i + on - l.n]
  inv <it *list.Element> forall i int :: {l.at[i]} 0 <= i && i < l.n ==> 0 <= oidx[l.at[i]] && oidx[l.at[i]] < on && oat[oidx[l.at[i]]] == l.at[i]
  inv <it *list.Element> forall i int :: {l.at[i]} 0 <= i && i < (it == nil ? l.n : l.idx[ref(it)]) ==> tval(at(l, i).recvtime) >= limit
  inv <it *list.Element> forall i int :: {l.at[i]} 0 <= i && i < (it == nil ? l.n : l.idx[ref(it)]) ==> oidx[l.at[i]] < (it == nil ? l.n : l.idx[ref(it)]) + on - l.n
  inv <it *list.Element> forall i int, j int :: {l.at[i], l.at[j]} 0 <= i && i < j && j < l.n ==> oidx[l.at[i]] < oidx[l.at[j]]
  inv <it *list.Element> forall k int :: {oat[k]} 0 <= k && k < (it == nil ? l.n : l.idx[ref(it)]) + on - l.n && tval(as(oat[k], *list.Element).Value.(*rtp.AddressTime).recvtime) >= limit ==> 0 <= l.idx[oat[k]] && l.idx[oat[k]] < l.n && l.at[l.idx[oat[k]]] == oat[k]
  ensures [C17] no-newer-removed: forall k int :: {oat[k]} 0 <= k && k < on && tval(as(oat[k], *list.Element).Value.(*rtp.AddressTime).recvtime) >= limit ==> 0 <= l.idx[oat[k]] && l.idx[oat[k]] < l.n && l.at[l.idx[oat[k]]] == oat[k]
  ensures [C17] no-older-kept: forall i int :: {l.at[i]} 0 <= i && i < l.n ==> tval(at(l, i).recvtime) >= limit
  ensures [C17] from-list: forall i int :: {l.at[i]} 0 <= i && i < l.n ==> 0 <= oidx[l.at[i]] && oidx[l.at[i]] < on && oat[oidx[l.at[i]]] == l.at[i]
  ensures [C17] in-order: forall i int, j int :: {l.at[i], l.at[j]} 0 <= i && i < j && j < l.n ==> oidx[l.at[i]] < oidx[l.at[j]]
  ensures [C17] valid: clok(this)
