
// ---------------------------------------------------------------- the header table of a message (C20)
// a header: a non-nil pointer of one of the header types; hl: the list inside a header list
fieldinv message.SIPMessage.headers (this, v) := v == nil || (ltag(ref(v)) == 0 && whole(v))
pred hk(h) := lower(as(h.val, *header.SIPHeader).headerName)
pred islist(h) := typeis(h, header.SIPHeaderLister)
pred hl(h) := addr(as(h.val, *header.SIPHeaderList).List)
pred hdr(h) := h != nil && typeis(h, header.Header) && h.val > 0 && allocated(h.val)
pred hdrs(l) := lwf(l) && forall i int :: {l.at[i]} 0 <= i && i < l.n ==> hdr(val(l, i))
// headers of the kinds a message keeps typed references to carry their own name
pred canon(h) := (typeis(h, *header.Reason) ==> as(h.val, *header.SIPHeader).headerName == "Reason")
  && (typeis(h, *header.From) ==> hk(h) == "from") && (typeis(h, *header.To) ==> hk(h) == "to") && (typeis(h, *header.CSeq) ==> hk(h) == "cseq")
  && (typeis(h, *header.CallID) ==> hk(h) == "call-id") && (typeis(h, *header.MaxForwards) ==> hk(h) == "max-forwards") && (typeis(h, *header.ContentLength) ==> hk(h) == "content-length")
pred hok(h) := hdr(h) && canon(h) && (islist(h) ==> hdrs(hl(h)))
pred mt(m, k) := has(m.nameTable, k) ? m.nameTable[k] : nil
pred inm(m, h) := exists i int :: {m.headers.at[i]} 0 <= i && i < m.headers.n && val(m.headers, i) == h
pred tt1(m) := (m.fromHeader == (has(m.nameTable, "from") && typeis(mt(m, "from"), *header.From) ? mt(m, "from").(*header.From) : nil))
  && (m.toHeader == (has(m.nameTable, "to") && typeis(mt(m, "to"), *header.To) ? mt(m, "to").(*header.To) : nil))
  && (m.cSeqHeader == (has(m.nameTable, "cseq") && typeis(mt(m, "cseq"), *header.CSeq) ? mt(m, "cseq").(*header.CSeq) : nil))
  && (m.callIdHeader == (has(m.nameTable, "call-id") && typeis(mt(m, "call-id"), *header.CallID) ? mt(m, "call-id").(*header.CallID) : nil))
  && (m.maxForwardsHeader == (has(m.nameTable, "max-forwards") && typeis(mt(m, "max-forwards"), *header.MaxForwards) ? mt(m, "max-forwards").(*header.MaxForwards) : nil))
  && (m.contentLengthHeader == (has(m.nameTable, "content-length") && typeis(mt(m, "content-length"), *header.ContentLength) ? mt(m, "content-length").(*header.ContentLength) : nil))
pred mA(m) := lwf(m.headers) && forall i int :: {m.headers.at[i]} 0 <= i && i < m.headers.n ==> hok(val(m.headers, i)) && has(m.nameTable, hk(val(m.headers, i))) && mt(m, hk(val(m.headers, i))) == val(m.headers, i)
pred mU(m) := forall i int, j int :: {m.headers.at[i], m.headers.at[j]} 0 <= i && i < j && j < m.headers.n ==> hk(val(m.headers, i)) != hk(val(m.headers, j))
pred mB(m) := forall k Str :: {has(m.nameTable, k)} has(m.nameTable, k) ==> hok(mt(m, k)) && hk(mt(m, k)) == k && inm(m, mt(m, k))
pred mok(m) := m != nil && m.headers != nil && m.nameTable != nil && mA(m) && mU(m) && mB(m) && tt1(m)
// l is the list of on elements oat without the one of key k
pred without(l, on, oat, k) := l.n == on - 1 && (exists p int :: {oat[p]} 0 <= p && p < on && hk(as(oat[p], *list.Element).Value) == k && (forall i int :: {l.at[i]} 0 <= i && i < on - 1 ==> l.at[i] == (i < p ? oat[i] : oat[i + 1])) && (forall i int :: {oat[i]} 0 <= i && i < on && i != p ==> l.at[i < p ? i : i - 1] == oat[i]))
pred replaced(l, on, oat, k) := l.n == on && (exists p int :: {oat[p]} 0 <= p && p < on && hk(as(oat[p], *list.Element).Value) == k && (forall i int :: {l.at[i]} 0 <= i && i < on - 1 ==> l.at[i] == (i < p ? oat[i] : oat[i + 1])) && (forall i int :: {oat[i]} 0 <= i && i < on && i != p ==> l.at[i < p ? i : i - 1] == oat[i]))
func header.SIPHeaderList.Concatenate(this, shl, top)
  props C20
  requires this != nil && lwf(addr(this.List)) && (shl == nil || (hdr(shl) && islist(shl) && hdrs(hl(shl)) && hl(shl) != addr(this.List)))
  modifies addr(this.List).n, addr(this.List).at, addr(this.List).idx
  let l := addr(this.List)
  let o := hl(shl)
  let m := addr(this.List).n
  let oat := addr(this.List).at
  let c := shl == nil ? 0 : hl(shl).n
  inv lwf(l)
  inv <e *list.Element> !top && shl != nil ==> l.n == m + (e == nil ? c : o.idx[ref(e)]) && (forall i int :: {l.at[i]} 0 <= i && i < m ==> l.at[i] == oat[i]) && (forall i int :: {l.at[i]} m <= i && i < l.n ==> val(l, i) == val(o, i - m))
  inv <e *list.Element> top && shl != nil ==> l.n == m + (e == nil ? c : c - 1 - o.idx[ref(e)]) && (forall i int :: {oat[i]} 0 <= i && i < m ==> l.at[i + l.n - m] == oat[i]) && (forall i int :: {l.at[i]} 0 <= i && i < l.n - m ==> val(l, i) == val(o, i + c - (l.n - m)))
  ensures [C20] valid: lwf(l)
  ensures [C20] size: l.n == m + c
  ensures [C20] tail: !top ==> (forall i int :: {l.at[i]} 0 <= i && i < m ==> l.at[i] == oat[i]) && (forall i int :: {l.at[i]} m <= i && i < l.n ==> val(l, i) == val(o, i - m))
  ensures [C20] head: top ==> (forall i int :: {oat[i]} 0 <= i && i < m ==> l.at[i + c] == oat[i]) && (forall i int :: {l.at[i]} 0 <= i && i < c ==> val(l, i) == val(o, i))
  ensures [C20] rest: top ==> (forall i int :: {l.at[i]} c <= i && i < l.n ==> l.at[i] == oat[i - c])
  ensures [C20] old-tail: old(hdrs(l)) && !top ==> (forall i int :: {l.at[i]} 0 <= i && i < m ==> hdr(val(l, i)))
  ensures [C20] old-head: old(hdrs(l)) && top ==> (forall i int :: {l.at[i]} c <= i && i < l.n ==> hdr(val(l, i)))
  ensures [C20] new-tail: !top ==> (forall i int :: {l.at[i]} m <= i && i < l.n ==> hdr(val(l, i)))
  ensures [C20] new-head: top ==> (forall i int :: {l.at[i]} 0 <= i && i < c ==> hdr(val(l, i)))
  ensures [C20] headers: old(hdrs(l)) ==> hdrs(l)
func message.SIPMessage.RemoveHeader(this, name)
  props C20
  requires mok(this)
  modifies mapof(this.nameTable), this.headers.n, this.headers.at, this.headers.idx, every(list.Element.owner), this.fromHeader, this.toHeader, this.cSeqHeader, this.callIdHeader, this.maxForwardsHeader, this.contentLengthHeader
  let k := lower(name)
  let l := this.headers
  let on := this.headers.n
  let oat := this.headers.at
  let oidx := this.headers.idx
  inv <li *list.Element> (li != nil ==> l.n == on && l.at == oat && l.idx == oidx && li.owner == ref(l) && mem(l, li) && forall i int :: {l.at[i]} 0 <= i && i < l.idx[ref(li)] ==> hk(val(l, i)) != k)
  inv <li *list.Element> li == nil ==> forall i int :: {l.at[i]} 0 <= i && i < l.n ==> hk(val(l, i)) != k
  inv lwf(l) && (l.n == on && l.at == oat && l.idx == oidx || without(l, on, oat, k))
  inv forall e int :: {as(e, *list.Element).owner} old(as(e, *list.Element).owner) != ref(l) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
  ensures [C20] other-lists: forall e int :: {as(e, *list.Element).owner} old(as(e, *list.Element).owner) != ref(l) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
  ensures [C20] gone: !has(this.nameTable, k)
  ensures [C20] order: old(has(this.nameTable, k)) ? without(l, on, oat, k) : l.n == on && l.at == oat && l.idx == oidx
  ensures [C20] others: forall q Str :: {has(this.nameTable, q)} q != k ==> (has(this.nameTable, q) <==> old(has(this.nameTable, q))) && mt(this, q) == old(mt(this, q))
  ensures [C20] valid-a: mA(this)
  ensures [C20] valid-u: mU(this)
  ensures [C20] valid-b: mB(this)
  ensures [C20] valid-t: tt1(this)
  ensures [C20] valid: mok(this)
func message.SIPMessage.AttachHeader3(this, h, replace, top) (e)
  props C20
  requires mok(this) && (h == nil || hok(h))
  requires h != nil && has(this.nameTable, hk(h)) && mt(this, hk(h)).val == h.val ==> mt(this, hk(h)) == h
  modifies mapof(this.nameTable), this.headers.n, this.headers.at, this.headers.idx, every(list.Element.owner), this.fromHeader, this.toHeader, this.cSeqHeader, this.callIdHeader, this.maxForwardsHeader, this.contentLengthHeader, (h != nil && !replace && has(this.nameTable, hk(h)) && typeis(h, *header.ContentLength) ? this.contentLengthHeader : nil).contentLength, hl(replace ? nil : mt(this, hk(h))).n, hl(replace ? nil : mt(this, hk(h))).at, hl(replace ? nil : mt(this, hk(h))).idx
  let k := hk(h)
  let l := this.headers
  let on := this.headers.n
  let oat := this.headers.at
  let oidx := this.headers.idx
  let had := has(this.nameTable, hk(h))
  let orig := mt(this, hk(h))
  let put := h != nil && (replace || !has(this.nameTable, hk(h)))
  let merged := h != nil && has(this.nameTable, hk(h)) && !replace && islist(h) && islist(mt(this, hk(h))) && mt(this, hk(h)) != h
  let c := hl(h).n
  let lm := hl(mt(this, hk(h))).n
  let lat := hl(mt(this, hk(h))).at
  ensures [C20] error: e != nil <==> h == nil || (!put && islist(h) && !islist(orig))
  ensures [C20] present: put ==> has(this.nameTable, k) && mt(this, k) == h
  ensures [C20] kept: !put ==> l.n == on && l.at == oat && l.idx == oidx && (h != nil ==> has(this.nameTable, k) && mt(this, k) == orig)
  ensures [C20] last: put ==> val(l, l.n - 1) == h
  ensures [C20] order: put ==> (had ? replaced(l, on, oat, k) : l.n == on + 1 && forall i int :: {l.at[i]} {oat[i]} 0 <= i && i < on ==> l.at[i] == oat[i])
  ensures [C20] others: forall q Str :: {has(this.nameTable, q)} h == nil || q != k ==> (has(this.nameTable, q) <==> old(has(this.nameTable, q))) && mt(this, q) == old(mt(this, q))
  ensures [C20] merged-tail: merged && !top ==> hl(orig).n == lm + c && (forall i int :: {hl(orig).at[i]} 0 <= i && i < lm ==> hl(orig).at[i] == lat[i]) && (forall i int :: {hl(orig).at[i]} lm <= i && i < lm + c ==> val(hl(orig), i) == val(hl(h), i - lm))
  ensures [C20] merged-top: merged && top ==> hl(orig).n == lm + c && (forall i int :: {lat[i]} 0 <= i && i < lm ==> hl(orig).at[i + c] == lat[i]) && (forall i int :: {hl(orig).at[i]} 0 <= i && i < c ==> val(hl(orig), i) == val(hl(h), i))
  ensures [C20] list-kept: !merged && had && islist(orig) ==> hl(orig).n == lm && hl(orig).at == lat
  ensures [C20] length: !put && h != nil && typeis(h, *header.ContentLength) && this.contentLengthHeader != nil ==> this.contentLengthHeader.contentLength == (h.(*header.ContentLength).contentLength < 0 ? old(this.contentLengthHeader.contentLength) : h.(*header.ContentLength).contentLength)
  ensures [C20] other-lists: forall e int :: {as(e, *list.Element).owner} old(allocated(e)) && old(as(e, *list.Element).owner) != ref(l) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
  ensures [C20] valid-a: mA(this)
  ensures [C20] valid-u: mU(this)
  ensures [C20] valid-b1: forall q Str :: {has(this.nameTable, q)} has(this.nameTable, q) ==> hdr(mt(this, q)) && canon(mt(this, q)) && hk(mt(this, q)) == q
  ensures [C20] valid-b2: forall q Str :: {has(this.nameTable, q)} has(this.nameTable, q) && islist(mt(this, q)) ==> hdrs(hl(mt(this, q)))
  ensures [C20] valid-b3a: !put ==> forall q Str :: {has(this.nameTable, q)} has(this.nameTable, q) ==> inm(this, mt(this, q))
  ensures [C20] valid-b3b: put ==> inm(this, h)
  ensures [C20] valid-b3c: put && !had ==> forall q Str :: {has(this.nameTable, q)} q != k && has(this.nameTable, q) ==> inm(this, mt(this, q))
  ensures [C20] valid-b3d: put && had ==> forall q Str :: {has(this.nameTable, q)} q != k && has(this.nameTable, q) ==> inm(this, mt(this, q))
  ensures [C20] valid-t: tt1(this)
  ensures [C20] valid: mok(this)
func message.SIPMessage.SetHeader(this, h) (e)
  props C20
  requires mok(this) && (h == nil || hok(h))
  modifies mapof(this.nameTable), this.headers.n, this.headers.at, this.headers.idx, every(list.Element.owner), this.fromHeader, this.toHeader, this.cSeqHeader, this.callIdHeader, this.maxForwardsHeader, this.contentLengthHeader
  let k := hk(h)
  let l := this.headers
  let on := this.headers.n
  let oat := this.headers.at
  let had := has(this.nameTable, hk(h))
  let put := h != nil && !(islist(h) && hl(h).n == 0)
  ensures [C20] error: e != nil <==> h == nil
  ensures [C20] present: put ==> has(this.nameTable, k) && mt(this, k) == h
  ensures [C20] kept: !put ==> l.n == on && l.at == oat
  ensures [C20] last: put ==> val(l, l.n - 1) == h
  ensures [C20] order: put ==> (had ? replaced(l, on, oat, k) : l.n == on + 1 && forall i int :: {l.at[i]} {oat[i]} 0 <= i && i < on ==> l.at[i] == oat[i])
  ensures [C20] others: forall q Str :: {has(this.nameTable, q)} !put || q != k ==> (has(this.nameTable, q) <==> old(has(this.nameTable, q))) && mt(this, q) == old(mt(this, q))
  ensures [C20] other-lists: forall e int :: {as(e, *list.Element).owner} old(allocated(e)) && old(as(e, *list.Element).owner) != ref(l) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
  ensures [C20] length-header: h == nil || !typeis(h, *header.ContentLength) ==> this.contentLengthHeader == old(this.contentLengthHeader) || this.contentLengthHeader == nil
  ensures [C20] valid: mok(this)
func message.SIPMessage.AttachHeader(this, h) (e)
  props C20
  requires mok(this) && (h == nil || hok(h))
  requires h != nil && has(this.nameTable, hk(h)) && mt(this, hk(h)).val == h.val ==> mt(this, hk(h)) == h
  modifies mapof(this.nameTable), this.headers.n, this.headers.at, this.headers.idx, every(list.Element.owner), this.fromHeader, this.toHeader, this.cSeqHeader, this.callIdHeader, this.maxForwardsHeader, this.contentLengthHeader, (h != nil && has(this.nameTable, hk(h)) && typeis(h, *header.ContentLength) ? this.contentLengthHeader : nil).contentLength, hl(mt(this, hk(h))).n, hl(mt(this, hk(h))).at, hl(mt(this, hk(h))).idx
  let k := hk(h)
  let l := this.headers
  let on := this.headers.n
  let oat := this.headers.at
  let had := has(this.nameTable, hk(h))
  let orig := mt(this, hk(h))
  let empty := islist(h) && hl(h).n == 0
  let put := h != nil && !(islist(h) && hl(h).n == 0) && !has(this.nameTable, hk(h))
  let c := hl(h).n
  let lm := hl(mt(this, hk(h))).n
  let lat := hl(mt(this, hk(h))).at
  ensures [C20] error: e != nil <==> h == nil || (had && islist(h) && !empty && !islist(orig))
  ensures [C20] present: put ==> has(this.nameTable, k) && mt(this, k) == h
  ensures [C20] kept: !put ==> l.n == on && l.at == oat
  ensures [C20] last: put ==> l.n == on + 1 && val(l, on) == h && forall i int :: {l.at[i]} {oat[i]} 0 <= i && i < on ==> l.at[i] == oat[i]
  ensures [C20] others: forall q Str :: {has(this.nameTable, q)} !put || q != k ==> (has(this.nameTable, q) <==> old(has(this.nameTable, q))) && mt(this, q) == old(mt(this, q))
  ensures [C20] appended: h != nil && had && islist(h) && islist(orig) && orig != h ==> hl(orig).n == lm + c && (forall i int :: {hl(orig).at[i]} 0 <= i && i < lm ==> hl(orig).at[i] == lat[i]) && (forall i int :: {hl(orig).at[i]} lm <= i && i < lm + c ==> val(hl(orig), i) == val(hl(h), i - lm))
  ensures [C20] length: h != nil && had && typeis(h, *header.ContentLength) && this.contentLengthHeader != nil ==> this.contentLengthHeader.contentLength == (h.(*header.ContentLength).contentLength < 0 ? old(this.contentLengthHeader.contentLength) : h.(*header.ContentLength).contentLength)
  ensures [C20] valid-a: mA(this)
  ensures [C20] valid-u: mU(this)
  ensures [C20] valid-b: mB(this)
  ensures [C20] valid-t: tt1(this)
  ensures [C20] valid: mok(this)
func message.SIPMessage.GetHeader(this, name) (r)
  props C20
  requires mok(this)
  let k := lower(name)
  ensures [C20] absent: !has(this.nameTable, k) ==> r == nil
  ensures [C20] one: has(this.nameTable, k) && !islist(mt(this, k)) ==> r == mt(this, k)
  ensures [C20] first: has(this.nameTable, k) && islist(mt(this, k)) ==> r == (hl(mt(this, k)).n == 0 ? nil : val(hl(mt(this, k)), 0))
func message.SIPMessage.HasHeader(this, name) (r)
  props C20
  requires mok(this)
  ensures [C20] has: r <==> has(this.nameTable, lower(name))
func message.SIPMessage.GetSIPHeaderList(this, name) (r)
  props C20
  requires mok(this)
  let k := lower(name)
  ensures [C20] list: r == (has(this.nameTable, k) && islist(mt(this, k)) ? mt(this, k) : nil)
func message.SIPMessage.GetHeaderList(this, name) (r)
  props C20
  requires mok(this)
  let k := lower(name)
  ensures [C20] absent: !has(this.nameTable, k) ==> r == nil
  ensures [C20] list: has(this.nameTable, k) && islist(mt(this, k)) ==> r == mt(this, k)
  ensures [C20] one: has(this.nameTable, k) && !islist(mt(this, k)) ==> typeis(r, *list.List) && fresh(r.(*list.List)) && r.(*list.List).n == 1 && val(r.(*list.List), 0) == mt(this, k)
func message.SIPMessage.GetHeaders(this, name) (r)
  props C20
  requires mok(this)
  let k := lower(name)
  ensures [C20] absent: !has(this.nameTable, k) ==> typeis(r, *list.List) && r.(*list.List).n == 0
  ensures [C20] list: has(this.nameTable, k) && islist(mt(this, k)) ==> r == mt(this, k)
  ensures [C20] one: has(this.nameTable, k) && !islist(mt(this, k)) ==> typeis(r, *list.List) && fresh(r.(*list.List)) && r.(*list.List).n == 1 && val(r.(*list.List), 0) == mt(this, k)
func message.SIPMessage.super(this)
  props C20
  requires this != nil && this.contentLengthHeader == nil && this.fromHeader == nil && this.toHeader == nil && this.cSeqHeader == nil && this.callIdHeader == nil && this.maxForwardsHeader == nil
  modifies every(list.Element.owner), this.unrecognizedHeaders, this.headers, this.nameTable, this.contentLengthHeader, this.fromHeader, this.toHeader, this.cSeqHeader, this.callIdHeader, this.maxForwardsHeader
  ensures [C20] other-lists: forall e int :: {as(e, *list.Element).owner} old(allocated(e)) && old(as(e, *list.Element).owner) != ref(this.headers) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
  ensures [C20] valid: mok(this) && fresh(this.headers) && fresh(this.nameTable)
  ensures [C20] length: this.headers.n == 1 && this.contentLengthHeader != nil && fresh(this.contentLengthHeader) && this.contentLengthHeader.contentLength == 0
  ensures [C20] only: forall q Str :: {has(this.nameTable, q)} has(this.nameTable, q) <==> q == "content-length"
func message.NewSIPMessage() (r)
  props C20
  modifies every(list.Element.owner)
  ensures [C20] valid: fresh(r) && mok(r) && fresh(r.headers) && fresh(r.nameTable)
  ensures [C20] other-lists: forall e int :: {as(e, *list.Element).owner} old(allocated(e)) && old(as(e, *list.Element).owner) != ref(r.headers) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
  ensures [C20] length: r.headers.n == 1 && r.contentLengthHeader != nil && r.contentLengthHeader.contentLength == 0
  ensures [C20] only: forall q Str :: {has(r.nameTable, q)} has(r.nameTable, q) <==> q == "content-length"
