// ---------------------------------------------------------------- typed access to the header table (C20)
pred first(m, k) := !has(m.nameTable, k) ? nil : islist(mt(m, k)) ? (hl(mt(m, k)).n == 0 ? nil : val(hl(mt(m, k)), 0)) : mt(m, k)
func message.SIPMessage.RemoveHeader2(this, name, top)
  props C20
  requires mok(this)
  modifies mapof(this.nameTable), this.headers.n, this.headers.at, this.headers.idx, every(list.Element.owner), this.fromHeader, this.toHeader, this.cSeqHeader, this.callIdHeader, this.maxForwardsHeader, this.contentLengthHeader, hl(mt(this, lower(name))).n, hl(mt(this, lower(name))).at, hl(mt(this, lower(name))).idx
  let k := lower(name)
  let l := this.headers
  let on := this.headers.n
  let oat := this.headers.at
  let oidx := this.headers.idx
  let was := has(this.nameTable, lower(name))
  let o := mt(this, lower(name))
  let lm := hl(mt(this, lower(name))).n
  let lat := hl(mt(this, lower(name))).at
  let gone := has(this.nameTable, lower(name)) && (!islist(mt(this, lower(name))) || hl(mt(this, lower(name))).n <= 1)
  inv <li *list.Element> (li != nil ==> l.n == on && l.at == oat && l.idx == oidx && li.owner == ref(l) && mem(l, li) && forall i int :: {l.at[i]} 0 <= i && i < l.idx[ref(li)] ==> hk(val(l, i)) != k)
  inv <li *list.Element> li == nil ==> forall i int :: {l.at[i]} 0 <= i && i < l.n ==> hk(val(l, i)) != k
  inv lwf(l) && (l.n == on && l.at == oat && l.idx == oidx || without(l, on, oat, k))
  inv forall e int :: {as(e, *list.Element).owner} old(as(e, *list.Element).owner) != ref(l) && (!islist(o) || old(as(e, *list.Element).owner) != ref(hl(o))) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
  ensures [C20] other-lists: forall e int :: {as(e, *list.Element).owner} old(as(e, *list.Element).owner) != ref(l) && (!islist(o) || old(as(e, *list.Element).owner) != ref(hl(o))) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
  ensures [C20] gone: gone ==> !has(this.nameTable, k)
  ensures [C20] kept: !gone ==> (has(this.nameTable, k) <==> was) && mt(this, k) == o
  ensures [C20] order: gone ? without(l, on, oat, k) : l.n == on && l.at == oat && l.idx == oidx
  ensures [C20] one-less: was && islist(o) ==> hl(o).n == (lm == 0 ? 0 : lm - 1) && forall i int :: {hl(o).at[i]} 0 <= i && i < hl(o).n ==> hl(o).at[i] == (top ? lat[i + 1] : lat[i])
  ensures [C20] others: forall q Str :: {has(this.nameTable, q)} q != k ==> (has(this.nameTable, q) <==> old(has(this.nameTable, q))) && mt(this, q) == old(mt(this, q))
  ensures [C20] headers: was && islist(o) ==> hdrs(hl(o))
  ensures [C20] valid-a: mA(this)
  ensures [C20] valid-u: mU(this)
  ensures [C20] valid-b1: forall q Str :: {has(this.nameTable, q)} has(this.nameTable, q) ==> hdr(mt(this, q)) && canon(mt(this, q)) && hk(mt(this, q)) == q
  ensures [C20] valid-b2: forall q Str :: {has(this.nameTable, q)} has(this.nameTable, q) && islist(mt(this, q)) ==> hdrs(hl(mt(this, q)))
  ensures [C20] valid-b3a: !gone ==> forall q Str :: {has(this.nameTable, q)} has(this.nameTable, q) ==> inm(this, mt(this, q))
  ensures [C20] valid-b3b: gone ==> forall q Str :: {has(this.nameTable, q)} has(this.nameTable, q) ==> inm(this, mt(this, q))
  ensures [C20] valid-t: tt1(this)
  ensures [C20] valid: mok(this)
func message.SIPMessage.AttachHeader2(this, h, replace)
  props C20
  requires mok(this) && (h == nil || hok(h))
  requires h != nil && has(this.nameTable, hk(h)) && mt(this, hk(h)).val == h.val ==> mt(this, hk(h)) == h
  modifies mapof(this.nameTable), this.headers.n, this.headers.at, this.headers.idx, every(list.Element.owner), this.fromHeader, this.toHeader, this.cSeqHeader, this.callIdHeader, this.maxForwardsHeader, this.contentLengthHeader, (h != nil && !replace && has(this.nameTable, hk(h)) && typeis(h, *header.ContentLength) ? this.contentLengthHeader : nil).contentLength, hl(replace ? nil : mt(this, hk(h))).n, hl(replace ? nil : mt(this, hk(h))).at, hl(replace ? nil : mt(this, hk(h))).idx
  let k := hk(h)
  let l := this.headers
  let on := this.headers.n
  let oat := this.headers.at
  let oidx := this.headers.idx
  let had := has(this.nameTable, hk(h))
  let orig := mt(this, hk(h))
  let put := h != nil && (replace || !has(this.nameTable, hk(h)))
  let merged := h != nil && has(this.nameTable, hk(h)) && !replace && islist(h) && islist(mt(this, hk(h))) && mt(this, hk(h)) != h
  let c := hl(h).n
  let lm := hl(mt(this, hk(h))).n
  let lat := hl(mt(this, hk(h))).at
  ensures [C20] present: put ==> has(this.nameTable, k) && mt(this, k) == h
  ensures [C20] kept: !put ==> l.n == on && l.at == oat && l.idx == oidx && (h != nil ==> has(this.nameTable, k) && mt(this, k) == orig)
  ensures [C20] last: put ==> val(l, l.n - 1) == h
  ensures [C20] order: put ==> (had ? replaced(l, on, oat, k) : l.n == on + 1 && forall i int :: {l.at[i]} {oat[i]} 0 <= i && i < on ==> l.at[i] == oat[i])
  ensures [C20] others: forall q Str :: {has(this.nameTable, q)} h == nil || q != k ==> (has(this.nameTable, q) <==> old(has(this.nameTable, q))) && mt(this, q) == old(mt(this, q))
  ensures [C20] merged-tail: merged ==> hl(orig).n == lm + c && (forall i int :: {hl(orig).at[i]} 0 <= i && i < lm ==> hl(orig).at[i] == lat[i]) && (forall i int :: {hl(orig).at[i]} lm <= i && i < lm + c ==> val(hl(orig), i) == val(hl(h), i - lm))
  ensures [C20] list-kept: !merged && had && islist(orig) ==> hl(orig).n == lm && hl(orig).at == lat
  ensures [C20] length: !put && h != nil && typeis(h, *header.ContentLength) && this.contentLengthHeader != nil ==> this.contentLengthHeader.contentLength == (h.(*header.ContentLength).contentLength < 0 ? old(this.contentLengthHeader.contentLength) : h.(*header.ContentLength).contentLength)
  ensures [C20] other-lists: forall e int :: {as(e, *list.Element).owner} old(allocated(e)) && old(as(e, *list.Element).owner) != ref(l) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
  ensures [C20] valid: mok(this)
func message.SIPMessage.AddHeader(this, h)
  props C20
  requires mok(this) && h != nil && hok(h)
  requires h != nil && has(this.nameTable, hk(h)) && mt(this, hk(h)).val == h.val ==> mt(this, hk(h)) == h
  modifies mapof(this.nameTable), this.headers.n, this.headers.at, this.headers.idx, every(list.Element.owner), this.fromHeader, this.toHeader, this.cSeqHeader, this.callIdHeader, this.maxForwardsHeader, this.contentLengthHeader, (h != nil && has(this.nameTable, hk(h)) && typeis(h, *header.ContentLength) ? this.contentLengthHeader : nil).contentLength, hl(mt(this, hk(h))).n, hl(mt(this, hk(h))).at, hl(mt(this, hk(h))).idx
  let k := hk(h)
  let l := this.headers
  let on := this.headers.n
  let oat := this.headers.at
  let oidx := this.headers.idx
  let had := has(this.nameTable, hk(h))
  let orig := mt(this, hk(h))
  let put := h != nil && (!has(this.nameTable, hk(h)))
  let merged := h != nil && has(this.nameTable, hk(h)) && islist(h) && islist(mt(this, hk(h))) && mt(this, hk(h)) != h
  let c := hl(h).n
  let lm := hl(mt(this, hk(h))).n
  let lat := hl(mt(this, hk(h))).at
  ensures [C20] present: put ==> has(this.nameTable, k) && mt(this, k) == h
  ensures [C20] kept: !put ==> l.n == on && l.at == oat && l.idx == oidx && (h != nil ==> has(this.nameTable, k) && mt(this, k) == orig)
  ensures [C20] last: put ==> val(l, l.n - 1) == h
  ensures [C20] order: put ==> (had ? replaced(l, on, oat, k) : l.n == on + 1 && forall i int :: {l.at[i]} {oat[i]} 0 <= i && i < on ==> l.at[i] == oat[i])
  ensures [C20] others: forall q Str :: {has(this.nameTable, q)} h == nil || q != k ==> (has(this.nameTable, q) <==> old(has(this.nameTable, q))) && mt(this, q) == old(mt(this, q))
  ensures [C20] merged-tail: merged && !typeis(h, header.ViaHeader) ==> hl(orig).n == lm + c && (forall i int :: {hl(orig).at[i]} 0 <= i && i < lm ==> hl(orig).at[i] == lat[i]) && (forall i int :: {hl(orig).at[i]} lm <= i && i < lm + c ==> val(hl(orig), i) == val(hl(h), i - lm))
  ensures [C20] merged-top: merged && typeis(h, header.ViaHeader) ==> hl(orig).n == lm + c && (forall i int :: {lat[i]} 0 <= i && i < lm ==> hl(orig).at[i + c] == lat[i]) && (forall i int :: {hl(orig).at[i]} 0 <= i && i < c ==> val(hl(orig), i) == val(hl(h), i))
  ensures [C20] list-kept: !merged && had && islist(orig) ==> hl(orig).n == lm && hl(orig).at == lat
  ensures [C20] length: !put && h != nil && typeis(h, *header.ContentLength) && this.contentLengthHeader != nil ==> this.contentLengthHeader.contentLength == (h.(*header.ContentLength).contentLength < 0 ? old(this.contentLengthHeader.contentLength) : h.(*header.ContentLength).contentLength)
  ensures [C20] other-lists: forall e int :: {as(e, *list.Element).owner} old(allocated(e)) && old(as(e, *list.Element).owner) != ref(l) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
  ensures [C20] valid: mok(this)
func message.SIPMessage.SetMaxForwards(this, h)
  props C20
  requires mok(this) && (h == nil || hok(h))
  modifies mapof(this.nameTable), this.headers.n, this.headers.at, this.headers.idx, every(list.Element.owner), this.fromHeader, this.toHeader, this.cSeqHeader, this.callIdHeader, this.maxForwardsHeader, this.contentLengthHeader
  let k := hk(h)
  let l := this.headers
  let on := this.headers.n
  let oat := this.headers.at
  let had := has(this.nameTable, hk(h))
  let put := h != nil && !(islist(h) && hl(h).n == 0)
  ensures [C20] present: put ==> has(this.nameTable, k) && mt(this, k) == h
  ensures [C20] kept: !put ==> l.n == on && l.at == oat
  ensures [C20] last: put ==> val(l, l.n - 1) == h
  ensures [C20] order: put ==> (had ? replaced(l, on, oat, k) : l.n == on + 1 && forall i int :: {l.at[i]} {oat[i]} 0 <= i && i < on ==> l.at[i] == oat[i])
  ensures [C20] others: forall q Str :: {has(this.nameTable, q)} !put || q != k ==> (has(this.nameTable, q) <==> old(has(this.nameTable, q))) && mt(this, q) == old(mt(this, q))
  ensures [C20] other-lists: forall e int :: {as(e, *list.Element).owner} old(allocated(e)) && old(as(e, *list.Element).owner) != ref(l) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
  ensures [C20] length-header: h == nil || !typeis(h, *header.ContentLength) ==> this.contentLengthHeader == old(this.contentLengthHeader) || this.contentLengthHeader == nil
  ensures [C20] valid: mok(this)
func message.SIPMessage.SetMinExpiresHeader(this, h)
  props C20
  requires mok(this) && (h == nil || hok(h))
  modifies mapof(this.nameTable), this.headers.n, this.headers.at, this.headers.idx, every(list.Element.owner), this.fromHeader, this.toHeader, this.cSeqHeader, this.callIdHeader, this.maxForwardsHeader, this.contentLengthHeader
  let k := hk(h)
  let l := this.headers
  let on := this.headers.n
  let oat := this.headers.at
  let had := has(this.nameTable, hk(h))
  let put := h != nil && !(islist(h) && hl(h).n == 0)
  ensures [C20] present: put ==> has(this.nameTable, k) && mt(this, k) == h
  ensures [C20] kept: !put ==> l.n == on && l.at == oat
  ensures [C20] last: put ==> val(l, l.n - 1) == h
  ensures [C20] order: put ==> (had ? replaced(l, on, oat, k) : l.n == on + 1 && forall i int :: {l.at[i]} {oat[i]} 0 <= i && i < on ==> l.at[i] == oat[i])
  ensures [C20] others: forall q Str :: {has(this.nameTable, q)} !put || q != k ==> (has(this.nameTable, q) <==> old(has(this.nameTable, q))) && mt(this, q) == old(mt(this, q))
  ensures [C20] other-lists: forall e int :: {as(e, *list.Element).owner} old(allocated(e)) && old(as(e, *list.Element).owner) != ref(l) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
  ensures [C20] length-header: h == nil || !typeis(h, *header.ContentLength) ==> this.contentLengthHeader == old(this.contentLengthHeader) || this.contentLengthHeader == nil
  ensures [C20] valid: mok(this)
func message.SIPMessage.SetCallId(this, h)
  props C20
  requires mok(this) && (h == nil || hok(h))
  modifies mapof(this.nameTable), this.headers.n, this.headers.at, this.headers.idx, every(list.Element.owner), this.fromHeader, this.toHeader, this.cSeqHeader, this.callIdHeader, this.maxForwardsHeader, this.contentLengthHeader
  let k := hk(h)
  let l := this.headers
  let on := this.headers.n
  let oat := this.headers.at
  let had := has(this.nameTable, hk(h))
  let put := h != nil && !(islist(h) && hl(h).n == 0)
  ensures [C20] present: put ==> has(this.nameTable, k) && mt(this, k) == h
  ensures [C20] kept: !put ==> l.n == on && l.at == oat
  ensures [C20] last: put ==> val(l, l.n - 1) == h
  ensures [C20] order: put ==> (had ? replaced(l, on, oat, k) : l.n == on + 1 && forall i int :: {l.at[i]} {oat[i]} 0 <= i && i < on ==> l.at[i] == oat[i])
  ensures [C20] others: forall q Str :: {has(this.nameTable, q)} !put || q != k ==> (has(this.nameTable, q) <==> old(has(this.nameTable, q))) && mt(this, q) == old(mt(this, q))
  ensures [C20] other-lists: forall e int :: {as(e, *list.Element).owner} old(allocated(e)) && old(as(e, *list.Element).owner) != ref(l) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
  ensures [C20] length-header: h == nil || !typeis(h, *header.ContentLength) ==> this.contentLengthHeader == old(this.contentLengthHeader) || this.contentLengthHeader == nil
  ensures [C20] valid: mok(this)
func message.SIPMessage.SetTo(this, h)
  props C20
  requires mok(this) && (h == nil || hok(h))
  modifies mapof(this.nameTable), this.headers.n, this.headers.at, this.headers.idx, every(list.Element.owner), this.fromHeader, this.toHeader, this.cSeqHeader, this.callIdHeader, this.maxForwardsHeader, this.contentLengthHeader
  let k := hk(h)
  let l := this.headers
  let on := this.headers.n
  let oat := this.headers.at
  let had := has(this.nameTable, hk(h))
  let put := h != nil && !(islist(h) && hl(h).n == 0)
  ensures [C20] present: put ==> has(this.nameTable, k) && mt(this, k) == h
  ensures [C20] kept: !put ==> l.n == on && l.at == oat
  ensures [C20] last: put ==> val(l, l.n - 1) == h
  ensures [C20] order: put ==> (had ? replaced(l, on, oat, k) : l.n == on + 1 && forall i int :: {l.at[i]} {oat[i]} 0 <= i && i < on ==> l.at[i] == oat[i])
  ensures [C20] others: forall q Str :: {has(this.nameTable, q)} !put || q != k ==> (has(this.nameTable, q) <==> old(has(this.nameTable, q))) && mt(this, q) == old(mt(this, q))
  ensures [C20] other-lists: forall e int :: {as(e, *list.Element).owner} old(allocated(e)) && old(as(e, *list.Element).owner) != ref(l) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
  ensures [C20] length-header: h == nil || !typeis(h, *header.ContentLength) ==> this.contentLengthHeader == old(this.contentLengthHeader) || this.contentLengthHeader == nil
  ensures [C20] valid: mok(this)
func message.SIPMessage.SetFrom(this, h)
  props C20
  requires mok(this) && (h == nil || hok(h))
  modifies mapof(this.nameTable), this.headers.n, this.headers.at, this.headers.idx, every(list.Element.owner), this.fromHeader, this.toHeader, this.cSeqHeader, this.callIdHeader, this.maxForwardsHeader, this.contentLengthHeader
  let k := hk(h)
  let l := this.headers
  let on := this.headers.n
  let oat := this.headers.at
  let had := has(this.nameTable, hk(h))
  let put := h != nil && !(islist(h) && hl(h).n == 0)
  ensures [C20] present: put ==> has(this.nameTable, k) && mt(this, k) == h
  ensures [C20] kept: !put ==> l.n == on && l.at == oat
  ensures [C20] last: put ==> val(l, l.n - 1) == h
  ensures [C20] order: put ==> (had ? replaced(l, on, oat, k) : l.n == on + 1 && forall i int :: {l.at[i]} {oat[i]} 0 <= i && i < on ==> l.at[i] == oat[i])
  ensures [C20] others: forall q Str :: {has(this.nameTable, q)} !put || q != k ==> (has(this.nameTable, q) <==> old(has(this.nameTable, q))) && mt(this, q) == old(mt(this, q))
  ensures [C20] other-lists: forall e int :: {as(e, *list.Element).owner} old(allocated(e)) && old(as(e, *list.Element).owner) != ref(l) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
  ensures [C20] length-header: h == nil || !typeis(h, *header.ContentLength) ==> this.contentLengthHeader == old(this.contentLengthHeader) || this.contentLengthHeader == nil
  ensures [C20] valid: mok(this)
func message.SIPMessage.SetExpires(this, h)
  props C20
  requires mok(this) && (h == nil || hok(h))
  modifies mapof(this.nameTable), this.headers.n, this.headers.at, this.headers.idx, every(list.Element.owner), this.fromHeader, this.toHeader, this.cSeqHeader, this.callIdHeader, this.maxForwardsHeader, this.contentLengthHeader
  let k := hk(h)
  let l := this.headers
  let on := this.headers.n
  let oat := this.headers.at
  let had := has(this.nameTable, hk(h))
  let put := h != nil && !(islist(h) && hl(h).n == 0)
  ensures [C20] present: put ==> has(this.nameTable, k) && mt(this, k) == h
  ensures [C20] kept: !put ==> l.n == on && l.at == oat
  ensures [C20] last: put ==> val(l, l.n - 1) == h
  ensures [C20] order: put ==> (had ? replaced(l, on, oat, k) : l.n == on + 1 && forall i int :: {l.at[i]} {oat[i]} 0 <= i && i < on ==> l.at[i] == oat[i])
  ensures [C20] others: forall q Str :: {has(this.nameTable, q)} !put || q != k ==> (has(this.nameTable, q) <==> old(has(this.nameTable, q))) && mt(this, q) == old(mt(this, q))
  ensures [C20] other-lists: forall e int :: {as(e, *list.Element).owner} old(allocated(e)) && old(as(e, *list.Element).owner) != ref(l) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
  ensures [C20] length-header: h == nil || !typeis(h, *header.ContentLength) ==> this.contentLengthHeader == old(this.contentLengthHeader) || this.contentLengthHeader == nil
  ensures [C20] valid: mok(this)
func message.SIPMessage.SetContentDisposition(this, h)
  props C20
  requires mok(this) && (h == nil || hok(h))
  modifies mapof(this.nameTable), this.headers.n, this.headers.at, this.headers.idx, every(list.Element.owner), this.fromHeader, this.toHeader, this.cSeqHeader, this.callIdHeader, this.maxForwardsHeader, this.contentLengthHeader
  let k := hk(h)
  let l := this.headers
  let on := this.headers.n
  let oat := this.headers.at
  let had := has(this.nameTable, hk(h))
  let put := h != nil && !(islist(h) && hl(h).n == 0)
  ensures [C20] present: put ==> has(this.nameTable, k) && mt(this, k) == h
  ensures [C20] kept: !put ==> l.n == on && l.at == oat
  ensures [C20] last: put ==> val(l, l.n - 1) == h
  ensures [C20] order: put ==> (had ? replaced(l, on, oat, k) : l.n == on + 1 && forall i int :: {l.at[i]} {oat[i]} 0 <= i && i < on ==> l.at[i] == oat[i])
  ensures [C20] others: forall q Str :: {has(this.nameTable, q)} !put || q != k ==> (has(this.nameTable, q) <==> old(has(this.nameTable, q))) && mt(this, q) == old(mt(this, q))
  ensures [C20] other-lists: forall e int :: {as(e, *list.Element).owner} old(allocated(e)) && old(as(e, *list.Element).owner) != ref(l) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
  ensures [C20] length-header: h == nil || !typeis(h, *header.ContentLength) ==> this.contentLengthHeader == old(this.contentLengthHeader) || this.contentLengthHeader == nil
  ensures [C20] valid: mok(this)
func message.SIPMessage.SetContentEncoding(this, h)
  props C20
  requires mok(this) && (h == nil || hok(h))
  modifies mapof(this.nameTable), this.headers.n, this.headers.at, this.headers.idx, every(list.Element.owner), this.fromHeader, this.toHeader, this.cSeqHeader, this.callIdHeader, this.maxForwardsHeader, this.contentLengthHeader
  let k := hk(h)
  let l := this.headers
  let on := this.headers.n
  let oat := this.headers.at
  let had := has(this.nameTable, hk(h))
  let put := h != nil && !(islist(h) && hl(h).n == 0)
  ensures [C20] present: put ==> has(this.nameTable, k) && mt(this, k) == h
  ensures [C20] kept: !put ==> l.n == on && l.at == oat
  ensures [C20] last: put ==> val(l, l.n - 1) == h
  ensures [C20] order: put ==> (had ? replaced(l, on, oat, k) : l.n == on + 1 && forall i int :: {l.at[i]} {oat[i]} 0 <= i && i < on ==> l.at[i] == oat[i])
  ensures [C20] others: forall q Str :: {has(this.nameTable, q)} !put || q != k ==> (has(this.nameTable, q) <==> old(has(this.nameTable, q))) && mt(this, q) == old(mt(this, q))
  ensures [C20] other-lists: forall e int :: {as(e, *list.Element).owner} old(allocated(e)) && old(as(e, *list.Element).owner) != ref(l) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
  ensures [C20] length-header: h == nil || !typeis(h, *header.ContentLength) ==> this.contentLengthHeader == old(this.contentLengthHeader) || this.contentLengthHeader == nil
  ensures [C20] valid: mok(this)
func message.SIPMessage.SetContentLanguage(this, h)
  props C20
  requires mok(this) && (h == nil || hok(h))
  modifies mapof(this.nameTable), this.headers.n, this.headers.at, this.headers.idx, every(list.Element.owner), this.fromHeader, this.toHeader, this.cSeqHeader, this.callIdHeader, this.maxForwardsHeader, this.contentLengthHeader
  let k := hk(h)
  let l := this.headers
  let on := this.headers.n
  let oat := this.headers.at
  let had := has(this.nameTable, hk(h))
  let put := h != nil && !(islist(h) && hl(h).n == 0)
  ensures [C20] present: put ==> has(this.nameTable, k) && mt(this, k) == h
  ensures [C20] kept: !put ==> l.n == on && l.at == oat
  ensures [C20] last: put ==> val(l, l.n - 1) == h
  ensures [C20] order: put ==> (had ? replaced(l, on, oat, k) : l.n == on + 1 && forall i int :: {l.at[i]} {oat[i]} 0 <= i && i < on ==> l.at[i] == oat[i])
  ensures [C20] others: forall q Str :: {has(this.nameTable, q)} !put || q != k ==> (has(this.nameTable, q) <==> old(has(this.nameTable, q))) && mt(this, q) == old(mt(this, q))
  ensures [C20] other-lists: forall e int :: {as(e, *list.Element).owner} old(allocated(e)) && old(as(e, *list.Element).owner) != ref(l) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
  ensures [C20] length-header: h == nil || !typeis(h, *header.ContentLength) ==> this.contentLengthHeader == old(this.contentLengthHeader) || this.contentLengthHeader == nil
  ensures [C20] valid: mok(this)
func message.SIPMessage.SetCSeq(this, h)
  props C20
  requires mok(this) && (h == nil || hok(h))
  modifies mapof(this.nameTable), this.headers.n, this.headers.at, this.headers.idx, every(list.Element.owner), this.fromHeader, this.toHeader, this.cSeqHeader, this.callIdHeader, this.maxForwardsHeader, this.contentLengthHeader
  let k := hk(h)
  let l := this.headers
  let on := this.headers.n
  let oat := this.headers.at
  let had := has(this.nameTable, hk(h))
  let put := h != nil && !(islist(h) && hl(h).n == 0)
  ensures [C20] present: put ==> has(this.nameTable, k) && mt(this, k) == h
  ensures [C20] kept: !put ==> l.n == on && l.at == oat
  ensures [C20] last: put ==> val(l, l.n - 1) == h
  ensures [C20] order: put ==> (had ? replaced(l, on, oat, k) : l.n == on + 1 && forall i int :: {l.at[i]} {oat[i]} 0 <= i && i < on ==> l.at[i] == oat[i])
  ensures [C20] others: forall q Str :: {has(this.nameTable, q)} !put || q != k ==> (has(this.nameTable, q) <==> old(has(this.nameTable, q))) && mt(this, q) == old(mt(this, q))
  ensures [C20] other-lists: forall e int :: {as(e, *list.Element).owner} old(allocated(e)) && old(as(e, *list.Element).owner) != ref(l) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
  ensures [C20] length-header: h == nil || !typeis(h, *header.ContentLength) ==> this.contentLengthHeader == old(this.contentLengthHeader) || this.contentLengthHeader == nil
  ensures [C20] valid: mok(this)
func message.SIPMessage.SetHeaderFromSIPHeaderList(this, h)
  props C20
  requires mok(this) && (h == nil || hok(h))
  modifies mapof(this.nameTable), this.headers.n, this.headers.at, this.headers.idx, every(list.Element.owner), this.fromHeader, this.toHeader, this.cSeqHeader, this.callIdHeader, this.maxForwardsHeader, this.contentLengthHeader
  let k := hk(h)
  let l := this.headers
  let on := this.headers.n
  let oat := this.headers.at
  let had := has(this.nameTable, hk(h))
  let put := h != nil && !(islist(h) && hl(h).n == 0)
  ensures [C20] present: put ==> has(this.nameTable, k) && mt(this, k) == h
  ensures [C20] kept: !put ==> l.n == on && l.at == oat
  ensures [C20] last: put ==> val(l, l.n - 1) == h
  ensures [C20] order: put ==> (had ? replaced(l, on, oat, k) : l.n == on + 1 && forall i int :: {l.at[i]} {oat[i]} 0 <= i && i < on ==> l.at[i] == oat[i])
  ensures [C20] others: forall q Str :: {has(this.nameTable, q)} !put || q != k ==> (has(this.nameTable, q) <==> old(has(this.nameTable, q))) && mt(this, q) == old(mt(this, q))
  ensures [C20] other-lists: forall e int :: {as(e, *list.Element).owner} old(allocated(e)) && old(as(e, *list.Element).owner) != ref(l) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
  ensures [C20] length-header: h == nil || !typeis(h, *header.ContentLength) ==> this.contentLengthHeader == old(this.contentLengthHeader) || this.contentLengthHeader == nil
  ensures [C20] valid: mok(this)
func message.SIPMessage.GetErrorInfoHeaders(this) (r)
  props C20
  requires mok(this)
  ensures [C20] list: r == (has(this.nameTable, "error-info") && typeis(mt(this, "error-info"), *header.ErrorInfoList) ? mt(this, "error-info").(*header.ErrorInfoList) : nil)
func message.SIPMessage.GetContactHeaders(this) (r)
  props C20
  requires mok(this)
  ensures [C20] list: r == (has(this.nameTable, "contact") && typeis(mt(this, "contact"), *header.ContactList) ? mt(this, "contact").(*header.ContactList) : nil)
func message.SIPMessage.GetViaHeaders(this) (r)
  props C20
  requires mok(this)
  ensures [C20] list: r == (has(this.nameTable, "via") && typeis(mt(this, "via"), *header.ViaList) ? mt(this, "via").(*header.ViaList) : nil)
func message.SIPMessage.GetRouteHeaders(this) (r)
  props C20
  requires mok(this)
  ensures [C20] list: r == (has(this.nameTable, "route") && typeis(mt(this, "route"), *header.RouteList) ? mt(this, "route").(*header.RouteList) : nil)
func message.SIPMessage.GetRecordRouteHeaders(this) (r)
  props C20
  requires mok(this)
  ensures [C20] list: r == (has(this.nameTable, "record-route") && typeis(mt(this, "record-route"), *header.RecordRouteList) ? mt(this, "record-route").(*header.RecordRouteList) : nil)
func message.SIPMessage.GetAuthorization(this) (r)
  props C20
  requires mok(this)
  ensures [C20] header: r == (typeis(first(this, "authorization"), *header.Authorization) ? first(this, "authorization").(*header.Authorization) : nil)
func message.SIPMessage.GetMinExpires(this) (r)
  props C20
  requires mok(this)
  ensures [C20] header: r == (typeis(first(this, "min-expires"), *header.MinExpires) ? first(this, "min-expires").(*header.MinExpires) : nil)
func message.SIPMessage.GetOrganizationHeader(this) (r)
  props C20
  requires mok(this)
  ensures [C20] header: r == (typeis(first(this, "organization"), *header.Organization) ? first(this, "organization").(*header.Organization) : nil)
func message.SIPMessage.GetPriorityHeader(this) (r)
  props C20
  requires mok(this)
  ensures [C20] header: r == (typeis(first(this, "priority"), *header.Priority) ? first(this, "priority").(*header.Priority) : nil)
func message.SIPMessage.GetProxyAuthorizationHeader(this) (r)
  props C20
  requires mok(this)
  ensures [C20] header: r == (typeis(first(this, "proxy-authorization"), *header.ProxyAuthorization) ? first(this, "proxy-authorization").(*header.ProxyAuthorization) : nil)
func message.SIPMessage.GetContentTypeHeader(this) (r)
  props C20
  requires mok(this)
  ensures [C20] header: r == (typeis(first(this, "content-type"), header.ContentTypeHeader) ? first(this, "content-type") : nil)
func message.SIPMessage.GetContentDisposition(this) (r)
  props C20
  requires mok(this)
  ensures [C20] header: r == (typeis(first(this, "content-disposition"), header.ContentDispositionHeader) ? first(this, "content-disposition") : nil)
func message.SIPMessage.GetContentEncoding(this) (r)
  props C20
  requires mok(this)
  ensures [C20] header: r == (typeis(first(this, "content-encoding"), header.ContentEncodingHeader) ? first(this, "content-encoding") : nil)
func message.SIPMessage.GetContentLanguage(this) (r)
  props C20
  requires mok(this)
  ensures [C20] header: r == (typeis(first(this, "content-language"), header.ContentLanguageHeader) ? first(this, "content-language") : nil)
func message.SIPMessage.GetExpires(this) (r)
  props C20
  requires mok(this)
  ensures [C20] header: r == (typeis(first(this, "expires"), header.ExpiresHeader) ? first(this, "expires") : nil)
func message.SIPMessage.GetCSeq(this) (r)
  props C20
  requires this != nil
  ensures [C20] get: (this.cSeqHeader == nil ? r == nil : typeis(r, *header.CSeq) && r.(*header.CSeq) == this.cSeqHeader)
func message.SIPMessage.GetMaxForwards(this) (r)
  props C20
  requires this != nil
  ensures [C20] get: (this.maxForwardsHeader == nil ? r == nil : typeis(r, *header.MaxForwards) && r.(*header.MaxForwards) == this.maxForwardsHeader)
func message.SIPMessage.GetContentLength(this) (r)
  props C20
  requires this != nil
  ensures [C20] get: (this.contentLengthHeader == nil ? r == nil : typeis(r, *header.ContentLength) && r.(*header.ContentLength) == this.contentLengthHeader)
func message.SIPMessage.GetCSeqNumber(this) (r)
  props C20
  requires this != nil && this.cSeqHeader != nil
  ensures [C20] get: r == this.cSeqHeader.seqno
func message.SIPMessage.GetCallIdentifier(this) (r)
  props C20
  requires this != nil && this.callIdHeader != nil
  ensures [C20] get: r == cid(this.callIdHeader.callIdentifier)
func message.SIPMessage.getHeaders(this) (r)
  props C20
  requires this != nil && this.headers != nil
  ensures [C20] get: typeis(r, *list.List) && r.(*list.List) == this.headers
func message.SIPMessage.GetHeaderNames(this) (r)
  props C20
  requires this != nil
  ensures [C20] get: r == this.headers
func message.SIPMessage.GetTopmostVia(this) (r)
  props C20
  requires mok(this)
  requires typeis(mt(this, "via"), *header.ViaList) ==> forall i int :: {hl(mt(this, "via")).at[i]} 0 <= i && i < hl(mt(this, "via")).n ==> typeis(val(hl(mt(this, "via")), i), *header.Via)
  ensures [C20] via: r == (has(this.nameTable, "via") && typeis(mt(this, "via"), *header.ViaList) && hl(mt(this, "via")).n > 0 ? val(hl(mt(this, "via")), 0).(*header.Via) : nil)
func message.SIPMessage.HasFromTag(this) (r)
  props C20
  requires this != nil && (this.fromHeader != nil ==> pok(this.fromHeader))
  ensures [C20] has: this.fromHeader == nil ==> !r
  ensures [C20] look: this.fromHeader != nil ==> forall v Str :: plook(this.fromHeader.parameters, "tag", v) && uniq(this.fromHeader.parameters) ==> (r <==> v != "")
func message.SIPMessage.GetFromTag(this) (r)
  props C20
  requires this != nil && (this.fromHeader != nil ==> pok(this.fromHeader))
  ensures [C20] none: this.fromHeader == nil ==> r == ""
  ensures [C20] look: this.fromHeader != nil ==> plook(this.fromHeader.parameters, "tag", r)
func message.SIPMessage.SetFromTag(this, s)
  props C20
  requires this != nil && (this.fromHeader != nil ==> pok(this.fromHeader))
  modifies ll(this.fromHeader.parameters).n, ll(this.fromHeader.parameters).at, ll(this.fromHeader.parameters).idx, every(core.NameValue.value)
  ensures [C20] stored: this.fromHeader != nil && s != "" && trim(s) != "" && old(uniq(this.fromHeader.parameters)) ==> uniq(this.fromHeader.parameters) && named(this.fromHeader.parameters, "tag") && pval(this.fromHeader.parameters, "tag", s)
  ensures [C20] kept: this.fromHeader != nil && trim(s) == "" ==> pkept(this.fromHeader)
func message.SIPMessage.HasToTag(this) (r)
  props C20
  requires this != nil && (this.toHeader != nil ==> pok(this.toHeader))
  ensures [C20] has: this.toHeader == nil ==> !r
  ensures [C20] look: this.toHeader != nil ==> forall v Str :: plook(this.toHeader.parameters, "tag", v) && uniq(this.toHeader.parameters) ==> (r <==> v != "")
func message.SIPMessage.GetToTag(this) (r)
  props C20
  requires this != nil && (this.toHeader != nil ==> pok(this.toHeader))
  ensures [C20] none: this.toHeader == nil ==> r == ""
  ensures [C20] look: this.toHeader != nil ==> plook(this.toHeader.parameters, "tag", r)
func message.SIPMessage.SetToTag(this, s)
  props C20
  requires this != nil && (this.toHeader != nil ==> pok(this.toHeader))
  modifies ll(this.toHeader.parameters).n, ll(this.toHeader.parameters).at, ll(this.toHeader.parameters).idx, every(core.NameValue.value)
  ensures [C20] stored: this.toHeader != nil && s != "" && trim(s) != "" && old(uniq(this.toHeader.parameters)) ==> uniq(this.toHeader.parameters) && named(this.toHeader.parameters, "tag") && pval(this.toHeader.parameters, "tag", s)
  ensures [C20] kept: this.toHeader != nil && trim(s) == "" ==> pkept(this.toHeader)
func message.SIPMessage.SetVia(this, vs)
  props C20
  requires mok(this) && vs != nil && hdrs(addr(vs.List)) && forall i int :: {addr(vs.List).at[i]} 0 <= i && i < addr(vs.List).n ==> typeis(val(addr(vs.List), i), *header.Via)
  modifies mapof(this.nameTable), this.headers.n, this.headers.at, this.headers.idx, every(list.Element.owner), this.fromHeader, this.toHeader, this.cSeqHeader, this.callIdHeader, this.maxForwardsHeader, this.contentLengthHeader
  let l := this.headers
  let on := this.headers.n
  let oat := this.headers.at
  let had := has(this.nameTable, "via")
  let vl := addr(vs.List)
  let c := addr(vs.List).n
  let nl := hl(mt(this, "via"))
  inv <it *list.Element, vList *header.ViaList> lwf(addr(vList.List)) && addr(vList.List).n == (it == nil ? c : vl.idx[ref(it)]) && (forall i int :: {addr(vList.List).at[i]} 0 <= i && i < addr(vList.List).n ==> val(addr(vList.List), i) == val(vl, i))
  ensures [C20] present: c > 0 ==> has(this.nameTable, "via") && typeis(mt(this, "via"), *header.ViaList) && fresh(mt(this, "via").(*header.ViaList))
  ensures [C20] same: c > 0 ==> hl(mt(this, "via")).n == c && forall i int :: {hl(mt(this, "via")).at[i]} 0 <= i && i < c ==> val(hl(mt(this, "via")), i) == val(vl, i)
  ensures [C20] kept: c == 0 ==> l.n == on && l.at == oat
  ensures [C20] order: c > 0 ==> (had ? replaced(l, on, oat, "via") : l.n == on + 1 && forall i int :: {l.at[i]} {oat[i]} 0 <= i && i < on ==> l.at[i] == oat[i])
  ensures [C20] others: forall q Str :: {has(this.nameTable, q)} c == 0 || q != "via" ==> (has(this.nameTable, q) <==> old(has(this.nameTable, q))) && mt(this, q) == old(mt(this, q))
  ensures [C20] valid: mok(this)
// the text a header's String() returns in the state of the call; encoding a header changes none
ufn htext(Int, Int) Str
interface header.Header.String(this) (r)
  ensures r == htext(this.tag, this.val)
// content: the object if there is one, then the text, then the bytes
fieldinv message.SIPMessage.messageContentObject (this, v) := v == nil
pred body(m) := m.messageContent != "" ? m.messageContent : m.messageContentBytes == nil ? "" : str(m.messageContentBytes)
pred cltext(m) := m.contentLengthHeader == nil ? "" : line(m.contentLengthHeader.headerName, itoa(m.contentLengthHeader.contentLength))
pred lenok(m) := m.contentLengthHeader != nil && m.contentLengthHeader.contentLength == len(body(m))
func message.SIPMessage.String(this) (r)
  props C18 C20
  requires mok(this)
  let l := this.headers
  let hs := array k Str :: (typeis(val(this.headers, k), *header.ContentLength) ? "" : htext(val(this.headers, k).tag, val(this.headers, k).val))
  inv <it *list.Element, b *bytes.Buffer> b.s == join(hs, it == nil ? l.n : l.idx[ref(it)], "")
  ensures [C18,C20] text: r == join(hs, l.n, "") + cltext(this) + "\r\n" + body(this)
func message.SIPMessage.EncodeAsBytes(this) (r)
  props C18
  requires mok(this)
  let l := this.headers
  let hs := array k Str :: (typeis(val(this.headers, k), *header.ContentLength) ? "" : htext(val(this.headers, k).tag, val(this.headers, k).val))
  ensures [C18] text: str(r) == join(hs, l.n, "") + cltext(this) + "\r\n" + body(this)
func message.SIPMessage.setContentLength(this, n)
  props C18
  requires mok(this) && n >= 0
  modifies mapof(this.nameTable), this.headers.n, this.headers.at, this.headers.idx, every(list.Element.owner), this.fromHeader, this.toHeader, this.cSeqHeader, this.callIdHeader, this.maxForwardsHeader, this.contentLengthHeader, this.contentLengthHeader.contentLength
  ensures [C18] length: this.contentLengthHeader != nil && this.contentLengthHeader.contentLength == n
  ensures [C18] same: old(this.contentLengthHeader) != nil ==> this.contentLengthHeader == old(this.contentLengthHeader) && this.headers.n == old(this.headers.n) && this.headers.at == old(this.headers.at)
  ensures [C18] others: forall q Str :: {has(this.nameTable, q)} q != "content-length" ==> (has(this.nameTable, q) <==> old(has(this.nameTable, q))) && mt(this, q) == old(mt(this, q))
  ensures [C18] header: this.contentLengthHeader == old(this.contentLengthHeader) || fresh(this.contentLengthHeader)
  ensures [C18] valid: mok(this)
func message.SIPMessage.SetContentLength(this, h)
  props C18
  requires mok(this) && h != nil && typeis(h, *header.ContentLength) && h.val > 0 && h.(*header.ContentLength).contentLength >= 0
  modifies mapof(this.nameTable), this.headers.n, this.headers.at, this.headers.idx, every(list.Element.owner), this.fromHeader, this.toHeader, this.cSeqHeader, this.callIdHeader, this.maxForwardsHeader, this.contentLengthHeader, this.contentLengthHeader.contentLength
  ensures [C18] length: this.contentLengthHeader != nil && this.contentLengthHeader.contentLength == old(h.(*header.ContentLength).contentLength)
  ensures [C18] valid: mok(this)
func message.SIPMessage.SetMessageContent(this, s)
  props C18
  requires mok(this)
  modifies mapof(this.nameTable), this.headers.n, this.headers.at, this.headers.idx, every(list.Element.owner), this.fromHeader, this.toHeader, this.cSeqHeader, this.callIdHeader, this.maxForwardsHeader, this.contentLengthHeader, this.messageContent, this.messageContentBytes, this.messageContentObject, this.contentLengthHeader.contentLength
  ensures [C18] body: body(this) == s
  ensures [C18] others: forall q Str :: {has(this.nameTable, q)} q != "content-length" ==> (has(this.nameTable, q) <==> old(has(this.nameTable, q))) && mt(this, q) == old(mt(this, q))
  ensures [C18] valid: mok(this)
  ensures [C18] length: lenok(this)
  ensures [C18] header: this.contentLengthHeader == old(this.contentLengthHeader) || fresh(this.contentLengthHeader)
func message.SIPMessage.SetMessageContentFromByte(this, b)
  props C18
  requires mok(this)
  modifies mapof(this.nameTable), this.headers.n, this.headers.at, this.headers.idx, every(list.Element.owner), this.fromHeader, this.toHeader, this.cSeqHeader, this.callIdHeader, this.maxForwardsHeader, this.contentLengthHeader, this.messageContent, this.messageContentBytes, this.messageContentObject, this.contentLengthHeader.contentLength
  ensures [C18] body: body(this) == str(b)
  ensures [C18] others: forall q Str :: {has(this.nameTable, q)} q != "content-length" ==> (has(this.nameTable, q) <==> old(has(this.nameTable, q))) && mt(this, q) == old(mt(this, q))
  ensures [C18] valid: mok(this)
  ensures [C18] length: lenok(this)
  ensures [C18] header: this.contentLengthHeader == old(this.contentLengthHeader) || fresh(this.contentLengthHeader)
func message.SIPMessage.RemoveContent(this)
  props C18
  requires mok(this)
  modifies mapof(this.nameTable), this.headers.n, this.headers.at, this.headers.idx, every(list.Element.owner), this.fromHeader, this.toHeader, this.cSeqHeader, this.callIdHeader, this.maxForwardsHeader, this.contentLengthHeader, this.messageContent, this.messageContentBytes, this.messageContentObject, this.contentLengthHeader.contentLength
  ensures [C18] body: body(this) == ""
  ensures [C18] others: forall q Str :: {has(this.nameTable, q)} q != "content-length" ==> (has(this.nameTable, q) <==> old(has(this.nameTable, q))) && mt(this, q) == old(mt(this, q))
  ensures [C18] valid: mok(this)
  ensures [C18] length: lenok(this)
  ensures [C18] header: this.contentLengthHeader == old(this.contentLengthHeader) || fresh(this.contentLengthHeader)
func message.SIPMessage.SetMessageContentFromString(this, t, u, s)
  props C18
  requires mok(this)
  modifies mapof(this.nameTable), this.headers.n, this.headers.at, this.headers.idx, every(list.Element.owner), this.fromHeader, this.toHeader, this.cSeqHeader, this.callIdHeader, this.maxForwardsHeader, this.contentLengthHeader, this.messageContent, this.messageContentBytes, this.messageContentObject, this.contentLengthHeader.contentLength
  ensures [C18] body: body(this) == s
  ensures [C18] type: has(this.nameTable, "content-type") && typeis(mt(this, "content-type"), *header.ContentType) && mt(this, "content-type").(*header.ContentType).mediaRange != nil && mt(this, "content-type").(*header.ContentType).mediaRange.mtype == t && mt(this, "content-type").(*header.ContentType).mediaRange.subtype == u
  ensures [C18] others: forall q Str :: {has(this.nameTable, q)} q != "content-length" && q != "content-type" ==> (has(this.nameTable, q) <==> old(has(this.nameTable, q))) && mt(this, q) == old(mt(this, q))
  ensures [C18] valid: mok(this)
  ensures [C18] length: lenok(this)
  ensures [C18] header: this.contentLengthHeader == old(this.contentLengthHeader) || fresh(this.contentLengthHeader)
func message.SIPMessage.SetMessageContent3(this, t, u, b)
  props C18
  requires mok(this)
  modifies mapof(this.nameTable), this.headers.n, this.headers.at, this.headers.idx, every(list.Element.owner), this.fromHeader, this.toHeader, this.cSeqHeader, this.callIdHeader, this.maxForwardsHeader, this.contentLengthHeader, this.messageContent, this.messageContentBytes, this.messageContentObject, this.contentLengthHeader.contentLength
  ensures [C18] body: body(this) == str(b)
  ensures [C18] type: has(this.nameTable, "content-type") && typeis(mt(this, "content-type"), *header.ContentType) && mt(this, "content-type").(*header.ContentType).mediaRange != nil && mt(this, "content-type").(*header.ContentType).mediaRange.mtype == t && mt(this, "content-type").(*header.ContentType).mediaRange.subtype == u
  ensures [C18] others: forall q Str :: {has(this.nameTable, q)} q != "content-length" && q != "content-type" ==> (has(this.nameTable, q) <==> old(has(this.nameTable, q))) && mt(this, q) == old(mt(this, q))
  ensures [C18] valid: mok(this)
  ensures [C18] length: lenok(this)
  ensures [C18] header: this.contentLengthHeader == old(this.contentLengthHeader) || fresh(this.contentLengthHeader)
func message.SIPMessage.SetContent(this, c, h)
  props C18
  requires mok(this) && (h == nil || (hok(h) && typeis(h, *header.ContentType))) && (typeis(c, string) || typeis(c, []byte))
  modifies mapof(this.nameTable), this.headers.n, this.headers.at, this.headers.idx, every(list.Element.owner), this.fromHeader, this.toHeader, this.cSeqHeader, this.callIdHeader, this.maxForwardsHeader, this.contentLengthHeader, this.messageContent, this.messageContentBytes, this.messageContentObject, this.contentLengthHeader.contentLength
  ensures [C18] body: body(this) == (typeis(c, string) ? c.(string) : str(c.([]byte)))
  ensures [C18] type: h != nil && hk(h) != "content-length" && !islist(h) ==> has(this.nameTable, hk(h)) && mt(this, hk(h)) == h
  ensures [C18] valid: mok(this)
  ensures [C18] length: lenok(this)
  ensures [C18] header: this.contentLengthHeader == old(this.contentLengthHeader) || fresh(this.contentLengthHeader)
func message.SIPMessage.GetContent(this) (r)
  props C18
  requires this != nil
  ensures [C18] body: r == (this.messageContentBytes == nil ? this.messageContent : str(this.messageContentBytes))
func message.SIPMessage.GetMessageContent(this) (r)
  props C18
  requires this != nil
  modifies this.messageContent
  ensures [C18] body: r == old(body(this)) && body(this) == old(body(this))
func message.SIPMessage.HasContent(this) (r)
  props C18
  requires this != nil
  ensures [C18] has: r <==> this.messageContent != "" || this.messageContentBytes != nil
