// container/list seen as a sequence: list.List.n elements at[0..n-1]; idx is the inverse of at;
// Element.owner is the list an element belongs to. Only container/list writes these.

ghost list.List.n Int
ghost list.List.at (Array Int Int)
ghost list.List.idx (Array Int Int)
ghost list.Element.owner Int

// A list embedded in a typed container (listof) carries the type of its elements as a tag; 0 for
// every other list. Element.Value is written by container/list only.
ufn ltag(Int) Int
ufn etag(Int) Int
allocfact list.Element (e) := etag(ref(e)) == 0
fieldinv list.Element.Value (this, v) := etag(ref(this)) == 0 || (v.tag == etag(ref(this)) && v.val > 0)
listof core.NameValueList *core.NameValue
pred fits(l, v) := ltag(ref(l)) == 0 || (v.tag == ltag(ref(l)) && v.val > 0)

pred elm(l, i) := as(l.at[i], *list.Element)
pred val(l, i) := as(l.at[i], *list.Element).Value
pred mem(l, e) := 0 <= l.idx[ref(e)] && l.idx[ref(e)] < l.n && l.at[l.idx[ref(e)]] == ref(e)
pred lwf(l) := l.n >= 0 && forall i int :: {l.at[i]} 0 <= i && i < l.n ==>
   l.at[i] > 0 && allocated(l.at[i]) && elm(l, i).owner == ref(l) && l.idx[l.at[i]] == i && etag(l.at[i]) == ltag(ref(l))

trusted func list.New() (l)
  ensures l != nil && fresh(l) && l.n == 0 && ltag(ref(l)) == 0

trusted func list.List.Init(l) (r)
  requires l != nil
  modifies l.n, l.at, l.idx
  ensures r == l && l.n == 0

trusted func list.List.Len(l) (r)
  requires l != nil
  ensures r == l.n && r >= 0 && r < 1099511627776

trusted func list.List.Front(l) (e)
  requires l != nil
  ensures lwf(l)
  ensures l.n == 0 ==> e == nil
  ensures l.n > 0 ==> ref(e) == l.at[0]

trusted func list.List.Back(l) (e)
  requires l != nil
  ensures lwf(l)
  ensures l.n == 0 ==> e == nil
  ensures l.n > 0 ==> ref(e) == l.at[l.n-1]

trusted func list.Element.Next(e) (r)
  requires e != nil
  let o := as(e.owner, *list.List)
  ensures e.owner == 0 ==> r == nil
  ensures e.owner != 0 && mem(o, e) ==> lwf(o) && ref(r) == (o.idx[ref(e)] + 1 < o.n ? o.at[o.idx[ref(e)] + 1] : 0)

trusted func list.Element.Prev(e) (r)
  requires e != nil
  let o := as(e.owner, *list.List)
  ensures e.owner == 0 ==> r == nil
  ensures e.owner != 0 && mem(o, e) ==> lwf(o) && ref(r) == (o.idx[ref(e)] > 0 ? o.at[o.idx[ref(e)] - 1] : 0)

trusted func list.List.PushBack(l, v) (e)
  requires l != nil && fits(l, v)
  modifies l.n, l.at, l.idx
  ensures e != nil && fresh(e) && e.Value == v && e.owner == ref(l) && etag(ref(e)) == ltag(ref(l))
  ensures l.n == old(l.n) + 1 && l.n >= 1 && l.n < 1099511627776
  ensures l.at == store(old(l.at), old(l.n), ref(e)) && l.idx == store(old(l.idx), ref(e), old(l.n))
  ensures lwf(l)

trusted func list.List.PushFront(l, v) (e)
  requires l != nil && fits(l, v)
  modifies l.n, l.at, l.idx
  ensures e != nil && fresh(e) && e.Value == v && e.owner == ref(l) && etag(ref(e)) == ltag(ref(l))
  ensures l.n == old(l.n) + 1 && l.n >= 1 && l.n < 1099511627776
  ensures l.at[0] == ref(e)
  ensures forall i int :: {l.at[i]} 1 <= i && i < l.n ==> l.at[i] == old(l.at)[i-1]
  ensures forall i int :: {old(l.at)[i]} 0 <= i && i < old(l.n) ==> l.at[i+1] == old(l.at)[i]
  ensures lwf(l)

trusted func list.List.Remove(l, e) (v)
  requires l != nil && e != nil
  requires e.owner == ref(l) ==> mem(l, e)
  modifies l.n, l.at, l.idx, e.owner
  let here := e.owner == ref(l)
  let k := l.idx[ref(e)]
  ensures v == e.Value
  ensures !here ==> l.n == old(l.n) && l.at == old(l.at) && l.idx == old(l.idx) && e.owner == old(e.owner)
  ensures here ==> e.owner == 0 && l.n == old(l.n) - 1 && l.n >= 0
  ensures here ==> forall i int :: {l.at[i]} 0 <= i && i < l.n ==> l.at[i] == (i < k ? old(l.at)[i] : old(l.at)[i+1])
  ensures here ==> forall i int :: {old(l.at)[i]} 0 <= i && i < old(l.n) && i != k ==> l.at[i < k ? i : i-1] == old(l.at)[i] && l.idx[old(l.at)[i]] == (i < k ? i : i-1)
  ensures here ==> lwf(l)

trusted func list.List.PushBackList(l, other)
  requires l != nil && other != nil && l != other && (ltag(ref(l)) == 0 || ltag(ref(l)) == ltag(ref(other)))
  modifies l.n, l.at, l.idx
  ensures l.n == old(l.n) + other.n && l.n < 1099511627776 && l.n >= 0
  ensures forall i int :: {l.at[i]} 0 <= i && i < old(l.n) ==> l.at[i] == old(l.at)[i]
  ensures forall i int :: {l.at[i]} old(l.n) <= i && i < l.n ==> fresh(elm(l, i)) && val(l, i) == val(other, i - old(l.n))
  ensures lwf(l) && lwf(other)

trusted func list.List.InsertBefore(l, v, mark) (e)
  requires l != nil && mark != nil && fits(l, v)
  requires mark.owner == ref(l) ==> mem(l, mark)
  modifies l.n, l.at, l.idx
  let here := mark.owner == ref(l)
  let k := l.idx[ref(mark)]
  ensures !here ==> e == nil && l.n == old(l.n) && l.at == old(l.at) && l.idx == old(l.idx)
  ensures here ==> e != nil && fresh(e) && e.Value == v && e.owner == ref(l) && etag(ref(e)) == ltag(ref(l))
  ensures here ==> l.n == old(l.n) + 1 && l.n < 1099511627776 && l.at[k] == ref(e) && l.idx[ref(mark)] == k + 1
  ensures here ==> forall i int :: {l.at[i]} 0 <= i && i < l.n && i != k ==> l.at[i] == (i < k ? old(l.at)[i] : old(l.at)[i-1])
  ensures here ==> forall i int :: {old(l.at)[i]} 0 <= i && i < old(l.n) ==> l.at[i < k ? i : i+1] == old(l.at)[i]
  ensures here ==> lwf(l)

// an element belongs to no list made after it
entryfact owners forall e int :: {as(e, *list.Element).owner} allocated(e) ==> allocated(as(e, *list.Element).owner)
