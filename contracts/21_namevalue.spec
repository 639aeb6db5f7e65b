// ---------------------------------------------------------------- core: name/value pairs and lists (C07, C08, C09)
fieldinv core.NameValue.value (this, v) := v == nil || typeis(v, string)

func core.NewNameValue(n, v) (r)
  props C07 C08
  requires v == nil || typeis(v, string)
  ensures [C07,C08] pair: fresh(r) && r != nil && r.name == n && r.value == v
  ensures [C08] plain: r.separator == "=" && r.quotes == "" && !r.isQuotedString
func core.NameValue.SetSeparator(this, sep)
  props C08
  requires this != nil
  modifies this.separator
  ensures [C08] set: this.separator == sep
func core.NameValue.SetQuotedValue(this)
  props C08
  requires this != nil
  modifies this.isQuotedString, this.quotes
  ensures [C08] set: this.isQuotedString && this.quotes == "\""
func core.NameValue.IsValueQuoted(this) (r)
  props C08
  requires this != nil
  ensures [C08] get: r <==> this.isQuotedString
func core.NameValue.GetName(this) (r)
  props C07
  requires this != nil
  ensures [C07] get: r == this.name
func core.NameValue.GetValue(this) (r)
  props C07
  requires this != nil
  ensures [C07] get: r == this.value
func core.NameValue.SetName(this, n)
  props C07
  requires this != nil
  modifies this.name
  ensures [C07] set: this.name == n
func core.NameValue.SetValue(this, v)
  props C07
  requires this != nil && (v == nil || typeis(v, string))
  modifies this.value
  ensures [C07] set: this.value == v
pred nvtext(v) := v.value == nil ? v.name : (v.name == "" ? "" : v.name + v.separator) + v.quotes + v.value.(string) + v.quotes
func core.NameValue.String(this) (r)
  props C08
  requires this != nil
  ensures [C08] text: r == nvtext(this)
pred nvsame(a, b) := a.name == b.name && (a.value == nil <==> b.value == nil) && (a.value != nil ==> a.value.(string) == b.value.(string)) && a.separator == b.separator && a.quotes == b.quotes && (a.isQuotedString <==> b.isQuotedString)
func core.NameValue.Clone(this) (r)
  props C09
  requires this != nil
  ensures [C09] copy: typeis(r, *core.NameValue) && r.(*core.NameValue) != nil && fresh(r) && nvsame(r.(*core.NameValue), this)

pred ll(l) := addr(l.List)
pred nv(l, i) := val(ll(l), i).(*core.NameValue)
pred nvok(l) := l != nil && lwf(ll(l)) && forall i int :: {ll(l).at[i]} 0 <= i && i < ll(l).n ==> typeis(val(ll(l), i), *core.NameValue) && nv(l, i) != nil && allocated(nv(l, i))
pred uniq(l) := forall i int, j int :: {ll(l).at[i], ll(l).at[j]} 0 <= i && i < j && j < ll(l).n ==> !eqfold(nv(l, i).name, nv(l, j).name)
pred inl(l, v) := exists i int :: {ll(l).at[i]} 0 <= i && i < ll(l).n && nv(l, i) == v
pred named(l, n) := exists i int :: {ll(l).at[i]} 0 <= i && i < ll(l).n && eqfold(nv(l, i).name, n)
func core.NewNameValueList(name) (r)
  props C07 C08
  ensures [C07] empty: fresh(r) && nvok(r) && ll(r).n == 0
  ensures [C08] separator: r.separator == ";"
func core.NameValueList.SetSeparator(this, sep)
  props C08
  requires this != nil
  modifies this.separator
  ensures [C08] set: this.separator == sep
func core.NameValueList.AddNameValue(this, v)
  props C07
  requires nvok(this)
  modifies ll(this).n, ll(this).at, ll(this).idx
  let k := ll(this).n
  ensures [C07] valid: nvok(this)
  ensures [C07] last: v == nil ? ll(this).n == k : ll(this).n == k + 1 && nv(this, k) == v
  ensures [C07] others: forall i int :: {old(ll(this).at)[i]} 0 <= i && i < k ==> ll(this).at[i] == old(ll(this).at)[i] && ll(this).idx[old(ll(this).at)[i]] == i
  ensures [C07] same-place: forall i int :: {ll(this).at[i]} 0 <= i && i < k ==> ll(this).at[i] == old(ll(this).at)[i]
func core.NameValueList.AddNameAndValue(this, name, value)
  props C07
  requires nvok(this) && (value == nil || typeis(value, string))
  modifies ll(this).n, ll(this).at, ll(this).idx
  let k := ll(this).n
  ensures [C07] valid: nvok(this)
  ensures [C07] last: ll(this).n == k + 1 && fresh(nv(this, k)) && nv(this, k).name == name && nv(this, k).value == value
  ensures [C07] others: forall i int :: {old(ll(this).at)[i]} 0 <= i && i < k ==> ll(this).at[i] == old(ll(this).at)[i] && ll(this).idx[old(ll(this).at)[i]] == i
  ensures [C07] same-place: forall i int :: {ll(this).at[i]} 0 <= i && i < k ==> ll(this).at[i] == old(ll(this).at)[i]
func core.NameValueList.GetNameValue(this, name) (r)
  props C07
  requires nvok(this)
  inv <it *list.Element> forall i int :: {ll(this).at[i]} 0 <= i && i < (it == nil ? ll(this).n : ll(this).idx[ref(it)]) ==> !eqfold(nv(this, i).name, name)
  ensures [C07] present: r != nil ==> inl(this, r) && eqfold(r.name, name)
  ensures [C07] absent: r == nil <==> !named(this, name)
  ensures [C07] the-one: uniq(this) ==> forall i int :: {ll(this).at[i]} 0 <= i && i < ll(this).n && eqfold(nv(this, i).name, name) ==> nv(this, i) == r
  ensures [C07] first: r != nil ==> exists i int :: {ll(this).at[i]} 0 <= i && i < ll(this).n && nv(this, i) == r && forall j int :: {ll(this).at[j]} 0 <= j && j < i ==> !eqfold(nv(this, j).name, name)
func core.NameValueList.HasNameValue(this, name) (r)
  props C07
  requires nvok(this)
  ensures [C07] has: r <==> named(this, name)
func core.NameValueList.GetValue(this, name) (r)
  props C07
  requires nvok(this)
  ensures [C07] absent: !named(this, name) ==> r == nil
  ensures [C07] value: uniq(this) ==> forall i int :: {ll(this).at[i]} 0 <= i && i < ll(this).n && eqfold(nv(this, i).name, name) ==> r == nv(this, i).value
  ensures [C07] type: r == nil || typeis(r, string)
  ensures [C07] first: named(this, name) ==> exists i int :: {ll(this).at[i]} 0 <= i && i < ll(this).n && eqfold(nv(this, i).name, name) && nv(this, i).value == r && forall j int :: {ll(this).at[j]} 0 <= j && j < i ==> !eqfold(nv(this, j).name, name)
func core.NameValueList.GetParameter(this, name) (r)
  props C07
  requires nvok(this)
  ensures [C07] absent: !named(this, name) ==> r == ""
  ensures [C07] value: uniq(this) ==> forall i int :: {ll(this).at[i]} 0 <= i && i < ll(this).n && eqfold(nv(this, i).name, name) ==> r == (nv(this, i).value == nil ? "" : nv(this, i).value.(string))
func core.NameValueList.Delete(this, name) (r)
  props C07
  requires nvok(this)
  modifies ll(this).n, ll(this).at, ll(this).idx, every(list.Element.owner)
  inv <it *list.Element> forall i int :: {ll(this).at[i]} 0 <= i && i < (it == nil ? ll(this).n : ll(this).idx[ref(it)]) ==> !eqfold(nv(this, i).name, name)
  ensures [C07] reports: r <==> old(named(this, name))
  ensures [C07] valid: nvok(this) && (old(uniq(this)) ==> uniq(this))
  ensures [C07] absent: old(uniq(this)) ==> !named(this, name)
  ensures [C07] size: ll(this).n == (r ? old(ll(this).n) - 1 : old(ll(this).n))
  ensures [C07] others-kept: forall k int :: {old(ll(this).at)[k]} 0 <= k && k < old(ll(this).n) && !eqfold(as(old(ll(this).at)[k], *list.Element).Value.(*core.NameValue).name, name) ==> 0 <= ll(this).idx[old(ll(this).at)[k]] && ll(this).idx[old(ll(this).at)[k]] < ll(this).n && ll(this).at[ll(this).idx[old(ll(this).at)[k]]] == old(ll(this).at)[k]
  ensures [C07] none-added: forall i int :: {ll(this).at[i]} 0 <= i && i < ll(this).n ==> old(mem(ll(this), elm(ll(this), i)))
  ensures [C07] other-lists: forall e int :: {as(e, *list.Element).owner} old(allocated(e)) && old(as(e, *list.Element).owner) != ref(ll(this)) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
func core.NameValueList.SetNameValue(this, v)
  props C07
  requires nvok(this) && v != nil
  modifies ll(this).n, ll(this).at, ll(this).idx, every(list.Element.owner)
  ensures [C07] valid: nvok(this) && (old(uniq(this)) ==> uniq(this))
  ensures [C07] last: ll(this).n > 0 && nv(this, ll(this).n - 1) == v
  ensures [C07] size: ll(this).n == (old(named(this, v.name)) ? old(ll(this).n) : old(ll(this).n) + 1)
  ensures [C07] others-kept: forall k int :: {old(ll(this).at)[k]} 0 <= k && k < old(ll(this).n) && !eqfold(as(old(ll(this).at)[k], *list.Element).Value.(*core.NameValue).name, v.name) ==> 0 <= ll(this).idx[old(ll(this).at)[k]] && ll(this).idx[old(ll(this).at)[k]] < ll(this).n && ll(this).at[ll(this).idx[old(ll(this).at)[k]]] == old(ll(this).at)[k]
  ensures [C07] none-added: forall i int :: {ll(this).at[i]} 0 <= i && i < ll(this).n - 1 ==> old(mem(ll(this), elm(ll(this), i)))
  ensures [C07] other-lists: forall e int :: {as(e, *list.Element).owner} old(allocated(e)) && old(as(e, *list.Element).owner) != ref(ll(this)) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
func core.NameValueList.SetNameAndValue(this, name, value)
  props C07
  requires nvok(this) && (value == nil || typeis(value, string))
  modifies ll(this).n, ll(this).at, ll(this).idx, every(list.Element.owner)
  ensures [C07] valid: nvok(this) && (old(uniq(this)) ==> uniq(this))
  ensures [C07] last: ll(this).n > 0 && nv(this, ll(this).n - 1).name == name && nv(this, ll(this).n - 1).value == value && fresh(nv(this, ll(this).n - 1))
  ensures [C07] size: ll(this).n == (old(named(this, name)) ? old(ll(this).n) : old(ll(this).n) + 1)
  ensures [C07] others-kept: forall k int :: {old(ll(this).at)[k]} 0 <= k && k < old(ll(this).n) && !eqfold(as(old(ll(this).at)[k], *list.Element).Value.(*core.NameValue).name, name) ==> 0 <= ll(this).idx[old(ll(this).at)[k]] && ll(this).idx[old(ll(this).at)[k]] < ll(this).n && ll(this).at[ll(this).idx[old(ll(this).at)[k]]] == old(ll(this).at)[k]
  ensures [C07] none-added: forall i int :: {ll(this).at[i]} 0 <= i && i < ll(this).n - 1 ==> old(mem(ll(this), elm(ll(this), i)))
  ensures [C07] other-lists: forall e int :: {as(e, *list.Element).owner} old(allocated(e)) && old(as(e, *list.Element).owner) != ref(ll(this)) ==> as(e, *list.Element).owner == old(as(e, *list.Element).owner)
func core.NameValueList.GetNames(this) (r)
  props C07
  requires nvok(this)
  inv <it *list.Element, o *list.List> ltag(ref(o)) == 0 && o.n == (it == nil ? ll(this).n : ll(this).idx[ref(it)]) && lwf(o) && nvok(this)
  inv <it *list.Element, o *list.List> forall i int :: {o.at[i]} 0 <= i && i < o.n ==> typeis(val(o, i), string) && val(o, i).(string) == nv(this, i).name
  ensures [C07] names: fresh(r) && lwf(r) && r.n == ll(this).n && forall i int :: {r.at[i]} 0 <= i && i < r.n ==> typeis(val(r, i), string) && val(r, i).(string) == nv(this, i).name
func core.NameValueList.Concatenate(this, other, top)
  props C07
  requires nvok(this) && (other == nil || (nvok(other) && other != this))
  modifies ll(this).n, ll(this).at, ll(this).idx
  let m := ll(this).n
  let oat := ll(this).at
  inv <it *list.Element> nvok(this) && ll(this).n == m + (it == nil ? ll(other).n : ll(other).idx[ref(it)])
  inv <it *list.Element> forall i int :: {ll(this).at[i]} m <= i && i < ll(this).n ==> nv(this, i) == nv(other, i - m)
  inv <it *list.Element> forall i int :: {ll(this).at[i]} 0 <= i && i < ll(this).n - m ==> nv(this, i) == nv(other, i)
  inv <it *list.Element> forall i int :: {ll(this).at[i]} 0 <= i && i < m ==> ll(this).at[i] == oat[i]
  inv <it *list.Element> forall i int :: {oat[i]} 0 <= i && i < m ==> ll(this).at[i + ll(this).n - m] == oat[i]
  inv <f *list.Element> f != nil ==> f.owner == ref(ll(this)) && mem(ll(this), f) && ll(this).idx[ref(f)] == ll(this).n - m
  inv <f *list.Element> f == nil <==> m == 0
  ensures [C07] valid: nvok(this)
  ensures [C07] size: ll(this).n == m + (other == nil ? 0 : ll(other).n)
  ensures [C07] tail: other != nil && !top ==> (forall i int :: {ll(this).at[i]} 0 <= i && i < m ==> ll(this).at[i] == oat[i]) && (forall i int :: {ll(this).at[i]} m <= i && i < ll(this).n ==> nv(this, i) == nv(other, i - m))
  ensures [C07] head: other != nil && top ==> (forall i int :: {ll(this).at[i]} 0 <= i && i < ll(other).n ==> nv(this, i) == nv(other, i)) && (forall i int :: {oat[i]} 0 <= i && i < m ==> ll(this).at[i + ll(other).n] == oat[i])
func core.NameValueList.GetIndentation(this) (r)
  props C08
  requires this != nil
func core.NameValueList.String(this) (r)
  props C08
  requires nvok(this)
  let A := array i int :: nvtext(nv(this, i))
  inv <it *list.Element, b *bytes.Buffer> it == nil ? b.s == join(A, ll(this).n, this.separator) : b.s == (ll(this).idx[ref(it)] == 0 ? "" : join(A, ll(this).idx[ref(it)], this.separator) + this.separator)
  ensures [C08] text: r == join(A, ll(this).n, this.separator)
func core.NameValueList.Clone(this) (r)
  props C09
  requires nvok(this)
  inv <it *list.Element, o *core.NameValueList> nvok(o) && nvok(this) && ll(o).n == (it == nil ? ll(this).n : ll(this).idx[ref(it)])
  inv <it *list.Element, o *core.NameValueList> forall i int :: {ll(o).at[i]} 0 <= i && i < ll(o).n ==> fresh(nv(o, i)) && nvsame(nv(o, i), nv(this, i))
  ensures [C09] copy: typeis(r, *core.NameValueList) && fresh(r) && nvok(r.(*core.NameValueList)) && r.(*core.NameValueList).separator == this.separator && ll(r.(*core.NameValueList)).n == ll(this).n
  ensures [C09] pairs: forall i int :: {ll(r.(*core.NameValueList)).at[i]} 0 <= i && i < ll(this).n ==> fresh(nv(r.(*core.NameValueList), i)) && nvsame(nv(r.(*core.NameValueList), i), nv(this, i))
