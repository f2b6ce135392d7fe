// ---- tag sets, collections and the compiled index (internal/index) ----

// identifiers
func (internal/index.TagSetSubID).ID16(v) (r)
  props X06
  ensures [value] r == v

func (internal/index.TagSetSubID).Int(v) (r)
  props X06
  ensures [value] r == v

func (internal/index.TagSetTableNumber).ID16(v) (r)
  props X06
  ensures [value] r == v

func (internal/index.TagSetTableNumber).Int(v) (r)
  props X06
  ensures [value] r == v

func (internal/index.TagSetTableNumber).Add(v, n) (r)
  props X06
  requires 0 <= v + n && v + n < 65536
  ensures [value] r == v + n

func (internal/index.TagSetTableNumber).TagSetID(v, sub) (r)
  props X06
  ensures [value] r == 65536*v + sub

func (internal/index.TagSetID).TagSetSubID(v) (r)
  props X06
  ensures [value] r == v % 65536

func (internal/index.TagSetID).TagSetTableNumber(v) (r)
  props X06
  ensures [value] r == v / 65536

func (internal/index.VariantSubID).ID16(v) (r)
  props X07
  ensures [value] r == v

func (internal/index.VariantSubID).Add(v, n) (r)
  props X07
  requires 0 <= v + n && v + n < 65536
  ensures [value] r == v + n

func (internal/index.CollectionTableNumber).ID16(v) (r)
  props X07
  ensures [value] r == v

func (internal/index.CollectionTableNumber).Add(v, n) (r)
  props X07
  requires 0 <= v + n && v + n < 65536
  ensures [value] r == v + n

func (internal/index.CollectionTableNumber).VariantID(v, sub) (r)
  props X07
  ensures [value] r == 65536*v + sub

func (internal/index.VariantID).TableNum(v) (r)
  props X07
  ensures [value] r == v / 65536

func (internal/index.VariantID).CollectionTableID(v) (r)
  props X07
  ensures [value] r == v % 65536

// ---- tag sets ----
func (internal/index.TagSet).Len(s) (r)
  props X06
  ensures [len] r == len(s)

func (internal/index.TagSet).Less(s, i, j) (r)
  props X06
  requires 0 <= i && i < len(s) && 0 <= j && j < len(s)
  ensures [order] r <==> s[i] < s[j]

func (internal/index.TagSet).Swap(s, i, j)
  props X06
  requires 0 <= i && i < len(s) && 0 <= j && j < len(s)
  modifies elems(s)
  ensures [swapped] s[i] == old(s[j]) && s[j] == old(s[i])
  ensures [others] forall(k, 0, len(s), k == i || k == j || s[k] == old(s[k]))

func (internal/index.TagSet).Sort(s)
  props X06
  modifies elems(s)
  ensures [sorted] seq(s) == sortv(old(seq(s)))
  ensures [idem] sorted(old(seq(s))) ==> rowof(s) == old(rowof(s))

func (internal/index.TagSet).EqualTo(s, t) (r)
  props X06
  ensures [exact] r <==> seq(s) == seq(t)
  inv forall(k, 0, $i, s[k] == t[k])
  inv forall(k, $i, len(s), s[k] == t[k])
  inv !$b ==> exists(k, 0, len(s), s[k] != t[k])
  inv $b ==> exists(k, 0, len(s), s[k] != t[k])
  inv forall(k, $i, len(s), s[k] == t[k])
  inv !$b ==> exists(k, 0, len(s), s[k] != t[k])
  inv $b ==> exists(k, 0, len(s), s[k] != t[k])

func (internal/index.TagSetTable).Find(t, item) (id, found)
  props X06
  requires len(t) <= 65536
  ensures [hit] found ==> id < len(t) && seq(t[id]) == seq(item)
  ensures [miss] !found ==> forall(k, 0, len(t), seq(t[k]) != seq(item))
  requires [sets] forall(a, 0, len(t), len(t[a]) > 0)
  inv forall(k, 0, $i, seq(t[k]) != seq(item))
  inv forall(k, $i, len(t), seq(t[k]) != seq(item))
  inv $b ==> $i < len(t) && seq(t[$i]) == seq(item)

func (internal/index.TagSetTable).Get(t, id) (s, found)
  props X06
  ensures [range] found <==> id < len(t)
  ensures [value] found ==> s == t[id]

func (*internal/index.TagSetTable).Index(t, item) (id)
  props X06
  requires t != nil && len(*t) <= 65536
  requires [inv] tabinv(*t)
  requires [apart] forall(k, 0, len(*t), ref((*t)[k]) != ref(item)) || sorted(seq(item))
  panics [empty] len(item) == 0
  panics [full] len(*t) == 65536 && forall(k, 0, len(*t), seq((*t)[k]) != sortv(seq(item)))
  modifies *t, elems(item), tail(*t)
  ensures [stored] id < len(*t) && seq((*t)[id]) == sortv(old(seq(item)))
  ensures [stable] forall(k, 0, old(len(*t)), seq((*t)[k]) == old(seq((*t)[k])))
  ensures [dedup] old(exists(k, 0, len(*t), seq((*t)[k]) == sortv(seq(item)))) ==> *t == old(*t)
  ensures [append] old(forall(k, 0, len(*t), seq((*t)[k]) != sortv(seq(item)))) ==> len(*t) == old(len(*t)) + 1 && id == old(len(*t)) && fresh((*t)[id])
  ensures [inv] tabinv(*t) && len(*t) <= 65536
  ensures [headers] forall(k, 0, old(len(*t)), (*t)[k] == old((*t)[k]))
  ensures [place] ref(*t) == old(ref(*t)) && off(*t) == old(off(*t)) && cap(*t) == old(cap(*t)) || fresh(*t)
  ensures [sorted_arg] seq(item) == sortv(old(seq(item)))
  ensures [sorted_same] sorted(old(seq(item))) ==> rowof(item) == old(rowof(item))

func (internal/index.TagSetTable).Len(t) (r)
  props X06
  ensures [len] r == len(t)

// tables of sets: every table sorted and without duplicates, sets of n+1 tags in table n, tables do not share memory
def tsinv(c) = len(c) <= 65536 && forall(a, 0, len(c), tabinv(c[a]) && len(c[a]) <= 65536) && forall(a, 0, len(c), forall(k, 0, len(c[a]), len(c[a][k]) == a+1)) && forall(a, 0, len(c), forall(b, 0, len(c), a == b || ref(c[a]) != ref(c[b]) || ref(c[a]) == 0))

func (*internal/index.TagSetIndex).Find(c, item) (id, found)
  props X06
  requires c != nil && len(*c) <= 65536
  requires forall(a, 0, len(*c), len((*c)[a]) <= 65536)
  requires [sets] forall(a, 0, len(*c), forall(k, 0, len((*c)[a]), len((*c)[a][k]) > 0))
  ensures [hit] found ==> id/65536 == len(item)-1 && len(item)-1 < len(*c) && id%65536 < len((*c)[len(item)-1]) && seq((*c)[len(item)-1][id%65536]) == seq(item)
  ensures [miss] !found && 0 < len(item) && len(item) <= len(*c) ==> forall(k, 0, len((*c)[len(item)-1]), seq((*c)[len(item)-1][k]) != seq(item))
  ensures [absent] len(item) == 0 || len(item) > len(*c) ==> !found

func (internal/index.TagSetIndex).Get(c, id) (s, found)
  props X06
  ensures [range] found <==> id/65536 < len(c) && id%65536 < len(c[id/65536])
  ensures [value] found ==> s == c[id/65536][id%65536]

func (internal/index.TagSetIndex).getTable(c, n) (t, ok)
  props X06
  ensures [range] ok <==> n < len(c)
  ensures [value] ok ==> t == c[n]

func (*internal/index.TagSetIndex).getTagSet(c, n, k) (s, ok)
  props X06
  requires c != nil
  ensures [range] ok <==> n < len(*c) && k < len((*c)[n])
  ensures [value] ok ==> s == (*c)[n][k]

// marks a tag set identifier
rec tsid(t:int) int = t

func (*internal/index.TagSetIndex).Index(c, item) (id)
  props X06
  requires c != nil
  requires [inv] tsinv(*c)
  requires [apart] forall(a, 0, len(*c), forall(k, 0, len((*c)[a]), ref((*c)[a][k]) != ref(item))) || sorted(seq(item))
  panics [long] len(item) > 65536
  panics [full] 0 < len(item) && len(item) <= len(*c) && len((*c)[len(item)-1]) == 65536 && forall(k, 0, 65536*1, seq((*c)[len(item)-1][k]) != sortv(seq(item)))
  modifies *c, elems(item), elems(*c), tail(*c), tail((*c)[len(item)-1])
  ensures [empty] len(item) == 0 ==> id == 0 && *c == old(*c)
  ensures [address] 0 < len(item) ==> id/65536 == len(item)-1
  ensures [mark] tsid(id) == id
  ensures [stored] 0 < len(item) ==> id/65536 < len(*c) && id%65536 < len((*c)[id/65536]) && seq((*c)[id/65536][id%65536]) == sortv(old(seq(item)))
  ensures [stable] len(*c) >= old(len(*c)) && forall(a, 0, old(len(*c)), len((*c)[a]) >= old(len((*c)[a])) && forall(k, 0, old(len((*c)[a])), seq((*c)[a][k]) == old(seq((*c)[a][k]))))
  ensures [others] forall(a, 0, old(len(*c)), a != len(item)-1 ==> (*c)[a] == old((*c)[a]))
  ensures [dedup] 0 < len(item) && old(len(item) <= len(*c)) && old(exists(k, 0, len((*c)[len(item)-1]), seq((*c)[len(item)-1][k]) == sortv(seq(item)))) ==> len((*c)[len(item)-1]) == old(len((*c)[len(item)-1]))
  ensures [next] 0 < len(item) && old(len(item) <= len(*c)) && old(forall(k, 0, len((*c)[len(item)-1]), seq((*c)[len(item)-1][k]) != sortv(seq(item)))) ==> id%65536 == old(len((*c)[len(item)-1])) && len((*c)[len(item)-1]) == old(len((*c)[len(item)-1])) + 1
  ensures [grown] 0 < len(item) && old(len(item) > len(*c)) ==> len(*c) == len(item) && id%65536 == 0 && len((*c)[len(item)-1]) == 1 && forall(a, old(len(*c)), len(item)-1, len((*c)[a]) == 0)
  ensures [only] forall(a, 0, len(*c), forall(k, 0, len((*c)[a]), a < old(len(*c)) && k < old(len((*c)[a])) && seq((*c)[a][k]) == old(seq((*c)[a][k])) || 0 < len(item) && a == len(item)-1 && k == id%65536 && seq((*c)[a][k]) == sortv(old(seq(item)))))
  ensures [inv] tsinv(*c)
  inv len(*c) == $i
  inv len(*c) >= old(len(*c)) && forall(a, 0, old(len(*c)), (*c)[a] == old((*c)[a]))
  inv forall(a, old(len(*c)), len(*c), len((*c)[a]) == 0 && (fresh((*c)[a]) || ref((*c)[a]) == 0))
  inv forall(a, old(len(*c)), len(*c), forall(b, 0, a, ref((*c)[a]) != ref((*c)[b]) || ref((*c)[a]) == 0))
  inv ref(*c) == old(ref(*c)) && off(*c) == old(off(*c)) || fresh(*c)
  inv len($s) == $i
  inv len($s) >= old(len(*c)) && forall(a, 0, old(len(*c)), $s[a] == old((*c)[a]))
  inv forall(a, old(len(*c)), len($s), len($s[a]) == 0 && (fresh($s[a]) || ref($s[a]) == 0))
  inv forall(a, old(len(*c)), len($s), forall(b, 0, a, ref($s[a]) != ref($s[b]) || ref($s[a]) == 0))
  inv ref($s) == old(ref(*c)) && off($s) == old(off(*c)) || fresh($s)

// sum of the first i elements
rec sizes(s:seq, i:int) int = ite(i <= 0, 0, sizes(s, i-1) + s[i-1])

lemma sizes_mono(s:seq, a:int, i:int)
  by i
  hyp 0 <= a && a < i
  hyp forall(k, 0, i, s[k] >= 0)
  concl 0 <= sizes(s, a) && sizes(s, a) + s[a] <= sizes(s, i)
  trigger sizes(s, a) ; sizes(s, i)
  mention sizes(s, i-1)

func (internal/index.TagSetIndex).Size(c) (n)
  props X06
  requires len(c) <= 65536 && forall(a, 0, len(c), len(c[a]) <= 65536)
  ensures [sum] n == sizes(lens(c), len(c))
  inv $j == sizes(lens(c), $i)
  inv 0 <= $j && $j <= 65536*$i

func (internal/index.TagSetIndex).TableIDs(c) (res)
  props X06
  requires len(c) <= 65536 && forall(a, 0, len(c), len(c[a]) <= 65536)
  ensures [known] forall(k, 0, len(res), res[k]/65536 < len(c) && res[k]%65536 < len(c[res[k]/65536]))
  ensures [all] len(res) == sizes(lens(c), len(c)) && forall(a, 0, len(c), forall(k, sizes(lens(c), a), sizes(lens(c), a)+len(c[a]), res[k] == 65536*a + (k-sizes(lens(c), a))))
  inv forall(k, 0, len($s), $s[k]/65536 < len(c) && $s[k]%65536 < len(c[$s[k]/65536]))
  inv len($s) == sizes(lens(c), $i)
  inv forall(a, 0, $i, forall(k, sizes(lens(c), a), sizes(lens(c), a)+len(c[a]), $s[k] == 65536*a + (k-sizes(lens(c), a))))
  inv len($s) == sizes(lens(c), $n) + $i
  inv forall(a, 0, $n, forall(k, sizes(lens(c), a), sizes(lens(c), a)+len(c[a]), $s[k] == 65536*a + (k-sizes(lens(c), a))))
  inv forall(k, sizes(lens(c), $n), sizes(lens(c), $n)+$i, $s[k] == 65536*$n + (k-sizes(lens(c), $n)))

// ---- collections of tag sets ----
func (internal/index.TagSetIDCollection).Len(s) (r)
  props X07
  ensures [len] r == len(s)

func (internal/index.TagSetIDCollection).Less(s, i, j) (r)
  props X07
  requires 0 <= i && i < len(s) && 0 <= j && j < len(s)
  ensures [order] r <==> s[i] < s[j]

func (internal/index.TagSetIDCollection).Swap(s, i, j)
  props X07
  requires 0 <= i && i < len(s) && 0 <= j && j < len(s)
  modifies elems(s)
  ensures [swapped] s[i] == old(s[j]) && s[j] == old(s[i])
  ensures [others] forall(k, 0, len(s), k == i || k == j || s[k] == old(s[k]))

func (internal/index.TagSetIDCollection).EqualTo(s, t) (r)
  props X07
  ensures [exact] r <==> seq(s) == seq(t)
  inv forall(k, 0, $i, s[k] == t[k])
  inv forall(k, $i, len(s), s[k] == t[k])
  inv !$b ==> exists(k, 0, len(s), s[k] != t[k])
  inv $b ==> exists(k, 0, len(s), s[k] != t[k])
  inv forall(k, $i, len(s), s[k] == t[k])
  inv !$b ==> exists(k, 0, len(s), s[k] != t[k])
  inv $b ==> exists(k, 0, len(s), s[k] != t[k])

func (internal/index.TagSetIDCollection).Has(t, x) (r)
  props X07
  ensures [exact] r <==> exists(k, 0, len(t), t[k] == x)
  inv forall(k, 0, $i, t[k] != x)
  inv $b ==> exists(k, 0, len(t), t[k] == x)
  inv !$b ==> exists(k, 0, len(t), t[k] == x)

func (internal/index.TagSetIDCollection).Add(t, x) (r)
  props X07
  ensures [present] old(exists(k, 0, len(t), t[k] == x)) ==> r == t
  ensures [added] old(forall(k, 0, len(t), t[k] != x)) ==> seq(r) == sortv(snoc(seq(t), x)) && fresh(r)
  ensures [sorted] sorted(seq(t)) ==> sorted(seq(r))

func (internal/index.VariantsTable).Find(t, item) (id, found)
  props X07
  requires len(t) <= 65536
  ensures [hit] found ==> id < len(t) && seq(t[id]) == seq(item)
  ensures [miss] !found ==> forall(k, 0, len(t), seq(t[k]) != seq(item))
  requires [sets] forall(a, 0, len(t), len(t[a]) > 0)
  inv forall(k, 0, $i, seq(t[k]) != seq(item))
  inv forall(k, $i, len(t), seq(t[k]) != seq(item))
  inv $b ==> $i < len(t) && seq(t[$i]) == seq(item)

func (internal/index.VariantsTable).Get(t, id) (s)
  props X07
  requires id < len(t)
  ensures [value] s == t[id]

func (*internal/index.VariantsTable).Index(t, item) (id)
  props X07
  requires t != nil && len(*t) <= 65536
  requires [inv] tabinv(*t)
  requires [apart] forall(k, 0, len(*t), ref((*t)[k]) != ref(item)) || sorted(seq(item))
  panics [full] 0 < len(item) && len(*t) == 65536 && forall(k, 0, len(*t), seq((*t)[k]) != sortv(seq(item)))
  modifies *t, elems(item), tail(*t)
  ensures [empty] len(item) == 0 ==> id == 0 && *t == old(*t)
  ensures [stored] 0 < len(item) ==> id < len(*t) && seq((*t)[id]) == sortv(old(seq(item)))
  ensures [stable] forall(k, 0, old(len(*t)), seq((*t)[k]) == old(seq((*t)[k])))
  ensures [dedup] old(exists(k, 0, len(*t), seq((*t)[k]) == sortv(seq(item)))) ==> *t == old(*t)
  ensures [append] 0 < len(item) && old(forall(k, 0, len(*t), seq((*t)[k]) != sortv(seq(item)))) ==> len(*t) == old(len(*t)) + 1 && id == old(len(*t)) && fresh((*t)[id])
  ensures [inv] tabinv(*t) && len(*t) <= 65536
  ensures [headers] forall(k, 0, old(len(*t)), (*t)[k] == old((*t)[k]))
  ensures [place] ref(*t) == old(ref(*t)) && off(*t) == old(off(*t)) && cap(*t) == old(cap(*t)) || fresh(*t)
  ensures [sorted_arg] seq(item) == sortv(old(seq(item)))
  ensures [sorted_same] sorted(old(seq(item))) ==> rowof(item) == old(rowof(item))

// collections of n+1 sets in table n, the identifier of which starts with n+1
def vinv(c) = len(c) <= 65535 && forall(a, 0, len(c), tabinv(c[a]) && len(c[a]) <= 65536) && forall(a, 0, len(c), forall(k, 0, len(c[a]), len(c[a][k]) == a+1)) && forall(a, 0, len(c), forall(b, 0, len(c), a == b || ref(c[a]) != ref(c[b]) || ref(c[a]) == 0))
def vhas(c, id) = 65536 <= id && id/65536-1 < len(c) && id%65536 < len(c[id/65536-1])

func (internal/index.VariantsIndex).Find(c, item) (id, found)
  props X07
  requires len(c) <= 65535 && forall(a, 0, len(c), len(c[a]) <= 65536)
  requires [sets] forall(a, 0, len(c), forall(k, 0, len(c[a]), len(c[a][k]) > 0))
  ensures [empty] len(item) == 0 ==> found && id == 0
  ensures [hit] found && 0 < len(item) ==> id/65536 == len(item) && vhas(c, id) && seq(c[len(item)-1][id%65536]) == seq(item)
  ensures [miss] !found && 0 < len(item) && len(item) <= len(c) ==> forall(k, 0, len(c[len(item)-1]), seq(c[len(item)-1][k]) != seq(item))
  ensures [absent] len(item) > len(c) ==> !found

func (internal/index.VariantsIndex).Get(c, id) (s)
  props X07 X12
  ensures [known X07] vhas(c, id) ==> s == c[id/65536-1][id%65536]
  ensures [unknown X07 X12] !vhas(c, id) ==> len(s) == 0

func (*internal/index.VariantsIndex).Index(c, item) (id)
  props X07
  requires c != nil
  requires [inv] vinv(*c)
  requires [apart] forall(a, 0, len(*c), forall(k, 0, len((*c)[a]), ref((*c)[a][k]) != ref(item))) || sorted(seq(item))
  panics [long] len(item) > 65535
  panics [full] 0 < len(item) && len(item) <= len(*c) && len((*c)[len(item)-1]) == 65536 && forall(k, 0, 65536*1, seq((*c)[len(item)-1][k]) != sortv(seq(item)))
  modifies *c, elems(item), elems(*c), tail(*c), tail((*c)[len(item)-1])
  ensures [empty] len(item) == 0 ==> id == 0 && *c == old(*c)
  ensures [address] 0 < len(item) ==> id/65536 == len(item)
  ensures [stored] 0 < len(item) ==> vhas(*c, id) && seq((*c)[id/65536-1][id%65536]) == sortv(old(seq(item)))
  ensures [stable] len(*c) >= old(len(*c)) && forall(a, 0, old(len(*c)), len((*c)[a]) >= old(len((*c)[a])) && forall(k, 0, old(len((*c)[a])), seq((*c)[a][k]) == old(seq((*c)[a][k]))))
  ensures [others] forall(a, 0, old(len(*c)), a != len(item)-1 ==> (*c)[a] == old((*c)[a]))
  ensures [dedup] 0 < len(item) && old(len(item) <= len(*c)) && old(exists(k, 0, len((*c)[len(item)-1]), seq((*c)[len(item)-1][k]) == sortv(seq(item)))) ==> len((*c)[len(item)-1]) == old(len((*c)[len(item)-1]))
  ensures [next] 0 < len(item) && old(len(item) <= len(*c)) && old(forall(k, 0, len((*c)[len(item)-1]), seq((*c)[len(item)-1][k]) != sortv(seq(item)))) ==> id%65536 == old(len((*c)[len(item)-1])) && len((*c)[len(item)-1]) == old(len((*c)[len(item)-1])) + 1
  ensures [grown] 0 < len(item) && old(len(item) > len(*c)) ==> len(*c) == len(item) && id%65536 == 0 && len((*c)[len(item)-1]) == 1 && forall(a, old(len(*c)), len(item)-1, len((*c)[a]) == 0)
  ensures [only] forall(a, 0, len(*c), forall(k, 0, len((*c)[a]), a < old(len(*c)) && k < old(len((*c)[a])) && seq((*c)[a][k]) == old(seq((*c)[a][k])) || 0 < len(item) && a == len(item)-1 && k == id%65536 && seq((*c)[a][k]) == sortv(old(seq(item)))))
  ensures [inv] vinv(*c)
  ensures [place] ref(*c) == old(ref(*c)) && off(*c) == old(off(*c)) && cap(*c) == old(cap(*c)) || fresh(*c)
  ensures [tables] forall(a, 0, len(*c), a < old(len(*c)) && ref((*c)[a]) == old(ref((*c)[a])) && off((*c)[a]) == old(off((*c)[a])) && cap((*c)[a]) == old(cap((*c)[a])) || fresh((*c)[a]) || ref((*c)[a]) == 0)
  ensures [sorted_same] sorted(old(seq(item))) ==> rowof(item) == old(rowof(item))
  inv len(*c) == $i
  inv len(*c) >= old(len(*c)) && forall(a, 0, old(len(*c)), (*c)[a] == old((*c)[a]))
  inv forall(a, old(len(*c)), len(*c), len((*c)[a]) == 0 && (fresh((*c)[a]) || ref((*c)[a]) == 0))
  inv forall(a, old(len(*c)), len(*c), forall(b, 0, a, ref((*c)[a]) != ref((*c)[b]) || ref((*c)[a]) == 0))
  inv ref(*c) == old(ref(*c)) && off(*c) == old(off(*c)) || fresh(*c)
  inv len($s) == $i
  inv len($s) >= old(len(*c)) && forall(a, 0, old(len(*c)), $s[a] == old((*c)[a]))
  inv forall(a, old(len(*c)), len($s), len($s[a]) == 0 && (fresh($s[a]) || ref($s[a]) == 0))
  inv forall(a, old(len(*c)), len($s), forall(b, 0, a, ref($s[a]) != ref($s[b]) || ref($s[a]) == 0))
  inv ref($s) == old(ref(*c)) && off($s) == old(off(*c)) || fresh($s)

func (internal/index.VariantsIndex).KnownID(c) (res)
  props X07 X11
  requires len(c) <= 65535 && forall(a, 0, len(c), len(c[a]) <= 65536)
  ensures [known X07 X11] forall(k, 0, len(res), vhas(c, res[k]))
  ensures [all X07 X11] len(res) == sizes(lens(c), len(c)) && forall(a, 0, len(c), forall(k, sizes(lens(c), a), sizes(lens(c), a)+len(c[a]), res[k] == 65536*(a+1) + (k-sizes(lens(c), a))))
  inv forall(k, 0, len($s), vhas(c, $s[k]))
  inv len($s) == sizes(lens(c), $i)
  inv forall(a, 0, $i, forall(k, sizes(lens(c), a), sizes(lens(c), a)+len(c[a]), $s[k] == 65536*(a+1) + (k-sizes(lens(c), a))))
  inv len($s) == sizes(lens(c), $n) + $i
  inv forall(a, 0, $n, forall(k, sizes(lens(c), a), sizes(lens(c), a)+len(c[a]), $s[k] == 65536*(a+1) + (k-sizes(lens(c), a))))
  inv forall(k, sizes(lens(c), $n), sizes(lens(c), $n)+$i, $s[k] == 65536*($n+1) + (k-sizes(lens(c), $n)))

