
// a table holds sorted, non-empty, pairwise different sets
def tabinv(t) = forall(a, 0, len(t), len(t[a]) > 0 && sorted(seq(t[a]))) && forall(a, 0, len(t), forall(b, 0, len(t), a == b || seq(t[a]) != seq(t[b])))

// ---- Table8 ----
func (pkg/storage.Table8).Find(t, item) (id, found)
  props S07 S05
  requires len(t) <= 256
  ensures [hit S05 S07] found ==> id < len(t) && seq(t[id]) == seq(item)
  ensures [miss S05 S07] !found ==> forall(k, 0, len(t), seq(t[k]) != seq(item))
  requires [sets] forall(a, 0, len(t), len(t[a]) > 0)
  inv forall(k, 0, $i, seq(t[k]) != seq(item))
  inv forall(k, $i, len(t), seq(t[k]) != seq(item))
  inv $b ==> $i < len(t) && seq(t[$i]) == seq(item)

func (pkg/storage.Table8).Get(t, id) (s, found)
  props S07 S05
  ensures [range S05 S07] found <==> id < len(t)
  ensures [value S05 S07] found ==> s == t[id]

func (*pkg/storage.Table8).Index(t, item) (id)
  props S05
  requires t != nil && len(*t) <= 256
  requires [inv] tabinv(*t)
  requires [apart] forall(k, 0, len(*t), ref((*t)[k]) != ref(item)) || sorted(seq(item))
  panics [empty] len(item) == 0
  panics [full] len(*t) == 256 && forall(k, 0, len(*t), seq((*t)[k]) != sortv(seq(item)))
  modifies *t, elems(item), tail(*t)
  ensures [stored] id < len(*t) && seq((*t)[id]) == sortv(old(seq(item)))
  ensures [stable] forall(k, 0, old(len(*t)), seq((*t)[k]) == old(seq((*t)[k])))
  ensures [dedup] old(exists(k, 0, len(*t), seq((*t)[k]) == sortv(seq(item)))) ==> *t == old(*t)
  ensures [append] old(forall(k, 0, len(*t), seq((*t)[k]) != sortv(seq(item)))) ==> len(*t) == old(len(*t)) + 1 && id == old(len(*t)) && fresh((*t)[id])
  ensures [inv] tabinv(*t) && len(*t) <= 256
  ensures [headers] forall(k, 0, old(len(*t)), (*t)[k] == old((*t)[k]))
  ensures [place] ref(*t) == old(ref(*t)) && off(*t) == old(off(*t)) && cap(*t) == old(cap(*t)) || fresh(*t)
  ensures [sorted_arg] seq(item) == sortv(old(seq(item)))
  ensures [sorted_same] sorted(old(seq(item))) ==> rowof(item) == old(rowof(item))

// ---- Table16 ----
func (pkg/storage.Table16).Find(t, item) (id, found)
  props S07 S05
  requires len(t) <= 65536
  ensures [hit S05 S07] found ==> id < len(t) && seq(t[id]) == seq(item)
  ensures [miss S05 S07] !found ==> forall(k, 0, len(t), seq(t[k]) != seq(item))
  requires [sets] forall(a, 0, len(t), len(t[a]) > 0)
  inv forall(k, 0, $i, seq(t[k]) != seq(item))
  inv forall(k, $i, len(t), seq(t[k]) != seq(item))
  inv $b ==> $i < len(t) && seq(t[$i]) == seq(item)

func (pkg/storage.Table16).Get(t, id) (s, found)
  props S07 S05
  ensures [range S05 S07] found <==> id < len(t)
  ensures [value S05 S07] found ==> s == t[id]

func (*pkg/storage.Table16).Index(t, item) (id)
  props S05
  requires t != nil && len(*t) <= 65536
  requires [inv] tabinv(*t)
  requires [apart] forall(k, 0, len(*t), ref((*t)[k]) != ref(item)) || sorted(seq(item))
  panics [empty] len(item) == 0
  panics [full] len(*t) == 65536 && forall(k, 0, len(*t), seq((*t)[k]) != sortv(seq(item)))
  modifies *t, elems(item), tail(*t)
  ensures [stored] id < len(*t) && seq((*t)[id]) == sortv(old(seq(item)))
  ensures [stable] forall(k, 0, old(len(*t)), seq((*t)[k]) == old(seq((*t)[k])))
  ensures [dedup] old(exists(k, 0, len(*t), seq((*t)[k]) == sortv(seq(item)))) ==> *t == old(*t)
  ensures [append] old(forall(k, 0, len(*t), seq((*t)[k]) != sortv(seq(item)))) ==> len(*t) == old(len(*t)) + 1 && id == old(len(*t)) && fresh((*t)[id])
  ensures [inv] tabinv(*t) && len(*t) <= 65536
  ensures [headers] forall(k, 0, old(len(*t)), (*t)[k] == old((*t)[k]))
  ensures [place] ref(*t) == old(ref(*t)) && off(*t) == old(off(*t)) && cap(*t) == old(cap(*t)) || fresh(*t)
  ensures [sorted_arg] seq(item) == sortv(old(seq(item)))
  ensures [sorted_same] sorted(old(seq(item))) ==> rowof(item) == old(rowof(item))

// ---- Collection8x8 ----
func (pkg/storage.Collection8x8).Find(c, item) (id, found)
  props S07 S06
  requires len(c) <= 256
  requires forall(a, 0, len(c), len(c[a]) <= 256)
  requires [sets] forall(a, 0, len(c), forall(k, 0, len(c[a]), len(c[a][k]) > 0))
  ensures [hit S06 S07] found ==> id/256 == len(item)-1 && len(item)-1 < len(c) && id%256 < len(c[len(item)-1]) && seq(c[len(item)-1][id%256]) == seq(item)
  ensures [miss S06 S07] !found && 0 < len(item) && len(item) <= len(c) ==> forall(k, 0, len(c[len(item)-1]), seq(c[len(item)-1][k]) != seq(item))
  ensures [absent S06 S07] len(item) == 0 || len(item) > len(c) ==> !found

func (pkg/storage.Collection8x8).Get(c, id) (s, found)
  props S07 S06
  ensures [range S06 S07] found <==> id/256 < len(c) && id%256 < len(c[id/256])
  ensures [value S06 S07] found ==> s == c[id/256][id%256]

func (*pkg/storage.Collection8x8).Index(c, item) (id)
  props S06
  requires c != nil && len(*c) <= 256
  requires [inv] forall(a, 0, len(*c), tabinv((*c)[a]) && len((*c)[a]) <= 256)
  requires [lens] forall(a, 0, len(*c), forall(k, 0, len((*c)[a]), len((*c)[a][k]) == a+1))
  requires [columns] forall(a, 0, len(*c), forall(b, 0, len(*c), a == b || ref((*c)[a]) != ref((*c)[b]) || ref((*c)[a]) == 0))
  requires [apart] forall(a, 0, len(*c), forall(k, 0, len((*c)[a]), ref((*c)[a][k]) != ref(item))) || sorted(seq(item))
  panics [empty] len(item) == 0
  panics [long] len(item) > 256
  panics [full] 0 < len(item) && len(item) <= len(*c) && len((*c)[len(item)-1]) == 256 && forall(k, 0, 256*1, seq((*c)[len(item)-1][k]) != sortv(seq(item)))
  modifies *c, elems(item), elems(*c), tail(*c), tail((*c)[len(item)-1])
  ensures [address] id/256 == len(item)-1
  ensures [stored] id/256 < len(*c) && id%256 < len((*c)[id/256]) && seq((*c)[id/256][id%256]) == sortv(old(seq(item)))
  ensures [stable] len(*c) >= old(len(*c)) && forall(a, 0, old(len(*c)), len((*c)[a]) >= old(len((*c)[a])) && forall(k, 0, old(len((*c)[a])), seq((*c)[a][k]) == old(seq((*c)[a][k]))))
  ensures [others] forall(a, 0, old(len(*c)), a != len(item)-1 ==> (*c)[a] == old((*c)[a]))
  ensures [dedup] old(len(item) <= len(*c)) && old(exists(k, 0, len((*c)[len(item)-1]), seq((*c)[len(item)-1][k]) == sortv(seq(item)))) ==> len((*c)[len(item)-1]) == old(len((*c)[len(item)-1]))
  ensures [next] old(len(item) <= len(*c)) && old(forall(k, 0, len((*c)[len(item)-1]), seq((*c)[len(item)-1][k]) != sortv(seq(item)))) ==> id%256 == old(len((*c)[len(item)-1])) && len((*c)[len(item)-1]) == old(len((*c)[len(item)-1])) + 1
  ensures [grown] old(len(item) > len(*c)) ==> len(*c) == len(item) && id%256 == 0 && len((*c)[len(item)-1]) == 1 && forall(a, old(len(*c)), len(item)-1, len((*c)[a]) == 0)
  ensures [inv] len(*c) <= 256 && forall(a, 0, len(*c), tabinv((*c)[a]) && len((*c)[a]) <= 256)
  ensures [lens] forall(a, 0, len(*c), forall(k, 0, len((*c)[a]), len((*c)[a][k]) == a+1))
  ensures [columns] forall(a, 0, len(*c), forall(b, 0, len(*c), a == b || ref((*c)[a]) != ref((*c)[b]) || ref((*c)[a]) == 0))
  inv len(*c) == $i
  inv len(*c) >= old(len(*c)) && forall(a, 0, old(len(*c)), (*c)[a] == old((*c)[a]))
  inv forall(a, old(len(*c)), len(*c), len((*c)[a]) == 0 && (fresh((*c)[a]) || ref((*c)[a]) == 0))
  inv forall(a, old(len(*c)), len(*c), forall(b, 0, a, ref((*c)[a]) != ref((*c)[b]) || ref((*c)[a]) == 0))
  inv ref(*c) == old(ref(*c)) && off(*c) == old(off(*c)) || fresh(*c)
  inv len($s) == $i
  inv len($s) >= old(len(*c)) && forall(a, 0, old(len(*c)), $s[a] == old((*c)[a]))
  inv forall(a, old(len(*c)), len($s), len($s[a]) == 0 && (fresh($s[a]) || ref($s[a]) == 0))
  inv forall(a, old(len(*c)), len($s), forall(b, 0, a, ref($s[a]) != ref($s[b]) || ref($s[a]) == 0))
  inv ref($s) == old(ref(*c)) && off($s) == old(off(*c)) || fresh($s)

// ---- Collection16 ----
func (pkg/storage.Collection16).Find(c, item) (id, found)
  props S07 S06
  requires len(c) <= 65536
  requires forall(a, 0, len(c), len(c[a]) <= 65536)
  requires [sets] forall(a, 0, len(c), forall(k, 0, len(c[a]), len(c[a][k]) > 0))
  ensures [hit S06 S07] found ==> id/65536 == len(item)-1 && len(item)-1 < len(c) && id%65536 < len(c[len(item)-1]) && seq(c[len(item)-1][id%65536]) == seq(item)
  ensures [miss S06 S07] !found && 0 < len(item) && len(item) <= len(c) ==> forall(k, 0, len(c[len(item)-1]), seq(c[len(item)-1][k]) != seq(item))
  ensures [absent S06 S07] len(item) == 0 || len(item) > len(c) ==> !found

func (pkg/storage.Collection16).Get(c, id) (s, found)
  props S07 S06
  ensures [range S06 S07] found <==> id/65536 < len(c) && id%65536 < len(c[id/65536])
  ensures [value S06 S07] found ==> s == c[id/65536][id%65536]

func (*pkg/storage.Collection16).Index(c, item) (id)
  props S06
  requires c != nil && len(*c) <= 65536
  requires [inv] forall(a, 0, len(*c), tabinv((*c)[a]) && len((*c)[a]) <= 65536)
  requires [lens] forall(a, 0, len(*c), forall(k, 0, len((*c)[a]), len((*c)[a][k]) == a+1))
  requires [columns] forall(a, 0, len(*c), forall(b, 0, len(*c), a == b || ref((*c)[a]) != ref((*c)[b]) || ref((*c)[a]) == 0))
  requires [apart] forall(a, 0, len(*c), forall(k, 0, len((*c)[a]), ref((*c)[a][k]) != ref(item))) || sorted(seq(item))
  panics [empty] len(item) == 0
  panics [long] len(item) > 65536
  panics [full] 0 < len(item) && len(item) <= len(*c) && len((*c)[len(item)-1]) == 65536 && forall(k, 0, 65536*1, seq((*c)[len(item)-1][k]) != sortv(seq(item)))
  modifies *c, elems(item), elems(*c), tail(*c), tail((*c)[len(item)-1])
  ensures [address] id/65536 == len(item)-1
  ensures [stored] id/65536 < len(*c) && id%65536 < len((*c)[id/65536]) && seq((*c)[id/65536][id%65536]) == sortv(old(seq(item)))
  ensures [stable] len(*c) >= old(len(*c)) && forall(a, 0, old(len(*c)), len((*c)[a]) >= old(len((*c)[a])) && forall(k, 0, old(len((*c)[a])), seq((*c)[a][k]) == old(seq((*c)[a][k]))))
  ensures [others] forall(a, 0, old(len(*c)), a != len(item)-1 ==> (*c)[a] == old((*c)[a]))
  ensures [dedup] old(len(item) <= len(*c)) && old(exists(k, 0, len((*c)[len(item)-1]), seq((*c)[len(item)-1][k]) == sortv(seq(item)))) ==> len((*c)[len(item)-1]) == old(len((*c)[len(item)-1]))
  ensures [next] old(len(item) <= len(*c)) && old(forall(k, 0, len((*c)[len(item)-1]), seq((*c)[len(item)-1][k]) != sortv(seq(item)))) ==> id%65536 == old(len((*c)[len(item)-1])) && len((*c)[len(item)-1]) == old(len((*c)[len(item)-1])) + 1
  ensures [grown] old(len(item) > len(*c)) ==> len(*c) == len(item) && id%65536 == 0 && len((*c)[len(item)-1]) == 1 && forall(a, old(len(*c)), len(item)-1, len((*c)[a]) == 0)
  ensures [inv] len(*c) <= 65536 && forall(a, 0, len(*c), tabinv((*c)[a]) && len((*c)[a]) <= 65536)
  ensures [lens] forall(a, 0, len(*c), forall(k, 0, len((*c)[a]), len((*c)[a][k]) == a+1))
  ensures [columns] forall(a, 0, len(*c), forall(b, 0, len(*c), a == b || ref((*c)[a]) != ref((*c)[b]) || ref((*c)[a]) == 0))
  inv len(*c) == $i
  inv len(*c) >= old(len(*c)) && forall(a, 0, old(len(*c)), (*c)[a] == old((*c)[a]))
  inv forall(a, old(len(*c)), len(*c), len((*c)[a]) == 0 && (fresh((*c)[a]) || ref((*c)[a]) == 0))
  inv forall(a, old(len(*c)), len(*c), forall(b, 0, a, ref((*c)[a]) != ref((*c)[b]) || ref((*c)[a]) == 0))
  inv ref(*c) == old(ref(*c)) && off(*c) == old(off(*c)) || fresh(*c)
  inv len($s) == $i
  inv len($s) >= old(len(*c)) && forall(a, 0, old(len(*c)), $s[a] == old((*c)[a]))
  inv forall(a, old(len(*c)), len($s), len($s[a]) == 0 && (fresh($s[a]) || ref($s[a]) == 0))
  inv forall(a, old(len(*c)), len($s), forall(b, 0, a, ref($s[a]) != ref($s[b]) || ref($s[a]) == 0))
  inv ref($s) == old(ref(*c)) && off($s) == old(off(*c)) || fresh($s)

func (pkg/common.FullReader).Read(r, p) (n, err)
  props S04 D03
  requires r.Reader != nil
  modifies elems(p), in(r)
  ensures [full] err == nil <==> n == len(p)
  ensures [content] err == nil ==> old(in(r)) == enc8(seq(p), len(p), in(r))
