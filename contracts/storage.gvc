
// ---- identifiers ----
func pkg/storage.Combine8(hi, lo) (r)
  props S01
  ensures [value] r == 256*hi + lo
func (pkg/storage.ID16).Upper(v) (r)
  props S01
  ensures [value] r == v / 256
func (pkg/storage.ID16).Lower(v) (r)
  props S01
  ensures [value] r == v % 256
func pkg/storage.Combine16(hi, lo) (r)
  props S01
  ensures [value] r == 65536*hi + lo
func (pkg/storage.ID32).Upper16(v) (r)
  props S01
  ensures [value] r == v / 65536
func (pkg/storage.ID32).Lower16(v) (r)
  props S01
  ensures [value] r == v % 65536
func (pkg/storage.ID32).Uint32(v) (r)
  props S01
  ensures [value] r == v
func (pkg/storage.ID8).Uint8(v) (r)
  props S01
  ensures [value] r == v
lemma [S01] pack16(h:int, l:int, v:int)
  hyp 0 <= h && h < 256 && 0 <= l && l < 256 && 0 <= v && v < 65536
  concl (256*h+l)/256 == h && (256*h+l)%256 == l && 256*(v/256) + v%256 == v && 256*h+l < 65536 && v/256 < 256
lemma [S01] pack32(h:int, l:int, v:int)
  hyp 0 <= h && h < 65536 && 0 <= l && l < 65536 && 0 <= v && v < 4294967296
  concl (65536*h+l)/65536 == h && (65536*h+l)%65536 == l && 65536*(v/65536) + v%65536 == v && 65536*h+l < 4294967296 && v/65536 < 65536
def cons16(v, t) = cons(v/256, cons(v%256, t))

// ---- Set8 ----
func (pkg/storage.Set8).Len(s) (r)
  props S02
  ensures [len] r == len(s)

func (pkg/storage.Set8).Less(s, i, j) (r)
  props S02
  requires 0 <= i && i < len(s) && 0 <= j && j < len(s)
  ensures [order] r <==> s[i] < s[j]

func (pkg/storage.Set8).Swap(s, i, j)
  props S02
  requires 0 <= i && i < len(s) && 0 <= j && j < len(s)
  modifies elems(s)
  ensures [swapped] s[i] == old(s[j]) && s[j] == old(s[i])
  ensures [others] forall(k, 0, len(s), k == i || k == j || s[k] == old(s[k]))

func (pkg/storage.Set8).Sort(s)
  props S02
  modifies elems(s)
  ensures [sorted] seq(s) == sortv(old(seq(s)))
  ensures [idem] sorted(old(seq(s))) ==> rowof(s) == old(rowof(s))

func (pkg/storage.Set8).EqualTo(s, t) (r)
  props S02
  ensures [exact] r <==> seq(s) == seq(t)
  inv forall(k, 0, $i, s[k] == t[k])
  inv forall(k, $i, len(s), s[k] == t[k])
  inv !$b ==> exists(k, 0, len(s), s[k] != t[k])
  inv $b ==> exists(k, 0, len(s), s[k] != t[k])
  inv forall(k, $i, len(s), s[k] == t[k])
  inv !$b ==> exists(k, 0, len(s), s[k] != t[k])
  inv $b ==> exists(k, 0, len(s), s[k] != t[k])

func (pkg/storage.Set8).WriteTo(s, w) (n, err)
  props S03 S04
  requires w != nil
  modifies out(w)
  ensures [layout S03 S04] err == nil ==> old(out(w)) == cons(len(s), enc8(seq(s), len(s), out(w)))
  ensures [count S03] err == nil ==> n == 1 + 1*len(s)
  ensures [too_long S03] len(s) > 255 ==> err != nil && out(w) == old(out(w))
  ensures [accepts S03] ideal(w) && len(s) <= 255 ==> err == nil
  inv old(out(w)) == cons(len(s), enc8(seq(s), $i, out(w)))

func (*pkg/storage.Set8).ReadFrom(s, r) (n, err)
  props S03 S04
  requires s != nil && r != nil
  modifies *s, in(r)
  ensures [content S03 S04] err == nil ==> old(in(r)) == cons(len(*s), enc8(seq(*s), len(*s), in(r)))
  ensures [count S03] err == nil ==> n == 1 + 1*len(*s)
  ensures [fits S03] err == nil ==> len(*s) <= 255
  ensures [complete S03 S04] ideal(r) && old(!isnil(in(r)) && avail(btl(in(r)), bhd(in(r)))) ==> err == nil
  inv ideal(r) && old(avail(btl(in(r)), bhd(in(r)))) ==> avail(in(r), old(bhd(in(r))) - $i)
  inv old(in(r)) == cons(old(bhd(in(r))), enc8(seq($s), $i, in(r)))
  inv old(in(r)) == cons(len(*s), enc8(seq(*s), $i, in(r)))

// ---- Set16 ----
func (pkg/storage.Set16).Len(s) (r)
  props S02
  ensures [len] r == len(s)

func (pkg/storage.Set16).Less(s, i, j) (r)
  props S02
  requires 0 <= i && i < len(s) && 0 <= j && j < len(s)
  ensures [order] r <==> s[i] < s[j]

func (pkg/storage.Set16).Swap(s, i, j)
  props S02
  requires 0 <= i && i < len(s) && 0 <= j && j < len(s)
  modifies elems(s)
  ensures [swapped] s[i] == old(s[j]) && s[j] == old(s[i])
  ensures [others] forall(k, 0, len(s), k == i || k == j || s[k] == old(s[k]))

func (pkg/storage.Set16).Sort(s)
  props S02
  modifies elems(s)
  ensures [sorted] seq(s) == sortv(old(seq(s)))
  ensures [idem] sorted(old(seq(s))) ==> rowof(s) == old(rowof(s))

func (pkg/storage.Set16).EqualTo(s, t) (r)
  props S02
  ensures [exact] r <==> seq(s) == seq(t)
  inv forall(k, 0, $i, s[k] == t[k])
  inv forall(k, $i, len(s), s[k] == t[k])
  inv !$b ==> exists(k, 0, len(s), s[k] != t[k])
  inv $b ==> exists(k, 0, len(s), s[k] != t[k])
  inv forall(k, $i, len(s), s[k] == t[k])
  inv !$b ==> exists(k, 0, len(s), s[k] != t[k])
  inv $b ==> exists(k, 0, len(s), s[k] != t[k])

func (pkg/storage.Set16).WriteTo(s, w) (n, err)
  props S03 S04
  requires w != nil
  modifies out(w)
  ensures [layout S03 S04] err == nil ==> old(out(w)) == cons16(len(s), enc16(seq(s), len(s), out(w)))
  ensures [count S03] err == nil ==> n == 2 + 2*len(s)
  ensures [too_long S03] len(s) > 65535 ==> err != nil && out(w) == old(out(w))
  ensures [accepts S03] ideal(w) && len(s) <= 65535 ==> err == nil
  inv old(out(w)) == cons16(len(s), enc16(seq(s), $i, out(w)))

func (*pkg/storage.Set16).ReadFrom(s, r) (n, err)
  props S03 S04
  requires s != nil && r != nil
  modifies *s, in(r)
  ensures [content S03 S04] err == nil ==> old(in(r)) == cons16(len(*s), enc16(seq(*s), len(*s), in(r)))
  ensures [count S03] err == nil ==> n == 2 + 2*len(*s)
  ensures [fits S03] err == nil ==> len(*s) <= 65535
  ensures [complete S03 S04] ideal(r) && old(!isnil(in(r)) && !isnil(btl(in(r))) && avail(btl(btl(in(r))), 2*(256*bhd(in(r))+bhd(btl(in(r)))))) ==> err == nil
  inv ideal(r) && old(avail(btl(btl(in(r))), 2*(256*bhd(in(r))+bhd(btl(in(r)))))) ==> avail(in(r), 2*(old(256*bhd(in(r))+bhd(btl(in(r)))) - $i))
  inv old(in(r)) == cons16(old(256*bhd(in(r))+bhd(btl(in(r)))), enc16(seq($s), $i, in(r)))
  inv old(in(r)) == cons16(len(*s), enc16(seq(*s), $i, in(r)))

