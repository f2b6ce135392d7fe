// ---- names, tags and the tag index (pkg/dag) ----

// Four bytes written for a name, and the name four bytes stand for.
def wire(n) = ite(len(n) == 0 || n == "----", "    ", n)
def canon(n) = ite(len(n) == 0 || n == "    ", "----", n)
def wireable(n) = len(n) == 0 || len(n) == 4
def put4(n, t) = cons(n[0], cons(n[1], cons(n[2], cons(n[3], t))))
def drop4(b) = btl(btl(btl(btl(b))))
// the name n is what the first four bytes of b decode to
def tagat(n, b) = len(n) == 4 && n != "    " && (b == put4(n, drop4(b)) || n == "----" && b == put4("    ", drop4(b)))
// at least four bytes
def has4(b) = !isnil(b) && !isnil(btl(b)) && !isnil(btl(btl(b))) && !isnil(btl(btl(btl(b))))

// what is written for a name decodes to its canonical form
lemma [D01 D02] name_roundtrip(n:str, g:str, t:bytes)
  hyp wireable(n) && forall(k, 0, 4, 0 <= n[k] && n[k] < 256)
  hyp tagat(g, put4(wire(n), t))
  concl g == canon(n)

func (pkg/dag.TagName).MarshalBinary(g) (data, err)
  props D01 D02
  ensures [refused D01 D02] err == nil <==> wireable(g)
  ensures [bytes D01 D02] err == nil ==> seq(data) == wire(g)
  ensures [size D01] err == nil ==> len(data) == 4

func (*pkg/dag.TagName).UnmarshalBinary(g, b) (err)
  props D01 D02 D03
  requires g != nil
  modifies *g
  ensures [refused D01 D03] err == nil <==> len(b) == 4
  ensures [unchanged D01] err != nil ==> *g == old(*g)
  ensures [value D01 D02] err == nil ==> *g == canon(seq(b))

func (pkg/dag.TagName).BinaryWriteTo(g, w) (err)
  props D01 D02 D03
  requires w != nil
  modifies out(w)
  ensures [layout D01 D02 D03] err == nil ==> old(out(w)) == put4(wire(g), out(w))
  ensures [refused D01 D02] !wireable(g) ==> err != nil && out(w) == old(out(w))
  ensures [accepts D01 D02] ideal(w) && wireable(g) ==> err == nil

func (*pkg/dag.TagName).BinaryReadFrom(g, r) (err)
  props D01 D02 D03
  requires g != nil && r != nil
  modifies *g, in(r)
  ensures [content D01 D02 D03] err == nil ==> tagat(*g, old(in(r))) && in(r) == old(drop4(in(r)))
  ensures [complete D02] ideal(r) && old(has4(in(r))) ==> err == nil

func (pkg/dag.TagName).String(g) (s)
  props D01
  ensures [text] s == g

func pkg/dag.NewTag(parent, name) (t)
  props D06 D04
  ensures [tag] t != nil && fresh(t)
  ensures [parent] t.Parent == ite(len(parent) == 0, "----", parent)
  ensures [name] t.Name == name

func (pkg/dag.Tag).String(t) (s)
  props D01
  ensures [text] s == t.Name

func (pkg/dag.Tag).BinaryWriteTo(t, w) (err)
  props D02 D03
  requires w != nil
  modifies out(w)
  ensures [layout D02 D03] err == nil ==> old(out(w)) == put4(wire(t.Parent), put4(wire(t.Name), out(w)))
  ensures [refused D02] err == nil ==> wireable(t.Parent) && wireable(t.Name)
  ensures [accepts D02] ideal(w) && wireable(t.Parent) && wireable(t.Name) ==> err == nil

func (*pkg/dag.Tag).BinaryReadFrom(t, r) (err)
  props D02 D03
  requires t != nil && r != nil
  modifies *t, in(r)
  ensures [parent D02 D03] err == nil ==> tagat(t.Parent, old(in(r)))
  ensures [name D02 D03] err == nil ==> tagat(t.Name, old(drop4(in(r))))
  ensures [taken D02 D03] err == nil ==> in(r) == old(drop4(drop4(in(r))))
  ensures [complete D02] ideal(r) && old(has4(in(r)) && has4(drop4(in(r)))) ==> err == nil

// ---- the tag index ----
rec enctags(s:view<pkg/dag.Idx>, i:int, t:bytes) bytes = ite(i <= 0, t, enctags(s, i-1, put4(wire(s[i-1].Parent), put4(wire(s[i-1].Name), t))))
rec fromtags(s:view<pkg/dag.Idx>, i:int, n:int, t:bytes) bytes = ite(i >= n, t, put4(wire(s[i].Parent), put4(wire(s[i].Name), fromtags(s, i+1, n, t))))
// what follows i tags
rec aftertags(b:bytes, i:int) bytes = ite(i <= 0, b, drop4(drop4(aftertags(b, i-1))))

lemma avail_tag(b:bytes, n:int)
  hyp n >= 8 && avail(b, n)
  concl has4(b) && has4(drop4(b)) && avail(drop4(drop4(b)), n-8)
  trigger avail(b, n)
  mention avail(btl(b), n-1) ; avail(btl(btl(b)), n-2) ; avail(btl(btl(btl(b))), n-3) ; avail(drop4(b), n-4) ; avail(btl(drop4(b)), n-5) ; avail(btl(btl(drop4(b))), n-6) ; avail(btl(btl(btl(drop4(b)))), n-7)

lemma tags_from(s:view<pkg/dag.Idx>, i:int, n:int, t:bytes)
  by n-i
  hyp 0 <= i && i <= n
  concl enctags(s, i, fromtags(s, i, n, t)) == enctags(s, n, t)
  trigger enctags(s, i, fromtags(s, i, n, t))
  mention enctags(s, i+1, fromtags(s, i+1, n, t))

lemma [D02] tags_whole(s:view<pkg/dag.Idx>, n:int, t:bytes)
  hyp 0 <= n
  concl enctags(s, n, t) == fromtags(s, 0, n, t)
  mention enctags(s, 0, fromtags(s, 0, n, t))

lemma [D02] tags_after(s:view<pkg/dag.Idx>, i:int, n:int, t:bytes)
  by i
  hyp 0 <= i && i <= n
  concl aftertags(fromtags(s, 0, n, t), i) == fromtags(s, i, n, t)
  trigger aftertags(fromtags(s, 0, n, t), i)
  mention aftertags(fromtags(s, 0, n, t), i-1) ; fromtags(s, i-1, n, t)

// an index written and read back has the same tags at the same identifiers, names in canonical form, and takes exactly those bytes
lemma [D02] tags_roundtrip(s:view<pkg/dag.Idx>, g:view<pkg/dag.Idx>, k:int, n:int, t:bytes)
  hyp 0 <= k && k < n
  hyp wireable(s[k].Parent) && wireable(s[k].Name)
  hyp forall(c, 0, 4, 0 <= s[k].Parent[c] && s[k].Parent[c] < 256 && 0 <= s[k].Name[c] && s[k].Name[c] < 256)
  hyp tagat(g[k].Parent, aftertags(fromtags(s, 0, n, t), k)) && tagat(g[k].Name, drop4(aftertags(fromtags(s, 0, n, t), k)))
  concl g[k].Parent == canon(s[k].Parent) && g[k].Name == canon(s[k].Name) && aftertags(fromtags(s, 0, n, t), n) == t
  mention aftertags(fromtags(s, 0, n, t), k) ; fromtags(s, k, n, t) ; fromtags(s, n, n, t)

lemma [D02] tags_avail(s:view<pkg/dag.Idx>, i:int, n:int, m:int, t:bytes)
  by n-i
  hyp 0 <= i && i <= n && m == 8*(n-i)
  concl avail(fromtags(s, i, n, t), m)
  trigger avail(fromtags(s, i, n, t), m)
  mention fromtags(s, i+1, n, t) ; avail(fromtags(s, i+1, n, t), m-8) ; avail(btl(fromtags(s, i, n, t)), 8*(n-i)-1) ; avail(btl(btl(fromtags(s, i, n, t))), 8*(n-i)-2) ; avail(btl(btl(btl(fromtags(s, i, n, t)))), 8*(n-i)-3) ; avail(drop4(fromtags(s, i, n, t)), 8*(n-i)-4) ; avail(btl(drop4(fromtags(s, i, n, t))), 8*(n-i)-5) ; avail(btl(btl(drop4(fromtags(s, i, n, t)))), 8*(n-i)-6) ; avail(btl(btl(btl(drop4(fromtags(s, i, n, t))))), 8*(n-i)-7)

func pkg/dag.NewIndex(tags) (idx)
  props D06
  ensures [count] len(idx) == len(tags)
  ensures [names] forall(k, 0, len(tags), idx[k].Name == tags[k].Name)
  ensures [parents] forall(k, 0, len(tags), idx[k].Parent == ite(len(tags[k].Parent) == 0, "----", tags[k].Parent))
  ensures [own] len(tags) > 0 ==> fresh(idx)
  inv len($s) >= $i && forall(k, 0, $i, $s[k].Name == tags[k].Name && $s[k].Parent == ite(len(tags[k].Parent) == 0, "----", tags[k].Parent))

func (pkg/dag.Idx).Len(idx) (n)
  props D05 D04 D02
  ensures [len] n == len(idx)

func (pkg/dag.Idx).Find(idx, name) (id, found)
  props D05 D04
  requires len(idx) <= 256
  ensures [hit] found ==> id < len(idx) && idx[id].Name == name
  ensures [miss] !found ==> forall(k, 0, len(idx), idx[k].Name != name)
  inv forall(k, 0, $i, idx[k].Name != name)
  inv forall(k, $i, len(idx), idx[k].Name != name)
  inv $b ==> $i < len(idx) && idx[$i].Name == name

func (pkg/dag.Idx).Get(idx, id) (tag, found)
  props D05 D04
  ensures [range] found <==> id < len(idx)
  ensures [value] found ==> tag == idx[id]

func (*pkg/dag.Idx).Index(idx, name, parent) (id)
  props D04
  requires idx != nil && len(*idx) <= 256
  requires [distinct] forall(a, 0, len(*idx), forall(b, 0, len(*idx), a == b || (*idx)[a].Name != (*idx)[b].Name))
  panics [full] len(*idx) == 256 && forall(k, 0, len(*idx), (*idx)[k].Name != name)
  modifies *idx, tail(*idx)
  ensures [stored] id < len(*idx) && (*idx)[id].Name == name
  ensures [stable] forall(k, 0, old(len(*idx)), (*idx)[k] == old((*idx)[k]))
  ensures [known] old(exists(k, 0, len(*idx), (*idx)[k].Name == name)) ==> *idx == old(*idx)
  ensures [new] old(forall(k, 0, len(*idx), (*idx)[k].Name != name)) ==> len(*idx) == old(len(*idx)) + 1 && id == old(len(*idx))
  ensures [parent] old(forall(k, 0, len(*idx), (*idx)[k].Name != name)) ==> (*idx)[id].Parent == ite(len(parent) == 0, "----", parent)
  ensures [distinct] forall(a, 0, len(*idx), forall(b, 0, len(*idx), a == b || (*idx)[a].Name != (*idx)[b].Name))
  ensures [capacity] len(*idx) <= 256

func (pkg/dag.Idx).BinaryWriteTo(idx, w) (err)
  props D02 D03
  requires w != nil
  modifies out(w)
  ensures [layout D02 D03] err == nil ==> old(out(w)) == cons(len(idx), enctags(view(idx), len(idx), out(w)))
  ensures [wireable D02] err == nil ==> forall(k, 0, len(idx), wireable(idx[k].Parent) && wireable(idx[k].Name))
  ensures [too_long D02] len(idx) > 255 ==> err != nil && out(w) == old(out(w))
  ensures [accepts D02] ideal(w) && len(idx) <= 255 && forall(k, 0, len(idx), wireable(idx[k].Parent) && wireable(idx[k].Name)) ==> err == nil
  inv old(out(w)) == cons(len(idx), enctags(view(idx), $i, out(w)))
  inv forall(k, 0, $i, wireable(idx[k].Parent) && wireable(idx[k].Name))

func (*pkg/dag.Idx).BinaryReadFrom(idx, r) (err)
  props D02 D03
  requires idx != nil && r != nil
  modifies *idx, in(r)
  ensures [count D02 D03] err == nil ==> !old(isnil(in(r))) && old(bhd(in(r))) == len(*idx)
  ensures [tags D02 D03] err == nil ==> forall(k, 0, len(*idx), tagat((*idx)[k].Parent, aftertags(old(btl(in(r))), k)) && tagat((*idx)[k].Name, drop4(aftertags(old(btl(in(r))), k))))
  ensures [taken D02 D03] err == nil ==> in(r) == aftertags(old(btl(in(r))), len(*idx))
  ensures [complete D02] ideal(r) && old(!isnil(in(r)) && avail(btl(in(r)), 8*bhd(in(r)))) ==> err == nil
  inv ideal(r) && old(avail(btl(in(r)), 8*bhd(in(r)))) ==> avail(in(r), 8*(old(bhd(in(r))) - $i))
  inv in(r) == aftertags(old(btl(in(r))), $i)
  inv forall(k, 0, $i, tagat((*idx)[k].Parent, aftertags(old(btl(in(r))), k)) && tagat((*idx)[k].Name, drop4(aftertags(old(btl(in(r))), k))))
  inv forall(k, 0, $i, tagat($s[k].Parent, aftertags(old(btl(in(r))), k)) && tagat($s[k].Name, drop4(aftertags(old(btl(in(r))), k))))
