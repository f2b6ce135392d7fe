// ---- nodes of the compiled index (internal/index) ----

// the child of node p with letter r among the nodes 1..n-1, 0: none
rec child(s:view<[]internal/index.Item>, n:int, p:int, r:int) int = ite(n <= 1, 0, ite(s[n-1].Parent == p && s[n-1].Letter == r, n-1, child(s, n-1, p, r)))
// the node reached from p by the first i letters of w, 0: none
rec walk(s:view<[]internal/index.Item>, n:int, p:int, w:seq, i:int) int = ite(i <= 0, p, ite(i > 1 && walk(s, n, p, w, i-1) == 0, 0, child(s, n, walk(s, n, p, w, i-1), w[i-1])))

lemma child_char(s:view<[]internal/index.Item>, n:int, p:int, r:int)
  by n
  concl child(s, n, p, r) == 0 && forall(j, 1, n, s[j].Parent != p || s[j].Letter != r) || 1 <= child(s, n, p, r) && child(s, n, p, r) < n && s[child(s, n, p, r)].Parent == p && s[child(s, n, p, r)].Letter == r
  trigger child(s, n, p, r)

// how many of the first i steps lead nowhere
rec missing(s:view<[]internal/index.Item>, n:int, p:int, w:seq, i:int) int = ite(i <= 0, 0, missing(s, n, p, w, i-1) + ite(walk(s, n, p, w, i) == 0, 1, 0))

// how many of the nodes 1..n-1 carry a collection
rec counted(s:view<[]internal/index.Item>, n:int) int = ite(n <= 1, 0, counted(s, n-1) + ite(s[n-1].Variants != 0, 1, 0))
def wordsok(x) = x.wordsCount == counted(view(x.items.items), x.items.nextID)

lemma counted_grow(s:view<[]internal/index.Item>, s2:view<[]internal/index.Item>, n:int, n2:int)
  by n2
  hyp 1 <= n && n <= n2 && forall(k, 1, n, s[k].Variants == s2[k].Variants) && forall(k, n, n2, s2[k].Variants == 0)
  concl counted(s2, n2) == counted(s, n)
  trigger counted(s, n) ; counted(s2, n2)
  mention counted(s, n-1) ; counted(s2, n2-1)

lemma counted_set(s:view<[]internal/index.Item>, s2:view<[]internal/index.Item>, n:int, k:int)
  by n
  hyp 1 <= k && forall(j, 1, n, j == k || s[j].Variants == s2[j].Variants)
  concl counted(s2, n) == counted(s, n) + ite(k < n, ite(s2[k].Variants != 0, 1, 0) - ite(s[k].Variants != 0, 1, 0), 0)
  trigger counted(s, n) ; counted(s2, n) ; s2[k]

// items
func internal/index.NewItems() (it)
  props X01 X13
  ensures [new X01] it != nil && fresh(it) && it.nextID == 1 && len(it.items) == 1
  ensures [root X01] it.items[0].Variants == 0 && it.items[0].ID == 0 && it.items[0].Parent == 0 && it.items[0].Letter == 0
  ensures [free X13] it.mu != nil && fresh(it.mu) && !held(it.mu)

func (internal/index.Items).NextID(it) (id)
  props X05 X12
  ensures [value] id == it.nextID

func (*internal/index.Items).Extend(it, n)
  props X01 X03
  requires it != nil && n >= 0
  modifies it.items, tail(it.items)
  ensures [length] len(it.items) == old(len(it.items)) + n
  ensures [kept] forall(k, 0, old(len(it.items)), it.items[k] == old(it.items[k]))
  ensures [zero] forall(k, old(len(it.items)), len(it.items), it.items[k].Variants == 0 && it.items[k].ID == 0)
  ensures [place] ref(it.items) == old(ref(it.items)) && off(it.items) == old(off(it.items)) && cap(it.items) == old(cap(it.items)) || fresh(it.items)

func (*internal/index.Items).NewChild(it, parent, letter) (r)
  props X01 X03 X13
  requires it != nil && it.mu != nil && !held(it.mu)
  requires [room] 1 <= it.nextID && it.nextID <= len(it.items) && it.nextID < 65536*65536-1
  modifies it.items, it.nextID, elems(it.items), tail(it.items), mutex(it.mu)
  ensures [next X01] it.nextID == old(it.nextID) + 1 && it.nextID <= len(it.items)
  ensures [item X01] r == it.items[old(it.nextID)] && r.ID == old(it.nextID) && r.Parent == parent && r.Letter == letter && r.Variants == 0
  ensures [kept X03] forall(k, 0, old(it.nextID), it.items[k] == old(it.items[k]))
  ensures [place] ref(it.items) == old(ref(it.items)) && off(it.items) == old(off(it.items)) && cap(it.items) == old(cap(it.items)) || fresh(it.items)
  ensures [spare] old(forall(k, it.nextID, len(it.items), it.items[k].Variants == 0)) ==> forall(k, it.nextID, len(it.items), it.items[k].Variants == 0)
  ensures [free X13] !held(it.mu)

func (*internal/index.Items).Get(it, id) (r)
  props X12 X03
  requires it != nil && it.nextID <= len(it.items)
  ensures [unknown X12] r == nil <==> id == 0 || id >= it.nextID
  ensures [known X03 X12] r != nil ==> r == elemptr(it.items, id)

// ---- the index: what every state of it satisfies ----
def nodesok(x) = x.items.mu != nil && 1 <= x.items.nextID && x.items.nextID <= len(x.items.items) && forall(k, 1, x.items.nextID, x.items.items[k].ID == k && x.items.items[k].Parent < k)
// nodes that do not exist have no collections
def spareok(x) = x.items.items[0].Variants == 0 && forall(k, x.items.nextID, len(x.items.items), x.items.items[k].Variants == 0)
// every node has its own map of children
def mapsok(x) = x.childrenMap != nil && forall(p, 0, 65536*65536, has(x.childrenMap, p) ==> x.childrenMap[p] != nil) && forall(p, 0, 65536*65536, forall(q, 0, 65536*65536, has(x.childrenMap, p) && has(x.childrenMap, q) && p != q ==> x.childrenMap[p] != x.childrenMap[q]))
// which lists exactly the nodes whose parent it is
def linked(x) = forall(p, 0, 65536*65536, forall(r, 0-32768*65536, 32768*65536, has(x.childrenMap, p) && has(x.childrenMap[p], r) ==> 1 <= x.childrenMap[p][r] && x.childrenMap[p][r] < x.items.nextID && x.items.items[x.childrenMap[p][r]].Parent == p && x.items.items[x.childrenMap[p][r]].Letter == r)) && forall(k, 1, x.items.nextID, has(x.childrenMap, x.items.items[k].Parent) && has(x.childrenMap[x.items.items[k].Parent], x.items.items[k].Letter) && x.childrenMap[x.items.items[k].Parent][x.items.items[k].Letter] == k)
def nodes(x) = view(x.items.items)

func (*internal/index.Index).GetChildrenIDMap(x, id) (res)
  props X01 X02 X03
  requires x != nil
  requires [maps] mapsok(x)
  modifies mapof(x.childrenMap)
  ensures [listed] res != nil && has(x.childrenMap, id) && x.childrenMap[id] == res
  ensures [kept] forall(p, 0, 65536*65536, old(has(x.childrenMap, p)) ==> has(x.childrenMap, p) && x.childrenMap[p] == old(x.childrenMap[p]))
  ensures [others] forall(p, 0, 65536*65536, p != id && has(x.childrenMap, p) ==> old(has(x.childrenMap, p)))
  ensures [new] !old(has(x.childrenMap, id)) ==> fresh(res) && forall(r, 0-32768*65536, 32768*65536, !has(res, r))
  ensures [maps] mapsok(x)
  ensures [linked] old(linked(x)) ==> linked(x)

def ixok(x) = x != nil && nodesok(x) && mapsok(x) && linked(x)

func (*internal/index.Index).getItem(x, id) (r)
  props X12
  requires x != nil && x.items.nextID <= len(x.items.items)
  ensures [unknown X12] r == nil <==> id == 0 || id >= x.items.nextID
  ensures [known X12] r != nil ==> r == elemptr(x.items.items, id)

func internal/index.newNode(x, id) (n)
  props X01
  ensures [node] n != nil && fresh(n) && n.index == x && n.id == id

func (*internal/index.Index).GetItem(x, id) (n)
  props X01 X12
  ensures [node] n != nil && fresh(n) && n.index == x && n.id == id

// n is the node with number id of index x
def isnode(n, x, id) = dyn(n, "*internal/index.Node") && unbox(n, "*internal/index.Node").index == x && unbox(n, "*internal/index.Node").id == id

func (*internal/index.Index).Get(x, id) (n, err)
  props X12 X01
  requires x != nil
  ensures [unknown X12] err == nil <==> id < x.items.nextID
  ensures [known X12 X01] err == nil ==> isnode(n, x, id)

func (*internal/index.Index).AddToNode(x, p, runes) (n, err)
  props X01 X03 X13
  requires ixok(x) && !held(x.items.mu)
  requires [room] x.items.nextID + len(runes) < 65536*65536
  modifies x.items.items, x.items.nextID, elems(x.items.items), tail(x.items.items), mutex(x.items.mu), mapof(x.childrenMap), family("map:pkg/dag.IdMap")
  ensures [accepts X01] err == nil <==> len(runes) > 0 && (p == 0 || p < old(x.items.nextID))
  ensures [node X01] err == nil ==> isnode(n, x, walk(nodes(x), x.items.nextID, p, seq(runes), len(runes))) && walk(nodes(x), x.items.nextID, p, seq(runes), len(runes)) != 0
  ensures [stable X03] x.items.nextID >= old(x.items.nextID) && forall(k, 0, old(x.items.nextID), x.items.items[k] == old(x.items.items[k]))
  ensures [added X01 X03 X05] x.items.nextID == old(x.items.nextID) + ite(err == nil, old(missing(nodes(x), x.items.nextID, p, seq(runes), len(runes))), 0)
  ensures [counted X05] old(wordsok(x)) ==> wordsok(x)
  ensures [bare X03 X05] forall(k, old(x.items.nextID), x.items.nextID, x.items.items[k].Variants == 0)
  ensures [free X13] !held(x.items.mu)
  ensures [inv X01 X03] ixok(x)
  inv nodesok(x)
  inv mapsok(x)
  inv linked(x)
  inv !held(x.items.mu)
  inv 0 <= $i{int} && $i < len(runes)
  inv 0 <= $i{int} && $i <= len(runes)
  inv $j{pkg/dag.ID} == walk(nodes(x), x.items.nextID, p, seq(runes), $i{int})
  inv $i{int} > 0 ==> 0 < $j{pkg/dag.ID} && $j < x.items.nextID
  inv x.items.nextID >= old(x.items.nextID) && x.items.nextID <= old(x.items.nextID) + $i
  inv forall(k, 0, old(x.items.nextID), x.items.items[k] == old(x.items.items[k]))
  inv ref(x.items.items) == old(ref(x.items.items)) && off(x.items.items) == old(off(x.items.items)) && cap(x.items.items) == old(cap(x.items.items)) || fresh(x.items.items)
  inv $i > 0 ==> p == 0 || p < old(x.items.nextID)
  inv x.items.nextID == old(x.items.nextID) + old(missing(nodes(x), x.items.nextID, p, seq(runes), $i{int}))
  inv $i{int} > 0 && old(walk(nodes(x), x.items.nextID, p, seq(runes), $i)) == 0 ==> $j{pkg/dag.ID} == x.items.nextID - 1
  inv forall(k, old(x.items.nextID), x.items.nextID, x.items.items[k].Variants == 0)

lemma child_is(s:view<[]internal/index.Item>, n:int, p:int, r:int, k:int)
  hyp 1 <= k && k < n && s[k].Parent == p && s[k].Letter == r
  hyp forall(j, 1, n, j == k || s[j].Parent != p || s[j].Letter != r)
  concl child(s, n, p, r) == k

def sib(s, n) = forall(a, 1, n, forall(b, 1, n, a == b || s[a].Parent != s[b].Parent || s[a].Letter != s[b].Letter))

lemma child_grow(s:view<[]internal/index.Item>, s2:view<[]internal/index.Item>, n:int, n2:int, p:int, r:int)
  hyp n <= n2 && forall(k, 1, n, s[k].Parent == s2[k].Parent && s[k].Letter == s2[k].Letter)
  hyp sib(s2, n2)
  hyp child(s, n, p, r) != 0
  concl child(s2, n2, p, r) == child(s, n, p, r)
  trigger child(s, n, p, r) ; child(s2, n2, p, r)

lemma walk_grow(s:view<[]internal/index.Item>, s2:view<[]internal/index.Item>, n:int, n2:int, p:int, w:seq, i:int)
  by i
  hyp n <= n2 && forall(k, 1, n, s[k].Parent == s2[k].Parent && s[k].Letter == s2[k].Letter)
  hyp sib(s2, n2)
  hyp i <= 0 || walk(s, n, p, w, i) != 0
  concl walk(s2, n2, p, w, i) == walk(s, n, p, w, i)
  trigger walk(s, n, p, w, i) ; walk(s2, n2, p, w, i)
  mention walk(s, n, p, w, i-1) ; walk(s2, n2, p, w, i-1) ; child(s2, n2, walk(s2, n2, p, w, i-1), w[i-1]) ; child(s, n, walk(s, n, p, w, i-1), w[i-1])

// the letters on the way to node k, as text
rec text(s:view<[]internal/index.Item>, k:int) str = ite(k <= 0 || s[k].Parent < 0 || s[k].Parent >= k, "", cat(text(s, s[k].Parent), chr(s[k].Letter)))

// once a path is lost it stays lost
lemma walk_miss(s:view<[]internal/index.Item>, n:int, p:int, w:seq, i:int, j:int)
  by j
  hyp 0 <= i && i < j
  hyp i > 0 && walk(s, n, p, w, i) == 0 || child(s, n, walk(s, n, p, w, i), w[i]) == 0
  concl walk(s, n, p, w, j) == 0
  mention walk(s, n, p, w, j-1)
  trigger walk(s, n, p, w, i) ; walk(s, n, p, w, j)

lemma walk_all(s:view<[]internal/index.Item>, n:int, p:int, w:seq, i:int)
  by i
  hyp i <= 0 || walk(s, n, p, w, i) != 0
  concl missing(s, n, p, w, i) == 0
  mention walk(s, n, p, w, i-1)
  trigger missing(s, n, p, w, i)

lemma walk_text(s:view<[]internal/index.Item>, n:int, p:int, w:seq, i:int)
  by i
  hyp 1 <= i && i <= len(w) && 0 <= p && walk(s, n, p, w, i) != 0
  hyp forall(k, 1, n, 0 <= s[k].Parent && s[k].Parent < k)
  concl text(s, walk(s, n, p, w, i)) == cat(text(s, p), utf8n(w, i))
  mention walk(s, n, p, w, i-1) ; utf8n(w, i-1) ; child(s, n, walk(s, n, p, w, i-1), w[i-1]) ; text(s, walk(s, n, p, w, i-1)) ; child(s, n, p, w[i-1])
  trigger text(s, walk(s, n, p, w, i))

lemma word_text(s:view<[]internal/index.Item>, n:int, w:seq, i:int)
  hyp 1 <= i && i <= len(w) && walk(s, n, 0, w, i) != 0
  hyp forall(k, 1, n, 0 <= s[k].Parent && s[k].Parent < k)
  concl text(s, walk(s, n, 0, w, i)) == utf8n(w, i)
  mention text(s, 0) ; cat(text(s, 0), utf8n(w, i))
  trigger text(s, walk(s, n, 0, w, i))

func (*internal/index.Node).Word(n) (w)
  props X01 X03 X12
  requires n != nil && n.index != nil && nodesok(n.index)
  ensures [text X01 X03] n.id < n.index.items.nextID ==> w == text(nodes(n.index), n.id)

func (*internal/index.Node).Id(n) (id)
  props X01
  requires n != nil
  ensures [id] id == n.id

func (*internal/index.Index).FetchFromItem(x, p, runes) (n, err)
  props X01 X02 X03 X12
  requires ixok(x)
  modifies mapof(x.childrenMap)
  ensures [hit X01 X02 X12] err == nil <==> len(runes) > 0 && walk(nodes(x), x.items.nextID, p, seq(runes), len(runes)) != 0
  ensures [node X01 X02] err == nil ==> isnode(n, x, walk(nodes(x), x.items.nextID, p, seq(runes), len(runes)))
  ensures [none X02] err != nil ==> n == nil
  ensures [inv X01 X02 X03] ixok(x)
  inv mapsok(x)
  inv linked(x)
  inv 0 <= $i{int} && $i < len(runes)
  inv 0 <= $i{int} && $i <= len(runes)
  inv $j{pkg/dag.ID} == walk(nodes(x), x.items.nextID, p, seq(runes), $i{int})
  inv $i{int} > 0 ==> 0 < $j{pkg/dag.ID} && $j < x.items.nextID

func (*internal/index.Index).FetchItemFromParent(x, p, runes) (n, err)
  props X01 X02 X03 X12
  requires ixok(x)
  modifies mapof(x.childrenMap)
  ensures [hit X01 X02 X12] err == nil <==> len(runes) > 0 && walk(nodes(x), x.items.nextID, p, seq(runes), len(runes)) != 0
  ensures [node X01 X02] err == nil ==> n != nil && fresh(n) && n.index == x && n.id == walk(nodes(x), x.items.nextID, p, seq(runes), len(runes))
  ensures [none X02] err != nil ==> n == nil
  ensures [inv X01 X02 X03] ixok(x)
  inv mapsok(x)
  inv linked(x)
  inv 0 <= $i{int} && $i < len(runes)
  inv 0 <= $i{int} && $i <= len(runes)
  inv $j{pkg/dag.ID} == walk(nodes(x), x.items.nextID, p, seq(runes), $i{int})
  inv $i{int} > 0 ==> 0 < $j{pkg/dag.ID} && $j < x.items.nextID

func (*internal/index.Index).FetchRunes(x, runes) (n, err)
  props X01 X02 X03 X12
  requires ixok(x)
  modifies mapof(x.childrenMap)
  ensures [hit X01 X02 X12] err == nil <==> len(runes) > 0 && walk(nodes(x), x.items.nextID, 0, seq(runes), len(runes)) != 0
  ensures [node X01 X02] err == nil ==> isnode(n, x, walk(nodes(x), x.items.nextID, 0, seq(runes), len(runes))) && text(nodes(x), unbox(n, "*internal/index.Node").id) == utf8(seq(runes))
  ensures [none X02] err != nil ==> n == nil
  ensures [inv X01 X02 X03] ixok(x)

func (*internal/index.Index).FetchString(x, word) (n, err)
  props X01 X02 X03 X12
  requires ixok(x)
  modifies mapof(x.childrenMap)
  ensures [hit X01 X02 X12] err == nil <==> len(word) > 0 && walk(nodes(x), x.items.nextID, 0, runes(word), len(runes(word))) != 0
  ensures [node X01 X02] err == nil ==> isnode(n, x, walk(nodes(x), x.items.nextID, 0, runes(word), len(runes(word)))) && text(nodes(x), unbox(n, "*internal/index.Node").id) == utf8(runes(word))
  ensures [none X02] err != nil ==> n == nil
  ensures [inv X01 X02 X03] ixok(x)

func (*internal/index.Index).AddRunes(x, runes) (n, err)
  props X01 X03 X13
  requires ixok(x) && !held(x.items.mu)
  requires [room] x.items.nextID + len(runes) < 65536*65536
  modifies x.items.items, x.items.nextID, elems(x.items.items), tail(x.items.items), mutex(x.items.mu), mapof(x.childrenMap), family("map:pkg/dag.IdMap")
  ensures [accepts X01] err == nil <==> len(runes) > 0
  ensures [node X01] err == nil ==> isnode(n, x, walk(nodes(x), x.items.nextID, 0, seq(runes), len(runes))) && walk(nodes(x), x.items.nextID, 0, seq(runes), len(runes)) != 0
  ensures [word X01] err == nil ==> text(nodes(x), unbox(n, "*internal/index.Node").id) == utf8(seq(runes))
  ensures [stable X03] x.items.nextID >= old(x.items.nextID) && forall(k, 0, old(x.items.nextID), x.items.items[k] == old(x.items.items[k]))
  ensures [added X01 X03 X05] x.items.nextID == old(x.items.nextID) + ite(err == nil, old(missing(nodes(x), x.items.nextID, 0, seq(runes), len(runes))), 0)
  ensures [counted X05] old(wordsok(x)) ==> wordsok(x)
  ensures [bare X03 X05] forall(k, old(x.items.nextID), x.items.nextID, x.items.items[k].Variants == 0)
  ensures [again X01] err == nil && old(walk(nodes(x), x.items.nextID, 0, seq(runes), len(runes))) != 0 ==> unbox(n, "*internal/index.Node").id == old(walk(nodes(x), x.items.nextID, 0, seq(runes), len(runes)))
  ensures [free X13] !held(x.items.mu)
  ensures [inv X01 X03] ixok(x)

func (*internal/index.Index).AddString(x, word) (n, err)
  props X01 X03 X13
  requires ixok(x) && !held(x.items.mu)
  requires [room] x.items.nextID + len(word) < 65536*65536
  modifies x.items.items, x.items.nextID, elems(x.items.items), tail(x.items.items), mutex(x.items.mu), mapof(x.childrenMap), family("map:pkg/dag.IdMap")
  ensures [accepts X01] err == nil <==> len(word) > 0
  ensures [node X01] err == nil ==> isnode(n, x, walk(nodes(x), x.items.nextID, 0, runes(word), len(runes(word)))) && walk(nodes(x), x.items.nextID, 0, runes(word), len(runes(word))) != 0
  ensures [word X01] err == nil ==> text(nodes(x), unbox(n, "*internal/index.Node").id) == utf8(runes(word))
  ensures [stable X03] x.items.nextID >= old(x.items.nextID) && forall(k, 0, old(x.items.nextID), x.items.items[k] == old(x.items.items[k]))
  ensures [added X01 X03 X05] x.items.nextID == old(x.items.nextID) + ite(err == nil, old(missing(nodes(x), x.items.nextID, 0, runes(word), len(runes(word)))), 0)
  ensures [counted X05] old(wordsok(x)) ==> wordsok(x)
  ensures [bare X03 X05] forall(k, old(x.items.nextID), x.items.nextID, x.items.items[k].Variants == 0)
  ensures [free X13] !held(x.items.mu)
  ensures [inv X01 X03] ixok(x)

func internal/index.New() (x)
  props X01 X05 X13
  ensures [inv X01] x != nil && fresh(x) && ixok(x) && spareok(x)
  ensures [empty X01 X05] x.items.nextID == 1 && x.wordsCount == 0 && wordsok(x) && len(x.tagSets) == 0 && len(x.collectionIdx) == 0
  ensures [free X13] x.mu != nil && !held(x.mu) && !held(x.items.mu) && x.mu != x.items.mu

func (internal/index.Node).Item(n) (r)
  props X12 X03
  requires n.index != nil && n.index.items.nextID <= len(n.index.items.items)
  ensures [known X03 X12] n.id != 0 && n.id < n.index.items.nextID ==> r == n.index.items.items[n.id]
  ensures [unknown X12] n.id == 0 || n.id >= n.index.items.nextID ==> r.ID == 0 && r.Parent == 0 && r.Letter == 0 && r.Variants == 0

func (*internal/index.Index).WordsCount(x) (n)
  props X05
  requires x != nil
  ensures [value] n == x.wordsCount

func (*internal/index.Index).NodesCount(x) (n)
  props X05
  requires x != nil && x.items.nextID >= 1
  ensures [value] n == x.items.nextID - 1

// the collection with identifier v, the tag set with identifier t
def coll(x, v) = x.collectionIdx[v/65536-1][v%65536]
def tset(x, t) = x.tagSets[t/65536][t%65536]
def thas(x, t) = t/65536 < len(x.tagSets) && t%65536 < len(x.tagSets[t/65536])

func (*internal/index.Index).Variants(x, id) (c, err)
  props X12
  requires x != nil
  requires [inv] vinv(x.collectionIdx)
  ensures [unknown X12] err == nil <==> id == 0 || vhas(x.collectionIdx, id)
  ensures [known X12] err == nil && id != 0 ==> c == coll(x, id)
  ensures [zero X12] id == 0 || err != nil ==> len(c) == 0

func (*internal/index.Index).TagSet(x, ts) (res, err)
  props X12 X04
  requires x != nil
  ensures [unknown X12] err == nil <==> forall(k, 0, len(ts), ts[k] < len(x.tags))
  ensures [known X12 X04] err == nil ==> len(res) == len(ts) && forall(k, 0, len(ts), res[k] == x.tags[ts[k]])
  inv forall(k, 0, $i, ts[k] < len(x.tags)) && len($s) == len(ts) && forall(k, 0, $i, $s[k] == x.tags[ts[k]])

// what the nodes refer to is known
def refsok(x) = forall(k, 1, x.items.nextID, x.items.items[k].Variants == 0 || vhas(x.collectionIdx, x.items.items[k].Variants))
def collsok(x) = forall(a, 0, len(x.collectionIdx), forall(k, 0, len(x.collectionIdx[a]), forall(j, 0, len(x.collectionIdx[a][k]), thas(x, x.collectionIdx[a][k][j]))))
def setsok(x) = forall(a, 0, len(x.tagSets), forall(k, 0, len(x.tagSets[a]), forall(j, 0, len(x.tagSets[a][k]), x.tagSets[a][k][j] < len(x.tags))))
def tagged(x) = vinv(x.collectionIdx) && tsinv(x.tagSets) && refsok(x) && collsok(x) && setsok(x) && len(x.tags) <= 256

// the collection of node n, and what the i-th tag set of it reads as
def ncoll(n) = coll(n.index, n.index.items.items[n.id].Variants)
def bare(n) = n.id == 0 || n.id >= n.index.items.nextID || n.index.items.items[n.id].Variants == 0
func (*internal/index.Node).TagSets(n) (res)
  props X04 X12 X03
  requires n != nil && n.index != nil && n.index.items.nextID <= len(n.index.items.items)
  requires [known] refsok(n.index) && collsok(n.index) && setsok(n.index)
  ensures [none X12] bare(n) ==> len(res) == 0
  ensures [count X04] !bare(n) ==> len(res) == len(ncoll(n))
  ensures [tags X04 X03] !bare(n) ==> forall(i, 0, len(res), len(res[i]) == len(tset(n.index, ncoll(n)[i])) && forall(j, 0, len(res[i]), res[i][j] == n.index.tags[tset(n.index, ncoll(n)[i])[j]]))
  inv bare(n) || len($s{[]pkg/dag.TagSet}) == len(ncoll(n)) && forall(i, 0, $i{int}, len($s[i]) == len(tset(n.index, ncoll(n)[i])) && fresh($s[i]) && forall(j, 0, len($s[i]), $s[i][j] == n.index.tags[tset(n.index, ncoll(n)[i])[j]]))
  inv bare(n) || len($s{[]pkg/dag.TagSet}[$n{int}]) == len(tset(n.index, ncoll(n)[$n])) && forall(j, 0, $i{int}, $s[$n][j] == n.index.tags[tset(n.index, ncoll(n)[$n])[j]])
  inv bare(n) || fresh($t{pkg/dag.TagSet}) && len($t) == len(tset(n.index, ncoll(n)[$n{int}])) && forall(j, 0, $i{int}, $t[j] == n.index.tags[tset(n.index, ncoll(n)[$n])[j]])

// the identifier of the tag with a name among the first n
rec tagid(s:view<pkg/dag.Idx>, n:int, name:str) int = ite(n <= 0, 0-1, ite(s[n-1].Name == name, n-1, tagid(s, n-1, name)))

lemma tagid_is(s:view<pkg/dag.Idx>, n:int, name:str, k:int)
  by n
  hyp 0 <= k && k < n && s[k].Name == name
  hyp forall(a, 0, n, forall(b, 0, n, a == b || s[a].Name != s[b].Name))
  concl tagid(s, n, name) == k
  trigger tagid(s, n, name) ; s[k]

lemma tagid_no(s:view<pkg/dag.Idx>, n:int, name:str)
  by n
  hyp forall(k, 0, n, s[k].Name != name)
  concl tagid(s, n, name) == 0-1
  trigger tagid(s, n, name)

// the identifiers of tags by name, as a list (definition)
axiom tagids_def(s:view<pkg/dag.Idx>, n:int, w:view<[]pkg/dag.TagName>, m:int)
  concl m >= 0 ==> len(uf(tagids, seq, s, n, w, m)) == m && forall(k, 0, m, uf(tagids, seq, s, n, w, m)[k] == tagid(s, n, w[k]))
  trigger uf(tagids, seq, s, n, w, m)
def ids(x, names) = uf(tagids, seq, view(x.tags), len(x.tags), view(names), len(names))

def distinct(c) = forall(a, 0, len(c), forall(b, 0, len(c), a == b || c[a].Name != c[b].Name))

func (*internal/index.Node).AddTagSet(n, names) (err)
  props X04 X05 X12
  requires n != nil && n.index != nil && nodesok(n.index) && tagged(n.index) && distinct(n.index.tags)
  requires [room] len(names) <= 256 && len(n.index.tagSets) < 65536 && forall(a, 0, len(n.index.tagSets), len(n.index.tagSets[a]) < 65536)
  requires [room] len(n.index.collectionIdx) < 65535 && forall(a, 0, len(n.index.collectionIdx), len(n.index.collectionIdx[a]) < 65536)
  modifies n.index.tagSets, n.index.collectionIdx, n.index.wordsCount, family("internal/index.Item", ".Variants"), family("internal/index.TagSet"), family("internal/index.TagSetTable"), family("internal/index.TagSetIDCollection"), family("internal/index.VariantsTable"), family("internal/index.TagSetID")
  ensures [refused X04 X12] err == nil <==> len(names) == 0 || forall(k, 0, len(names), tagid(view(n.index.tags), len(n.index.tags), names[k]) >= 0) && n.id != 0 && n.id < n.index.items.nextID
  ensures [unchanged X04 X12 X05] err != nil || len(names) == 0 ==> n.index.tagSets == old(n.index.tagSets) && n.index.collectionIdx == old(n.index.collectionIdx) && n.index.wordsCount == old(n.index.wordsCount) && forall(k, 0, n.index.items.nextID, n.index.items.items[k] == old(n.index.items.items[k]))
  ensures [others X04 X03 X05] forall(k, 0, len(n.index.items.items), k != n.id ==> n.index.items.items[k] == old(n.index.items.items[k]))
  ensures [own X04 X03] forall(k, 0, len(n.index.items.items), n.index.items.items[k].ID == old(n.index.items.items[k].ID) && n.index.items.items[k].Parent == old(n.index.items.items[k].Parent) && n.index.items.items[k].Letter == old(n.index.items.items[k].Letter))
  ensures [sets X04] forall(a, 0, old(len(n.index.tagSets)), forall(k, 0, old(len(n.index.tagSets[a])), seq(n.index.tagSets[a][k]) == old(seq(n.index.tagSets[a][k]))))
  ensures [colls X04] forall(a, 0, old(len(n.index.collectionIdx)), forall(k, 0, old(len(n.index.collectionIdx[a])), seq(n.index.collectionIdx[a][k]) == old(seq(n.index.collectionIdx[a][k]))))
  ensures [count X05] err == nil && len(names) > 0 ==> n.index.items.items[n.id].Variants != 0 && n.index.wordsCount == old(n.index.wordsCount) + old(ite(n.index.items.items[n.id].Variants == 0, 1, 0))
  ensures [first X04] err == nil && len(names) > 0 && old(n.index.items.items[n.id].Variants == 0) ==> exists(t, 0, 65536*65536, tsid(t) == t && thas(n.index, t) && seq(tset(n.index, t)) == sortv(ids(n.index, names)) && len(ncoll(n)) == 1 && ncoll(n)[0] == t)
  ensures [more X04] err == nil && len(names) > 0 && !old(n.index.items.items[n.id].Variants == 0) ==> exists(t, 0, 65536*65536, tsid(t) == t && thas(n.index, t) && seq(tset(n.index, t)) == sortv(ids(n.index, names)) && (old(exists(j, 0, len(ncoll(n)), ncoll(n)[j] == t)) && seq(ncoll(n)) == old(seq(ncoll(n))) || old(forall(j, 0, len(ncoll(n)), ncoll(n)[j] != t)) && seq(ncoll(n)) == sortv(snoc(old(seq(ncoll(n))), t))))
  ensures [counted X05] old(wordsok(n.index)) ==> wordsok(n.index)
  ensures [again X04 X05] err == nil && len(names) > 0 && old(n.index.items.items[n.id].Variants != 0 && exists(j, 0, len(ncoll(n)), seq(tset(n.index, ncoll(n)[j])) == sortv(ids(n.index, names)))) ==> seq(ncoll(n)) == old(seq(ncoll(n)))
  ensures [vhas X04] err == nil && len(names) > 0 ==> vhas(n.index.collectionIdx, n.index.items.items[n.id].Variants)
  ensures [refs X04 X12] refsok(n.index)
  step [grown X04 X12] forall(a, 0, old(len(n.index.tagSets)), len(n.index.tagSets[a]) >= old(len(n.index.tagSets[a]))) && len(n.index.tagSets) >= old(len(n.index.tagSets))
  step [newcoll X04 X12] err == nil && len(names) > 0 ==> forall(j, 0, len(ncoll(n)), thas(n.index, ncoll(n)[j]))
  ensures [colls X04 X12] collsok(n.index)
  ensures [sets X04 X12] setsok(n.index)
  ensures [inv X04 X12] vinv(n.index.collectionIdx) && tsinv(n.index.tagSets)
  inv len($s{internal/index.TagSet}) == len(names) && fresh($s) && forall(k, 0, $i{int}, $s[k] == tagid(view(n.index.tags), len(n.index.tags), names[k]) && $s[k] < len(n.index.tags))
  inv len($s{internal/index.TagSet}) == $i{int} && $i <= len(names) && fresh($s) && forall(k, 0, len($s), $s[k] == tagid(view(n.index.tags), len(n.index.tags), names[k]) && $s[k] < len(n.index.tags))

func (*internal/index.Index).rebuildChildrenIndex(x)
  props X05 X09 X02
  requires x != nil && x.items.nextID == len(x.items.items) && 0 < x.items.nextID
  modifies x.childrenMap, x.wordsCount
  ensures [maps X09 X02] mapsok(x)
  ensures [linked X09 X02] sib(nodes(x), x.items.nextID) ==> linked(x)
  ensures [words X09 X05] wordsok(x)
  inv mapsok(x) && fresh(x.childrenMap)
  inv forall(p, 0, 65536*65536, has(x.childrenMap, p) ==> fresh(x.childrenMap[p]))
  inv forall(p, 0, 65536*65536, forall(r, 0-32768*65536, 32768*65536, has(x.childrenMap, p) && has(x.childrenMap[p], r) ==> 1 <= x.childrenMap[p][r] && x.childrenMap[p][r] < $i{int} && x.items.items[x.childrenMap[p][r]].Parent == p && x.items.items[x.childrenMap[p][r]].Letter == r))
  inv sib(nodes(x), x.items.nextID) ==> forall(k, 1, $i{int}, has(x.childrenMap, x.items.items[k].Parent) && has(x.childrenMap[x.items.items[k].Parent], x.items.items[k].Letter) && x.childrenMap[x.items.items[k].Parent][x.items.items[k].Letter] == k)
  inv x.wordsCount == counted(nodes(x), $i{int})
  inv $j{int} == counted(nodes(x), $i{int})

func (*internal/index.Index).TagID(x, name, parent) (id)
  props X04 X12
  requires x != nil && len(x.tags) <= 256 && distinct(x.tags)
  maypanic
  modifies x.tags, tail(x.tags)
  ensures [stored] id < len(x.tags) && x.tags[id].Name == name
  ensures [stable] len(x.tags) >= old(len(x.tags)) && forall(k, 0, old(len(x.tags)), x.tags[k] == old(x.tags[k]))
  ensures [known] old(tagid(view(x.tags), len(x.tags), name)) >= 0 ==> x.tags == old(x.tags) && id == old(tagid(view(x.tags), len(x.tags), name))
  ensures [inv] distinct(x.tags) && len(x.tags) <= 256

func (*internal/index.Index).GetChildrenMap(x, id) (m)
  props X03 X12
  requires x != nil
  ensures [exact] forall(r, 0-32768*65536, 32768*65536, has(m, r) <==> has(x.childrenMap, id) && has(x.childrenMap[id], r))
  ensures [node] forall(r, 0-32768*65536, 32768*65536, has(m, r) ==> isnode(m[r], x, x.childrenMap[id][r]))
  inv fresh($m{pkg/dag.NodeMap}) && $m != nil
  inv forall(r, 0-32768*65536, 32768*65536, has($m{pkg/dag.NodeMap}, r) <==> seen($r, r))
  inv forall(r, 0-32768*65536, 32768*65536, seen($r, r) ==> has(x.childrenMap, id) && has(x.childrenMap[id], r) && isnode($m{pkg/dag.NodeMap}[r], x, x.childrenMap[id][r]))

func (*internal/index.Index).Children(x) (m)
  props X03
  requires x != nil
  ensures [exact] forall(r, 0-32768*65536, 32768*65536, has(m, r) <==> has(x.childrenMap, 0) && has(x.childrenMap[0], r))

func (*internal/index.Index).rootNode(x, letter) (n)
  props X13 X02
  requires x != nil && x.mu != nil && !held(x.mu)
  modifies mutex(x.mu)
  ensures [free X13] !held(x.mu)
  ensures [none X02] !(has(x.childrenMap, 0) && has(x.childrenMap[0], letter)) ==> n == nil
  ensures [node X02] has(x.childrenMap, 0) && has(x.childrenMap[0], letter) ==> isnode(n, x, x.childrenMap[0][letter])

func (*internal/index.Node).String(n) (s)
  props X12
  requires n != nil && n.index != nil && nodesok(n.index)
  ensures [done] len(s) >= 0
