// ---- dictionary helpers (pkg/opencorpora) ----

func (pkg/opencorpora.Attr).GetString(attributesList, name) (val, err)
  props P01
  ensures [found] err == nil ==> exists(k, 0, len(attributesList), attributesList[k].Name.Local == name && val == attributesList[k].Value && forall(j, 0, k, attributesList[j].Name.Local != name))
  ensures [missing] err != nil <==> forall(k, 0, len(attributesList), attributesList[k].Name.Local != name)
  inv forall(k, 0, $i{int}, attributesList[k].Name.Local != name)

func pkg/opencorpora.getAttr(name, attributesList) (val, err)
  props P01
  ensures [found] err == nil ==> exists(k, 0, len(attributesList), attributesList[k].Name.Local == name && val == attributesList[k].Value && forall(j, 0, k, attributesList[j].Name.Local != name))
  ensures [missing] err != nil <==> forall(k, 0, len(attributesList), attributesList[k].Name.Local != name)
  inv forall(k, 0, $i{int}, attributesList[k].Name.Local != name)

func (pkg/opencorpora.Attr).GetInt(attributesList, name) (val, err)
  props P01
  ensures [found] err == nil ==> exists(k, 0, len(attributesList), attributesList[k].Name.Local == name && isint(attributesList[k].Value) && val == atoi(attributesList[k].Value) && forall(j, 0, k, attributesList[j].Name.Local != name))
  ensures [refused] err == nil <==> exists(k, 0, len(attributesList), attributesList[k].Name.Local == name && isint(attributesList[k].Value) && forall(j, 0, k, attributesList[j].Name.Local != name))

func pkg/opencorpora.getIntAttr(name, attributesList) (val, err)
  props P01
  ensures [found] err == nil ==> exists(k, 0, len(attributesList), attributesList[k].Name.Local == name && isint(attributesList[k].Value) && val == atoi(attributesList[k].Value) && forall(j, 0, k, attributesList[j].Name.Local != name))
  ensures [refused] err == nil <==> exists(k, 0, len(attributesList), attributesList[k].Name.Local == name && isint(attributesList[k].Value) && forall(j, 0, k, attributesList[j].Name.Local != name))

func (pkg/opencorpora.WordForm).GetTagsFromSet(x) (res)
  props P01
  requires forall(k, 0, len(x.G), x.G[k] != nil)
  ensures [tags] len(res) == len(x.G) && forall(k, 0, len(x.G), res[k] == x.G[k].VAttr)
  inv len($s{[]pkg/dag.TagName}) == $i{int}
  inv forall(k, 0, $i{int}, $s{[]pkg/dag.TagName}[k] == x.G[k].VAttr)

func (pkg/opencorpora.CategoryList).GrammemeNames(c) (res)
  props P01
  requires forall(k, 0, len(c), c[k] != nil)
  ensures [tags] len(res) == len(c) && forall(k, 0, len(c), res[k] == c[k].VAttr)
  inv len($s{[]pkg/dag.TagName}) == $i{int}
  inv forall(k, 0, $i{int}, $s{[]pkg/dag.TagName}[k] == c[k].VAttr)

// how many of the first n lemmas have the base form w
rec nform(s:view<[]pkg/opencorpora.Lemma>, r:seq, n:int, w:str) int = ite(n <= 0, 0, nform(s, r, n-1, w) + ite(r[n-1] != 0 && s[n-1].L.Form == w, 1, 0))

lemma nform_pos(s:view<[]pkg/opencorpora.Lemma>, r:seq, n:int, w:str)
  by n
  concl nform(s, r, n, w) >= 0 && (n >= 0 ==> nform(s, r, n, w) <= n)
  trigger nform(s, r, n, w)
  mention nform(s, r, n-1, w)

def searched(l, w, res) = len(res) == nform(old(pview(l)), view(l), len(l), w) && forall(k, 0, len(l), l[k] != nil && l[k].L.Form == w ==> nform(old(pview(l)), view(l), k, w) < len(res) && res[nform(old(pview(l)), view(l), k, w)] == old(*l[k]))

func (pkg/opencorpora.LemmaList).Search(l, word) (res)
  props P02
  ensures [exact] searched(l, word, res)
  inv len($s{[]pkg/opencorpora.Lemma}) == nform(old(pview(l)), view(l), $i{int}, word)
  inv forall(k, 0, $i{int}, l[k] != nil && l[k].L.Form == word ==> nform(old(pview(l)), view(l), k, word) < len($s{[]pkg/opencorpora.Lemma}) && $s[nform(old(pview(l)), view(l), k, word)] == old(*l[k]))

func (pkg/opencorpora.Lemmata).Search(x, word) (res)
  props P02
  ensures [exact] searched(x.Items, word, res)
