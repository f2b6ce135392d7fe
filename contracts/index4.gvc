// ---- the whole index file (internal/index) ----

func (*internal/index.Index).writeTagsDefinitions(x, w) (err)
  props X09 X10
  requires x != nil && w != nil
  modifies out(w)
  ensures [layout X09 X10] err == nil ==> old(out(w)) == strz("TD", cons(len(x.tags), enctags(view(x.tags), len(x.tags), out(w))))
  ensures [accepts X09] ideal(w) && len(x.tags) <= 255 && forall(k, 0, len(x.tags), wireable(x.tags[k].Parent) && wireable(x.tags[k].Name)) ==> err == nil
  ensures [wireable X09] err == nil ==> len(x.tags) <= 255 && forall(k, 0, len(x.tags), wireable(x.tags[k].Parent) && wireable(x.tags[k].Name))

func (*internal/index.Index).writeTagSetsDefinitions(x, w) (err)
  props X09 X10
  requires x != nil && w != nil
  modifies out(w)
  ensures [layout X09 X10] err == nil && len(x.tagSets) < 65536*65536 ==> old(out(w)) == strz("TI", tagindexbytes(x.tagSets, out(w)))
  ensures [fits X09] err == nil ==> forall(i, 0, len(x.tagSets), len(x.tagSets[i]) <= 65535 && forall(k, 0, len(x.tagSets[i]), len(x.tagSets[i][k]) <= 255))
  ensures [accepts X09] ideal(w) && forall(i, 0, len(x.tagSets), len(x.tagSets[i]) <= 65535 && forall(k, 0, len(x.tagSets[i]), len(x.tagSets[i][k]) <= 255)) ==> err == nil

func (*internal/index.Index).writeCollectionsDefinitions(x, w) (err)
  props X09 X10
  requires x != nil && w != nil
  modifies out(w)
  ensures [layout X09 X10] err == nil && forall(i, 0, len(x.collectionIdx), len(x.collectionIdx[i]) < 65536*65536) ==> old(out(w)) == strz("CD", collindexbytes(x.collectionIdx, out(w)))
  ensures [fits X09] err == nil ==> len(x.collectionIdx) <= 255 && forall(i, 0, len(x.collectionIdx), forall(k, 0, len(x.collectionIdx[i]), len(x.collectionIdx[i][k]) <= 255))
  ensures [accepts X09] ideal(w) && len(x.collectionIdx) <= 255 && forall(i, 0, len(x.collectionIdx), forall(k, 0, len(x.collectionIdx[i]), len(x.collectionIdx[i][k]) <= 255)) ==> err == nil

func (*internal/index.Index).writeItemsDefinitions(x, w) (err)
  props X09 X10
  requires x != nil && w != nil && x.items.nextID <= len(x.items.items)
  modifies out(w)
  ensures [layout X09 X10] err == nil ==> old(out(w)) == strz("ID", put32(x.items.nextID, encitems(view(x.items.items), x.items.nextID, out(w))))
  ensures [accepts X09] ideal(w) ==> err == nil

func (*internal/index.Index).BinaryWriteTo(x, w) (err)
  props X09 X10 X13
  requires x != nil && w != nil && x.items.nextID <= len(x.items.items)
  requires [free X13] x.mu != nil && !held(x.mu)
  modifies out(w), mutex(x.mu)
  ensures [layout X09 X10] err == nil && len(x.tagSets) < 65536*65536 && forall(i, 0, len(x.collectionIdx), len(x.collectionIdx[i]) < 65536*65536) ==> old(out(w)) == strz("TD", cons(len(x.tags), enctags(view(x.tags), len(x.tags), strz("TI", tagindexbytes(x.tagSets, strz("CD", collindexbytes(x.collectionIdx, strz("ID", put32(x.items.nextID, encitems(view(x.items.items), x.items.nextID, out(w)))))))))))
  ensures [accepts X09] ideal(w) && len(x.tags) <= 255 && forall(k, 0, len(x.tags), wireable(x.tags[k].Parent) && wireable(x.tags[k].Name)) && forall(i, 0, len(x.tagSets), len(x.tagSets[i]) <= 65535 && forall(k, 0, len(x.tagSets[i]), len(x.tagSets[i][k]) <= 255)) && len(x.collectionIdx) <= 255 && forall(i, 0, len(x.collectionIdx), forall(k, 0, len(x.collectionIdx[i]), len(x.collectionIdx[i][k]) <= 255)) ==> err == nil
  ensures [free X13] !held(x.mu)

// what the sections of a file b hold: each starts with its marker
def sec1(b) = ztail(b)
def sec2(b) = ztail(aftertags(btl(sec1(b)), bhd(sec1(b))))
def sec3(b) = ztail(aftertagindex(sec2(b)))
def sec4(b) = ztail(aftercollindex(sec3(b)))
def marked(b, m) = zhead(b) == m && b == strz(m, ztail(b))
def tagsat(s, b) = len(s) == bhd(b) && !isnil(b) && forall(k, 0, len(s), tagat(s[k].Parent, aftertags(btl(b), k)) && tagat(s[k].Name, drop4(aftertags(btl(b), k))))
def tagindexat(s, b) = has4(b) && len(s) == be4(b) && forall(i, 0, len(s), len(s[i]) == be2(aftertagtables(drop4(b), i))) && forall(i, 0, len(s), forall(k, 0, len(s[i]), len(s[i][k]) == bhd(aftertagsets(drop2(aftertagtables(drop4(b), i)), k)))) && forall(i, 0, len(s), forall(k, 0, len(s[i]), forall(q, 0, len(s[i][k]), s[i][k][q] == bhd(drop(btl(aftertagsets(drop2(aftertagtables(drop4(b), i)), k)), q)))))
def collindexat(s, b) = !isnil(b) && len(s) == bhd(b) && forall(i, 0, len(s), len(s[i]) == be4(aftercolltables(btl(b), i))) && forall(i, 0, len(s), forall(k, 0, len(s[i]), len(s[i][k]) == bhd(aftercolls(drop4(aftercolltables(btl(b), i)), k)))) && forall(i, 0, len(s), forall(k, 0, len(s[i]), forall(q, 0, len(s[i][k]), s[i][k][q] == be4(after32(btl(aftercolls(drop4(aftercolltables(btl(b), i)), k)), q)))))
// enough bytes for each of them
def tagsfull(b) = !isnil(b) && avail(btl(b), 8*bhd(b))
def tagindexfull(b) = has4(b) && forall(i, 0, be4(b), has2(aftertagtables(drop4(b), i)) && forall(k, 0, be2(aftertagtables(drop4(b), i)), tagsetok(aftertagsets(drop2(aftertagtables(drop4(b), i)), k))))
def collindexfull(b) = !isnil(b) && forall(i, 0, bhd(b), has4(aftercolltables(btl(b), i)) && forall(k, 0, be4(aftercolltables(btl(b), i)), collok(aftercolls(drop4(aftercolltables(btl(b), i)), k))))
def itemsfull(b) = has4(b) && be4(b) > 0 && forall(k, 0, be4(b), itemok(afteritems(drop4(b), k)))
def startsas(b, m) = zok(b) && zhead(b) == m && b == strz(m, ztail(b))
def itemsat(s, b) = has4(b) && len(s) == be4(b) && len(s) >= 1 && forall(k, 0, len(s), itemat(s[k], afteritems(drop4(b), k)))

func (*internal/index.Index).readTagsDefinitions(x, r) (err)
  props X09 X10
  requires x != nil && r != nil
  requires [delivering] full(r)
  modifies x.tags, in(r)
  ensures [marker X10] err == nil ==> marked(old(in(r)), "TD")
  ensures [tags X09 X10] err == nil ==> tagsat(x.tags, old(sec1(in(r))))
  ensures [taken X10] err == nil ==> in(r) == old(aftertags(btl(sec1(in(r))), bhd(sec1(in(r)))))
  ensures [complete X09] ideal(r) && old(startsas(in(r), "TD") && tagsfull(ztail(in(r)))) ==> err == nil

func (*internal/index.Index).readTagSetsDefinitions(x, r) (err)
  props X09 X10
  requires x != nil && r != nil
  requires [delivering] full(r)
  modifies x.tagSets, in(r)
  ensures [marker X10] err == nil ==> marked(old(in(r)), "TI")
  ensures [sets X09 X10] err == nil ==> tagindexat(x.tagSets, old(ztail(in(r))))
  ensures [taken X10] err == nil ==> in(r) == old(aftertagindex(ztail(in(r))))
  ensures [complete X09] ideal(r) && old(startsas(in(r), "TI") && tagindexfull(ztail(in(r)))) ==> err == nil

func (*internal/index.Index).readCollectionsDefinitions(x, r) (err)
  props X09 X10
  requires x != nil && r != nil
  requires [delivering] full(r)
  modifies x.collectionIdx, in(r)
  ensures [marker X10] err == nil ==> marked(old(in(r)), "CD")
  ensures [colls X09 X10] err == nil ==> collindexat(x.collectionIdx, old(ztail(in(r))))
  ensures [taken X10] err == nil ==> in(r) == old(aftercollindex(ztail(in(r))))
  ensures [complete X09] ideal(r) && old(startsas(in(r), "CD") && collindexfull(ztail(in(r)))) ==> err == nil

func (*internal/index.Index).readItemsDefinitions(x, r) (err)
  props X09 X10
  requires x != nil && r != nil
  requires [delivering] full(r)
  modifies x.items.items, x.items.nextID, in(r)
  ensures [marker X10] err == nil ==> marked(old(in(r)), "ID")
  ensures [items X09 X10] err == nil ==> itemsat(x.items.items, old(ztail(in(r)))) && x.items.nextID == len(x.items.items)
  ensures [taken X10] err == nil ==> in(r) == afteritems(old(drop4(ztail(in(r)))), old(be4(ztail(in(r)))))
  ensures [complete X09] ideal(r) && old(startsas(in(r), "ID") && itemsfull(ztail(in(r)))) ==> err == nil

func (*internal/index.Index).BinaryReadFrom(x, r) (err)
  props X09 X10 X13 X02
  requires x != nil && r != nil
  requires [free X13] x.mu != nil && !held(x.mu)
  modifies x.tags, x.tagSets, x.collectionIdx, x.items.items, x.items.nextID, x.childrenMap, x.wordsCount, in(r), mutex(x.mu)
  ensures [tags X09 X10] err == nil ==> marked(old(in(r)), "TD") && tagsat(x.tags, old(sec1(in(r))))
  ensures [sets X09 X10] err == nil ==> old(marked(aftertags(btl(sec1(in(r))), bhd(sec1(in(r)))), "TI")) && tagindexat(x.tagSets, old(sec2(in(r))))
  ensures [colls X09 X10] err == nil ==> old(marked(aftertagindex(sec2(in(r))), "CD")) && collindexat(x.collectionIdx, old(sec3(in(r))))
  ensures [items X09 X10] err == nil ==> old(marked(aftercollindex(sec3(in(r))), "ID")) && itemsat(x.items.items, old(sec4(in(r)))) && x.items.nextID == len(x.items.items)
  ensures [taken X10] err == nil ==> in(r) == old(afteritems(drop4(sec4(in(r))), be4(sec4(in(r)))))
  ensures [maps X09] err == nil ==> mapsok(x)
  ensures [linked X09 X02] err == nil && sib(nodes(x), x.items.nextID) ==> linked(x)
  ensures [words X09] err == nil ==> wordsok(x)
  ensures [free X13] !held(x.mu)
  ensures [complete X09] ideal(r) && old(startsas(in(r), "TD") && tagsfull(sec1(in(r))) && startsas(aftertags(btl(sec1(in(r))), bhd(sec1(in(r)))), "TI") && tagindexfull(sec2(in(r))) && startsas(aftertagindex(sec2(in(r))), "CD") && collindexfull(sec3(in(r))) && startsas(aftercollindex(sec3(in(r))), "ID") && itemsfull(sec4(in(r)))) ==> err == nil

// ---- an index written and read back ----
def file(tags, nt, ts, ns, cs, nc, its, ni, t) = strz("TD", cons(nt, enctags(tags, nt, strz("TI", put32(ns, enctagtables(ts, ns, strz("CD", cons(nc, enccolltables(cs, nc, strz("ID", put32(ni, encitems(its, ni, t))))))))))))

lemma [X09] file_tags(tags:view<pkg/dag.Idx>, nt:int, t:bytes)
  hyp 0 <= nt
  concl aftertags(enctags(tags, nt, t), nt) == t
  mention enctags(tags, nt, t) ; aftertags(fromtags(tags, 0, nt, t), nt) ; fromtags(tags, nt, nt, t) ; enctags(tags, 0, fromtags(tags, 0, nt, t))
  trigger aftertags(enctags(tags, nt, t), nt)

lemma [X09] file_tagsfull(tags:view<pkg/dag.Idx>, nt:int, t:bytes)
  hyp 0 <= nt
  concl tagsfull(cons(nt, enctags(tags, nt, t)))
  mention avail(fromtags(tags, 0, nt, t), 8*nt) ; enctags(tags, 0, fromtags(tags, 0, nt, t))

lemma [X09] file_sec1(nt:int, body:bytes)
  concl sec1(strz("TD", cons(nt, body))) == cons(nt, body) && startsas(strz("TD", cons(nt, body)), "TD")

def filets(ts, ns, cs, nc, its, ni, t) = strz("TI", put32(ns, enctagtables(ts, ns, filecs(cs, nc, its, ni, t))))
def filecs(cs, nc, its, ni, t) = strz("CD", cons(nc, enccolltables(cs, nc, fileits(its, ni, t))))
def fileits(its, ni, t) = strz("ID", put32(ni, encitems(its, ni, t)))

lemma file_sec2(tags:view<pkg/dag.Idx>, nt:int, ns:int, body:bytes)
  hyp 0 <= nt
  concl sec2(strz("TD", cons(nt, enctags(tags, nt, strz("TI", put32(ns, body)))))) == put32(ns, body) && startsas(aftertags(enctags(tags, nt, strz("TI", put32(ns, body))), nt), "TI")
  mention aftertags(enctags(tags, nt, strz("TI", put32(ns, body))), nt)

lemma file_sec3(ts:view<internal/index.TagSetIndex>, ns:int, nc:int, body:bytes)
  hyp 0 <= ns && ns < 65536*65536 && forall(j, 0, ns, 0 <= len(ts[j]) && len(ts[j]) <= 65535)
  concl aftertagindex(put32(ns, enctagtables(ts, ns, strz("CD", cons(nc, body))))) == strz("CD", cons(nc, body)) && startsas(strz("CD", cons(nc, body)), "CD")
  mention aftertagtables(enctagtables(ts, ns, strz("CD", cons(nc, body))), ns)

lemma file_sec4(cs:view<internal/index.VariantsIndex>, nc:int, ni:int, body:bytes)
  hyp 0 <= nc && forall(k, 0, nc, 0 <= len(cs[k]) && len(cs[k]) < 65536*65536 && forall(j, 0, len(cs[k]), 0 <= len(cs[k][j])))
  concl aftercollindex(cons(nc, enccolltables(cs, nc, strz("ID", put32(ni, body))))) == strz("ID", put32(ni, body)) && startsas(strz("ID", put32(ni, body)), "ID")
  mention aftercolltables(enccolltables(cs, nc, strz("ID", put32(ni, body))), nc)

// the sections of a written file are the written parts
lemma [X09] file_sections(tags:view<pkg/dag.Idx>, nt:int, ts:view<internal/index.TagSetIndex>, ns:int, cs:view<internal/index.VariantsIndex>, nc:int, its:view<[]internal/index.Item>, ni:int, t:bytes)
  hyp 0 <= nt && 0 <= ns && ns < 65536*65536 && forall(j, 0, ns, 0 <= len(ts[j]) && len(ts[j]) <= 65535) && 0 <= ni && ni < 65536*65536
  hyp 0 <= nc && forall(k, 0, nc, 0 <= len(cs[k]) && len(cs[k]) < 65536*65536 && forall(j, 0, len(cs[k]), 0 <= len(cs[k][j])))
  concl sec1(file(tags, nt, ts, ns, cs, nc, its, ni, t)) == cons(nt, enctags(tags, nt, filets(ts, ns, cs, nc, its, ni, t)))
  concl sec2(file(tags, nt, ts, ns, cs, nc, its, ni, t)) == put32(ns, enctagtables(ts, ns, filecs(cs, nc, its, ni, t)))
  concl sec3(file(tags, nt, ts, ns, cs, nc, its, ni, t)) == cons(nc, enccolltables(cs, nc, fileits(its, ni, t)))
  concl sec4(file(tags, nt, ts, ns, cs, nc, its, ni, t)) == put32(ni, encitems(its, ni, t))
  concl be4(put32(ni, encitems(its, ni, t))) == ni && afteritems(drop4(put32(ni, encitems(its, ni, t))), ni) == t
  mention aftertags(enctags(tags, nt, filets(ts, ns, cs, nc, its, ni, t)), nt) ; aftertagtables(enctagtables(ts, ns, filecs(cs, nc, its, ni, t)), ns) ; aftercolltables(enccolltables(cs, nc, fileits(its, ni, t)), nc) ; afteritems(encitems(its, ni, t), ni) ; aftertagindex(put32(ns, enctagtables(ts, ns, filecs(cs, nc, its, ni, t)))) ; aftercollindex(cons(nc, enccolltables(cs, nc, fileits(its, ni, t))))

// enough bytes for every part
lemma full_tagtable(s:view<internal/index.TagSetTable>, n:int, t:bytes, k:int)
  hyp 0 <= n && 0 <= k && k < n && 0 <= len(s[k])
  concl tagsetok(aftertagsets(enctagsets(s, n, t), k))
  trigger aftertagsets(enctagsets(s, n, t), k)
  mention enctagsets(s, 0, fromtagsets(s, 0, n, t)) ; aftertagsets(fromtagsets(s, 0, n, t), k) ; fromtagsets(s, k, n, t)

lemma [X09] full_tagsets(ts:view<internal/index.TagSetIndex>, ns:int, t:bytes)
  hyp 0 <= ns && ns < 65536*65536 && forall(j, 0, ns, 0 <= len(ts[j]) && len(ts[j]) <= 65535 && forall(k, 0, len(ts[j]), 0 <= len(ts[j][k])))
  concl tagindexfull(put32(ns, enctagtables(ts, ns, t)))

lemma [X09] full_colls(cs:view<internal/index.VariantsIndex>, nc:int, t:bytes)
  hyp 0 <= nc && forall(k, 0, nc, 0 <= len(cs[k]) && len(cs[k]) < 65536*65536 && forall(j, 0, len(cs[k]), 0 <= len(cs[k][j])))
  concl collindexfull(cons(nc, enccolltables(cs, nc, t)))

lemma [X09] full_items(its:view<[]internal/index.Item>, ni:int, t:bytes)
  hyp 0 < ni && ni < 65536*65536
  concl itemsfull(put32(ni, encitems(its, ni, t)))

// what is read is what was written
lemma [X09] loaded_items(its:view<[]internal/index.Item>, ni:int, t:bytes, g:view<[]internal/index.Item>, k:int)
  hyp 0 <= k && k < ni && ni < 65536*65536 && 0 <= its[k].Parent && its[k].Parent < 65536*65536 && 0 <= its[k].ID && its[k].ID < 65536*65536
  hyp 0-32768*65536 <= its[k].Letter && its[k].Letter < 32768*65536 && 0 <= its[k].Variants && its[k].Variants < 65536*65536
  hyp itemsat(g, put32(ni, encitems(its, ni, t)))
  concl len(g) == ni && g[k].Parent == its[k].Parent && g[k].ID == its[k].ID && g[k].Letter == its[k].Letter && g[k].Variants == its[k].Variants
  mention afteritems(encitems(its, ni, t), k)

lemma [X09] loaded_sets(ts:view<internal/index.TagSetIndex>, ns:int, t:bytes, g:view<internal/index.TagSetIndex>, i:int, k:int, q:int)
  hyp 0 <= ns && ns < 65536*65536 && forall(j, 0, ns, 0 <= len(ts[j]) && len(ts[j]) <= 65535)
  hyp tagindexat(g, put32(ns, enctagtables(ts, ns, t)))
  concl len(g) == ns && (0 <= i && i < ns ==> len(g[i]) == len(ts[i]))
  concl 0 <= i && i < ns && 0 <= k && k < len(ts[i]) && 0 <= len(ts[i][k]) ==> len(g[i][k]) == len(ts[i][k])
  concl 0 <= i && i < ns && 0 <= k && k < len(ts[i]) && 0 <= q && q < len(ts[i][k]) ==> g[i][k][q] == ts[i][k][q]
  mention aftertagtables(enctagtables(ts, ns, t), i) ; enctagsets(view(ts[i]), len(ts[i]), fromtagtables(ts, i+1, ns, t)) ; view(ts[i])[k][q] ; g[i][k][q] ; ts[i][k][q]

lemma [X09] loaded_coll_tables(cs:view<internal/index.VariantsIndex>, nc:int, t:bytes, g:view<internal/index.VariantsIndex>, i:int)
  hyp 0 <= nc && forall(j, 0, nc, 0 <= len(cs[j]) && len(cs[j]) < 65536*65536 && forall(l, 0, len(cs[j]), 0 <= len(cs[j][l])))
  hyp collindexat(g, cons(nc, enccolltables(cs, nc, t)))
  concl len(g) == nc && (0 <= i && i < nc ==> len(g[i]) == len(cs[i]))
  mention aftercolltables(enccolltables(cs, nc, t), i)

lemma [X09] loaded_coll_sizes(cs:view<internal/index.VariantsIndex>, nc:int, t:bytes, g:view<internal/index.VariantsIndex>, i:int, k:int)
  hyp 0 <= nc && forall(j, 0, nc, 0 <= len(cs[j]) && len(cs[j]) < 65536*65536 && forall(l, 0, len(cs[j]), 0 <= len(cs[j][l])))
  hyp collindexat(g, cons(nc, enccolltables(cs, nc, t))) && 0 <= i && i < nc && 0 <= k && k < len(cs[i])
  concl len(g[i]) == len(cs[i]) && len(g[i][k]) == len(cs[i][k])
  mention aftercolltables(enccolltables(cs, nc, t), i) ; aftercolls(enccolls(view(cs[i]), len(cs[i]), fromcolltables(cs, i+1, nc, t)), k)

lemma [X09] loaded_colls(cs:view<internal/index.VariantsIndex>, nc:int, t:bytes, g:view<internal/index.VariantsIndex>, i:int, k:int, q:int)
  hyp 0 <= nc && forall(j, 0, nc, 0 <= len(cs[j]) && len(cs[j]) < 65536*65536 && forall(l, 0, len(cs[j]), 0 <= len(cs[j][l])))
  hyp collindexat(g, cons(nc, enccolltables(cs, nc, t))) && len(g[i]) == len(cs[i]) && len(g[i][k]) == len(cs[i][k])
  hyp 0 <= i && i < nc && 0 <= k && k < len(cs[i]) && 0 <= q && q < len(cs[i][k]) && 0 <= cs[i][k][q] && cs[i][k][q] < 65536*65536
  concl g[i][k][q] == cs[i][k][q]
  mention aftercolltables(enccolltables(cs, nc, t), i) ; aftercolls(enccolls(view(cs[i]), len(cs[i]), fromcolltables(cs, i+1, nc, t)), k) ; view(cs[i])[k][q] ; after32(enc32(seq(cs[i][k]), len(cs[i][k]), fromcolls(view(cs[i]), k+1, len(cs[i]), fromcolltables(cs, i+1, nc, t))), q) ; g[i][k][q] ; cs[i][k][q]

// the same nodes give the same lookups, words and counts
lemma [X09] loaded_lookup(s:view<[]internal/index.Item>, g:view<[]internal/index.Item>, n:int, p:int, w:seq, i:int)
  hyp sib(s, n) && forall(k, 1, n, s[k].Parent == g[k].Parent && s[k].Letter == g[k].Letter && s[k].Variants == g[k].Variants)
  concl sib(g, n) && walk(g, n, p, w, i) == walk(s, n, p, w, i)
  mention walk(g, n, p, w, i) ; walk(s, n, p, w, i)

lemma [X09] loaded_count(s:view<[]internal/index.Item>, g:view<[]internal/index.Item>, n:int)
  hyp 1 <= n && forall(k, 1, n, s[k].Parent == g[k].Parent && s[k].Letter == g[k].Letter && s[k].Variants == g[k].Variants)
  concl counted(g, n) == counted(s, n)
  mention counted(g, n) ; counted(s, n)

lemma [X09] loaded_text(s:view<[]internal/index.Item>, g:view<[]internal/index.Item>, k:int)
  by k
  hyp 0 <= k && forall(j, 1, k+1, s[j].Parent == g[j].Parent && s[j].Letter == g[j].Letter)
  concl text(g, k) == text(s, k)
  trigger text(g, k) ; text(s, k)
  mention text(g, g[k].Parent) ; text(s, s[k].Parent)
