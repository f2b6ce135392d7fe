// ---- wire formats of the index sections (internal/index) ----

rec drop(b:bytes, i:int) bytes = ite(i <= 0, b, btl(drop(b, i-1)))
def be2(b) = bhd(b)*256 + bhd(btl(b))
def be4(b) = bhd(b)*16777216 + bhd(btl(b))*65536 + bhd(btl(btl(b)))*256 + bhd(btl(btl(btl(b))))
def put2(x, t) = cons(x/256%256, cons(x%256, t))
def put32(x, t) = cons(x/256/256/256%256, cons(x/256/256%256, cons(x/256%256, cons(x%256, t))))
def has2(b) = !isnil(b) && !isnil(btl(b))
def drop2(b) = btl(btl(b))

lemma drop_from8(s:seq, i:int, n:int, t:bytes)
  by i
  hyp 0 <= i && i <= n
  concl drop(from8(s, 0, n, t), i) == from8(s, i, n, t)
  trigger drop(from8(s, 0, n, t), i)
  mention drop(from8(s, 0, n, t), i-1) ; from8(s, i-1, n, t)

lemma drop_enc8(s:seq, n:int, m:int, t:bytes)
  hyp 0 <= n && m == n
  concl drop(enc8(s, n, t), m) == t
  trigger drop(enc8(s, n, t), m)
  mention from8(s, 0, n, t) ; drop(from8(s, 0, n, t), n) ; from8(s, n, n, t)

lemma avail_from8(s:seq, i:int, n:int, m:int, t:bytes)
  by n-i
  hyp 0 <= i && i <= n && m == n-i
  concl avail(from8(s, i, n, t), m)
  trigger avail(from8(s, i, n, t), m)
  mention from8(s, i+1, n, t) ; avail(from8(s, i+1, n, t), n-i-1)

lemma avail_enc8(s:seq, n:int, m:int, t:bytes)
  hyp 0 <= n && m == n
  concl avail(enc8(s, n, t), m)
  trigger avail(enc8(s, n, t), m)
  mention from8(s, 0, n, t) ; avail(from8(s, 0, n, t), m)

lemma avail_step(b:bytes, n:int)
  hyp n >= 1 && avail(b, n)
  concl !isnil(b) && avail(btl(b), n-1)
  trigger avail(b, n)

// a tag set: its length in one byte, then its tags
def tagsetbytes(s, t) = cons(len(s), enc8(seq(s), len(s), t))
def aftertagset(b) = drop(btl(b), bhd(b))
def tagsetok(b) = !isnil(b) && avail(btl(b), bhd(b))

func (internal/index.TagSet).BinaryWriteTo(s, w) (err)
  props X08 X10
  requires w != nil
  modifies out(w)
  ensures [layout X08 X10] err == nil ==> old(out(w)) == tagsetbytes(s, out(w))
  ensures [fits X08] err == nil ==> len(s) <= 255
  ensures [accepts X08] ideal(w) && len(s) <= 255 ==> err == nil
  inv old(out(w)) == cons(len(s), enc8(seq(s), $i, out(w)))

func (*internal/index.TagSet).BinaryReadFrom(s, r) (err)
  props X08 X10
  requires s != nil && r != nil
  requires [delivering] full(r)
  modifies *s, in(r)
  ensures [count X08 X10] err == nil ==> !old(isnil(in(r))) && len(*s) == old(bhd(in(r)))
  ensures [tags X08 X10] err == nil ==> forall(q, 0, len(*s), (*s)[q] == bhd(drop(old(btl(in(r))), q)))
  ensures [taken X08 X10] err == nil ==> in(r) == old(aftertagset(in(r)))
  ensures [complete X08] ideal(r) && old(tagsetok(in(r))) ==> err == nil
  inv in(r) == drop(old(btl(in(r))), $i)
  inv ideal(r) && old(tagsetok(in(r))) ==> avail(in(r), len(*s) - $i)
  inv len(*s) == old(bhd(in(r))) && forall(q, 0, $i, (*s)[q] == bhd(drop(old(btl(in(r))), q)))
  inv ideal(r) && old(tagsetok(in(r))) ==> avail(in(r), len($s{internal/index.TagSet}) - $i)
  inv len($s{internal/index.TagSet}) == old(bhd(in(r))) && forall(q, 0, $i, $s[q] == bhd(drop(old(btl(in(r))), q)))

lemma [X08] tagset_roundtrip(s:seq, n:int, b:bytes, t:bytes, q:int)
  hyp 0 <= n && b == cons(n, enc8(s, n, t))
  concl aftertagset(b) == t && bhd(b) == n && (0 <= q && q < n ==> bhd(drop(btl(b), q)) == s[q])
  mention drop(from8(s, 0, n, t), n) ; from8(s, n, n, t) ; drop(from8(s, 0, n, t), q) ; from8(s, q, n, t) ; from8(s, 0, n, t)

// a table of tag sets: their number in two bytes, then the sets
rec enctagsets(s:view<internal/index.TagSetTable>, i:int, t:bytes) bytes = ite(i <= 0, t, enctagsets(s, i-1, cons(len(s[i-1]), enc8(seq(s[i-1]), len(s[i-1]), t))))
rec fromtagsets(s:view<internal/index.TagSetTable>, i:int, n:int, t:bytes) bytes = ite(i >= n, t, cons(len(s[i]), enc8(seq(s[i]), len(s[i]), fromtagsets(s, i+1, n, t))))
rec aftertagsets(b:bytes, i:int) bytes = ite(i <= 0, b, aftertagset(aftertagsets(b, i-1)))
def tagtablebytes(s, t) = put2(len(s), enctagsets(view(s), len(s), t))
def aftertagtable(b) = aftertagsets(drop2(b), be2(b))

lemma tagsets_from(s:view<internal/index.TagSetTable>, i:int, n:int, t:bytes)
  by n-i
  hyp 0 <= i && i <= n
  concl enctagsets(s, i, fromtagsets(s, i, n, t)) == enctagsets(s, n, t)
  trigger enctagsets(s, i, fromtagsets(s, i, n, t))
  mention enctagsets(s, i+1, fromtagsets(s, i+1, n, t))

lemma [X08] tagsets_after(s:view<internal/index.TagSetTable>, i:int, n:int, t:bytes)
  by i
  hyp 0 <= i && i <= n
  concl aftertagsets(fromtagsets(s, 0, n, t), i) == fromtagsets(s, i, n, t)
  trigger aftertagsets(fromtagsets(s, 0, n, t), i)
  mention aftertagsets(fromtagsets(s, 0, n, t), i-1) ; fromtagsets(s, i-1, n, t)

// reading what was written for a table gives the table back and leaves what follows
lemma [X08] tagtable_roundtrip(s:view<internal/index.TagSetTable>, n:int, t:bytes, k:int, q:int)
  hyp 0 <= n && n <= 65535
  concl be2(put2(n, enctagsets(s, n, t))) == n && aftertagtable(put2(n, enctagsets(s, n, t))) == t && has2(put2(n, enctagsets(s, n, t)))
  concl 0 <= k && k < n && 0 <= len(s[k]) ==> bhd(aftertagsets(enctagsets(s, n, t), k)) == len(s[k]) && tagsetok(aftertagsets(enctagsets(s, n, t), k))
  concl 0 <= k && k < n && 0 <= q && q < len(s[k]) ==> bhd(drop(btl(aftertagsets(enctagsets(s, n, t), k)), q)) == s[k][q]
  mention enctagsets(s, 0, fromtagsets(s, 0, n, t)) ; aftertagsets(fromtagsets(s, 0, n, t), n) ; fromtagsets(s, n, n, t) ; aftertagsets(fromtagsets(s, 0, n, t), k) ; fromtagsets(s, k, n, t) ; from8(s[k], 0, len(s[k]), fromtagsets(s, k+1, n, t)) ; drop(from8(s[k], 0, len(s[k]), fromtagsets(s, k+1, n, t)), q) ; from8(s[k], q, len(s[k]), fromtagsets(s, k+1, n, t))
  trigger enctagsets(s, n, t) ; s[k][q]

func (internal/index.TagSetTable).BinaryWriteTo(s, w) (err)
  props X08 X10
  modifies out(w)
  ensures [layout X08 X10] err == nil ==> old(out(w)) == tagtablebytes(s, out(w))
  ensures [fits X08] err == nil ==> len(s) <= 65535 && forall(k, 0, len(s), len(s[k]) <= 255)
  ensures [accepts X08] w != nil && ideal(w) && len(s) <= 65535 && forall(k, 0, len(s), len(s[k]) <= 255) ==> err == nil
  inv old(out(w)) == put2(len(s), enctagsets(view(s), $i, out(w)))
  inv forall(k, 0, $i, len(s[k]) <= 255)

func (*internal/index.TagSetTable).BinaryReadFrom(s, r) (err)
  props X08 X10
  requires s != nil
  requires [delivering] r != nil ==> full(r)
  modifies *s, in(r)
  ensures [count X08 X10] err == nil ==> old(has2(in(r))) && len(*s) == old(be2(in(r)))
  ensures [sizes X08 X10] err == nil ==> forall(k, 0, len(*s), len((*s)[k]) == bhd(aftertagsets(old(drop2(in(r))), k)))
  ensures [tags X08 X10] err == nil ==> forall(k, 0, len(*s), forall(q, 0, len((*s)[k]), (*s)[k][q] == bhd(drop(btl(aftertagsets(old(drop2(in(r))), k)), q))))
  ensures [taken X08 X10] err == nil ==> in(r) == old(aftertagtable(in(r)))
  ensures [complete X08] r != nil && ideal(r) && old(has2(in(r)) && forall(k, 0, be2(in(r)), tagsetok(aftertagsets(drop2(in(r)), k)))) ==> err == nil
  ensures [own] err == nil ==> fresh(*s)
  inv in(r) == aftertagsets(old(drop2(in(r))), $i)
  inv fresh(*s) && len(*s) == old(be2(in(r))) && forall(k, 0, $i, len((*s)[k]) == bhd(aftertagsets(old(drop2(in(r))), k)))
  inv forall(k, 0, $i, forall(q, 0, len((*s)[k]), (*s)[k][q] == bhd(drop(btl(aftertagsets(old(drop2(in(r))), k)), q))))
  inv fresh($s{internal/index.TagSetTable}) && len($s) == old(be2(in(r))) && forall(k, 0, $i, len($s[k]) == bhd(aftertagsets(old(drop2(in(r))), k)))
  inv forall(k, 0, $i, forall(q, 0, len($s{internal/index.TagSetTable}[k]), $s[k][q] == bhd(drop(btl(aftertagsets(old(drop2(in(r))), k)), q))))

// the tag set index: the number of tables in four bytes, then the tables
rec enctagtables(s:view<internal/index.TagSetIndex>, i:int, t:bytes) bytes = ite(i <= 0, t, enctagtables(s, i-1, put2(len(s[i-1]), enctagsets(view(s[i-1]), len(s[i-1]), t))))
rec fromtagtables(s:view<internal/index.TagSetIndex>, i:int, n:int, t:bytes) bytes = ite(i >= n, t, put2(len(s[i]), enctagsets(view(s[i]), len(s[i]), fromtagtables(s, i+1, n, t))))
rec aftertagtables(b:bytes, i:int) bytes = ite(i <= 0, b, aftertagtable(aftertagtables(b, i-1)))
def tagindexbytes(s, t) = put32(len(s), enctagtables(view(s), len(s), t))
def aftertagindex(b) = aftertagtables(drop4(b), be4(b))

func (internal/index.TagSetIndex).BinaryWriteTo(s, w) (err)
  props X08 X10
  modifies out(w)
  ensures [layout X08 X10] err == nil && len(s) < 65536*65536 ==> old(out(w)) == tagindexbytes(s, out(w))
  ensures [fits X08] err == nil ==> forall(i, 0, len(s), len(s[i]) <= 65535 && forall(k, 0, len(s[i]), len(s[i][k]) <= 255))
  ensures [accepts X08] w != nil && ideal(w) && forall(i, 0, len(s), len(s[i]) <= 65535 && forall(k, 0, len(s[i]), len(s[i][k]) <= 255)) ==> err == nil
  inv len(s) < 65536*65536 ==> old(out(w)) == put32(len(s), enctagtables(view(s), $i, out(w)))
  inv forall(i, 0, $i, len(s[i]) <= 65535 && forall(k, 0, len(s[i]), len(s[i][k]) <= 255))

func (*internal/index.TagSetIndex).BinaryReadFrom(s, r) (err)
  props X08 X10
  requires s != nil
  requires [delivering] r != nil ==> full(r)
  modifies *s, in(r)
  ensures [count X08 X10] err == nil ==> old(has4(in(r))) && len(*s) == old(be4(in(r)))
  ensures [tables X08 X10] err == nil ==> forall(i, 0, len(*s), len((*s)[i]) == be2(aftertagtables(old(drop4(in(r))), i)))
  ensures [sizes X08 X10] err == nil ==> forall(i, 0, len(*s), forall(k, 0, len((*s)[i]), len((*s)[i][k]) == bhd(aftertagsets(drop2(aftertagtables(old(drop4(in(r))), i)), k))))
  ensures [tags X08 X10] err == nil ==> forall(i, 0, len(*s), forall(k, 0, len((*s)[i]), forall(q, 0, len((*s)[i][k]), (*s)[i][k][q] == bhd(drop(btl(aftertagsets(drop2(aftertagtables(old(drop4(in(r))), i)), k)), q)))))
  ensures [taken X08 X10] err == nil ==> in(r) == old(aftertagindex(in(r)))
  ensures [complete X08] r != nil && ideal(r) && old(has4(in(r)) && forall(i, 0, be4(in(r)), has2(aftertagtables(drop4(in(r)), i)) && forall(k, 0, be2(aftertagtables(drop4(in(r)), i)), tagsetok(aftertagsets(drop2(aftertagtables(drop4(in(r)), i)), k))))) ==> err == nil
  ensures [own] err == nil ==> fresh(*s)
  inv in(r) == aftertagtables(old(drop4(in(r))), $i)
  inv fresh(*s) && len(*s) == old(be4(in(r))) && forall(i, 0, $i, len((*s)[i]) == be2(aftertagtables(old(drop4(in(r))), i)))
  inv forall(i, 0, $i, forall(k, 0, len((*s)[i]), len((*s)[i][k]) == bhd(aftertagsets(drop2(aftertagtables(old(drop4(in(r))), i)), k))))
  inv forall(i, 0, $i, forall(k, 0, len((*s)[i]), forall(q, 0, len((*s)[i][k]), (*s)[i][k][q] == bhd(drop(btl(aftertagsets(drop2(aftertagtables(old(drop4(in(r))), i)), k)), q)))))
  inv fresh($s{internal/index.TagSetIndex}) && len($s) == old(be4(in(r))) && forall(i, 0, $i, len($s[i]) == be2(aftertagtables(old(drop4(in(r))), i)))
  inv forall(i, 0, $i, forall(k, 0, len($s{internal/index.TagSetIndex}[i]), len($s[i][k]) == bhd(aftertagsets(drop2(aftertagtables(old(drop4(in(r))), i)), k))))
  inv forall(i, 0, $i, forall(k, 0, len($s{internal/index.TagSetIndex}[i]), forall(q, 0, len($s[i][k]), $s[i][k][q] == bhd(drop(btl(aftertagsets(drop2(aftertagtables(old(drop4(in(r))), i)), k)), q)))))

lemma tagtables_from(s:view<internal/index.TagSetIndex>, i:int, n:int, t:bytes)
  by n-i
  hyp 0 <= i && i <= n
  concl enctagtables(s, i, fromtagtables(s, i, n, t)) == enctagtables(s, n, t)
  trigger enctagtables(s, i, fromtagtables(s, i, n, t))
  mention enctagtables(s, i+1, fromtagtables(s, i+1, n, t))

lemma [X08] tagtables_after(s:view<internal/index.TagSetIndex>, i:int, n:int, t:bytes)
  by i
  hyp 0 <= i && i <= n && forall(k, 0, n, 0 <= len(s[k]) && len(s[k]) <= 65535)
  concl aftertagtables(fromtagtables(s, 0, n, t), i) == fromtagtables(s, i, n, t)
  trigger aftertagtables(fromtagtables(s, 0, n, t), i)
  mention aftertagtables(fromtagtables(s, 0, n, t), i-1) ; fromtagtables(s, i-1, n, t) ; enctagsets(view(s[i-1]), len(s[i-1]), fromtagtables(s, i, n, t)) ; view(s[i-1])[0][0]

// reading what was written for the tag set index gives it back and leaves what follows
lemma [X08] put32_value(n:int, t:bytes)
  hyp 0 <= n && n < 65536*65536
  concl be4(put32(n, t)) == n && has4(put32(n, t)) && drop4(put32(n, t)) == t

lemma [X08] tagindex_rest(s:view<internal/index.TagSetIndex>, n:int, t:bytes, i:int)
  hyp 0 <= n && forall(j, 0, n, 0 <= len(s[j]) && len(s[j]) <= 65535)
  concl aftertagtables(enctagtables(s, n, t), n) == t
  concl 0 <= i && i < n ==> aftertagtables(enctagtables(s, n, t), i) == put2(len(s[i]), enctagsets(view(s[i]), len(s[i]), fromtagtables(s, i+1, n, t)))
  trigger aftertagtables(enctagtables(s, n, t), i)
  mention enctagtables(s, 0, fromtagtables(s, 0, n, t)) ; aftertagtables(fromtagtables(s, 0, n, t), n) ; fromtagtables(s, n, n, t) ; aftertagtables(fromtagtables(s, 0, n, t), i) ; fromtagtables(s, i, n, t)

lemma [X08] tagindex_roundtrip(s:view<internal/index.TagSetIndex>, n:int, t:bytes, i:int, k:int, q:int)
  hyp forall(j, 0, n, 0 <= len(s[j]) && len(s[j]) <= 65535)
  hyp 0 <= i && i < n && 0 <= k && k < len(s[i]) && 0 <= q && q < len(s[i][k])
  concl be2(aftertagtables(enctagtables(s, n, t), i)) == len(s[i]) && has2(aftertagtables(enctagtables(s, n, t), i))
  concl bhd(aftertagsets(drop2(aftertagtables(enctagtables(s, n, t), i)), k)) == len(s[i][k]) && tagsetok(aftertagsets(drop2(aftertagtables(enctagtables(s, n, t), i)), k))
  concl bhd(drop(btl(aftertagsets(drop2(aftertagtables(enctagtables(s, n, t), i)), k)), q)) == s[i][k][q]
  mention aftertagtables(enctagtables(s, n, t), i) ; enctagsets(view(s[i]), len(s[i]), fromtagtables(s, i+1, n, t)) ; view(s[i])[k][q]

// a collection: its length in one byte, then its tag set identifiers, four bytes each
rec enc32(s:seq, i:int, t:bytes) bytes = ite(i <= 0, t, enc32(s, i-1, put32(s[i-1], t)))
rec from32(s:seq, i:int, n:int, t:bytes) bytes = ite(i >= n, t, put32(s[i], from32(s, i+1, n, t)))
rec after32(b:bytes, i:int) bytes = ite(i <= 0, b, drop4(after32(b, i-1)))
def collbytes(s, t) = cons(len(s), enc32(seq(s), len(s), t))
def aftercoll(b) = after32(btl(b), bhd(b))
def collok(b) = !isnil(b) && forall(k, 0, bhd(b), has4(after32(btl(b), k)))

lemma enc32_from(s:seq, i:int, n:int, t:bytes)
  by n-i
  hyp 0 <= i && i <= n
  concl enc32(s, i, from32(s, i, n, t)) == enc32(s, n, t)
  trigger enc32(s, i, from32(s, i, n, t))
  mention enc32(s, i+1, from32(s, i+1, n, t))

lemma [X08] after32_from(s:seq, i:int, n:int, t:bytes)
  by i
  hyp 0 <= i && i <= n
  concl after32(from32(s, 0, n, t), i) == from32(s, i, n, t)
  trigger after32(from32(s, 0, n, t), i)
  mention after32(from32(s, 0, n, t), i-1) ; from32(s, i-1, n, t)

lemma [X08] enc32_at(s:seq, n:int, t:bytes, i:int)
  hyp 0 <= i && i <= n
  concl after32(enc32(s, n, t), n) == t
  concl i < n ==> after32(enc32(s, n, t), i) == put32(s[i], from32(s, i+1, n, t))
  trigger after32(enc32(s, n, t), i)
  mention enc32(s, 0, from32(s, 0, n, t)) ; after32(from32(s, 0, n, t), n) ; from32(s, n, n, t) ; after32(from32(s, 0, n, t), i) ; from32(s, i, n, t)

lemma [X08] coll_roundtrip(s:seq, n:int, t:bytes, q:int)
  hyp 0 <= q && q < n && 0 <= s[q] && s[q] < 65536*65536
  concl be4(after32(enc32(s, n, t), q)) == s[q] && has4(after32(enc32(s, n, t), q))
  mention after32(enc32(s, n, t), q)

func (internal/index.TagSetIDCollection).BinaryWriteTo(s, w) (err)
  props X08 X10
  requires w != nil
  modifies out(w)
  ensures [layout X08 X10] err == nil ==> old(out(w)) == collbytes(s, out(w))
  ensures [fits X08] err == nil ==> len(s) <= 255
  ensures [accepts X08] ideal(w) && len(s) <= 255 ==> err == nil
  inv old(out(w)) == cons(len(s), enc32(seq(s), $i, out(w)))

func (*internal/index.TagSetIDCollection).BinaryReadFrom(s, r) (err)
  props X08 X10
  requires s != nil && r != nil
  requires [delivering] full(r)
  modifies *s, in(r)
  ensures [count X08 X10] err == nil ==> !old(isnil(in(r))) && len(*s) == old(bhd(in(r)))
  ensures [ids X08 X10] err == nil ==> forall(q, 0, len(*s), (*s)[q] == be4(after32(old(btl(in(r))), q)))
  ensures [taken X08 X10] err == nil ==> in(r) == old(aftercoll(in(r)))
  ensures [complete X08] ideal(r) && old(collok(in(r))) ==> err == nil
  inv in(r) == after32(old(btl(in(r))), $i)
  inv len(*s) == old(bhd(in(r))) && forall(q, 0, $i, (*s)[q] == be4(after32(old(btl(in(r))), q)))
  inv len($s{internal/index.TagSetIDCollection}) == old(bhd(in(r))) && forall(q, 0, $i, $s[q] == be4(after32(old(btl(in(r))), q)))

// a table of collections: their number in four bytes, then the collections
rec enccolls(s:view<internal/index.VariantsTable>, i:int, t:bytes) bytes = ite(i <= 0, t, enccolls(s, i-1, cons(len(s[i-1]), enc32(seq(s[i-1]), len(s[i-1]), t))))
rec fromcolls(s:view<internal/index.VariantsTable>, i:int, n:int, t:bytes) bytes = ite(i >= n, t, cons(len(s[i]), enc32(seq(s[i]), len(s[i]), fromcolls(s, i+1, n, t))))
rec aftercolls(b:bytes, i:int) bytes = ite(i <= 0, b, aftercoll(aftercolls(b, i-1)))
def colltablebytes(s, t) = put32(len(s), enccolls(view(s), len(s), t))
def aftercolltable(b) = aftercolls(drop4(b), be4(b))

lemma colls_from(s:view<internal/index.VariantsTable>, i:int, n:int, t:bytes)
  by n-i
  hyp 0 <= i && i <= n
  concl enccolls(s, i, fromcolls(s, i, n, t)) == enccolls(s, n, t)
  trigger enccolls(s, i, fromcolls(s, i, n, t))
  mention enccolls(s, i+1, fromcolls(s, i+1, n, t))

lemma [X08] colls_after(s:view<internal/index.VariantsTable>, i:int, n:int, t:bytes)
  by i
  hyp 0 <= i && i <= n && forall(k, 0, n, 0 <= len(s[k]))
  concl aftercolls(fromcolls(s, 0, n, t), i) == fromcolls(s, i, n, t)
  trigger aftercolls(fromcolls(s, 0, n, t), i)
  mention aftercolls(fromcolls(s, 0, n, t), i-1) ; fromcolls(s, i-1, n, t) ; after32(enc32(seq(s[i-1]), len(s[i-1]), fromcolls(s, i, n, t)), len(s[i-1]))

lemma [X08] colls_at(s:view<internal/index.VariantsTable>, n:int, t:bytes, i:int)
  hyp 0 <= n && forall(k, 0, n, 0 <= len(s[k]))
  concl aftercolls(enccolls(s, n, t), n) == t
  concl 0 <= i && i < n ==> aftercolls(enccolls(s, n, t), i) == cons(len(s[i]), enc32(seq(s[i]), len(s[i]), fromcolls(s, i+1, n, t)))
  trigger aftercolls(enccolls(s, n, t), i)
  mention enccolls(s, 0, fromcolls(s, 0, n, t)) ; aftercolls(fromcolls(s, 0, n, t), n) ; fromcolls(s, n, n, t) ; aftercolls(fromcolls(s, 0, n, t), i) ; fromcolls(s, i, n, t)

lemma [X08] colltable_roundtrip(s:view<internal/index.VariantsTable>, n:int, t:bytes, k:int, q:int)
  hyp 0 <= n && forall(j, 0, n, 0 <= len(s[j])) && 0 <= k && k < n && 0 <= q && q < len(s[k]) && 0 <= s[k][q] && s[k][q] < 65536*65536
  concl bhd(aftercolls(enccolls(s, n, t), k)) == len(s[k]) && !isnil(aftercolls(enccolls(s, n, t), k))
  concl be4(after32(btl(aftercolls(enccolls(s, n, t), k)), q)) == s[k][q] && has4(after32(btl(aftercolls(enccolls(s, n, t), k)), q))
  mention aftercolls(enccolls(s, n, t), k) ; after32(enc32(seq(s[k]), len(s[k]), fromcolls(s, k+1, n, t)), q)

func (internal/index.VariantsTable).BinaryWriteTo(s, w) (err)
  props X08 X10
  requires w != nil
  modifies out(w)
  ensures [layout X08 X10] err == nil && len(s) < 65536*65536 ==> old(out(w)) == colltablebytes(s, out(w))
  ensures [fits X08] err == nil ==> forall(k, 0, len(s), len(s[k]) <= 255)
  ensures [accepts X08] ideal(w) && forall(k, 0, len(s), len(s[k]) <= 255) ==> err == nil
  inv len(s) < 65536*65536 ==> old(out(w)) == put32(len(s), enccolls(view(s), $i, out(w)))
  inv forall(k, 0, $i, len(s[k]) <= 255)

func (*internal/index.VariantsTable).BinaryReadFrom(s, r) (err)
  props X08 X10
  requires s != nil && r != nil
  requires [delivering] full(r)
  modifies *s, in(r)
  ensures [count X08 X10] err == nil ==> old(has4(in(r))) && len(*s) == old(be4(in(r)))
  ensures [sizes X08 X10] err == nil ==> forall(k, 0, len(*s), len((*s)[k]) == bhd(aftercolls(old(drop4(in(r))), k)))
  ensures [ids X08 X10] err == nil ==> forall(k, 0, len(*s), forall(q, 0, len((*s)[k]), (*s)[k][q] == be4(after32(btl(aftercolls(old(drop4(in(r))), k)), q))))
  ensures [taken X08 X10] err == nil ==> in(r) == old(aftercolltable(in(r)))
  ensures [complete X08] ideal(r) && old(has4(in(r)) && forall(k, 0, be4(in(r)), collok(aftercolls(drop4(in(r)), k)))) ==> err == nil
  ensures [own] err == nil ==> fresh(*s)
  inv in(r) == aftercolls(old(drop4(in(r))), $i)
  inv fresh(*s) && len(*s) == old(be4(in(r))) && forall(k, 0, $i, len((*s)[k]) == bhd(aftercolls(old(drop4(in(r))), k)))
  inv forall(k, 0, $i, forall(q, 0, len((*s)[k]), (*s)[k][q] == be4(after32(btl(aftercolls(old(drop4(in(r))), k)), q))))
  inv fresh($s{internal/index.VariantsTable}) && len($s) == old(be4(in(r))) && forall(k, 0, $i, len($s[k]) == bhd(aftercolls(old(drop4(in(r))), k)))
  inv forall(k, 0, $i, forall(q, 0, len($s{internal/index.VariantsTable}[k]), $s[k][q] == be4(after32(btl(aftercolls(old(drop4(in(r))), k)), q))))

// the index of collections: the number of tables in one byte, then the tables
rec enccolltables(s:view<internal/index.VariantsIndex>, i:int, t:bytes) bytes = ite(i <= 0, t, enccolltables(s, i-1, put32(len(s[i-1]), enccolls(view(s[i-1]), len(s[i-1]), t))))
rec fromcolltables(s:view<internal/index.VariantsIndex>, i:int, n:int, t:bytes) bytes = ite(i >= n, t, put32(len(s[i]), enccolls(view(s[i]), len(s[i]), fromcolltables(s, i+1, n, t))))
rec aftercolltables(b:bytes, i:int) bytes = ite(i <= 0, b, aftercolltable(aftercolltables(b, i-1)))
def collindexbytes(s, t) = cons(len(s), enccolltables(view(s), len(s), t))
def aftercollindex(b) = aftercolltables(btl(b), bhd(b))

func (internal/index.VariantsIndex).BinaryWriteTo(s, w) (err)
  props X08 X10
  requires w != nil
  modifies out(w)
  ensures [layout X08 X10] err == nil && forall(i, 0, len(s), len(s[i]) < 65536*65536) ==> old(out(w)) == collindexbytes(s, out(w))
  ensures [fits X08] err == nil ==> len(s) <= 255 && forall(i, 0, len(s), forall(k, 0, len(s[i]), len(s[i][k]) <= 255))
  ensures [accepts X08] ideal(w) && len(s) <= 255 && forall(i, 0, len(s), forall(k, 0, len(s[i]), len(s[i][k]) <= 255)) ==> err == nil
  inv forall(i, 0, len(s), len(s[i]) < 65536*65536) ==> old(out(w)) == cons(len(s), enccolltables(view(s), $i, out(w)))
  inv forall(i, 0, $i, forall(k, 0, len(s[i]), len(s[i][k]) <= 255))

func (*internal/index.VariantsIndex).BinaryReadFrom(s, r) (err)
  props X08 X10
  requires s != nil && r != nil
  requires [delivering] full(r)
  modifies *s, in(r)
  ensures [count X08 X10] err == nil ==> !old(isnil(in(r))) && len(*s) == old(bhd(in(r)))
  ensures [tables X08 X10] err == nil ==> forall(i, 0, len(*s), len((*s)[i]) == be4(aftercolltables(old(btl(in(r))), i)))
  ensures [sizes X08 X10] err == nil ==> forall(i, 0, len(*s), forall(k, 0, len((*s)[i]), len((*s)[i][k]) == bhd(aftercolls(drop4(aftercolltables(old(btl(in(r))), i)), k))))
  ensures [ids X08 X10] err == nil ==> forall(i, 0, len(*s), forall(k, 0, len((*s)[i]), forall(q, 0, len((*s)[i][k]), (*s)[i][k][q] == be4(after32(btl(aftercolls(drop4(aftercolltables(old(btl(in(r))), i)), k)), q)))))
  ensures [taken X08 X10] err == nil ==> in(r) == old(aftercollindex(in(r)))
  ensures [complete X08] ideal(r) && old(!isnil(in(r)) && forall(i, 0, bhd(in(r)), has4(aftercolltables(btl(in(r)), i)) && forall(k, 0, be4(aftercolltables(btl(in(r)), i)), collok(aftercolls(drop4(aftercolltables(btl(in(r)), i)), k))))) ==> err == nil
  ensures [own] err == nil ==> fresh(*s)
  inv in(r) == aftercolltables(old(btl(in(r))), $i)
  inv fresh(*s) && len(*s) == old(bhd(in(r))) && forall(i, 0, $i, len((*s)[i]) == be4(aftercolltables(old(btl(in(r))), i)))
  inv forall(i, 0, $i, forall(k, 0, len((*s)[i]), len((*s)[i][k]) == bhd(aftercolls(drop4(aftercolltables(old(btl(in(r))), i)), k))))
  inv forall(i, 0, $i, forall(k, 0, len((*s)[i]), forall(q, 0, len((*s)[i][k]), (*s)[i][k][q] == be4(after32(btl(aftercolls(drop4(aftercolltables(old(btl(in(r))), i)), k)), q)))))
  inv fresh($s{internal/index.VariantsIndex}) && len($s) == old(bhd(in(r))) && forall(i, 0, $i, len($s[i]) == be4(aftercolltables(old(btl(in(r))), i)))
  inv forall(i, 0, $i, forall(k, 0, len($s{internal/index.VariantsIndex}[i]), len($s[i][k]) == bhd(aftercolls(drop4(aftercolltables(old(btl(in(r))), i)), k))))
  inv forall(i, 0, $i, forall(k, 0, len($s{internal/index.VariantsIndex}[i]), forall(q, 0, len($s[i][k]), $s[i][k][q] == be4(after32(btl(aftercolls(drop4(aftercolltables(old(btl(in(r))), i)), k)), q)))))

lemma colltables_from(s:view<internal/index.VariantsIndex>, i:int, n:int, t:bytes)
  by n-i
  hyp 0 <= i && i <= n
  concl enccolltables(s, i, fromcolltables(s, i, n, t)) == enccolltables(s, n, t)
  trigger enccolltables(s, i, fromcolltables(s, i, n, t))
  mention enccolltables(s, i+1, fromcolltables(s, i+1, n, t))

lemma [X08] colltables_after(s:view<internal/index.VariantsIndex>, i:int, n:int, t:bytes)
  by i
  hyp 0 <= i && i <= n && forall(k, 0, n, 0 <= len(s[k]) && len(s[k]) < 65536*65536 && forall(j, 0, len(s[k]), 0 <= len(s[k][j])))
  concl aftercolltables(fromcolltables(s, 0, n, t), i) == fromcolltables(s, i, n, t)
  trigger aftercolltables(fromcolltables(s, 0, n, t), i)
  mention aftercolltables(fromcolltables(s, 0, n, t), i-1) ; fromcolltables(s, i-1, n, t) ; aftercolls(enccolls(view(s[i-1]), len(s[i-1]), fromcolltables(s, i, n, t)), len(s[i-1]))

lemma [X08] collindex_rest(s:view<internal/index.VariantsIndex>, n:int, t:bytes, i:int)
  hyp 0 <= n && forall(k, 0, n, 0 <= len(s[k]) && len(s[k]) < 65536*65536 && forall(j, 0, len(s[k]), 0 <= len(s[k][j])))
  concl aftercolltables(enccolltables(s, n, t), n) == t
  concl 0 <= i && i < n ==> aftercolltables(enccolltables(s, n, t), i) == put32(len(s[i]), enccolls(view(s[i]), len(s[i]), fromcolltables(s, i+1, n, t)))
  trigger aftercolltables(enccolltables(s, n, t), i)
  mention enccolltables(s, 0, fromcolltables(s, 0, n, t)) ; aftercolltables(fromcolltables(s, 0, n, t), n) ; fromcolltables(s, n, n, t) ; aftercolltables(fromcolltables(s, 0, n, t), i) ; fromcolltables(s, i, n, t)

// reading what was written for the index of collections gives it back and leaves what follows
lemma [X08] collindex_roundtrip(s:view<internal/index.VariantsIndex>, n:int, t:bytes, i:int, k:int, q:int)
  hyp forall(j, 0, n, 0 <= len(s[j]) && len(s[j]) < 65536*65536 && forall(l, 0, len(s[j]), 0 <= len(s[j][l])))
  hyp 0 <= i && i < n && 0 <= k && k < len(s[i]) && 0 <= q && q < len(s[i][k]) && 0 <= s[i][k][q] && s[i][k][q] < 65536*65536
  concl be4(aftercolltables(enccolltables(s, n, t), i)) == len(s[i]) && has4(aftercolltables(enccolltables(s, n, t), i))
  concl bhd(aftercolls(drop4(aftercolltables(enccolltables(s, n, t), i)), k)) == len(s[i][k])
  concl be4(after32(btl(aftercolls(drop4(aftercolltables(enccolltables(s, n, t), i)), k)), q)) == s[i][k][q]
  mention aftercolltables(enccolltables(s, n, t), i) ; aftercolls(enccolls(view(s[i]), len(s[i]), fromcolltables(s, i+1, n, t)), k) ; view(s[i])[k][q] ; after32(enc32(seq(s[i][k]), len(s[i][k]), fromcolls(view(s[i]), k+1, len(s[i]), fromcolltables(s, i+1, n, t))), q)

// a node: parent, identifier, letter and collection, four bytes each
def itembytes(v, t) = put32(v.Parent, put32(v.ID, put32(v.Letter, put32(v.Variants, t))))
def afteritem(b) = drop4(drop4(drop4(drop4(b))))
def itemok(b) = has4(b) && has4(drop4(b)) && has4(drop4(drop4(b))) && has4(drop4(drop4(drop4(b))))
// 32 bits as a letter
def rune32(v) = ite(v < 32768*65536, v, v-65536*65536)
def itemat(v, b) = v.Parent == be4(b) && v.ID == be4(drop4(b)) && v.Letter == rune32(be4(drop4(drop4(b)))) && v.Variants == be4(drop4(drop4(drop4(b))))

func (*internal/index.Item).BinaryWriteTo(i, w) (err)
  props X08 X10
  requires i != nil && w != nil
  modifies out(w)
  ensures [layout X08 X10] err == nil ==> old(out(w)) == itembytes(i, out(w))
  ensures [accepts X08] ideal(w) ==> err == nil

func (*internal/index.Item).BinaryReadFrom(i, r) (err)
  props X08 X10
  requires i != nil && r != nil
  requires [delivering] full(r)
  modifies *i, in(r)
  ensures [content X08 X10] err == nil ==> itemat(i, old(in(r))) && in(r) == old(afteritem(in(r)))
  ensures [complete X08] ideal(r) && old(itemok(in(r))) ==> err == nil

rec encitems(s:view<[]internal/index.Item>, i:int, t:bytes) bytes = ite(i <= 0, t, encitems(s, i-1, put32(s[i-1].Parent, put32(s[i-1].ID, put32(s[i-1].Letter, put32(s[i-1].Variants, t))))))
rec fromitems(s:view<[]internal/index.Item>, i:int, n:int, t:bytes) bytes = ite(i >= n, t, put32(s[i].Parent, put32(s[i].ID, put32(s[i].Letter, put32(s[i].Variants, fromitems(s, i+1, n, t))))))
rec afteritems(b:bytes, i:int) bytes = ite(i <= 0, b, drop4(drop4(drop4(drop4(afteritems(b, i-1))))))

lemma items_from(s:view<[]internal/index.Item>, i:int, n:int, t:bytes)
  by n-i
  hyp 0 <= i && i <= n
  concl encitems(s, i, fromitems(s, i, n, t)) == encitems(s, n, t)
  trigger encitems(s, i, fromitems(s, i, n, t))
  mention encitems(s, i+1, fromitems(s, i+1, n, t))

lemma [X08] items_after(s:view<[]internal/index.Item>, i:int, n:int, t:bytes)
  by i
  hyp 0 <= i && i <= n
  concl afteritems(fromitems(s, 0, n, t), i) == fromitems(s, i, n, t)
  trigger afteritems(fromitems(s, 0, n, t), i)
  mention afteritems(fromitems(s, 0, n, t), i-1) ; fromitems(s, i-1, n, t)

lemma [X08] items_at(s:view<[]internal/index.Item>, n:int, t:bytes, i:int)
  hyp 0 <= n
  concl afteritems(encitems(s, n, t), n) == t
  concl 0 <= i && i < n ==> afteritems(encitems(s, n, t), i) == put32(s[i].Parent, put32(s[i].ID, put32(s[i].Letter, put32(s[i].Variants, fromitems(s, i+1, n, t)))))
  trigger afteritems(encitems(s, n, t), i)
  mention encitems(s, 0, fromitems(s, 0, n, t)) ; afteritems(fromitems(s, 0, n, t), n) ; fromitems(s, n, n, t) ; afteritems(fromitems(s, 0, n, t), i) ; fromitems(s, i, n, t)

lemma [X08] item_roundtrip(s:view<[]internal/index.Item>, n:int, t:bytes, k:int)
  hyp 0 <= k && k < n && 0 <= s[k].Parent && s[k].Parent < 65536*65536 && 0 <= s[k].ID && s[k].ID < 65536*65536
  hyp 0-32768*65536 <= s[k].Letter && s[k].Letter < 32768*65536 && 0 <= s[k].Variants && s[k].Variants < 65536*65536
  concl itemat(s[k], afteritems(encitems(s, n, t), k)) && itemok(afteritems(encitems(s, n, t), k))
  mention afteritems(encitems(s, n, t), k)

func (internal/index.Items).BinaryWriteTo(it, w) (err)
  props X08 X09 X10
  requires w != nil
  requires [room] it.nextID <= len(it.items)
  modifies out(w)
  ensures [layout X08 X09 X10] err == nil ==> old(out(w)) == put32(it.nextID, encitems(view(it.items), it.nextID, out(w)))
  ensures [accepts X08 X09] ideal(w) ==> err == nil
  inv old(out(w)) == put32(it.nextID, encitems(view(it.items), $i, out(w)))

func (*internal/index.Items).BinaryReadFrom(it, r) (err)
  props X08 X09 X10 X13
  requires it != nil && r != nil
  requires [delivering] full(r)
  modifies it.items, it.nextID, in(r)
  ensures [count X08 X09 X10] err == nil ==> old(has4(in(r))) && len(it.items) == old(be4(in(r))) && it.nextID == len(it.items) && it.nextID >= 1
  ensures [items X08 X09 X10] err == nil ==> forall(k, 0, len(it.items), itemat(it.items[k], afteritems(old(drop4(in(r))), k)))
  ensures [taken X08 X10] err == nil ==> in(r) == afteritems(old(drop4(in(r))), old(be4(in(r))))
  ensures [complete X08] ideal(r) && old(has4(in(r)) && be4(in(r)) > 0 && forall(k, 0, be4(in(r)), itemok(afteritems(drop4(in(r)), k)))) ==> err == nil
  ensures [own] err == nil ==> fresh(it.items)
  inv in(r) == afteritems(old(drop4(in(r))), $i)
  inv fresh(it.items) && len(it.items) == old(be4(in(r))) && it.nextID == len(it.items) && it.nextID >= 1
  inv forall(k, 0, $i, itemat(it.items[k], afteritems(old(drop4(in(r))), k)))
  inv fresh($s{[]internal/index.Item}) && len($s) == old(be4(in(r))) && len($s) >= 1
  inv forall(k, 0, $i, itemat($s{[]internal/index.Item}[k], afteritems(old(drop4(in(r))), k)))
