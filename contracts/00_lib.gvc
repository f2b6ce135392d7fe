// Encodings. encN(s, i, t): the first i elements of s, each as N bits big endian, followed by t.
rec enc8(s:seq, i:int, t:bytes) bytes = ite(i <= 0, t, enc8(s, i-1, cons(s[i-1], t)))
rec enc16(s:seq, i:int, t:bytes) bytes = ite(i <= 0, t, enc16(s, i-1, cons(s[i-1]/256, cons(s[i-1]%256, t))))
// fromN(s, i, n, t): the elements i..n-1 of s followed by t.
rec from8(s:seq, i:int, n:int, t:bytes) bytes = ite(i >= n, t, cons(s[i], from8(s, i+1, n, t)))
rec from16(s:seq, i:int, n:int, t:bytes) bytes = ite(i >= n, t, cons(s[i]/256, cons(s[i]%256, from16(s, i+1, n, t))))

lemma enc8_prefix(s:seq, s2:seq, i:int, j:int, t:bytes, t2:bytes)
  by i
  hyp i == j && t == t2
  hyp forall(k, 0, i, s[k] == s2[k])
  concl enc8(s, i, t) == enc8(s2, j, t2)
  trigger enc8(s, i, t) ; enc8(s2, j, t2)

lemma enc16_prefix(s:seq, s2:seq, i:int, j:int, t:bytes, t2:bytes)
  by i
  hyp i == j && t == t2
  hyp forall(k, 0, i, s[k] == s2[k])
  concl enc16(s, i, t) == enc16(s2, j, t2)
  trigger enc16(s, i, t) ; enc16(s2, j, t2)

// what is left after i elements
lemma enc8_from(s:seq, i:int, n:int, t:bytes)
  by n-i
  hyp 0 <= i && i <= n
  concl enc8(s, i, from8(s, i, n, t)) == enc8(s, n, t)
  trigger enc8(s, i, from8(s, i, n, t))
  mention enc8(s, i+1, from8(s, i+1, n, t))

lemma [S03] enc8_whole(s:seq, n:int, t:bytes)
  hyp 0 <= n
  concl enc8(s, n, t) == from8(s, 0, n, t)
  mention enc8(s, 0, from8(s, 0, n, t))
  trigger from8(s, 0, n, t) ; enc8(s, n, t)

lemma [S03] enc8_parse(a:seq, i:int, x:bytes, b:seq, n:int, y:bytes)
  by i
  hyp 0 <= i && i <= n
  hyp enc8(a, i, x) == from8(b, 0, n, y)
  concl x == from8(b, i, n, y) && forall(k, 0, i, a[k] == b[k])
  trigger enc8(a, i, x) ; from8(b, 0, n, y)
  mention from8(b, i-1, n, y)

// what is left after i elements
lemma enc16_from(s:seq, i:int, n:int, t:bytes)
  by n-i
  hyp 0 <= i && i <= n
  concl enc16(s, i, from16(s, i, n, t)) == enc16(s, n, t)
  trigger enc16(s, i, from16(s, i, n, t))
  mention enc16(s, i+1, from16(s, i+1, n, t))

lemma [S03] enc16_whole(s:seq, n:int, t:bytes)
  hyp 0 <= n
  concl enc16(s, n, t) == from16(s, 0, n, t)
  mention enc16(s, 0, from16(s, 0, n, t))
  trigger from16(s, 0, n, t) ; enc16(s, n, t)

lemma [S03] enc16_parse(a:seq, i:int, x:bytes, b:seq, n:int, y:bytes)
  by i
  hyp 0 <= i && i <= n
  hyp enc16(a, i, x) == from16(b, 0, n, y)
  hyp forall(k, 0, n, 0 <= a[k] && a[k] < 65536 && 0 <= b[k] && b[k] < 65536)
  concl x == from16(b, i, n, y) && forall(k, 0, i, a[k] == b[k])
  trigger enc16(a, i, x) ; from16(b, 0, n, y)
  mention from16(b, i-1, n, y)

// at least n bytes
rec avail(b:bytes, n:int) bool = n <= 0 || !isnil(b) && avail(btl(b), n-1)

lemma [S03] avail8(s:seq, i:int, n:int, t:bytes)
  by n-i
  hyp 0 <= i && i <= n
  concl avail(from8(s, i, n, t), n-i)
  mention from8(s, i+1, n, t)

lemma [S03] avail16(s:seq, i:int, n:int, t:bytes)
  by n-i
  hyp 0 <= i && i <= n
  concl avail(from16(s, i, n, t), 2*(n-i))
  mention from16(s, i+1, n, t) ; avail(btl(from16(s, i, n, t)), 2*(n-i)-1)

// equal elements, equal sorted sequence
lemma sort_ext(s:seq, s2:seq)
  hyp len(s) == len(s2) && forall(k, 0, len(s), s[k] == s2[k])
  concl sortv(s) == sortv(s2)
  trigger sortv(s) ; sortv(s2)
