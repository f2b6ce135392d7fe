package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Term is a hash-consed SMT term.
type Term struct {
	op   string // "lit","var","bvar","app","forall","exists" or an SMT operator
	name string // symbol name for var/bvar/app, literal text for lit
	args []*Term
	sort string
	id   int
	h    uint64   // structural hash: a creation-order independent ordering
	val  *big.Int // for lit
	lo   *big.Int // known bounds of Int terms (nil = unknown)
	hi   *big.Int
	bnd  bool      // contains bound variables
	pats [][]*Term // quantifier patterns (bvars in args[0..n-2], body last)
}

const (
	SInt   = "Int"
	SBool  = "Bool"
	SBytes = "Bytes"
	SSeq   = "Seq_Int"
)

var (
	termMu  sync.Mutex
	termTab = map[string]*Term{}
	termSeq int
	tTrue   = mkRaw("lit", "true", SBool)
	tFalse  = mkRaw("lit", "false", SBool)
)

func key(op, name, srt string, args []*Term, pats [][]*Term) string {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(srt)
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	for _, p := range pats {
		b.WriteByte(';')
		for _, a := range p {
			b.WriteByte(',')
			b.WriteString(strconv.Itoa(a.id))
		}
	}
	return b.String()
}

func mkRaw(op, name, srt string, args ...*Term) *Term { return mkRawP(op, name, srt, nil, args...) }

func mkRawP(op, name, srt string, pats [][]*Term, args ...*Term) *Term {
	k := key(op, name, srt, args, pats)
	termMu.Lock()
	defer termMu.Unlock()
	if t, ok := termTab[k]; ok {
		return t
	}
	t := &Term{op: op, name: name, sort: srt, args: args, id: termSeq, pats: pats}
	termSeq++
	t.h = structHash(t)
	if op == "bvar" {
		t.bnd = true
	}
	for _, a := range args {
		if a.bnd {
			t.bnd = true
		}
	}
	if op == "forall" || op == "exists" {
		t.bnd = false
		fv := map[*Term]bool{}
		freeB(t, map[*Term]bool{}, fv)
		t.bnd = len(fv) > 0
	}
	computeBounds(t)
	termTab[k] = t
	return t
}

func structHash(t *Term) uint64 {
	h := uint64(14695981039346656037)
	add := func(s string) {
		for i := 0; i < len(s); i++ {
			h ^= uint64(s[i])
			h *= 1099511628211
		}
		h ^= 255
		h *= 1099511628211
	}
	mix := func(v uint64) {
		h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
		h *= 1099511628211
	}
	add(t.op)
	add(t.name)
	add(t.sort)
	for _, a := range t.args {
		mix(a.h)
	}
	for _, p := range t.pats {
		mix(7)
		for _, a := range p {
			mix(a.h)
		}
	}
	return h
}

func termLess(a, b *Term) bool {
	if a.h != b.h {
		return a.h < b.h
	}
	return a.id < b.id
}

// freeB collects free bound variables of t.
func freeB(t *Term, boundHere map[*Term]bool, out map[*Term]bool) {
	if t.op == "bvar" {
		if !boundHere[t] {
			out[t] = true
		}
		return
	}
	if t.op == "forall" || t.op == "exists" {
		nb := map[*Term]bool{}
		for k := range boundHere {
			nb[k] = true
		}
		for _, v := range t.args[:len(t.args)-1] {
			nb[v] = true
		}
		freeB(t.args[len(t.args)-1], nb, out)
		return
	}
	if !t.bnd {
		return
	}
	for _, a := range t.args {
		freeB(a, boundHere, out)
	}
}

func computeBounds(t *Term) {
	if t.sort != SInt {
		return
	}
	switch t.op {
	case "lit":
		t.lo, t.hi = t.val, t.val
		if t.val == nil {
			v, _ := new(big.Int).SetString(t.name, 10)
			t.val, t.lo, t.hi = v, v, v
		}
	case "+":
		lo, hi := new(big.Int), new(big.Int)
		for _, a := range t.args {
			if lo != nil && a.lo != nil {
				lo = new(big.Int).Add(lo, a.lo)
			} else {
				lo = nil
			}
			if hi != nil && a.hi != nil {
				hi = new(big.Int).Add(hi, a.hi)
			} else {
				hi = nil
			}
		}
		t.lo, t.hi = lo, hi
	case "*":
		if len(t.args) == 2 && t.args[0].op == "lit" {
			c, a := t.args[0].val, t.args[1]
			l, h := a.lo, a.hi
			if c.Sign() < 0 {
				l, h = h, l
			}
			if l != nil {
				t.lo = new(big.Int).Mul(c, l)
			}
			if h != nil {
				t.hi = new(big.Int).Mul(c, h)
			}
		}
	case "div":
		if t.args[1].op == "lit" && t.args[1].val.Sign() > 0 {
			if l := t.args[0].lo; l != nil {
				t.lo = floorDiv(l, t.args[1].val)
			}
			if h := t.args[0].hi; h != nil {
				t.hi = floorDiv(h, t.args[1].val)
			}
		}
	case "mod":
		if t.args[1].op == "lit" && t.args[1].val.Sign() > 0 {
			t.lo = new(big.Int)
			t.hi = new(big.Int).Sub(t.args[1].val, big.NewInt(1))
		}
	case "ite":
		a, b := t.args[1], t.args[2]
		if a.lo != nil && b.lo != nil {
			t.lo = a.lo
			if b.lo.Cmp(t.lo) < 0 {
				t.lo = b.lo
			}
		}
		if a.hi != nil && b.hi != nil {
			t.hi = a.hi
			if b.hi.Cmp(t.hi) > 0 {
				t.hi = b.hi
			}
		}
	}
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m) // Euclidean; b>0 so floor
	return q
}

// bound tightens the known range of a term (sound only when guaranteed by typing).
func bound(t *Term, lo, hi *big.Int) *Term {
	if t.sort != SInt || t.op == "lit" {
		return t
	}
	termMu.Lock()
	defer termMu.Unlock()
	if lo != nil && (t.lo == nil || lo.Cmp(t.lo) > 0) {
		t.lo = lo
	}
	if hi != nil && (t.hi == nil || hi.Cmp(t.hi) < 0) {
		t.hi = hi
	}
	return t
}

func I(n int64) *Term { return Big(big.NewInt(n)) }
func Big(v *big.Int) *Term {
	return mkRaw("lit", v.String(), SInt)
}
func B(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func V(name, srt string) *Term  { return mkRaw("var", name, srt) }
func BV(name, srt string) *Term { return mkRaw("bvar", name, srt) }
func App(name, srt string, args ...*Term) *Term {
	return mkRaw("app", name, srt, args...)
}
func isLit(t *Term) bool { return t.op == "lit" }

func litInt(t *Term) (int64, bool) {
	if t.op == "lit" && t.sort == SInt && t.val.IsInt64() {
		return t.val.Int64(), true
	}
	return 0, false
}

// ---- linear arithmetic ----

type lin struct {
	m map[*Term]*big.Int
	k *big.Int
}

func newLin() *lin { return &lin{m: map[*Term]*big.Int{}, k: new(big.Int)} }
func (l *lin) add(t *Term, c *big.Int) {
	switch t.op {
	case "lit":
		l.k = new(big.Int).Add(l.k, new(big.Int).Mul(c, t.val))
	case "+":
		for _, a := range t.args {
			l.add(a, c)
		}
	case "*":
		if t.args[0].op == "lit" {
			l.add(t.args[1], new(big.Int).Mul(c, t.args[0].val))
			return
		}
		l.put(t, c)
	default:
		l.put(t, c)
	}
}
func (l *lin) put(t *Term, c *big.Int) {
	if o, ok := l.m[t]; ok {
		n := new(big.Int).Add(o, c)
		if n.Sign() == 0 {
			delete(l.m, t)
		} else {
			l.m[t] = n
		}
		return
	}
	if c.Sign() != 0 {
		l.m[t] = c
	}
}
func (l *lin) term() *Term {
	var keys []*Term
	for t := range l.m {
		keys = append(keys, t)
	}
	sort.Slice(keys, func(i, j int) bool { return termLess(keys[i], keys[j]) })
	var as []*Term
	for _, t := range keys {
		c := l.m[t]
		if c.Cmp(big.NewInt(1)) == 0 {
			as = append(as, t)
		} else {
			as = append(as, mkRaw("*", "", SInt, Big(c), t))
		}
	}
	if l.k.Sign() != 0 || len(as) == 0 {
		as = append(as, Big(l.k))
	}
	if len(as) == 1 {
		return as[0]
	}
	return mkRaw("+", "", SInt, as...)
}

var one = big.NewInt(1)

func Add(ts ...*Term) *Term {
	l := newLin()
	for _, t := range ts {
		l.add(t, one)
	}
	return l.term()
}
func Sub(a, b *Term) *Term {
	l := newLin()
	l.add(a, one)
	l.add(b, big.NewInt(-1))
	return l.term()
}
func Neg(a *Term) *Term { return Sub(I(0), a) }
func Mul(a, b *Term) *Term {
	if a.op == "lit" || b.op == "lit" {
		if b.op == "lit" {
			a, b = b, a
		}
		l := newLin()
		l.add(b, a.val)
		return l.term()
	}
	if termLess(b, a) {
		a, b = b, a
	}
	return mkRaw("*", "", SInt, a, b)
}

// Div and Mod are Euclidean (SMT-LIB); used with positive divisors only.
func Div(a, b *Term) *Term {
	if b.op == "lit" && b.val.Sign() > 0 {
		if a.op == "lit" {
			return Big(floorDiv(a.val, b.val))
		}
		if b.val.Cmp(one) == 0 {
			return a
		}
		if a.lo != nil && a.hi != nil && floorDiv(a.lo, b.val).Cmp(floorDiv(a.hi, b.val)) == 0 {
			return Big(floorDiv(a.lo, b.val))
		}
		// (c*x + r) div b with b | c and 0 <= r < b
		if q, r, ok := splitMultiple(a, b.val); ok && r.lo != nil && r.hi != nil && r.lo.Sign() >= 0 && r.hi.Cmp(b.val) < 0 {
			return q
		}
	}
	return mkRaw("div", "", SInt, a, b)
}

// splitMultiple writes a = b*q + r where the linear parts divisible by b go to q.
func splitMultiple(a *Term, b *big.Int) (q, r *Term, ok bool) {
	l := newLin()
	l.add(a, one)
	lq, lr := newLin(), newLin()
	found := false
	for t, c := range l.m {
		d, m := new(big.Int).DivMod(c, b, new(big.Int))
		if m.Sign() == 0 {
			lq.put(t, d)
			found = true
		} else {
			lr.put(t, c)
		}
	}
	d, m := new(big.Int).DivMod(l.k, b, new(big.Int))
	lq.k = d
	lr.k = m
	return lq.term(), lr.term(), found || d.Sign() != 0
}

func Mod(a, b *Term) *Term {
	if b.op == "lit" && b.val.Sign() > 0 {
		if a.op == "lit" {
			return Big(new(big.Int).Mod(a.val, b.val))
		}
		if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(b.val) < 0 {
			return a
		}
		if a.op == "mod" && a.args[1].op == "lit" {
			if new(big.Int).Mod(a.args[1].val, b.val).Sign() == 0 {
				return Mod(a.args[0], b)
			}
		}
		if _, r, ok := splitMultiple(a, b.val); ok {
			return Mod(r, b)
		}
	}
	return mkRaw("mod", "", SInt, a, b)
}

// ---- booleans ----

func Not(a *Term) *Term {
	switch {
	case a == tTrue:
		return tFalse
	case a == tFalse:
		return tTrue
	case a.op == "not":
		return a.args[0]
	case a.op == "<=":
		return Lt(a.args[1], a.args[0])
	case a.op == "<":
		return Le(a.args[1], a.args[0])
	}
	return mkRaw("not", "", SBool, a)
}

func And(ts ...*Term) *Term {
	var as []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == tTrue || seen[t] {
			return true
		}
		if t == tFalse {
			return false
		}
		if t.op == "and" {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		as = append(as, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return tFalse
		}
	}
	for _, t := range as {
		if seen[Not(t)] {
			return tFalse
		}
	}
	switch len(as) {
	case 0:
		return tTrue
	case 1:
		return as[0]
	}
	return mkRaw("and", "", SBool, as...)
}

func Or(ts ...*Term) *Term {
	var as []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t == tTrue {
			return tTrue
		}
		if t == tFalse || seen[t] {
			continue
		}
		if t.op == "or" {
			for _, a := range t.args {
				if !seen[a] {
					seen[a] = true
					as = append(as, a)
				}
			}
			continue
		}
		seen[t] = true
		as = append(as, t)
	}
	for _, t := range as {
		if seen[Not(t)] {
			return tTrue
		}
	}
	switch len(as) {
	case 0:
		return tFalse
	case 1:
		return as[0]
	}
	return mkRaw("or", "", SBool, as...)
}

func Implies(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue {
		return tTrue
	}
	if b == tFalse {
		return Not(a)
	}
	if a == b {
		return tTrue
	}
	return mkRaw("=>", "", SBool, a, b)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq: sorts %s vs %s: %s / %s", a.sort, b.sort, a, b))
	}
	if a.sort == SInt {
		d := Sub(a, b)
		if d.op == "lit" {
			return B(d.val.Sign() == 0)
		}
		if d.lo != nil && d.lo.Sign() > 0 || d.hi != nil && d.hi.Sign() < 0 {
			return tFalse
		}
	}
	if a.sort == SBool {
		switch {
		case a == tTrue:
			return b
		case b == tTrue:
			return a
		case a == tFalse:
			return Not(b)
		case b == tFalse:
			return Not(a)
		}
	}
	if termLess(b, a) {
		a, b = b, a
	}
	return mkRaw("=", "", SBool, a, b)
}
func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

func Le(a, b *Term) *Term {
	d := Sub(b, a)
	if d.op == "lit" {
		return B(d.val.Sign() >= 0)
	}
	if d.lo != nil && d.lo.Sign() >= 0 {
		return tTrue
	}
	if d.hi != nil && d.hi.Sign() < 0 {
		return tFalse
	}
	return mkRaw("<=", "", SBool, a, b)
}
func Lt(a, b *Term) *Term {
	d := Sub(b, a)
	if d.op == "lit" {
		return B(d.val.Sign() > 0)
	}
	if d.lo != nil && d.lo.Sign() > 0 {
		return tTrue
	}
	if d.hi != nil && d.hi.Sign() <= 0 {
		return tFalse
	}
	return mkRaw("<", "", SBool, a, b)
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Ite(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.sort == SBool {
		return And(Implies(c, a), Implies(Not(c), b))
	}
	return mkRaw("ite", "", a.sort, c, a, b)
}

// ---- arrays ----

func arrSort(elem string) string { return "(Array Int " + elem + ")" }
func arrElem(s string) string {
	return strings.TrimSuffix(strings.TrimPrefix(s, "(Array Int "), ")")
}

func distinctInts(a, b *Term) bool {
	d := Sub(a, b)
	if d.op == "lit" {
		return d.val.Sign() != 0
	}
	return d.lo != nil && d.lo.Sign() > 0 || d.hi != nil && d.hi.Sign() < 0
}

func Select(a, i *Term) *Term {
	for a.op == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		if distinctInts(a.args[1], i) {
			a = a.args[0]
			continue
		}
		break
	}
	if isConstArr(a) {
		return a.args[0]
	}
	if !strings.HasPrefix(a.sort, "(Array Int ") {
		panic("select on " + a.sort + " " + a.String())
	}
	return mkRaw("select", "", arrElem(a.sort), a, i)
}
func Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	if arrElem(a.sort) != v.sort {
		panic(fmt.Sprintf("store %s into %s", v.sort, a.sort))
	}
	return mkRaw("store", "", a.sort, a, i, v)
}

// ConstArr is the array holding v everywhere.
func ConstArr(v *Term) *Term {
	if v.sort == SInt || v.sort == SBool {
		return mkRaw("constarr", "", arrSort(v.sort), v)
	}
	n := "kconst_" + mangle(v.sort)
	b, i := BV("v", v.sort), BV("i", SInt)
	k := App(n, arrSort(v.sort), b)
	sel := mkRaw("select", "", v.sort, k, i)
	TH.addAxiom(&axiom{name: n, needs: [][]string{{n}}, from: "definition", t: Forall([]*Term{b, i}, [][]*Term{{sel}}, mkRaw("=", "", SBool, sel, b))})
	return App(n, arrSort(v.sort), v)
}

func isConstArr(a *Term) bool {
	return a.op == "constarr" || a.op == "app" && strings.HasPrefix(a.name, "kconst_")
}

func eltName(elem string) string { return "elt_" + mangle(elem) }

// Elt is array access at (offset + index), kept symbolic so that it can serve as a quantifier trigger.
func Elt(a, off, i *Term) *Term {
	es := arrElem(a.sort)
	// reduce concrete accesses through stores when decidable
	idx := Add(off, i)
	if !i.bnd && !off.bnd {
		for a.op == "store" {
			if a.args[1] == idx {
				return a.args[2]
			}
			if distinctInts(a.args[1], idx) {
				a = a.args[0]
				continue
			}
			break
		}
		if isConstArr(a) {
			return a.args[0]
		}
	}
	eltAxioms(es)
	return App(eltName(es), es, a, off, i)
}

func mangle(s string) string {
	r := strings.NewReplacer("(", "L", ")", "R", " ", "_")
	return r.Replace(s)
}

// ---- quantifiers ----

func Forall(vars []*Term, pats [][]*Term, body *Term) *Term { return quant("forall", vars, pats, body) }
func Exists(vars []*Term, pats [][]*Term, body *Term) *Term { return quant("exists", vars, pats, body) }

func quant(q string, vars []*Term, pats [][]*Term, body *Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	if len(vars) == 0 {
		return body
	}
	as := append(append([]*Term{}, vars...), body)
	return mkRawP(q, "", SBool, pats, as...)
}

// subst replaces terms (simultaneously).
func subst(t *Term, m map[*Term]*Term) *Term {
	cache := map[*Term]*Term{}
	var go_ func(t *Term) *Term
	go_ = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := cache[t]; ok {
			return r
		}
		na := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			na[i] = go_(a)
			if na[i] != a {
				ch = true
			}
		}
		var np [][]*Term
		for _, p := range t.pats {
			q := make([]*Term, len(p))
			for i, a := range p {
				q[i] = go_(a)
				if q[i] != a {
					ch = true
				}
			}
			np = append(np, q)
		}
		r := t
		if ch {
			r = rebuild(t, na, np)
		}
		cache[t] = r
		return r
	}
	return go_(t)
}

func rebuild(t *Term, a []*Term, pats [][]*Term) *Term {
	switch t.op {
	case "+":
		return Add(a...)
	case "*":
		return Mul(a[0], a[1])
	case "div":
		return Div(a[0], a[1])
	case "mod":
		return Mod(a[0], a[1])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "not":
		return Not(a[0])
	case "=>":
		return Implies(a[0], a[1])
	case "=":
		return Eq(a[0], a[1])
	case "<":
		return Lt(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "forall", "exists":
		return quant(t.op, a[:len(a)-1], pats, a[len(a)-1])
	case "app":
		if strings.HasPrefix(t.name, "elt_") && len(a) == 3 {
			r := Elt(a[0], a[1], a[2])
			if t.lo != nil || t.hi != nil {
				bound(r, t.lo, t.hi)
			}
			return r
		}
	}
	r := mkRawP(t.op, t.name, t.sort, pats, a...)
	if t.sort == SInt && (t.lo != nil || t.hi != nil) && (t.op == "app") {
		bound(r, t.lo, t.hi)
	}
	return r
}

// String prints a term as a tree (for messages; long terms are cut).
func (t *Term) String() string {
	var b strings.Builder
	printTerm(&b, t, nil, 4000)
	return b.String()
}

func printTerm(b *strings.Builder, t *Term, names map[*Term]string, limit int) {
	if limit > 0 && b.Len() > limit {
		b.WriteString("...")
		return
	}
	if n, ok := names[t]; ok {
		b.WriteString(n)
		return
	}
	switch t.op {
	case "lit":
		if t.sort == SInt && t.val != nil && t.val.Sign() < 0 {
			b.WriteString("(- " + new(big.Int).Neg(t.val).String() + ")")
			return
		}
		b.WriteString(t.name)
	case "var", "bvar":
		b.WriteString(sym(t.name))
	case "app":
		if len(t.args) == 0 {
			b.WriteString(sym(t.name))
			return
		}
		b.WriteString("(" + sym(t.name))
		for _, a := range t.args {
			b.WriteByte(' ')
			printTerm(b, a, names, limit)
		}
		b.WriteByte(')')
	case "constarr":
		b.WriteString("((as const " + t.sort + ") ")
		printTerm(b, t.args[0], names, limit)
		b.WriteByte(')')
	case "forall", "exists":
		n := len(t.args) - 1
		b.WriteString("(" + t.op + " (")
		for _, v := range t.args[:n] {
			b.WriteString("(" + sym(v.name) + " " + v.sort + ")")
		}
		b.WriteString(") ")
		if len(t.pats) > 0 {
			b.WriteString("(! ")
		}
		printTerm(b, t.args[n], names, limit)
		for _, p := range t.pats {
			b.WriteString(" :pattern (")
			for i, a := range p {
				if i > 0 {
					b.WriteByte(' ')
				}
				printTerm(b, a, names, limit)
			}
			b.WriteString(")")
		}
		if len(t.pats) > 0 {
			b.WriteString(")")
		}
		b.WriteString(")")
	default:
		b.WriteString("(" + t.op)
		for _, a := range t.args {
			b.WriteByte(' ')
			printTerm(b, a, names, limit)
		}
		b.WriteByte(')')
	}
}

func sym(s string) string {
	s = strings.ReplaceAll(s, "|", "~")
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_!.$@-", c)) {
			return "|" + s + "|"
		}
	}
	if s != "" && s[0] >= '0' && s[0] <= '9' {
		return "|" + s + "|"
	}
	return s
}
