package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// ---------- strings and sequence views ----------

func bv(n string, s string) *Term { return BV(n, s) }

// veq is equality by value (extensional on sequences and views).
func veq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("veq: %s vs %s (%s / %s)", a.sort, b.sort, a, b))
	}
	if strings.HasPrefix(a.sort, "Seq_") {
		if la, ok := litOf(a); ok {
			if lb, ok := litOf(b); ok {
				return B(la == lb)
			}
		}
		return seqEq(a, b)
	}
	if strings.HasPrefix(a.sort, "V_") {
		if strings.HasPrefix(a.name, "mkv_") && strings.HasPrefix(b.name, "mkv_") {
			var cs []*Term
			for i := range a.args {
				cs = append(cs, veq(a.args[i], b.args[i]))
			}
			return And(cs...)
		}
		if termLess(b, a) {
			a, b = b, a
		}
		return App("veq_"+a.sort, SBool, a, b)
	}
	return Eq(a, b)
}

func strEq(a, b *Term) *Term { return veq(a, b) }

func Cat(a, b *Term) *Term {
	if s, ok := litOf(a); ok {
		if s == "" {
			return b
		}
		if t, ok := litOf(b); ok {
			return strLit(s + t)
		}
	}
	if s, ok := litOf(b); ok && s == "" {
		return a
	}
	if a.op == "app" && a.name == "cat" {
		return Cat(a.args[0], Cat(a.args[1], b))
	}
	initStrings()
	return App("cat", SSeq, a, b)
}

func SubStr(a, lo, hi *Term) *Term {
	if isZeroT(lo) && hi == sl(a) {
		return a
	}
	initStrings()
	return App("sub", SSeq, a, lo, hi)
}
func Chr(c *Term) *Term   { initStrings(); return App("chr", SSeq, c) }
func Utf8(s *Term) *Term  { initStrings(); return App("utf8p", SSeq, s, sl(s)) }
func Runes(s *Term) *Term { initStrings(); return App("runes", SSeq, s) }
func ArrOf(s *Term) *Term { initStrings(); return App("arrof", arrSort(SInt), s) }
func Sid(s *Term) *Term   { initStrings(); return bound(App("sid", SInt, s), Big0, nil) }

var snocInit bool

// Snoc appends one element to a sequence of integers.
func Snoc(s, v *Term) *Term {
	t := App("snoc", SSeq, s, v)
	if !snocInit {
		snocInit = true
		TH.seqSort(SInt)
		s, v, i := bv("s", SSeq), bv("v", SInt), bv("i", SInt)
		t := App("snoc", SSeq, s, v)
		n := mkRaw("app", "sl_"+SSeq, SInt, s)
		TH.addAxiom(&axiom{name: "snoc_len", needs: [][]string{{"snoc"}}, from: "definition", t: Forall([]*Term{s, v}, [][]*Term{{t}}, mkRaw("=", "", SBool, mkRaw("app", "sl_"+SSeq, SInt, t), Add(n, I(1))))})
		TH.addAxiom(&axiom{name: "snoc_at", needs: [][]string{{"snoc"}}, from: "definition", t: Forall([]*Term{s, v, i}, [][]*Term{{mkRaw("app", "sa_"+SSeq, SInt, t, i)}, {t, mkRaw("app", "sa_"+SSeq, SInt, s, i)}}, Implies(And(Le(I(0), i), Le(i, n)), mkRaw("=", "", SBool, mkRaw("app", "sa_"+SSeq, SInt, t, i), mkRaw("ite", "", SInt, mkRaw("=", "", SBool, i, n), v, mkRaw("app", "sa_"+SSeq, SInt, s, i)))))})
	}
	return t
}

var stringsInit bool

func initStrings() {
	if stringsInit {
		return
	}
	stringsInit = true
	TH.seqSort(SInt)
	a, b, c, i, lo, hi := bv("a", SSeq), bv("b", SSeq), bv("c", SSeq), bv("i", SInt), bv("lo", SInt), bv("hi", SInt)
	raw := func(name, srt string, args ...*Term) *Term { return mkRaw("app", name, srt, args...) }
	rl := func(s *Term) *Term { return raw("sl_"+SSeq, SInt, s) }
	rs := func(s, i *Term) *Term { return raw("sa_"+SSeq, SInt, s, i) }
	cat := raw("cat", SSeq, a, b)
	ax := func(name string, needs []string, vars []*Term, pats [][]*Term, body *Term, from string) {
		TH.addAxiom(&axiom{name: name, needs: [][]string{needs}, t: Forall(vars, pats, body), from: from})
	}
	eq := func(p, q *Term) *Term { return mkRaw("=", "", SBool, p, q) }
	ax("cat_len", []string{"cat"}, []*Term{a, b}, [][]*Term{{cat}}, eq(rl(cat), Add(rl(a), rl(b))), "definition")
	ax("cat_at", []string{"cat"}, []*Term{a, b, i}, [][]*Term{{rs(cat, i)}}, And(Implies(And(Le(I(0), i), Lt(i, rl(a))), eq(rs(cat, i), rs(a, i))),
		Implies(And(Le(rl(a), i), Lt(i, Add(rl(a), rl(b)))), eq(rs(cat, i), rs(b, Sub(i, rl(a)))))), "definition")
	cc := raw("cat", SSeq, cat, c)
	ax("cat_assoc", []string{"cat"}, []*Term{a, b, c}, [][]*Term{{cc}}, eq(cc, raw("cat", SSeq, a, raw("cat", SSeq, b, c))), "definition")
	e := strLit("")
	ax("cat_empty_l", []string{"cat"}, []*Term{b}, [][]*Term{{raw("cat", SSeq, e, b)}}, eq(raw("cat", SSeq, e, b), b), "definition")
	sub := raw("sub", SSeq, a, lo, hi)
	rng := And(Le(I(0), lo), Le(lo, hi), Le(hi, rl(a)))
	ax("sub_len", []string{"sub"}, []*Term{a, lo, hi}, [][]*Term{{sub}}, Implies(rng, eq(rl(sub), Sub(hi, lo))), "definition")
	ax("sub_at", []string{"sub"}, []*Term{a, lo, hi, i}, [][]*Term{{rs(sub, i)}}, Implies(And(rng, Le(I(0), i), Lt(i, Sub(hi, lo))), eq(rs(sub, i), rs(a, Add(lo, i)))), "definition")
	arr := raw("arrof", arrSort(SInt), a)
	el := App(eltName(SInt), SInt, arr, I(0), i)
	ax("arrof", []string{"arrof"}, []*Term{a, i}, [][]*Term{{el}}, eq(el, rs(a, i)), "definition")
	ax("arrof2", []string{"arrof"}, []*Term{a, i}, [][]*Term{{arr, rs(a, i)}}, eq(el, rs(a, i)), "definition")
	sid := raw("sid", SInt, a)
	ax("sid_inj", []string{"sid"}, []*Term{a}, [][]*Term{{sid}}, eq(raw("sid_inv", SSeq, sid), a), "definition")
	ch := raw("chr", SSeq, i)
	ax("chr_len", []string{"chr"}, []*Term{i}, [][]*Term{{ch}}, And(Le(I(1), rl(ch)), Le(rl(ch), I(4))), "trusted: Go string(rune) conversion")
	ax("chr_ascii", []string{"chr"}, []*Term{i}, [][]*Term{{ch}}, Implies(And(Le(I(0), i), Lt(i, I(128))), And(eq(rl(ch), I(1)), eq(rs(ch, I(0)), i))), "trusted: Go string(rune) conversion")
	r := raw("runes", SSeq, a)
	ax("runes_len", []string{"runes"}, []*Term{a}, [][]*Term{{r}}, And(Le(rl(r), rl(a)), Implies(Lt(I(0), rl(a)), Lt(I(0), rl(r)))), "trusted: Go []rune(string) conversion")
	// utf8p(s, n) is the UTF-8 text of the first n runes of s
	u := raw("utf8p", SSeq, a, i)
	ax("utf8p_def", []string{"utf8p"}, []*Term{a, i}, [][]*Term{{u}}, Implies(Le(i, I(0)), eq(u, e)), "definition")
	un := raw("utf8p", SSeq, a, Add(i, I(1)))
	_ = un
	ax("utf8p_step", []string{"utf8p"}, []*Term{a, i}, [][]*Term{{u}}, Implies(Lt(I(0), i), eq(u, raw("cat", SSeq, raw("utf8p_", SSeq, a, Sub(i, I(1))), raw("chr", SSeq, rs(a, Sub(i, I(1))))))), "definition")
	u_ := raw("utf8p_", SSeq, a, i)
	ax("utf8p_alias", []string{"utf8p_"}, []*Term{a, i}, [][]*Term{{u_, u}}, eq(u_, u), "definition")
	_ = big.NewInt
	_ = b
}

// viewSort returns the logical sort of values of type t.
func viewSort(t types.Type) string {
	switch u := und(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return SBool
		}
		if u.Info()&types.IsString != 0 {
			TH.seqSort(SInt)
			return SSeq
		}
		return SInt
	case *types.Slice:
		return seqSortFull(viewSort(u.Elem()))
	case *types.Struct:
		name := "V_" + mangle2(shortType(t))
		if _, ok := TH.dts[name]; !ok {
			fs := []string{}
			funs := []string{"mkv_" + name}
			var sorts []string
			for i := 0; i < u.NumFields(); i++ {
				s := viewSort(u.Field(i).Type())
				sel := name + "." + u.Field(i).Name()
				fs = append(fs, fmt.Sprintf("(%s %s)", sym(sel), s))
				funs = append(funs, sel)
				sorts = append(sorts, s)
			}
			TH.addDatatype(name, fmt.Sprintf("(declare-datatypes ((%s 0)) (((%s %s))))", name, sym("mkv_"+name), strings.Join(fs, " ")), funs...)
			a, b := bv("a", name), bv("b", name)
			v := App("veq_"+name, SBool, a, b)
			var ds []*Term
			ds = append(ds, v)
			for i := 0; i < u.NumFields(); i++ {
				sel := name + "." + u.Field(i).Name()
				ds = append(ds, Not(veq(App(sel, sorts[i], a), App(sel, sorts[i], b))))
			}
			TH.addAxiom(&axiom{name: "veq_" + name, needs: [][]string{{"veq_" + name}}, from: "definition",
				t: Forall([]*Term{a, b}, [][]*Term{{v}}, And(mkRaw("=", "", SBool, v, mkRaw("=", "", SBool, a, b)), Or(ds...)))})
		}
		return name
	}
	return SInt
}

func mangle2(s string) string {
	return strings.NewReplacer("(", "L", ")", "R", " ", "_", "/", ".", "*", "p", "[", "B", "]", "B", "{", "_", "}", "_", ";", "_").Replace(s)
}

func seqSortFull(elem string) string { return TH.seqSort(elem) }

func seqElem(srt string) string {
	TH.mu.Lock()
	defer TH.mu.Unlock()
	e, ok := TH.seqs[srt]
	if !ok {
		panic("not a seq sort: " + srt)
	}
	return e
}

// famsOf lists the memory families a view of a slice with elements of type t needs besides its own rows.
func famsOf(t types.Type) []string {
	seen := map[string]bool{}
	var out []string
	var walk func(t types.Type)
	walk = func(t types.Type) {
		switch u := und(t).(type) {
		case *types.Slice:
			for _, l := range leavesOf(u.Elem()) {
				k := famKey(shortType(u.Elem()), "", l)
				if !seen[k] {
					seen[k] = true
					out = append(out, k)
				}
			}
			walk(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type())
			}
		case *types.Array:
			walk(u.Elem())
		}
	}
	walk(t)
	return out
}

// viewVal gives the logical view of a value.
func viewVal(v Value, t types.Type, fam func(k string) *Term) *Term {
	switch y := v.(type) {
	case Scalar:
		return y.T
	case SliceVal:
		return mkView(y, fam)
	case StructVal:
		u := y.Typ.Underlying().(*types.Struct)
		name := viewSort(y.Typ)
		var as []*Term
		for i, f := range y.F {
			as = append(as, viewVal(f, u.Field(i).Type(), fam))
		}
		return App("mkv_"+name, name, as...)
	case MapVal:
		return y.Ref
	case PtrVal:
		return y.Ref
	case IfaceVal:
		return y.Tag
	case FuncVal:
		return y.Ref
	}
	panic(unsupported("view of %T", v))
}

var viewAx = map[string]bool{}

func mkView(s SliceVal, fam func(k string) *Term) *Term {
	et := s.Typ.Underlying().(*types.Slice).Elem()
	es := viewSort(et)
	ss := seqSortFull(es)
	ls := leavesOf(et)
	var args []*Term
	for _, l := range ls {
		args = append(args, Select(fam(famKey(shortType(et), "", l)), s.Ref))
	}
	fks := famsOf(et)
	for _, k := range fks {
		args = append(args, fam(k))
	}
	args = append(args, s.Off, s.Len)
	name := "mk:" + shortType(et)
	if es == SInt && len(ls) == 1 {
		name = "mk:int" // one view constructor for all integer element types
	}
	if !viewAx[name] {
		viewAx[name] = true
		var vs []*Term
		for i, l := range ls {
			vs = append(vs, bv(fmt.Sprintf("row%d", i), arrSort(l.sort)))
		}
		fm := map[string]*Term{}
		for i, k := range fks {
			f := bv(fmt.Sprintf("fam%d", i), arrSort(arrSort(fams[k].leaf.sort)))
			vs = append(vs, f)
			fm[k] = f
		}
		o, n, i := bv("o", SInt), bv("n", SInt), bv("i", SInt)
		vs = append(vs, o, n)
		mk := App(name, ss, vs...)
		TH.addAxiom(&axiom{name: name + "_len", needs: [][]string{{name}}, from: "definition", t: Forall(vs, [][]*Term{{mk}}, Implies(And(Le(I(0), n), Le(n, Big(maxLenBig))), mkRaw("=", "", SBool, mkRaw("app", "sl_"+ss, SInt, mk), n)))})
		ts := make([]*Term, len(ls))
		for j, l := range ls {
			eltAxioms(l.sort)
			ts[j] = App(eltName(l.sort), l.sort, vs[j], o, i)
		}
		ev, _ := unflatten(et, ts)
		body := mkRaw("=", "", SBool, App("sa_"+ss, es, mk, i), viewVal(ev, et, func(k string) *Term { return fm[k] }))
		pats := [][]*Term{{App("sa_"+ss, es, mk, i)}}
		for j := range ls {
			pats = append(pats, []*Term{mk, ts[j]})
		}
		TH.addAxiom(&axiom{name: name + "_at", needs: [][]string{{name}}, from: "definition", t: Forall(append(append([]*Term{}, vs...), i), pats, body)})
	}
	if es == SInt && len(args) == 3 {
		if a := args[0]; a.op == "app" && a.name == "arrof" && args[1] == I(0) && args[2] == sl(a.args[0]) {
			return a.args[0] // a slice made from a sequence shows that sequence
		}
	}
	return App(name, ss, args...)
}

// mkPView is the view of a slice of pointers as the sequence of what they point to.
func mkPView(s SliceVal, fam func(k string) *Term) *Term {
	pt := s.Typ.Underlying().(*types.Slice).Elem()
	t := pt.Underlying().(*types.Pointer).Elem()
	es := viewSort(t)
	ss := seqSortFull(es)
	var args []*Term
	for _, l := range leavesOf(pt) {
		args = append(args, Select(fam(famKey(shortType(pt), "", l)), s.Ref))
	}
	ls := leavesOf(t)
	for _, l := range ls {
		args = append(args, fam(famKey(shortType(t), "", l)))
	}
	fks := famsOf(t)
	for _, k := range fks {
		args = append(args, fam(k))
	}
	args = append(args, s.Off, s.Len)
	name := "mkp:" + shortType(t)
	if !viewAx[name] {
		viewAx[name] = true
		eltAxioms(SInt)
		vs := []*Term{bv("refs", arrSort(SInt)), bv("idxs", arrSort(SInt))}
		o, n, i := bv("o", SInt), bv("n", SInt), bv("i", SInt)
		r, ix := App(eltName(SInt), SInt, vs[0], o, i), App(eltName(SInt), SInt, vs[1], o, i)
		ts := make([]*Term, len(ls))
		for j, l := range ls {
			m := bv(fmt.Sprintf("mem%d", j), arrSort(arrSort(l.sort)))
			vs = append(vs, m)
			ts[j] = mkRaw("select", "", l.sort, mkRaw("select", "", arrSort(l.sort), m, r), ix)
		}
		fm := map[string]*Term{}
		for i, k := range fks {
			f := bv(fmt.Sprintf("fam%d", i), arrSort(arrSort(fams[k].leaf.sort)))
			vs = append(vs, f)
			fm[k] = f
		}
		vs = append(vs, o, n)
		mk := App(name, ss, vs...)
		TH.addAxiom(&axiom{name: name + "_len", needs: [][]string{{name}}, from: "definition", t: Forall(vs, [][]*Term{{mk}}, Implies(And(Le(I(0), n), Le(n, Big(maxLenBig))), mkRaw("=", "", SBool, mkRaw("app", "sl_"+ss, SInt, mk), n)))})
		ev, _ := unflatten(t, ts)
		el := App("sa_"+ss, es, mk, i)
		TH.addAxiom(&axiom{name: name + "_at", needs: [][]string{{name}}, from: "definition", t: Forall(append(append([]*Term{}, vs...), i), [][]*Term{{el}, {mk, r}},
			mkRaw("=", "", SBool, el, viewVal(ev, t, func(k string) *Term { return fm[k] })))})
	}
	return App(name, ss, args...)
}

// seqOf is the sequence view of a slice in a state.
func (x *Exec) seqOf(st *State, s SliceVal) *Term {
	if s.Cell != nil {
		s = x.realSlice(st, s)
	}
	return mkView(s, func(k string) *Term { return st.memGet(k) })
}

// viewOf is the logical view of any value in a state.
func (x *Exec) viewOf(st *State, v Value, t types.Type) *Term {
	if s, ok := v.(SliceVal); ok && s.Cell != nil {
		v = x.realSlice(st, s)
	}
	return viewVal(v, t, func(k string) *Term { return st.memGet(k) })
}

// coreAxioms registers the axioms of element access.
func eltAxioms(srt string) {
	n := eltName(srt)
	a, o, i, p := bv("a", arrSort(srt)), bv("o", SInt), bv("i", SInt), bv("p", SInt)
	v := bv("v", srt)
	e := App(n, srt, a, o, i)
	TH.addAxiom(&axiom{name: n, needs: [][]string{{n}}, from: "definition", t: Forall([]*Term{a, o, i}, [][]*Term{{e}}, mkRaw("=", "", SBool, e, mkRaw("select", "", srt, a, Add(o, i))))})
	st := mkRaw("store", "", a.sort, a, p, v)
	e2 := App(n, srt, st, o, i)
	TH.addAxiom(&axiom{name: n + "_store", needs: [][]string{{n}}, from: "definition", t: Forall([]*Term{a, p, v, o, i}, [][]*Term{{e2}}, mkRaw("=", "", SBool, e2, mkRaw("ite", "", srt, Eq(p, Add(o, i)), v, e)))})
}
