package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Obl is one proof obligation.
type Obl struct {
	Fn, Kind, Label, Pos string
	Props                []string
	hyps                 []*Term
	goal                 *Term
	trace                string
	res                  *solveResult
	failed               bool
}

// Exec symbolically executes one root function (or lemma) against its contract.
type Exec struct {
	eng     *Engine
	root    *ssa.Function
	con     *Contract
	names   map[string]Value // contract names of the root call
	pre     *State           // pre-state of the root
	locs    []modLoc         // what the root contract may modify
	obls    []*Obl
	quiet   int
	nframes int
	npaths  int
	nsteps  int
	nret    int // feasible normal exits
	npan    int
	start   time.Time
	inlined map[string]bool
	used    map[*Contract]bool
	trusted map[string]bool
	loopN   int
	hypN    int

	fast bool // loop candidates: first back end only
	weak bool

	discovering int // inside the discovery rounds of a loop with inner loops
	loopDepth   int // inside the invariant iteration of a loop
	killed      map[string]map[string]bool
}

type Frame struct {
	id     int
	fn     *ssa.Function
	parent *Frame
	depth  int
	ret    func(st *State, res Value)
	unwind func(st *State, v Value)
	li     *loopInfo
}

const maxDepth = 14

func posOf(eng *Engine, p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := eng.fset.Position(p)
	return strings.TrimPrefix(ps.Filename, eng.repo+"/") + fmt.Sprintf(":%d", ps.Line)
}

// check records an obligation and assumes it afterwards.
// checkOnly emits an obligation without using it afterwards.
func (x *Exec) checkOnly(st *State, kind, label string, pos token.Pos, props []string, goal *Term) {
	x.check(st.clone(), kind, label, pos, props, goal)
}

func (x *Exec) check(st *State, kind, label string, pos token.Pos, props []string, goal *Term) {
	if goal == tTrue {
		if x.quiet == 0 {
			x.obls = append(x.obls, &Obl{Fn: x.con.Name, Kind: kind, Label: label, Pos: posOf(x.eng, pos), Props: props, goal: goal, res: &solveResult{res: "unsat", backend: "simplifier"}})
		}
		return
	}
	if st.infeasible() {
		return
	}
	if x.quiet == 0 {
		x.obls = append(x.obls, &Obl{Fn: x.con.Name, Kind: kind, Label: label, Pos: posOf(x.eng, pos), Props: props, hyps: st.hyps(), goal: goal, trace: st.traceStr()})
	}
	st.assume(goal)
}

// feasible is a quick satisfiability test of the path condition plus c.
func (x *Exec) feasible(st *State, c *Term) bool {
	if c == tFalse || st.infeasible() {
		return false
	}
	if c == tTrue {
		return true
	}
	if st.implied(c) {
		return true
	}
	if st.implied(Not(c)) {
		return false
	}
	hs := append(st.hyps(), c)
	r := TH.solve(hs, x.eng.feasMs, 1)
	return r.res != "unsat"
}

func (x *Exec) step() {
	x.nsteps++
	if x.nsteps%64 == 0 && (time.Since(x.start) > x.eng.fnBudget || x.fast && time.Since(x.start) > x.eng.fnBudget*3/4) {
		panic(unsupported("symbolic execution budget exceeded"))
	}
}

// ---------- values ----------

func scalar(t *Term, typ types.Type) Value { return Scalar{t, typ} }

func (x *Exec) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroValue(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Scalar{B(constant.BoolVal(c.Value)), t}
	case constant.String:
		return Scalar{strLit(constant.StringVal(c.Value)), t}
	case constant.Int:
		b, ok := t.Underlying().(*types.Basic)
		if ok && b.Info()&types.IsInteger != 0 {
			v, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
			return Scalar{Big(v), t}
		}
	}
	return Scalar{App("const!"+sanitize(c.Value.ExactString()), SInt), t}
}

func (x *Exec) val(st *State, fr *Frame, v ssa.Value) Value {
	switch y := v.(type) {
	case *ssa.Const:
		return x.constVal(y)
	case *ssa.Function:
		return FuncVal{Fn: y, Typ: y.Signature}
	case *ssa.Global:
		return PtrVal{Root: "glob:" + y.String(), Ref: I(1), Idx: I(0), Elem: y.Type().(*types.Pointer).Elem()}
	case *ssa.Builtin:
		return y
	}
	r, ok := st.env[envKey{fr.id, v}]
	if !ok {
		panic(unsupported("no value for %s in %s", v.Name(), fr.fn))
	}
	return r
}

func (x *Exec) term(st *State, fr *Frame, v ssa.Value) *Term {
	s, ok := x.val(st, fr, v).(Scalar)
	if !ok {
		panic(unsupported("scalar expected for %s (%T)", v, x.val(st, fr, v)))
	}
	return s.T
}

func (x *Exec) set(st *State, fr *Frame, v ssa.Value, r Value) { st.env[envKey{fr.id, v}] = r }

// wrap reduces a mathematical result to the range of a sized integer type (64-bit types are left mathematical).
func wrap(t *Term, typ types.Type) *Term {
	b, ok := typ.Underlying().(*types.Basic)
	if !ok {
		return t
	}
	bits, signed := intBits(b)
	if bits == 0 {
		return t
	}
	lo, hi := intRange(typ)
	if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
		return t
	}
	if bits == 64 {
		if !signed && (t.lo == nil || t.lo.Sign() < 0) {
			// unsigned subtraction may wrap: keep exact
			m := new(big.Int).Lsh(one, 64)
			return Mod(t, Big(m))
		}
		return t
	}
	m := new(big.Int).Lsh(one, uint(bits))
	if !signed {
		return Mod(t, Big(m))
	}
	h := new(big.Int).Lsh(one, uint(bits-1))
	return Sub(Mod(Add(t, Big(h)), Big(m)), Big(h))
}

func pow2(n int64) *Term { return Big(new(big.Int).Lsh(one, uint(n))) }

func bitOr(a, b *Term) (*Term, bool) {
	try := func(a, b *Term) (*Term, bool) {
		if b.lo == nil || b.lo.Sign() < 0 || b.hi == nil {
			return nil, false
		}
		k := b.hi.BitLen()
		if k == 0 {
			return a, true
		}
		m := new(big.Int).Lsh(one, uint(k))
		_, r, _ := splitMultiple(a, m)
		if n, ok := litInt(r); ok && n == 0 && a.lo != nil && a.lo.Sign() >= 0 {
			return Add(a, b), true
		}
		return nil, false
	}
	if r, ok := try(a, b); ok {
		return r, true
	}
	return try(b, a)
}

func (x *Exec) bitop(op string, a, b *Term, typ types.Type) *Term {
	if termLess(b, a) {
		a, b = b, a
	}
	la, oka := litInt(a)
	lb, okb := litInt(b)
	if oka && okb {
		switch op {
		case "or":
			return I(la | lb)
		case "xor":
			return I(la ^ lb)
		case "and":
			return I(la & lb)
		}
	}
	t := App("bit_"+op, SInt, a, b)
	lo, hi := intRange(typ)
	if a.lo != nil && b.lo != nil && a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
		lo = Big0
		if a.hi != nil && b.hi != nil {
			m := a.hi
			if b.hi.Cmp(m) > 0 {
				m = b.hi
			}
			hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(m.BitLen())), one)
		}
	}
	return bound(t, lo, hi)
}

func (x *Exec) binop(st *State, op token.Token, a, b Value, typ types.Type, opTyp types.Type, pos token.Pos) Value {
	switch op {
	case token.EQL:
		return Scalar{x.valEq(st, a, b), typ}
	case token.NEQ:
		return Scalar{Not(x.valEq(st, a, b)), typ}
	}
	sa_, ok1 := a.(Scalar)
	sb_, ok2 := b.(Scalar)
	if !ok1 || !ok2 {
		panic(unsupported("binop %s on %T", op, a))
	}
	p, q := sa_.T, sb_.T
	if p.sort == SSeq {
		switch op {
		case token.ADD:
			return Scalar{Cat(p, q), typ}
		case token.LSS:
			return Scalar{App("str_lt", SBool, p, q), typ}
		case token.GTR:
			return Scalar{App("str_lt", SBool, q, p), typ}
		case token.LEQ:
			return Scalar{Not(App("str_lt", SBool, q, p)), typ}
		case token.GEQ:
			return Scalar{Not(App("str_lt", SBool, p, q)), typ}
		}
	}
	if bb, ok := opTyp.Underlying().(*types.Basic); ok && bb.Info()&(types.IsFloat|types.IsComplex) != 0 {
		f := App("float_"+op.String(), SInt, p, q)
		if bb2, ok := typ.Underlying().(*types.Basic); ok && bb2.Info()&types.IsBoolean != 0 {
			return Scalar{App("floatb_"+op.String(), SBool, p, q), typ}
		}
		return Scalar{f, typ}
	}
	switch op {
	case token.LSS:
		return Scalar{Lt(p, q), typ}
	case token.LEQ:
		return Scalar{Le(p, q), typ}
	case token.GTR:
		return Scalar{Gt(p, q), typ}
	case token.GEQ:
		return Scalar{Ge(p, q), typ}
	case token.ADD:
		return Scalar{wrap(Add(p, q), typ), typ}
	case token.SUB:
		return Scalar{wrap(Sub(p, q), typ), typ}
	case token.MUL:
		return Scalar{wrap(Mul(p, q), typ), typ}
	case token.QUO, token.REM:
		x.check(st, "runtime", "no division by zero", pos, nil, Ne(q, I(0)))
		if p.lo != nil && p.lo.Sign() >= 0 && q.lo != nil && q.lo.Sign() >= 0 {
			if op == token.QUO {
				return Scalar{Div(p, q), typ}
			}
			return Scalar{Mod(p, q), typ}
		}
		n, ok := litInt(q)
		if ok && n > 0 {
			// truncated division
			d := Ite(Ge(p, I(0)), Div(p, q), Neg(Div(Neg(p), q)))
			if op == token.QUO {
				return Scalar{d, typ}
			}
			return Scalar{Sub(p, Mul(q, d)), typ}
		}
		lo, hi := intRange(typ)
		return Scalar{bound(freshVar("quo", SInt), lo, hi), typ}
	case token.SHL:
		if n, ok := litInt(q); ok && n >= 0 && n < 64 {
			return Scalar{wrap(Mul(pow2(n), p), typ), typ}
		}
	case token.SHR:
		if n, ok := litInt(q); ok && n >= 0 && n < 64 {
			return Scalar{Div(p, pow2(n)), typ}
		}
	case token.AND:
		if sa_.T.sort == SBool {
			return Scalar{And(p, q), typ}
		}
		for _, pq := range [][2]*Term{{p, q}, {q, p}} {
			if pq[1].op == "lit" && pq[1].val.Sign() >= 0 {
				m := new(big.Int).Add(pq[1].val, one)
				if new(big.Int).And(m, pq[1].val).Sign() == 0 {
					return Scalar{Mod(pq[0], Big(m)), typ}
				}
				// contiguous high mask: (2^n-1) - (2^k-1)
				k := pq[1].val.TrailingZeroBits()
				hiM := new(big.Int).Rsh(pq[1].val, k)
				if new(big.Int).And(hiM, new(big.Int).Add(hiM, one)).Sign() == 0 {
					return Scalar{Mul(pow2(int64(k)), Mod(Div(pq[0], pow2(int64(k))), Big(new(big.Int).Add(hiM, one)))), typ}
				}
			}
		}
		return Scalar{x.bitop("and", p, q, typ), typ}
	case token.AND_NOT:
		and := x.binop(st, token.AND, a, b, typ, opTyp, pos).(Scalar).T
		return Scalar{Sub(p, and), typ}
	case token.OR, token.XOR:
		if p.sort == SBool {
			return Scalar{Or(p, q), typ}
		}
		if r, ok := bitOr(p, q); ok {
			return Scalar{r, typ}
		}
		nm := "or"
		if op == token.XOR {
			nm = "xor"
		}
		return Scalar{x.bitop(nm, p, q, typ), typ}
	}
	lo, hi := intRange(typ)
	return Scalar{bound(App("binop_"+fmt.Sprint(int(op))+"_"+mangle(shortType(typ)), SInt, p, q), lo, hi), typ}
}

// valEq is Go's == on two values.
func (x *Exec) valEq(st *State, a, b Value) *Term {
	switch p := a.(type) {
	case Scalar:
		q := b.(Scalar)
		if p.T.sort == SSeq {
			return strEq(p.T, q.T)
		}
		return Eq(p.T, q.T)
	case SliceVal:
		q, ok := b.(SliceVal)
		if !ok {
			break
		}
		if isNilSlice(q) {
			return x.sliceNil(p)
		}
		if isNilSlice(p) {
			return x.sliceNil(q)
		}
	case PtrVal:
		q := b.(PtrVal)
		p, q = x.resolveCell(st, p), x.resolveCell(st, q)
		if p.Cell != nil || q.Cell != nil {
			if p.Cell == nil || q.Cell == nil {
				return tFalse
			}
			return B(p.Cell == q.Cell && fmt.Sprint(p.CPath) == fmt.Sprint(q.CPath))
		}
		if p.Path != q.Path && !isZeroT(p.Ref) && !isZeroT(q.Ref) {
			return tFalse
		}
		if isZeroT(p.Ref) || isZeroT(q.Ref) {
			return Eq(p.Ref, q.Ref)
		}
		return And(Eq(p.Ref, q.Ref), Or(Eq(p.Ref, I(0)), Eq(p.addr(), q.addr())))
	case MapVal:
		return Eq(p.Ref, b.(MapVal).Ref)
	case FuncVal:
		q := b.(FuncVal)
		if p.Fn != nil && q.Ref != nil && isZeroT(q.Ref) || q.Fn != nil && p.Ref != nil && isZeroT(p.Ref) {
			return tFalse
		}
		if p.Ref != nil && q.Ref != nil {
			return Eq(p.Ref, q.Ref)
		}
	case IfaceVal:
		q, ok := b.(IfaceVal)
		if ok {
			if isZeroT(q.Tag) {
				return Eq(p.Tag, I(0))
			}
			if isZeroT(p.Tag) {
				return Eq(q.Tag, I(0))
			}
			if p.Ref != nil && q.Ref != nil {
				return Or(And(Eq(p.Tag, I(0)), Eq(q.Tag, I(0))), And(Eq(p.Tag, q.Tag), Or(And(Eq(p.Ref, q.Ref), Eq(p.Idx, q.Idx)), App("iface_eq", SBool, p.Tag, p.Ref, p.Idx, q.Ref, q.Idx))))
			}
		}
	case StructVal:
		q := b.(StructVal)
		var cs []*Term
		for i := range p.F {
			cs = append(cs, x.valEq(st, p.F[i], q.F[i]))
		}
		return And(cs...)
	case ArrVal:
		q := b.(ArrVal)
		var cs []*Term
		for i := range p.E {
			cs = append(cs, x.valEq(st, p.E[i], q.E[i]))
		}
		return And(cs...)
	}
	panic(unsupported("== on %T and %T", a, b))
}

func isZeroT(t *Term) bool { n, ok := litInt(t); return t != nil && ok && n == 0 }
func isNilSlice(s SliceVal) bool {
	return s.Cell == nil && s.Ref != nil && isZeroT(s.Ref)
}
func (x *Exec) sliceNil(s SliceVal) *Term {
	if s.Cell != nil {
		return tFalse
	}
	return Eq(s.Ref, I(0))
}

// ---------- control flow ----------

func (x *Exec) newFrame(fn *ssa.Function, parent *Frame) *Frame {
	x.nframes++
	d := 0
	if parent != nil {
		d = parent.depth + 1
	}
	if d > maxDepth {
		panic(unsupported("inlining depth exceeded at %s", fn))
	}
	return &Frame{id: x.nframes, fn: fn, parent: parent, depth: d, li: x.eng.loops(fn)}
}

func (x *Exec) jump(st *State, fr *Frame, from, to *ssa.BasicBlock) {
	x.step()
	// leaving loops
	for k, c := range st.loops {
		if k.frame == fr.id && !c.body[to] {
			if c.mode != loopFinal {
				return
			}
			delete(st.loops, k)
		}
	}
	// phis
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	var phis []*ssa.Phi
	var vals []Value
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, x.val(st, fr, ph.Edges[pi]))
	}
	for i, ph := range phis {
		x.set(st, fr, ph, vals[i])
	}
	if lp := fr.li.header[to]; lp != nil {
		x.enterHeader(st, fr, lp, len(phis), lp.body[from])
		return
	}
	x.run(st, fr, to, len(phis))
}

func (x *Exec) run(st *State, fr *Frame, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		x.step()
		switch in := b.Instrs[i].(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			panic("phi")
		case *ssa.Jump:
			x.jump(st, fr, b, b.Succs[0])
			return
		case *ssa.If:
			c := x.term(st, fr, in.Cond)
			for k, lc := range st.loops {
				if k.frame == fr.id && lc.onCond != nil {
					lc.onCond(c)
				}
			}
			x.branch(st, c, func(s *State) { x.jump(s, fr, b, b.Succs[0]) }, func(s *State) { x.jump(s, fr, b, b.Succs[1]) })
			return
		case *ssa.Return:
			var res Value
			switch len(in.Results) {
			case 0:
				res = TupleVal{}
			case 1:
				res = x.val(st, fr, in.Results[0])
			default:
				var tv TupleVal
				for _, r := range in.Results {
					tv = append(tv, x.val(st, fr, r))
				}
				res = tv
			}
			x.leave(st, fr, func() { fr.ret(st, res) })
			return
		case *ssa.Panic:
			st.note("panic at %s", posOf(x.eng, in.Pos()))
			x.doPanic(st, fr, x.val(st, fr, in.X))
			return
		case *ssa.RunDefers:
			bb, ii := b, i+1
			x.runDefers(st, fr, func(s *State) { x.run(s, fr, bb, ii) })
			return
		case *ssa.Defer:
			d := deferred{call: &in.Call}
			if in.Call.IsInvoke() {
				d.fn = x.val(st, fr, in.Call.Value)
			} else {
				d.fn = x.val(st, fr, in.Call.Value)
			}
			for _, a := range in.Call.Args {
				d.args = append(d.args, x.val(st, fr, a))
			}
			st.defers[fr.id] = append(st.defers[fr.id], d)
		case *ssa.Call:
			bb, ii := b, i+1
			x.callInstr(st, fr, in, func(s *State, r Value) {
				x.set(s, fr, in, r)
				x.run(s, fr, bb, ii)
			})
			return
		case *ssa.Next:
			bb, ii := b, i+1
			x.next(st, fr, in, func(s *State, r Value) {
				x.set(s, fr, in, r)
				x.run(s, fr, bb, ii)
			})
			return
		case *ssa.TypeAssert:
			bb, ii := b, i+1
			x.typeAssert(st, fr, in, func(s *State, r Value) {
				x.set(s, fr, in, r)
				x.run(s, fr, bb, ii)
			})
			return
		case *ssa.Store:
			p := x.val(st, fr, in.Addr).(PtrVal)
			x.nilCheck(st, p, in.Pos())
			x.store(st, p, x.val(st, fr, in.Val))
		case *ssa.MapUpdate:
			m := x.val(st, fr, in.Map).(MapVal)
			x.check(st, "runtime", "no assignment to nil map", in.Pos(), nil, Ne(m.Ref, I(0)))
			x.mapStore(st, m, x.val(st, fr, in.Key), x.val(st, fr, in.Value))
		default:
			v, ok := in.(ssa.Value)
			if !ok {
				panic(unsupported("instruction %T in %s", in, fr.fn))
			}
			x.set(st, fr, v, x.eval(st, fr, v))
		}
	}
}

// leave ends loops of the frame on return or unwinding.
func (x *Exec) leave(st *State, fr *Frame, k func()) {
	for key, c := range st.loops {
		if key.frame == fr.id {
			if c.mode != loopFinal {
				return
			}
			delete(st.loops, key)
		}
	}
	k()
}

func (x *Exec) branch(st *State, c *Term, yes, no func(*State)) {
	if c == tTrue {
		yes(st)
		return
	}
	if c == tFalse {
		no(st)
		return
	}
	fy := x.feasible(st, c)
	fn := x.feasible(st, Not(c))
	if fy && fn {
		x.npaths++
		if x.npaths > x.eng.maxPaths {
			panic(unsupported("too many paths"))
		}
		s2 := st.clone()
		st.assume(c)
		yes(st)
		s2.assume(Not(c))
		no(s2)
		return
	}
	if fy {
		st.assume(c)
		yes(st)
	} else if fn {
		st.assume(Not(c))
		no(st)
	}
}

func (x *Exec) runDefers(st *State, fr *Frame, k func(*State)) {
	ds := st.defers[fr.id]
	if len(ds) == 0 {
		k(st)
		return
	}
	d := ds[len(ds)-1]
	st.defers[fr.id] = ds[: len(ds)-1 : len(ds)-1]
	x.callCommon(st, fr, d.call, d.fn, d.args, d.call.Pos(), func(s *State, _ Value) { x.runDefers(s, fr, k) })
}

func (x *Exec) doPanic(st *State, fr *Frame, v Value) {
	x.leave(st, fr, func() {
		st.panicking = true
		st.panicV = v
		x.runDefers(st, fr, func(s *State) {
			if !s.panicking { // recovered
				if fr.fn.Recover == nil {
					fr.ret(s, x.zeroResults(fr.fn))
					return
				}
				x.run(s, fr, fr.fn.Recover, 0)
				return
			}
			fr.unwind(s, s.panicV)
		})
	})
}

func (x *Exec) zeroResults(fn *ssa.Function) Value {
	rs := fn.Signature.Results()
	if rs.Len() == 1 {
		return zeroValue(rs.At(0).Type())
	}
	var tv TupleVal
	for i := 0; i < rs.Len(); i++ {
		tv = append(tv, zeroValue(rs.At(i).Type()))
	}
	return tv
}

func (x *Exec) nilCheck(st *State, p PtrVal, pos token.Pos) {
	if p.Cell != nil || p.Path != "" || strings.HasPrefix(p.Root, "glob:") {
		return
	}
	if p.Off != nil {
		return // slice element: bounds were checked
	}
	if p.Ref.lo != nil && p.Ref.lo.Sign() > 0 {
		return
	}
	if d := Sub(p.Ref, alloc0); d.lo != nil && d.lo.Sign() >= 0 {
		return // freshly allocated
	}
	x.check(st, "runtime", "no nil pointer dereference", pos, nil, Ne(p.Ref, I(0)))
}

// ---------- pure instructions ----------

func (x *Exec) newCell(st *State, t types.Type, name string) *Cell {
	cur.cell++
	c := &Cell{id: cur.cell, typ: t, name: name}
	st.cells[c] = zeroValue(t)
	return c
}

func (x *Exec) eval(st *State, fr *Frame, v ssa.Value) Value {
	switch in := v.(type) {
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		c := x.newCell(st, t, in.Comment)
		return PtrVal{Cell: c, Elem: t, Root: shortType(t)}
	case *ssa.BinOp:
		return x.binop(st, in.Op, x.val(st, fr, in.X), x.val(st, fr, in.Y), in.Type(), in.X.Type(), in.Pos())
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			p := x.val(st, fr, in.X).(PtrVal)
			x.nilCheck(st, p, in.Pos())
			return retype(x.load(st, p), in.Type())
		case token.NOT:
			return Scalar{Not(x.term(st, fr, in.X)), in.Type()}
		case token.SUB:
			return Scalar{wrap(Neg(x.term(st, fr, in.X)), in.Type()), in.Type()}
		case token.XOR:
			t := x.term(st, fr, in.X)
			_, hi := intRange(in.Type())
			if b := in.Type().Underlying().(*types.Basic); b.Info()&types.IsUnsigned != 0 {
				return Scalar{Sub(Big(hi), t), in.Type()}
			}
			return Scalar{Sub(I(-1), t), in.Type()}
		}
		panic(unsupported("unop %s", in.Op))
	case *ssa.ChangeType:
		return retype(x.val(st, fr, in.X), in.Type())
	case *ssa.ChangeInterface:
		y := x.val(st, fr, in.X).(IfaceVal)
		if t, ok := in.Type().Underlying().(*types.Interface); !ok || t.NumMethods() > 0 {
			y.Typ = in.Type()
		}
		return y
	case *ssa.Convert:
		return x.convert(st, x.val(st, fr, in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		return x.convert(st, x.val(st, fr, in.X), in.X.Type(), in.Type())
	case *ssa.MakeInterface:
		d := x.val(st, fr, in.X)
		return IfaceVal{Tag: I(int64(x.eng.typeID(in.X.Type()))), Typ: in.Type(), Dyn: in.X.Type(), DynV: d}
	case *ssa.MakeClosure:
		f := FuncVal{Fn: in.Fn.(*ssa.Function), Typ: in.Type()}
		for _, b := range in.Bindings {
			f.Bind = append(f.Bind, x.val(st, fr, b))
		}
		return f
	case *ssa.MakeMap:
		ref := st.newRef()
		m := MapVal{ref, in.Type()}
		dk, _ := x.mapKeys(m)
		st.mem[dk] = Store(st.memGet(dk), ref, ConstArr(tFalse))
		return m
	case *ssa.MakeSlice:
		n := x.term(st, fr, in.Len)
		c := x.term(st, fr, in.Cap)
		x.check(st, "runtime", "make: length in range", in.Pos(), nil, And(Le(I(0), n), Le(n, c)))
		st.assume(Le(n, Big(maxLenBig))) // more does not fit in memory
		return x.makeSlice(st, in.Type(), n, c)
	case *ssa.Extract:
		return x.val(st, fr, in.Tuple).(TupleVal)[in.Index]
	case *ssa.Field:
		return x.val(st, fr, in.X).(StructVal).F[in.Field]
	case *ssa.FieldAddr:
		p := x.val(st, fr, in.X).(PtrVal)
		x.nilCheck(st, p, in.Pos())
		return ptrField(x.resolveCell(st, p), in.Field)
	case *ssa.Index:
		i := x.term(st, fr, in.Index)
		switch y := x.val(st, fr, in.X).(type) {
		case Scalar:
			x.check(st, "runtime", "string index in range", in.Pos(), nil, And(Le(I(0), i), Lt(i, sl(y.T))))
			return Scalar{byteAt(y.T, i), in.Type()}
		case ArrVal:
			if n, ok := litInt(i); ok && n >= 0 && n < int64(len(y.E)) {
				return y.E[n]
			}
		}
		panic(unsupported("index"))
	case *ssa.IndexAddr:
		i := x.term(st, fr, in.Index)
		switch y := x.val(st, fr, in.X).(type) {
		case SliceVal:
			x.check(st, "runtime", "index in range", in.Pos(), nil, And(Le(I(0), i), Lt(i, y.Len)))
			et := y.Typ.Underlying().(*types.Slice).Elem()
			if y.Cell != nil {
				if _, prom := st.cells[y.Cell].(promoted); !prom {
					if n, ok := litInt(i); ok {
						o, _ := litInt(y.Off)
						return PtrVal{Cell: y.Cell, CPath: []int{int(o + n)}, Elem: et, Root: shortType(et)}
					}
				}
				y = x.realSlice(st, y)
			}
			return PtrVal{Root: shortType(et), Ref: y.Ref, Off: y.Off, Idx: i, Elem: et}
		case PtrVal:
			at := y.Elem.Underlying().(*types.Array)
			x.check(st, "runtime", "array index in range", in.Pos(), nil, And(Le(I(0), i), Lt(i, I(at.Len()))))
			y = x.resolveCell(st, y)
			if n, ok := litInt(i); ok {
				if y.Cell != nil || strings.HasPrefix(y.Root, "array:") {
					return ptrField(y, int(n))
				}
			}
			if y.Cell != nil {
				if len(y.CPath) != 0 {
					panic(unsupported("symbolic index into nested array"))
				}
				y = x.promote(st, y.Cell)
			}
			if strings.HasPrefix(y.Root, "array:") && y.Path == "" {
				return PtrVal{Root: shortType(at.Elem()), Ref: y.Ref, Off: I(0), Idx: Add(y.addr(), i), Elem: at.Elem()}
			}
		}
		panic(unsupported("IndexAddr"))
	case *ssa.Slice:
		return x.slice(st, fr, in)
	case *ssa.Lookup:
		switch y := x.val(st, fr, in.X).(type) {
		case MapVal:
			return x.mapLoad(st, y, x.val(st, fr, in.Index), in.CommaOk)
		case Scalar:
			i := x.term(st, fr, in.Index)
			x.check(st, "runtime", "string index in range", in.Pos(), nil, And(Le(I(0), i), Lt(i, sl(y.T))))
			return Scalar{byteAt(y.T, i), in.Type()}
		}
		panic(unsupported("lookup"))
	case *ssa.Range:
		y := x.val(st, fr, in.X)
		if m, ok := y.(MapVal); ok {
			c := x.newCell(st, types.Typ[types.Int], "visited")
			st.cells[c] = Scalar{ConstArr(tFalse), nil}
			return IterVal{M: m, Cell: c}
		}
		c := x.newCell(st, types.Typ[types.Int], "pos")
		return IterVal{M: y, Cell: c, Str: true}
	}
	panic(unsupported("instruction %T in %s", v, fr.fn))
}

func byteAt(s, i *Term) *Term {
	return bound(sa(SInt, s, i), Big0, big.NewInt(255))
}

// retype changes the static type of a value (same underlying representation).
func retype(v Value, t types.Type) Value {
	switch y := v.(type) {
	case Scalar:
		y.Typ = t
		return y
	case SliceVal:
		y.Typ = t
		return y
	case StructVal:
		y.Typ = t
		return y
	case ArrVal:
		y.Typ = t
		return y
	case MapVal:
		y.Typ = t
		return y
	case FuncVal:
		y.Typ = t
		return y
	case IfaceVal:
		y.Typ = t
		return y
	case PtrVal:
		if pt, ok := t.Underlying().(*types.Pointer); ok && shortType(pt.Elem()) != shortType(y.Elem) {
			y.Elem = pt.Elem()
		}
		return y
	}
	return v
}

func (x *Exec) makeSlice(st *State, t types.Type, n, c *Term) SliceVal {
	et := t.Underlying().(*types.Slice).Elem()
	ref := st.newRef()
	for _, l := range leavesOf(et) {
		k := famKey(shortType(et), "", l)
		st.mem[k] = Store(st.memGet(k), ref, ConstArr(zeroLeaf(l)))
	}
	return SliceVal{Ref: ref, Off: I(0), Len: n, Cap: c, Typ: t}
}

func (x *Exec) slice(st *State, fr *Frame, in *ssa.Slice) Value {
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return x.term(st, fr, v)
	}
	switch y := x.val(st, fr, in.X).(type) {
	case Scalar:
		lo := opt(in.Low, I(0))
		hi := opt(in.High, sl(y.T))
		x.check(st, "runtime", "string slice bounds in range", in.Pos(), nil, And(Le(I(0), lo), Le(lo, hi), Le(hi, sl(y.T))))
		return Scalar{SubStr(y.T, lo, hi), in.Type()}
	case SliceVal:
		lo := opt(in.Low, I(0))
		hi := opt(in.High, y.Len)
		mx := opt(in.Max, y.Cap)
		x.check(st, "runtime", "slice bounds in range", in.Pos(), nil, And(Le(I(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, y.Cap)))
		return SliceVal{Ref: y.Ref, Off: Add(y.Off, lo), Len: Sub(hi, lo), Cap: Sub(mx, lo), Typ: in.Type(), Cell: y.Cell}
	case PtrVal:
		at := y.Elem.Underlying().(*types.Array)
		n := I(at.Len())
		lo := opt(in.Low, I(0))
		hi := opt(in.High, n)
		mx := opt(in.Max, n)
		x.check(st, "runtime", "slice bounds in range", in.Pos(), nil, And(Le(I(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, n)))
		y = x.resolveCell(st, y)
		if y.Cell != nil && len(y.CPath) == 0 {
			_, okl := litInt(lo)
			_, okh := litInt(hi)
			if okl && okh {
				return SliceVal{Off: lo, Len: Sub(hi, lo), Cap: Sub(mx, lo), Typ: in.Type(), Cell: y.Cell, Ref: I(-1)}
			}
			y = x.promote(st, y.Cell)
		}
		if strings.HasPrefix(y.Root, "array:") && y.Path == "" {
			return SliceVal{Ref: y.Ref, Off: Add(y.addr(), lo), Len: Sub(hi, lo), Cap: Sub(mx, lo), Typ: in.Type()}
		}
	}
	panic(unsupported("slice of %s", in.X.Type()))
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (x *Exec) convert(st *State, v Value, from, to types.Type) Value {
	switch {
	case isIntT(from) && isIntT(to):
		return Scalar{wrap(v.(Scalar).T, to), to}
	case isString(from) && isString(to):
		return retype(v, to)
	case isIntT(from) && isString(to):
		return Scalar{Chr(v.(Scalar).T), to}
	case isString(to):
		if s, ok := v.(SliceVal); ok {
			et := s.Typ.Underlying().(*types.Slice).Elem()
			sq := x.seqOf(st, s)
			if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return Scalar{sq, to}
			}
			return Scalar{Utf8(sq), to}
		}
	case isString(from):
		if stt, ok := to.Underlying().(*types.Slice); ok {
			s := v.(Scalar).T
			b := stt.Elem().Underlying().(*types.Basic)
			if b.Kind() != types.Uint8 {
				s = Runes(s)
			}
			ref := st.newRef()
			l := leavesOf(stt.Elem())[0]
			k := famKey(shortType(stt.Elem()), "", l)
			st.mem[k] = Store(st.memGet(k), ref, ArrOf(s))
			n := sl(s)
			c := freshVar("cap", SInt)
			bound(c, Big0, maxLenBig)
			st.assume(Le(n, c))
			return SliceVal{Ref: ref, Off: I(0), Len: n, Cap: c, Typ: to}
		}
	}
	if len(leavesOf(to)) == 1 && len(leavesOf(from)) == 1 && leavesOf(to)[0].sort == SInt && leavesOf(from)[0].sort == SInt {
		lo, hi := intRange(to)
		return Scalar{bound(App("conv_"+mangle(shortType(from))+"_"+mangle(shortType(to)), SInt, v.(Scalar).T), lo, hi), to}
	}
	if s, ok := v.(SliceVal); ok {
		if _, ok := to.Underlying().(*types.Slice); ok {
			return retype(s, to)
		}
	}
	panic(unsupported("conversion %s -> %s", from, to))
}

// ---------- maps ----------

func (x *Exec) mapKeys(m MapVal) (dom string, vals []string) {
	mt := m.Typ.Underlying().(*types.Map)
	root := "map:" + shortType(mt)
	dom = famKey(root, ".$dom", leaf{"", SBool, "bool", types.Typ[types.Bool]})
	for _, l := range leavesOf(mt.Elem()) {
		vals = append(vals, famKey(root, ".$val", l))
	}
	return
}

func (x *Exec) keyTerm(st *State, k Value) *Term {
	switch y := k.(type) {
	case Scalar:
		if y.T.sort == SSeq {
			return Sid(y.T)
		}
		if y.T.sort == SBool {
			return Ite(y.T, I(1), I(0))
		}
		return y.T
	}
	panic(unsupported("map key %T", k))
}

func (x *Exec) mapDom(st *State, m MapVal) *Term {
	dk, _ := x.mapKeys(m)
	return Select(st.memGet(dk), m.Ref)
}

func (x *Exec) mapLoad(st *State, m MapVal, key Value, commaOk bool) Value {
	mt := m.Typ.Underlying().(*types.Map)
	k := x.keyTerm(st, key)
	_, vks := x.mapKeys(m)
	in := And(Ne(m.Ref, I(0)), Select(x.mapDom(st, m), k))
	ls := leavesOf(mt.Elem())
	ts := make([]*Term, len(ls))
	raw := make([]*Term, len(ls))
	for i, l := range ls {
		t := Select(Select(st.memGet(vks[i]), m.Ref), k)
		lo, hi := leafRange(l)
		if !t.bnd {
			bound(t, lo, hi)
		}
		raw[i] = t
		ts[i] = Ite(in, t, zeroLeaf(l))
	}
	rv, _ := unflatten(mt.Elem(), raw)
	assumeValue(st, rv)
	v, _ := unflatten(mt.Elem(), ts)
	if commaOk {
		return TupleVal{v, Scalar{in, types.Typ[types.Bool]}}
	}
	return v
}

func (x *Exec) mapStore(st *State, m MapVal, key, v Value) {
	mt := m.Typ.Underlying().(*types.Map)
	k := x.keyTerm(st, key)
	dk, vks := x.mapKeys(m)
	st.mem[dk] = Store(st.memGet(dk), m.Ref, Store(Select(st.memGet(dk), m.Ref), k, tTrue))
	ts := x.flatten(st, v, mt.Elem())
	for i, vk := range vks {
		st.mem[vk] = Store(st.memGet(vk), m.Ref, Store(Select(st.memGet(vk), m.Ref), k, ts[i]))
	}
}

func (x *Exec) next(st *State, fr *Frame, in *ssa.Next, k func(*State, Value)) {
	it := x.val(st, fr, in.Iter).(IterVal)
	tup := in.Type().(*types.Tuple)
	if it.Str {
		s := it.M.(Scalar).T
		pos := st.cells[it.Cell].(Scalar).T
		x.branch(st, Lt(pos, sl(s)), func(s1 *State) {
			w := bound(App("rune_width", SInt, s, pos), one, big.NewInt(4))
			r := bound(App("rune_at", SInt, s, pos), Big0, big.NewInt(0x10ffff))
			s1.assume(Le(Add(pos, w), sl(s)))
			s1.cells[it.Cell] = Scalar{Add(pos, w), types.Typ[types.Int]}
			k(s1, TupleVal{Scalar{tTrue, tup.At(0).Type()}, Scalar{pos, types.Typ[types.Int]}, Scalar{r, types.Typ[types.Rune]}})
		}, func(s2 *State) {
			k(s2, TupleVal{Scalar{tFalse, tup.At(0).Type()}, Scalar{I(0), types.Typ[types.Int]}, Scalar{I(0), types.Typ[types.Rune]}})
		})
		return
	}
	m := it.M.(MapVal)
	mt := m.Typ.Underlying().(*types.Map)
	vis := st.cells[it.Cell].(Scalar).T
	dom := x.mapDom(st, m)
	// done
	s2 := st.clone()
	bk := BV("k", SInt)
	dsel := mkRaw("select", "", SBool, dom, bk)
	vsel := mkRaw("select", "", SBool, vis, bk)
	s2.assume(Or(Eq(m.Ref, I(0)), Forall([]*Term{bk}, [][]*Term{{dsel}}, Implies(Select(dom, bk), vsel))))
	// next
	var key Value
	kv := freshValue(st, "key", mt.Key())
	key = kv
	kt := x.keyTerm(st, key)
	st.assume(Ne(m.Ref, I(0)))
	st.assume(Select(dom, kt))
	st.assume(Not(Select(vis, kt)))
	x.npaths++
	if x.feasible(st, tTrue) {
		st.cells[it.Cell] = Scalar{Store(vis, kt, tTrue), nil}
		v := x.mapLoad(st, m, key, false)
		k(st, TupleVal{Scalar{tTrue, types.Typ[types.Bool]}, key, v})
	}
	z1 := zeroValue(mt.Key())
	z2 := zeroValue(mt.Elem())
	k(s2, TupleVal{Scalar{tFalse, types.Typ[types.Bool]}, z1, z2})
}

func (x *Exec) typeAssert(st *State, fr *Frame, in *ssa.TypeAssert, k func(*State, Value)) {
	v := x.val(st, fr, in.X).(IfaceVal)
	to := in.AssertedType
	_, toIface := to.Underlying().(*types.Interface)
	finish := func(s *State, ok bool, val Value) {
		if in.CommaOk {
			if !ok {
				val = zeroValue(to)
			}
			k(s, TupleVal{val, Scalar{B(ok), types.Typ[types.Bool]}})
			return
		}
		if !ok {
			x.check(s, "runtime", "type assertion holds", in.Pos(), nil, tFalse)
			return
		}
		k(s, val)
	}
	if v.Dyn != nil {
		if toIface {
			if types.Implements(v.Dyn, to.Underlying().(*types.Interface)) {
				v.Typ = to
				finish(st, true, v)
			} else {
				finish(st, false, nil)
			}
			return
		}
		if types.Identical(v.Dyn, to) {
			finish(st, true, v.DynV)
		} else {
			finish(st, false, nil)
		}
		return
	}
	if toIface {
		// unknown dynamic type: either
		c := App("implements_"+mangle(shortType(to)), SBool, v.Tag)
		x.branch(st, And(Ne(v.Tag, I(0)), c), func(s *State) {
			w := v
			w.Typ = to
			finish(s, true, w)
		}, func(s *State) { finish(s, false, nil) })
		return
	}
	id := I(int64(x.eng.typeID(to)))
	x.branch(st, Eq(v.Tag, id), func(s *State) {
		var val Value
		if pt, ok := to.Underlying().(*types.Pointer); ok {
			val = PtrVal{Root: shortType(pt.Elem()), Ref: v.Ref, Idx: v.Idx, Elem: pt.Elem()}
		} else {
			val = x.load(s, PtrVal{Root: shortType(to), Ref: v.Ref, Idx: v.Idx, Elem: to})
		}
		finish(s, true, val)
	}, func(s *State) { finish(s, false, nil) })
}

// ---------- calls ----------

func (x *Exec) callInstr(st *State, fr *Frame, in *ssa.Call, k func(*State, Value)) {
	var args []Value
	for _, a := range in.Call.Args {
		args = append(args, x.val(st, fr, a))
	}
	x.callCommon(st, fr, &in.Call, x.val(st, fr, in.Call.Value), args, in.Pos(), k)
}

func (x *Exec) callCommon(st *State, fr *Frame, c *ssa.CallCommon, fv Value, args []Value, pos token.Pos, k func(*State, Value)) {
	if c.IsInvoke() {
		x.invoke(st, fr, c, fv.(IfaceVal), args, pos, k)
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		x.builtin(st, fr, b, c, args, pos, k)
		return
	}
	f, ok := fv.(FuncVal)
	if !ok {
		panic(unsupported("call of %T", fv))
	}
	if f.Fn == nil {
		if n, ok := litInt(f.Ref); ok && n > 0 && int(n) <= len(x.eng.funcs) {
			f = x.eng.funcs[n-1]
		}
	}
	if f.Fn == nil {
		x.callUnknownFunc(st, fr, f, args, c, pos, k)
		return
	}
	x.callFn(st, fr, f.Fn, f.Bind, args, pos, k)
}

// callUnknownFunc models a call of a function value about which nothing is known.
func (x *Exec) callUnknownFunc(st *State, fr *Frame, f FuncVal, args []Value, c *ssa.CallCommon, pos token.Pos, k func(*State, Value)) {
	panic(unsupported("call of unknown function value at %s", posOf(x.eng, pos)))
}

func (x *Exec) invoke(st *State, fr *Frame, c *ssa.CallCommon, recv IfaceVal, args []Value, pos token.Pos, k func(*State, Value)) {
	if recv.Dyn != nil {
		m := x.eng.prog.LookupMethod(recv.Dyn, c.Method.Pkg(), c.Method.Name())
		if m == nil {
			panic(unsupported("no method %s on %s", c.Method.Name(), recv.Dyn))
		}
		x.callFn(st, fr, m, nil, append([]Value{recv.DynV}, args...), pos, k)
		return
	}
	x.check(st, "runtime", "no nil interface call", pos, nil, Ne(recv.Tag, I(0)))
	name := "(" + shortType(recv.Typ) + ")." + c.Method.Name()
	if nt, ok := c.Value.Type().(*types.Named); ok {
		name = "(" + shortType(nt) + ")." + c.Method.Name()
	}
	if h, ok := externs[name]; ok {
		x.trusted["modelled external: "+name] = true
		h(x, st, &callCtx{fr: fr, name: name, args: append([]Value{recv}, args...), pos: pos, sig: c.Signature(), k: k})
		return
	}
	if strings.HasPrefix(name, "(github.com/amarin/logging.") {
		logCall(x, st, &callCtx{fr: fr, name: name, args: append([]Value{recv}, args...), pos: pos, sig: c.Signature(), k: k})
		return
	}
	// closed world: exactly one implementation in the program
	impls := x.eng.implementers(recv.Typ)
	if len(impls) == 1 {
		d := impls[0]
		x.trusted["closed world: every "+shortType(recv.Typ)+" value is a "+shortType(d)] = true
		st.assume(Eq(recv.Tag, I(int64(x.eng.typeID(d)))))
		m := x.eng.prog.LookupMethod(d, c.Method.Pkg(), c.Method.Name())
		var rv Value
		if pt, ok := d.Underlying().(*types.Pointer); ok {
			rv = PtrVal{Root: shortType(pt.Elem()), Ref: recv.Ref, Idx: recv.Idx, Elem: pt.Elem()}
		} else {
			rv = x.load(st, PtrVal{Root: shortType(d), Ref: recv.Ref, Idx: recv.Idx, Elem: d})
		}
		x.callFn(st, fr, m, nil, append([]Value{rv}, args...), pos, k)
		return
	}
	panic(unsupported("interface call %s", name))
}

type callCtx struct {
	fr   *Frame
	name string
	fn   *ssa.Function
	args []Value
	pos  token.Pos
	sig  *types.Signature
	k    func(*State, Value)
}

func fnName(f *ssa.Function) string { return strings.ReplaceAll(f.String(), modPrefix, "") }

func (x *Exec) callFn(st *State, fr *Frame, fn *ssa.Function, bind, args []Value, pos token.Pos, k func(*State, Value)) {
	name := fnName(fn)
	if fn.Origin() != nil {
		name = fnName(fn.Origin())
	}
	if h, ok := externs[name]; ok {
		x.trusted["modelled external: "+name] = true
		h(x, st, &callCtx{fr: fr, name: name, fn: fn, args: args, pos: pos, sig: fn.Signature, k: k})
		return
	}
	if con := x.eng.contracts[name]; con != nil {
		x.used[con] = true
		x.applyContract(st, fr, con, fn, args, pos, k)
		return
	}
	if len(fn.Blocks) == 0 {
		if h := externPrefix(name); h != nil {
			h(x, st, &callCtx{fr: fr, name: name, fn: fn, args: args, pos: pos, sig: fn.Signature, k: k})
			return
		}
		panic(unsupported("external function %s", name))
	}
	if h := externPrefix(name); h != nil && !strings.HasPrefix(name, "pkg/") && !strings.HasPrefix(name, "internal/") {
		h(x, st, &callCtx{fr: fr, name: name, fn: fn, args: args, pos: pos, sig: fn.Signature, k: k})
		return
	}
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			panic(unsupported("recursive function %s without contract", name))
		}
	}
	if fn.Synthetic == "" && !strings.Contains(name, "$") {
		x.inlined[name] = true
	}
	x.inline(st, fr, fn, bind, args, k)
}

func (x *Exec) inline(st *State, fr *Frame, fn *ssa.Function, bind, args []Value, k func(*State, Value)) {
	nf := x.newFrame(fn, fr)
	nf.ret = func(s *State, r Value) { delete(s.defers, nf.id); k(s, r) }
	nf.unwind = func(s *State, v Value) { delete(s.defers, nf.id); x.doPanic(s, fr, v) }
	for i, p := range fn.Params {
		st.env[envKey{nf.id, p}] = retype(args[i], p.Type())
	}
	for i, f := range fn.FreeVars {
		st.env[envKey{nf.id, f}] = bind[i]
	}
	x.run(st, nf, fn.Blocks[0], 0)
}

func (x *Exec) builtin(st *State, fr *Frame, b *ssa.Builtin, c *ssa.CallCommon, args []Value, pos token.Pos, k func(*State, Value)) {
	intT := types.Typ[types.Int]
	switch b.Name() {
	case "len", "cap":
		switch y := args[0].(type) {
		case SliceVal:
			if b.Name() == "len" {
				k(st, Scalar{y.Len, intT})
			} else {
				k(st, Scalar{y.Cap, intT})
			}
			return
		case Scalar:
			k(st, Scalar{sl(y.T), intT})
			return
		case MapVal:
			x.mapLen(st, y, k)
			return
		case ArrVal:
			k(st, Scalar{I(int64(len(y.E))), intT})
			return
		case PtrVal:
			if at, ok := y.Elem.Underlying().(*types.Array); ok {
				k(st, Scalar{I(at.Len()), intT})
				return
			}
		}
	case "append":
		if s, ok := args[0].(SliceVal); ok {
			if s2, ok := args[1].(Scalar); ok { // append([]byte, string...)
				v := x.convert(st, s2, types.Typ[types.String], s.Typ)
				x.appendSlice(st, s, v.(SliceVal), k)
				return
			}
			x.appendSlice(st, s, args[1].(SliceVal), k)
			return
		}
	case "copy":
		d := args[0].(SliceVal)
		var s SliceVal
		if sc, ok := args[1].(Scalar); ok {
			s = x.convert(st, sc, types.Typ[types.String], d.Typ).(SliceVal)
		} else {
			s = args[1].(SliceVal)
		}
		x.copySlice(st, d, s, func(s2 *State, n *Term) { k(s2, Scalar{n, intT}) })
		return
	case "delete":
		m := args[0].(MapVal)
		kt := x.keyTerm(st, args[1])
		dk, _ := x.mapKeys(m)
		st.mem[dk] = Store(st.memGet(dk), m.Ref, Store(Select(st.memGet(dk), m.Ref), kt, tFalse))
		k(st, TupleVal{})
		return
	case "recover":
		if st.panicking {
			v := st.panicV
			st.panicking = false
			st.panicV = nil
			if iv, ok := v.(IfaceVal); ok {
				k(st, iv)
				return
			}
			k(st, freshErr(st, "recovered", c.Signature().Results().At(0).Type()))
			return
		}
		k(st, zeroValue(c.Signature().Results().At(0).Type()))
		return
	case "min", "max":
		t := args[0].(Scalar).T
		for _, a := range args[1:] {
			u := a.(Scalar).T
			if b.Name() == "min" {
				t = Ite(Le(t, u), t, u)
			} else {
				t = Ite(Le(t, u), u, t)
			}
		}
		k(st, Scalar{t, args[0].(Scalar).Typ})
		return
	case "print", "println":
		k(st, TupleVal{})
		return
	case "ssa:wrapnilchk":
		p := args[0].(PtrVal)
		x.nilCheck(st, p, pos)
		k(st, p)
		return
	}
	panic(unsupported("builtin %s", b.Name()))
}

func (x *Exec) mapLen(st *State, m MapVal, k func(*State, Value)) {
	dom := x.mapDom(st, m)
	n := App("card", SInt, dom)
	bound(n, Big0, maxLenBig)
	bk := BV("k", SInt)
	w := App("card_w", SInt, dom)
	// card = 0 iff empty
	st.assume(Implies(Eq(n, I(0)), Forall([]*Term{bk}, [][]*Term{{mkRaw("select", "", SBool, dom, bk)}}, Not(mkRaw("select", "", SBool, dom, bk)))))
	st.assume(Implies(Gt(n, I(0)), Select(dom, w)))
	k(st, Scalar{Ite(Eq(m.Ref, I(0)), I(0), n), types.Typ[types.Int]})
}

// rowsOf returns the element leaf families and current rows of a slice's backing array.
func (x *Exec) appendSlice(st *State, s, t SliceVal, k func(*State, Value)) {
	if n, ok := litInt(t.Len); ok && n == 0 {
		k(st, s)
		return
	}
	s = x.realSlice(st, s)
	et := s.Typ.Underlying().(*types.Slice).Elem()
	n := bound(Add(s.Len, t.Len), nil, nil)
	// elements with statically known count
	var elems []Value
	known := false
	if m, ok := litInt(t.Len); ok && m <= 16 {
		known = true
		for i := int64(0); i < m; i++ {
			if t.Cell != nil {
				if _, prom := st.cells[t.Cell].(promoted); !prom {
					o, _ := litInt(t.Off)
					elems = append(elems, st.cells[t.Cell].(ArrVal).E[o+i])
					continue
				}
				t = x.realSlice(st, t)
			}
			elems = append(elems, x.loadElt(st, shortType(et), "", t.Ref, t.Off, I(i), et, true))
		}
		for i := range elems { // escape before forking
			fl := x.flatten(st, elems[i], et)
			elems[i], _ = unflatten(et, fl)
		}
	} else {
		t = x.realSlice(st, t)
	}
	ls := leavesOf(et)
	put := func(st *State, ref *Term, fresh bool) {
		for j, l := range ls {
			fk := famKey(shortType(et), "", l)
			row := Select(st.memGet(fk), s.Ref)
			if known {
				for i, e := range elems {
					row = Store(row, Add(s.Off, s.Len, I(int64(i))), x.flatten(st, e, et)[j])
				}
			} else {
				trow := Select(st.memGet(fk), t.Ref)
				nr := freshVar("row", arrSort(l.sort))
				bi := BV("k", SInt)
				e := App(eltName(l.sort), l.sort, nr, s.Off, bi)
				body := And(Implies(Or(Lt(bi, s.Len), Ge(bi, n)), mkRaw("=", "", SBool, e, Elt(row, s.Off, bi))),
					Implies(And(Le(s.Len, bi), Lt(bi, n)), mkRaw("=", "", SBool, e, Elt(trow, t.Off, Sub(bi, s.Len)))))
				st.assume(Forall([]*Term{bi}, [][]*Term{{e}}, body))
				// reverse triggers: every source element has its image
				e2 := App(eltName(l.sort), l.sort, trow, t.Off, bi)
				st.assume(Forall([]*Term{bi}, [][]*Term{{e2}}, Implies(And(Le(I(0), bi), Lt(bi, t.Len)), mkRaw("=", "", SBool, App(eltName(l.sort), l.sort, nr, s.Off, Add(s.Len, bi)), e2))))
				if !fresh || true {
					e3 := App(eltName(l.sort), l.sort, row, s.Off, bi)
					st.assume(Forall([]*Term{bi}, [][]*Term{{e3}}, Implies(And(Le(I(0), bi), Lt(bi, s.Len)), mkRaw("=", "", SBool, App(eltName(l.sort), l.sort, nr, s.Off, bi), e3))))
				}
				row = nr
			}
			st.setArr(fk, ref, row)
		}
	}
	zero := tFalse
	if !known {
		zero = Eq(t.Len, I(0))
	}
	x.branch(st, zero, func(s0 *State) { k(s0, s) }, func(s0 *State) {
		x.branch(s0, Le(n, s.Cap), func(s1 *State) {
			put(s1, s.Ref, false)
			k(s1, SliceVal{Ref: s.Ref, Off: s.Off, Len: n, Cap: s.Cap, Typ: s.Typ})
		}, func(s2 *State) {
			ref := s2.newRef()
			put(s2, ref, true)
			c := freshVar("cap", SInt)
			bound(c, Big0, maxLenBig)
			s2.assume(Le(n, c))
			k(s2, SliceVal{Ref: ref, Off: s.Off, Len: n, Cap: c, Typ: s.Typ})
		})
	})
}

func (x *Exec) copySlice(st *State, d, s SliceVal, k func(*State, *Term)) {
	d = x.realSlice(st, d)
	s = x.realSlice(st, s)
	et := d.Typ.Underlying().(*types.Slice).Elem()
	n := Ite(Le(d.Len, s.Len), d.Len, s.Len)
	if st.implied(Le(d.Len, s.Len)) {
		n = d.Len
	}
	for _, l := range leavesOf(et) {
		fk := famKey(shortType(et), "", l)
		row := Select(st.memGet(fk), d.Ref)
		srow := Select(st.memGet(fk), s.Ref)
		nr := freshVar("row", arrSort(l.sort))
		bi := BV("k", SInt)
		e := App(eltName(l.sort), l.sort, nr, d.Off, bi)
		inR := And(Le(I(0), bi), Lt(bi, n))
		st.assume(Forall([]*Term{bi}, [][]*Term{{e}}, And(Implies(inR, mkRaw("=", "", SBool, e, Elt(srow, s.Off, bi))), Implies(Not(inR), mkRaw("=", "", SBool, e, Elt(row, d.Off, bi))))))
		e2 := App(eltName(l.sort), l.sort, srow, s.Off, bi)
		st.assume(Forall([]*Term{bi}, [][]*Term{{e2}}, Implies(inR, mkRaw("=", "", SBool, App(eltName(l.sort), l.sort, nr, d.Off, bi), e2))))
		st.setArr(fk, d.Ref, nr)
	}
	k(st, n)
}

func freshErr(st *State, name string, t types.Type) IfaceVal {
	v := freshValue(st, name, t).(IfaceVal)
	st.assume(Gt(v.Tag, I(0)))
	return v
}
