package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type envKey struct {
	frame int
	v     ssa.Value
}
type pcNode struct {
	t      *Term
	parent *pcNode
	n      int
}
type deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
}
type loopKey struct {
	frame int
	b     *ssa.BasicBlock
}

// State is one symbolic execution state; cloned at forks.
type State struct {
	env       map[envKey]Value
	cells     map[*Cell]Value
	mem       map[string]*Term
	ghost     map[string]*Term
	alloc     *Term
	pc        *pcNode
	defers    map[int][]deferred
	loops     map[loopKey]*loopCtx
	unroll    map[loopKey]int
	trace     *traceNode
	panicV    Value
	panicking bool
}
type traceNode struct {
	s      string
	parent *traceNode
}

func (st *State) clone() *State {
	n := &State{env: make(map[envKey]Value, len(st.env)+8), cells: make(map[*Cell]Value, len(st.cells)+4), mem: make(map[string]*Term, len(st.mem)+4),
		ghost: make(map[string]*Term, len(st.ghost)), alloc: st.alloc, pc: st.pc, defers: map[int][]deferred{}, loops: make(map[loopKey]*loopCtx, len(st.loops)), trace: st.trace, unroll: st.unroll, panicV: st.panicV, panicking: st.panicking}
	for k, v := range st.env {
		n.env[k] = v
	}
	for k, v := range st.cells {
		n.cells[k] = v
	}
	for k, v := range st.mem {
		n.mem[k] = v
	}
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	for k, v := range st.defers {
		n.defers[k] = append([]deferred{}, v...)
	}
	for k, v := range st.loops {
		n.loops[k] = v
	}
	return n
}

func (st *State) note(f string, a ...interface{}) {
	st.trace = &traceNode{fmt.Sprintf(f, a...), st.trace}
}
func (st *State) traceStr() string {
	var out []string
	for n := st.trace; n != nil; n = n.parent {
		out = append(out, n.s)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return strings.Join(out, "; ")
}

func (st *State) assume(t *Term) {
	if t == tTrue {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			st.assume(a)
		}
		return
	}
	n := 0
	if st.pc != nil {
		n = st.pc.n + 1
	}
	st.pc = &pcNode{t, st.pc, n}
}

func (st *State) hyps() []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for n := st.pc; n != nil; n = n.parent {
		if !seen[n.t] {
			seen[n.t] = true
			out = append(out, n.t)
		}
	}
	return out
}

func (st *State) infeasible() bool {
	for n := st.pc; n != nil; n = n.parent {
		if n.t == tFalse {
			return true
		}
	}
	return false
}

// implied is a cheap syntactic entailment test.
func (st *State) implied(t *Term) bool {
	if t == tTrue {
		return true
	}
	for n := st.pc; n != nil; n = n.parent {
		if n.t == t {
			return true
		}
	}
	return false
}

// ---------- memory ----------

// The engine verifies several functions at once: one goroutine computes at a time (gil), the others wait for solvers.
// gctx carries the name counters of one of them, so that names do not depend on the interleaving.
type gctx struct {
	ctr, cell int
	name      string
}

var gil sync.Mutex
var cur *gctx

func gilAcquire(c *gctx) { gil.Lock(); cur = c }
func gilRelease() *gctx  { c := cur; gil.Unlock(); return c }

func freshName(p string) string { cur.ctr++; return fmt.Sprintf("%s!%s!%d", p, cur.name, cur.ctr) }

func freshVar(p, srt string) *Term { return V(freshName(p), srt) }

// memory families: key = root type | field path + leaf suffix
type famInfo struct {
	key  string
	leaf leaf
}

var fams = map[string]famInfo{}

func famKey(root, path string, l leaf) string {
	k := root + "|" + path + l.path
	if _, ok := fams[k]; !ok {
		fams[k] = famInfo{k, l}
	}
	return k
}

// memSym creates a memory symbol with its typing axioms.
func memSym(k string, ver string, alloc *Term) *Term {
	fi := fams[k]
	srt := arrSort(arrSort(fi.leaf.sort))
	name := "M!" + k + "@" + ver
	t := App(name, srt)
	r, i := BV("r", SInt), BV("i", SInt)
	sel := mkRaw("select", "", fi.leaf.sort, mkRaw("select", "", arrSort(fi.leaf.sort), t, r), i)
	var cs []*Term
	lo, hi := leafRange(fi.leaf)
	if lo != nil {
		cs = append(cs, mkRaw("<=", "", SBool, Big(lo), sel))
	}
	if hi != nil {
		cs = append(cs, mkRaw("<=", "", SBool, sel, Big(hi)))
	}
	switch fi.leaf.kind {
	case "sref", "pref", "mref", "iref":
		cs = append(cs, Implies(mkRaw("<", "", SBool, r, alloc), mkRaw("<", "", SBool, sel, alloc)))
	}
	if len(cs) > 0 {
		TH.addAxiom(&axiom{name: "typing:" + name, needs: [][]string{{name}}, t: Forall([]*Term{r, i}, [][]*Term{{sel}}, And(cs...)), from: "typing"})
	}
	if fi.leaf.kind == "slen" {
		base := strings.TrimSuffix(k, "#len")
		cn := "M!" + base + "#cap@" + ver
		rn := "M!" + base + "#ref@" + ver
		csel := mkRaw("select", "", SInt, mkRaw("select", "", arrSort(SInt), App(cn, srt), r), i)
		rsel := mkRaw("select", "", SInt, mkRaw("select", "", arrSort(SInt), App(rn, srt), r), i)
		TH.addAxiom(&axiom{name: "typing2:" + name, needs: [][]string{{name}}, t: Forall([]*Term{r, i}, [][]*Term{{sel}}, And(mkRaw("<=", "", SBool, sel, csel),
			Implies(mkRaw("=", "", SBool, rsel, I(0)), mkRaw("=", "", SBool, csel, I(0))))), from: "typing"})
	}
	return t
}

var alloc0 = V("alloc0", SInt)

const reservedRefs = 1000

func (st *State) memGet(k string) *Term {
	if t, ok := st.mem[k]; ok {
		return t
	}
	return memSym(k, "0", alloc0)
}

// havocMem replaces families by fresh symbols (whole slice groups at once).
func (st *State) havocMem(keys []string) {
	ver := freshName("h")
	all := map[string]bool{}
	for _, k := range keys {
		all[k] = true
		for _, suf := range []string{"#ref", "#off", "#len", "#cap"} {
			if strings.HasSuffix(k, suf) {
				base := strings.TrimSuffix(k, suf)
				for _, s2 := range []string{"#ref", "#off", "#len", "#cap"} {
					if _, ok := fams[base+s2]; ok {
						all[base+s2] = true
					}
				}
			}
		}
	}
	for k := range all {
		st.mem[k] = memSym(k, ver, st.alloc)
	}
}

func assumeLeaf(st *State, l leaf, t *Term) {
	lo, hi := leafRange(l)
	bound(t, lo, hi)
	switch l.kind {
	case "sref", "pref", "mref", "iref":
		st.assume(Lt(t, st.alloc))
	}
}

// assumeValue adds the type invariants of a freshly introduced or loaded value.
func assumeValue(st *State, v Value) {
	switch x := v.(type) {
	case Scalar:
		if x.Typ != nil && x.T.sort == SInt {
			lo, hi := intRange(x.Typ)
			bound(x.T, lo, hi)
		}
	case SliceVal:
		if x.Cell != nil {
			return
		}
		bound(x.Ref, Big0, nil)
		bound(x.Off, Big0, maxLenBig)
		bound(x.Len, Big0, maxLenBig)
		bound(x.Cap, Big0, maxLenBig)
		st.assume(Lt(x.Ref, st.alloc))
		st.assume(Le(x.Len, x.Cap))
		st.assume(Implies(Eq(x.Ref, I(0)), Eq(x.Cap, I(0))))
	case PtrVal:
		if x.Cell != nil {
			return
		}
		bound(x.Ref, Big0, nil)
		bound(x.Idx, Big0, maxLenBig)
		st.assume(Lt(x.Ref, st.alloc))
	case MapVal:
		bound(x.Ref, Big0, nil)
		st.assume(Lt(x.Ref, st.alloc))
	case IfaceVal:
		bound(x.Tag, Big0, nil)
		bound(x.Ref, Big0, nil)
		st.assume(Lt(x.Ref, st.alloc))
	case StructVal:
		for _, f := range x.F {
			assumeValue(st, f)
		}
	case ArrVal:
		for _, f := range x.E {
			assumeValue(st, f)
		}
	case TupleVal:
		for _, f := range x {
			assumeValue(st, f)
		}
	}
}

// freshValue introduces an arbitrary value of type t.
func freshValue(st *State, name string, t types.Type) Value {
	ls := leavesOf(t)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = freshVar(name+strings.ReplaceAll(l.path, "#", "_"), l.sort)
	}
	v, _ := unflatten(t, ts)
	assumeValue(st, v)
	return v
}

// newRef allocates a fresh object identity.
func (st *State) newRef() *Term {
	r := st.alloc
	st.alloc = Add(st.alloc, I(1))
	return r
}

// ---------- pointers and cells ----------

func (x *Exec) resolveCell(st *State, p PtrVal) PtrVal {
	if p.Cell == nil {
		return p
	}
	if pr, ok := st.cells[p.Cell].(promoted); ok {
		q := pr.p
		for _, i := range p.CPath {
			q = ptrField(q, i)
		}
		return q
	}
	return p
}

// addr is the element index of a memory pointer.
func (p PtrVal) addr() *Term {
	if p.Off == nil {
		return p.Idx
	}
	return Add(p.Off, p.Idx)
}

// ptrField derives the pointer to field i (or array slot i) of the pointee.
func ptrField(p PtrVal, i int) PtrVal {
	if p.Cell != nil {
		q := p
		q.CPath = append(append([]int{}, p.CPath...), i)
		switch u := p.Elem.Underlying().(type) {
		case *types.Struct:
			q.Elem = u.Field(i).Type()
		case *types.Array:
			q.Elem = u.Elem()
		default:
			panic(unsupported("ptrField %s", p.Elem))
		}
		return q
	}
	switch u := p.Elem.Underlying().(type) {
	case *types.Struct:
		q := p
		q.Path = p.Path + "." + u.Field(i).Name()
		q.Elem = u.Field(i).Type()
		return q
	case *types.Array:
		q := p
		if p.Path == "" && strings.HasPrefix(p.Root, "array:") {
			q.Root = shortType(u.Elem())
			q.Idx = Add(p.addr(), I(int64(i)))
			q.Off = nil
			q.Elem = u.Elem()
			return q
		}
	}
	panic(unsupported("ptrField %s", p.Elem))
}

func getPath(v Value, path []int) Value {
	for _, i := range path {
		switch x := v.(type) {
		case StructVal:
			v = x.F[i]
		case ArrVal:
			v = x.E[i]
		default:
			panic(unsupported("getPath %T", v))
		}
	}
	return v
}

func setPath(v Value, path []int, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	switch x := v.(type) {
	case StructVal:
		f := append([]Value{}, x.F...)
		f[path[0]] = setPath(f[path[0]], path[1:], nv)
		return StructVal{f, x.Typ}
	case ArrVal:
		f := append([]Value{}, x.E...)
		f[path[0]] = setPath(f[path[0]], path[1:], nv)
		return ArrVal{f, x.Typ}
	}
	panic(unsupported("setPath %T", v))
}

// promote moves a cell to memory and returns the pointer to it.
func (x *Exec) promote(st *State, c *Cell) PtrVal {
	if pr, ok := st.cells[c].(promoted); ok {
		return pr.p
	}
	v := st.cells[c]
	ref := st.newRef()
	if at, ok := c.typ.Underlying().(*types.Array); ok {
		p := PtrVal{Root: "array:" + shortType(c.typ), Ref: ref, Idx: I(0), Elem: c.typ}
		st.cells[c] = promoted{p}
		for i, e := range v.(ArrVal).E {
			x.store(st, PtrVal{Root: shortType(at.Elem()), Ref: ref, Idx: I(int64(i)), Elem: at.Elem()}, e)
		}
		return p
	}
	p := PtrVal{Root: shortType(c.typ), Ref: ref, Idx: I(0), Elem: c.typ}
	st.cells[c] = promoted{p}
	x.store(st, p, v)
	x.initMutexes(st, p)
	return p
}

// initMutexes: the locks of a new object are free.
func (x *Exec) initMutexes(st *State, p PtrVal) {
	if n := shortType(p.Elem); n == "sync.Mutex" || n == "sync.RWMutex" {
		x.mutexSet(st, p, tFalse)
		return
	}
	if u, ok := p.Elem.Underlying().(*types.Struct); ok {
		for i := 0; i < u.NumFields(); i++ {
			if _, ok := u.Field(i).Type().Underlying().(*types.Struct); ok {
				x.initMutexes(st, ptrField(p, i))
			}
		}
	}
}

// flatten turns a value into leaf terms, promoting escaping cells.
func (x *Exec) flatten(st *State, v Value, t types.Type) []*Term {
	switch y := v.(type) {
	case Scalar:
		return []*Term{y.T}
	case SliceVal:
		y = x.realSlice(st, y)
		return []*Term{y.Ref, y.Off, y.Len, y.Cap}
	case PtrVal:
		if y.Cell != nil {
			x.promote(st, y.Cell)
			y = x.resolveCell(st, y)
		}
		if y.Path != "" || y.Root != shortType(y.Elem) {
			if n, ok := litInt(y.Ref); ok && n == 0 {
				return []*Term{I(0), I(0)}
			}
			panic(unsupported("interior pointer %s%s escapes to memory", y.Root, y.Path))
		}
		return []*Term{y.Ref, y.addr()}
	case MapVal:
		return []*Term{y.Ref}
	case FuncVal:
		if y.Ref == nil {
			return []*Term{x.funcRef(st, y)}
		}
		return []*Term{y.Ref}
	case IfaceVal:
		y = x.boxIface(st, y)
		return []*Term{y.Tag, y.Ref, y.Idx}
	case StructVal:
		u := y.Typ.Underlying().(*types.Struct)
		var out []*Term
		for i, f := range y.F {
			out = append(out, x.flatten(st, f, u.Field(i).Type())...)
		}
		return out
	case ArrVal:
		u := y.Typ.Underlying().(*types.Array)
		var out []*Term
		for _, f := range y.E {
			out = append(out, x.flatten(st, f, u.Elem())...)
		}
		return out
	case TupleVal:
		var out []*Term
		for _, f := range y {
			out = append(out, x.flatten(st, f, nil)...)
		}
		return out
	}
	panic(unsupported("flatten %T", v))
}

func (x *Exec) funcRef(st *State, f FuncVal) *Term {
	if f.Fn == nil {
		return I(0)
	}
	x.eng.mu.Lock()
	defer x.eng.mu.Unlock()
	k := f.Fn.String()
	id, ok := x.eng.funcIDs[k]
	if !ok || len(f.Bind) > 0 {
		id = len(x.eng.funcs) + 1
		x.eng.funcIDs[k] = id
		x.eng.funcs = append(x.eng.funcs, f)
	}
	return I(int64(id))
}

// realSlice makes sure a slice is backed by memory rather than by a local array cell.
func (x *Exec) realSlice(st *State, s SliceVal) SliceVal {
	if s.Cell == nil {
		return s
	}
	p := x.promote(st, s.Cell)
	s.Ref = p.Ref
	s.Cell = nil
	return s
}

// boxIface gives an interface with a statically known dynamic value its (tag, ref, idx) form.
func (x *Exec) boxIface(st *State, v IfaceVal) IfaceVal {
	if v.Ref != nil {
		return v
	}
	if p, ok := v.DynV.(PtrVal); ok {
		f := x.flatten(st, p, v.Dyn)
		v.Ref, v.Idx = f[0], f[1]
		return v
	}
	ref := st.newRef()
	x.store(st, PtrVal{Root: shortType(v.Dyn), Ref: ref, Idx: I(0), Elem: v.Dyn}, v.DynV)
	v.Ref, v.Idx = ref, I(0)
	return v
}

// load reads a value through a pointer.
func (x *Exec) load(st *State, p PtrVal) Value {
	p = x.resolveCell(st, p)
	if p.Cell != nil {
		c, ok := st.cells[p.Cell]
		if !ok {
			panic(unsupported("dead cell %s", p.Cell.name))
		}
		return getPath(c, p.CPath)
	}
	if strings.HasPrefix(p.Root, "array:") {
		at := p.Elem.Underlying().(*types.Array)
		a := ArrVal{Typ: p.Elem}
		for i := int64(0); i < at.Len(); i++ {
			a.E = append(a.E, x.load(st, PtrVal{Root: shortType(at.Elem()), Ref: p.Ref, Idx: Add(p.addr(), I(i)), Elem: at.Elem()}))
		}
		return a
	}
	v := x.loadElt(st, p.Root, p.Path, p.Ref, p.Off, p.Idx, p.Elem, true)
	if strings.HasPrefix(p.Root, "glob:") {
		v = x.globalFacts(st, p, v)
	}
	return v
}

// loadElt reads the element at (ref, off+i) of a family; off and i stay separate for triggers (off may be nil: no slice).
func (x *Exec) loadElt(st *State, root, path string, ref, off, i *Term, t types.Type, assume bool) Value {
	ls := leavesOf(t)
	ts := make([]*Term, len(ls))
	for j, l := range ls {
		k := famKey(root, path, l)
		if off == nil {
			ts[j] = Select(Select(st.memGet(k), ref), i)
		} else {
			ts[j] = Elt(Select(st.memGet(k), ref), off, i)
		}
		if !ts[j].bnd {
			lo, hi := leafRange(l)
			bound(ts[j], lo, hi)
		}
	}
	v, _ := unflatten(t, ts)
	if assume {
		assumeValue(st, v)
	}
	return v
}

// store writes a value through a pointer.
func (x *Exec) store(st *State, p PtrVal, v Value) {
	p = x.resolveCell(st, p)
	if p.Cell != nil {
		st.cells[p.Cell] = setPath(st.cells[p.Cell], p.CPath, v)
		return
	}
	if strings.HasPrefix(p.Root, "array:") {
		at := p.Elem.Underlying().(*types.Array)
		for i, e := range v.(ArrVal).E {
			x.store(st, PtrVal{Root: shortType(at.Elem()), Ref: p.Ref, Idx: Add(p.addr(), I(int64(i))), Elem: at.Elem()}, e)
		}
		return
	}
	ts := x.flatten(st, v, p.Elem)
	for j, l := range leavesOf(p.Elem) {
		k := famKey(p.Root, p.Path, l)
		m := st.memGet(k)
		st.mem[k] = Store(m, p.Ref, Store(Select(m, p.Ref), p.addr(), ts[j]))
	}
}

// setArr replaces the whole backing array of ref in a family leaf.
func (st *State) setArr(k string, ref, arr *Term) {
	st.mem[k] = Store(st.memGet(k), ref, arr)
}
