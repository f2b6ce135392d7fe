package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

const (
	loopDry = iota
	loopFinal
)

type loopDef struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	inner  bool // contains other loops
}
type loopInfo struct {
	header map[*ssa.BasicBlock]*loopDef
}

type loopCtx struct {
	mode   int
	body   map[*ssa.BasicBlock]bool
	onBack func(st *State)
	onCond func(c *Term)
}

func (e *Engine) loops(fn *ssa.Function) *loopInfo {
	e.mu.Lock()
	defer e.mu.Unlock()
	if li, ok := e.loopInfos[fn]; ok {
		return li
	}
	li := &loopInfo{header: map[*ssa.BasicBlock]*loopDef{}}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			lp := li.header[h]
			if lp == nil {
				lp = &loopDef{header: h, body: map[*ssa.BasicBlock]bool{h: true}}
				li.header[h] = lp
			}
			var walk func(c *ssa.BasicBlock)
			walk = func(c *ssa.BasicBlock) {
				if lp.body[c] {
					return
				}
				lp.body[c] = true
				for _, p := range c.Preds {
					walk(p)
				}
			}
			walk(b)
		}
	}
	for h, lp := range li.header {
		for h2 := range li.header {
			if h2 != h && lp.body[h2] {
				lp.inner = true
			}
		}
	}
	e.loopInfos[fn] = li
	return li
}

// headerCondLit reports whether the loop condition is decided by constant folding in this state.
func (x *Exec) headerCondLit(st *State, fr *Frame, lp *loopDef, nphi int) bool {
	b := lp.header
	last, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	for _, in := range b.Instrs[nphi:] {
		switch y := in.(type) {
		case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.If, *ssa.DebugRef, *ssa.FieldAddr, *ssa.Field, *ssa.UnOp, *ssa.Extract:
		case *ssa.Call:
			if bi, ok := y.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	c := st.clone()
	x.quiet++
	defer func() { x.quiet-- }()
	for _, in := range b.Instrs[nphi:] {
		switch y := in.(type) {
		case *ssa.Call:
			x.builtin(c, fr, y.Call.Value.(*ssa.Builtin), &y.Call, []Value{x.val(c, fr, y.Call.Args[0])}, y.Pos(), func(s *State, v Value) { x.set(c, fr, y, v) })
		case ssa.Value:
			x.set(c, fr, y, x.eval(c, fr, y))
		}
	}
	t := x.term(c, fr, last.Cond)
	if t == tTrue || t == tFalse {
		return true
	}
	// small numbers known on this path
	m := map[*Term]*Term{}
	for n := st.pc; n != nil; n = n.parent {
		if n.t.op == "=" && n.t.args[0].sort == SInt {
			for i := 0; i < 2; i++ {
				if v, ok := litInt(n.t.args[i]); ok && v >= 0 && v <= 16 && n.t.args[1-i].op != "lit" {
					m[n.t.args[1-i]] = n.t.args[i]
				}
			}
		}
	}
	if len(m) == 0 {
		return false
	}
	t = subst(t, m)
	return t == tTrue || t == tFalse
}

func (x *Exec) enterHeader(st *State, fr *Frame, lp *loopDef, nphi int, inside bool) {
	key := loopKey{fr.id, lp.header}
	if c := st.loops[key]; c != nil && inside {
		c.onBack(st)
		return
	}
	delete(st.loops, key)
	if st.unroll[key] < 40 && x.headerCondLit(st, fr, lp, nphi) {
		u := make(map[loopKey]int, len(st.unroll)+1)
		for k, v := range st.unroll {
			u[k] = v
		}
		u[key]++
		st.unroll = u
		x.run(st, fr, lp.header, nphi)
		return
	}
	x.cutLoop(st, fr, lp, nphi)
}

// lvar is a piece of state the loop changes.
type lvar struct {
	name string
	kind string // int bool seq slice ptr iface map other
	get  func(st *State) Value
	typ  types.Type
}

type locKey struct {
	fam      string
	ref, idx *Term
}

type modSet struct {
	phis  map[*ssa.Phi]bool
	cells map[*Cell]bool
	locs  map[locKey]bool
	rows  map[locKey]bool // idx nil
	fams  map[string]bool
	alloc bool
	// stored indices per row, for element frame candidates
	rowIdx map[locKey][]*Term
}

func newModSet() *modSet {
	return &modSet{phis: map[*ssa.Phi]bool{}, cells: map[*Cell]bool{}, locs: map[locKey]bool{}, rows: map[locKey]bool{}, fams: map[string]bool{}, rowIdx: map[locKey][]*Term{}}
}

func (m *modSet) size() int {
	n := len(m.phis) + len(m.cells) + len(m.locs) + len(m.rows)*1000 + len(m.fams)*1000000
	if m.alloc {
		n++
	}
	return n
}

func sameValue(a, b Value) bool {
	switch p := a.(type) {
	case Scalar:
		q, ok := b.(Scalar)
		return ok && p.T == q.T
	case SliceVal:
		q, ok := b.(SliceVal)
		return ok && p.Cell == q.Cell && p.Ref == q.Ref && p.Off == q.Off && p.Len == q.Len && p.Cap == q.Cap
	case PtrVal:
		q, ok := b.(PtrVal)
		if !ok || p.Cell != q.Cell || p.Path != q.Path {
			return false
		}
		if p.Cell != nil {
			return fmt.Sprint(p.CPath) == fmt.Sprint(q.CPath)
		}
		return p.Ref == q.Ref && p.addr() == q.addr()
	case StructVal:
		q, ok := b.(StructVal)
		if !ok {
			return false
		}
		for i := range p.F {
			if !sameValue(p.F[i], q.F[i]) {
				return false
			}
		}
		return true
	case ArrVal:
		q, ok := b.(ArrVal)
		if !ok {
			return false
		}
		for i := range p.E {
			if !sameValue(p.E[i], q.E[i]) {
				return false
			}
		}
		return true
	case TupleVal:
		q, ok := b.(TupleVal)
		if !ok || len(p) != len(q) {
			return false
		}
		for i := range p {
			if !sameValue(p[i], q[i]) {
				return false
			}
		}
		return true
	case IfaceVal:
		q, ok := b.(IfaceVal)
		if !ok || p.Tag != q.Tag || p.Ref != q.Ref {
			return false
		}
		if p.Ref == nil {
			return sameValue(p.DynV, q.DynV)
		}
		return p.Idx == q.Idx
	case MapVal:
		q, ok := b.(MapVal)
		return ok && p.Ref == q.Ref
	case FuncVal:
		q, ok := b.(FuncVal)
		return ok && p.Fn == q.Fn && p.Ref == q.Ref
	case IterVal:
		q, ok := b.(IterVal)
		return ok && p.Cell == q.Cell
	case promoted:
		_, ok := b.(promoted)
		return ok
	case nil:
		return b == nil
	}
	return false
}

// newerThan reports whether a term mentions a symbol created after the mark.
func newerThan(t *Term, mark int) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if (t.op == "var" || t.op == "app") && strings.Contains(t.name, "!") {
			i := strings.LastIndex(t.name, "!")
			j := i + 1
			for j < len(t.name) && t.name[j] >= '0' && t.name[j] <= '9' {
				j++
			}
			if j == len(t.name) {
				if n, err := strconv.Atoi(t.name[i+1:]); err == nil && n > mark && !strings.HasPrefix(t.name, "str!") {
					return true
				}
			}
		}
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

func valueCells(v Value) []*Cell {
	switch p := v.(type) {
	case SliceVal:
		if p.Cell != nil {
			return []*Cell{p.Cell}
		}
	case PtrVal:
		if p.Cell != nil {
			return []*Cell{p.Cell}
		}
	case StructVal:
		var out []*Cell
		for _, f := range p.F {
			out = append(out, valueCells(f)...)
		}
		return out
	case IfaceVal:
		if p.Ref == nil && p.DynV != nil {
			return valueCells(p.DynV)
		}
	}
	return nil
}

// havocValue gives an arbitrary value of the same shape.
func (x *Exec) havocValue(st *State, name string, v Value, t types.Type) Value {
	switch y := v.(type) {
	case Scalar:
		if y.Typ == nil {
			return Scalar{freshVar(name, y.T.sort), nil}
		}
		if y.T.sort != SInt && y.T.sort != SBool && y.T.sort != SSeq {
			return Scalar{freshVar(name, y.T.sort), y.Typ}
		}
		return freshValue(st, name, y.Typ)
	case StructVal:
		u := y.Typ.Underlying().(*types.Struct)
		n := StructVal{Typ: y.Typ}
		for i, f := range y.F {
			n.F = append(n.F, x.havocValue(st, name+"."+u.Field(i).Name(), f, u.Field(i).Type()))
		}
		return n
	case SliceVal:
		return freshValue(st, name, y.Typ)
	case PtrVal:
		return freshValue(st, name, t)
	case TupleVal:
		var n TupleVal
		for i, f := range y {
			n = append(n, x.havocValue(st, fmt.Sprintf("%s.%d", name, i), f, t.(*types.Tuple).At(i).Type()))
		}
		return n
	}
	return freshValue(st, name, t)
}

type cand struct {
	name string
	at   func(st *State) *Term
	user bool
	meta bool
	dead bool
}

func (x *Exec) cutLoop(entry *State, fr *Frame, lp *loopDef, nphi int) {
	x.step()
	key := loopKey{fr.id, lp.header}
	var phis []*ssa.Phi
	for _, in := range lp.header.Instrs[:nphi] {
		phis = append(phis, in.(*ssa.Phi))
	}
	mods := newModSet()
	var h *State
	var backs []*State
	var conds []*Term
	mark := 0
	var allocEntry *Term

	mkHeader := func(assume []*cand) *State {
		mark = cur.ctr
		s := entry.clone()
		allocEntry = entry.alloc
		if mods.alloc {
			s.alloc = freshVar("alloc", SInt)
			s.assume(Le(entry.alloc, s.alloc))
		}
		for _, p := range phis {
			if mods.phis[p] {
				x.set(s, fr, p, x.havocValue(s, "phi_"+p.Comment, entry.env[envKey{fr.id, p}], p.Type()))
			}
		}
		var cs []*Cell
		for c := range mods.cells {
			cs = append(cs, c)
		}
		sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
		for _, c := range cs {
			s.cells[c] = x.havocValue(s, "cell_"+c.name, entry.cells[c], c.typ)
		}
		var fk []string
		for k := range mods.fams {
			fk = append(fk, k)
		}
		sort.Strings(fk)
		if len(fk) > 0 {
			s.havocMem(fk)
		}
		var ls []locKey
		for l := range mods.rows {
			if !mods.fams[l.fam] {
				ls = append(ls, l)
			}
		}
		sort.Slice(ls, func(i, j int) bool {
			return ls[i].fam < ls[j].fam || ls[i].fam == ls[j].fam && termLess(ls[i].ref, ls[j].ref)
		})
		for _, l := range ls {
			s.mem[l.fam] = Store(s.memGet(l.fam), l.ref, rowSym(l.fam, s.alloc))
		}
		ls = ls[:0]
		for l := range mods.locs {
			if !mods.fams[l.fam] && !mods.rows[locKey{l.fam, l.ref, nil}] {
				ls = append(ls, l)
			}
		}
		sort.Slice(ls, func(i, j int) bool {
			if ls[i].fam != ls[j].fam {
				return ls[i].fam < ls[j].fam
			}
			if ls[i].ref != ls[j].ref {
				return termLess(ls[i].ref, ls[j].ref)
			}
			return ls[i].idx.id < ls[j].idx.id
		})
		for _, l := range ls {
			lf := fams[l.fam].leaf
			v := freshVar("loc", lf.sort)
			assumeLeaf(s, lf, v)
			m := s.memGet(l.fam)
			s.mem[l.fam] = Store(m, l.ref, Store(Select(m, l.ref), l.idx, v))
		}
		for _, l := range ls { // group consistency of slice headers
			if strings.HasSuffix(l.fam, "#len") {
				base := strings.TrimSuffix(l.fam, "#len")
				ln := Select(Select(s.memGet(l.fam), l.ref), l.idx)
				cp := Select(Select(s.memGet(base+"#cap"), l.ref), l.idx)
				rf := Select(Select(s.memGet(base+"#ref"), l.ref), l.idx)
				s.assume(Le(ln, cp))
				s.assume(Implies(Eq(rf, I(0)), Eq(cp, I(0))))
			}
		}
		for _, c := range assume {
			if !c.dead {
				s.assume(c.at(s))
			}
		}
		return s
	}
	runBody := func(hs *State) {
		backs = nil
		conds = nil
		s := hs.clone()
		x.quiet++
		s.loops[key] = &loopCtx{mode: loopDry, body: lp.body, onBack: func(b *State) {
			if x.feasible(b, tTrue) {
				backs = append(backs, b)
			}
		}, onCond: func(c *Term) { conds = append(conds, c) }}
		x.run(s, fr, lp.header, nphi)
		x.quiet--
	}
	discover := func() bool { // true when something new was found
		before := mods.size()
		restart := false
		for _, b := range backs {
			if b.alloc != h.alloc {
				mods.alloc = true
			}
			for _, p := range phis {
				if !mods.phis[p] && !sameValue(h.env[envKey{fr.id, p}], b.env[envKey{fr.id, p}]) {
					mods.phis[p] = true
					for _, v := range []Value{entry.env[envKey{fr.id, p}], b.env[envKey{fr.id, p}]} {
						for _, c := range valueCells(v) {
							if _, ok := entry.cells[c]; ok {
								if _, pr := entry.cells[c].(promoted); !pr {
									x.promote(entry, c)
									restart = true
								}
							}
						}
					}
				}
			}
			for c, v := range entry.cells {
				bvl := b.cells[c]
				if _, pr := v.(promoted); pr {
					continue
				}
				if _, pr := bvl.(promoted); pr {
					x.promote(entry, c)
					restart = true
					continue
				}
				if !mods.cells[c] && !sameValue(h.cells[c], bvl) {
					mods.cells[c] = true
					for _, cc := range append(valueCells(v), valueCells(bvl)...) {
						if _, ok := entry.cells[cc]; ok {
							if _, pr := entry.cells[cc].(promoted); !pr {
								x.promote(entry, cc)
								restart = true
							}
						}
					}
				}
			}
			for k := range b.mem {
				x.diffMem(k, h.memGet(k), b.memGet(k), h, mark, mods)
			}
		}
		return restart || mods.size() != before
	}
	if lp.inner {
		x.discovering++
	}
	for round := 0; ; round++ {
		if round > 12 {
			panic(unsupported("loop analysis does not stabilise"))
		}
		h = mkHeader(nil)
		runBody(h)
		if !discover() {
			break
		}
	}
	if lp.inner {
		x.discovering--
	}
	cands := x.candidates(entry, h, backs, conds, fr, lp, phis, mods, mark, allocEntry)
	for _, c := range cands { // candidates that make no sense for the slices they were instantiated with
		if c.user {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if x.eng.vlevel > 2 {
							fmt.Println("      candidate", c.name, "not evaluable:", r)
						}
						c.dead = true
					}
				}()
				c.at(h)
				c.at(entry)
			}()
		}
	}
	if x.discovering > 0 { // only what the loop changes is wanted
		for _, c := range cands {
			if c.user {
				c.dead = true
			}
		}
	}
	// What an inner loop has dropped stays dropped while the invariants of the loops around it shrink.
	kkey := ""
	if x.loopDepth > 0 && x.discovering == 0 {
		kkey = fmt.Sprintf("%s %d %d %s", fr.fn, fr.depth, lp.header.Index, entry.traceStr())
	}
	cnt := map[string]int{}
	for _, c := range cands {
		cnt[c.name]++
		if kkey != "" && x.killed[kkey][c.name] {
			c.dead = true
		}
	}
	cands = aliveOf(cands)
	if kkey != "" {
		all := cands
		defer func() {
			m := x.killed[kkey]
			if m == nil {
				m = map[string]bool{}
				x.killed[kkey] = m
			}
			for _, c := range all {
				if c.dead && cnt[c.name] == 1 {
					m[c.name] = true
				}
			}
		}()
	} else if x.discovering == 0 {
		x.killed = map[string]map[string]bool{}
	}
	// initiation
	x.filter(cands, true, func(c *cand) ([]*Term, *Term) { g := c.at(entry); return entry.hyps(), g })
	alive := aliveOf(cands)
	// Houdini: the body runs under the candidates that are left; between runs the set shrinks on the same paths, and it is final
	// only when every candidate survives a run that assumed nothing but the survivors (paths are pruned under the assumptions).
	stale := true
	var hpc *pcNode // what holds at the loop head; facts after it come from the body (branch conditions, callees)
	for iter := 0; len(alive) > 0; iter++ {
		if iter > 60 {
			panic(unsupported("loop invariants do not stabilise"))
		}
		rerun := lp.inner || stale
		if rerun {
			h = mkHeader(alive)
			hpc = h.pc
			x.loopDepth++
			runBody(h)
			x.loopDepth--
			stale = false
		}
		n0 := len(alive)
		for _, b := range backs {
			alive = aliveOf(cands)
			if len(alive) == 0 {
				break
			}
			hyps := b.hyps()
			if !rerun {
				// candidates dropped since the body was run must not be assumed
				dead := map[*Term]bool{}
				for _, c := range cands {
					if c.dead {
						dead[c.at(h)] = true
					}
				}
				live := map[*Term]bool{}
				for _, c := range alive {
					t := c.at(h)
					if t.op == "and" {
						for _, a := range t.args {
							live[a] = true
						}
					}
					live[t] = true
				}
				own := map[*Term]bool{}
				for n := b.pc; n != nil && n != hpc; n = n.parent {
					own[n.t] = true
				}
				var hs []*Term
				for _, t := range hyps {
					if !own[t] && x.isCandFact(t, dead, live) {
						continue
					}
					hs = append(hs, t)
				}
				hyps = hs
			}
			x.filter(alive, false, func(c *cand) ([]*Term, *Term) { g := c.at(b); return hyps, g })
		}
		alive = aliveOf(cands)
		if len(alive) == n0 {
			if rerun {
				break
			}
			stale = true
		}
	}
	if x.eng.vlevel > 1 {
		fmt.Printf("    loop %s in %s: %d/%d invariants\n", lp.header, fr.fn.Name(), len(alive), len(cands))
		for _, c := range cands {
			if x.eng.vlevel > 2 || !c.dead || c.user {
				d := ""
				if c.dead {
					d = "  DEAD"
				}
				fmt.Printf("      %s%s\n", c.name, d)
			}
		}
	}
	if x.quiet == 0 {
		for _, c := range alive {
			x.obls = append(x.obls, &Obl{Fn: x.con.Name, Kind: "invariant", Label: c.name, Pos: posOf(x.eng, lp.header.Instrs[0].Pos()), goal: tTrue, res: &solveResult{res: "unsat", backend: "z3-new"}})
		}
	}
	h = mkHeader(alive)
	h.note("loop b%d", lp.header.Index)
	h.loops[key] = &loopCtx{mode: loopFinal, body: lp.body, onBack: func(b *State) {}}
	x.run(h, fr, lp.header, nphi)
}

func (x *Exec) isCandFact(t *Term, dead, live map[*Term]bool) bool {
	if live[t] {
		return false
	}
	if dead[t] {
		return true
	}
	for d := range dead {
		if d.op == "and" {
			for _, a := range d.args {
				if a == t {
					return true
				}
			}
		}
	}
	return false
}

func aliveOf(cs []*cand) []*cand {
	var out []*cand
	for _, c := range cs {
		if !c.dead {
			out = append(out, c)
		}
	}
	return out
}

// filter kills the candidates whose goal is not proved.
func (x *Exec) filter(cs []*cand, init bool, f func(c *cand) ([]*Term, *Term)) {
	type job struct {
		c    *cand
		hyps []*Term
		goal *Term
	}
	var jobs []job
	for _, c := range cs {
		if c.dead {
			continue
		}
		var hy []*Term
		var g *Term
		func() {
			defer func() {
				if r := recover(); r != nil {
					if x.eng.vlevel > 2 {
						fmt.Println("      candidate", c.name, "not evaluable:", r)
					}
					c.dead = true
				}
			}()
			hy, g = f(c)
		}()
		if !c.dead {
			jobs = append(jobs, job{c, hy, g})
		}
	}
	if len(jobs) == 0 {
		return
	}
	// all at once first
	var gs []*Term
	for _, j := range jobs {
		gs = append(gs, j.goal)
	}
	all := And(gs...)
	hy := jobs[len(jobs)-1].hyps
	if len(jobs) > 1 {
		if r := TH.prove(hy, all, x.eng.invMs/2, 1); r.res == "unsat" {
			return
		}
	}
	var wg sync.WaitGroup
	gc := gilRelease()
	for i := range jobs {
		wg.Add(1)
		go func(j job) {
			defer wg.Done()
			gilAcquire(gc)
			defer gilRelease()
			lvl := 1
			if j.c.user || strings.HasPrefix(j.c.name, "contract frame") {
				lvl = 3
			}
			if x.fast && lvl > 1 {
				lvl = 1
			}
			ms := x.eng.invMs
			if j.c.user {
				ms *= 4
			}
			if j.c.meta && init {
				ms, lvl = 700, 1
			}
			if r := TH.prove(j.hyps, j.goal, ms, lvl); r.res != "unsat" {
				if (j.c.user && x.eng.vlevel > 3) || x.eng.vlevel > 4 {
					dumpQuery(&Obl{Fn: "cand", Label: j.c.name, res: r})
				}
				j.c.dead = true
				if x.fast && (j.c.user || strings.HasPrefix(j.c.name, "contract frame")) {
					x.weak = true
				}
			}
		}(jobs[i])
	}
	wg.Wait()
	gilAcquire(gc)
}

// diffMem records which parts of a memory family the loop body wrote.
func (x *Exec) diffMem(k string, m0, m1 *Term, h *State, mark int, mods *modSet) {
	if m0 == m1 || mods.fams[k] {
		return
	}
	stores, extra, ok := storeDiff(m0, m1)
	if !ok {
		if x.eng.vlevel > 1 {
			fmt.Println("   family", k, "no common base", m0, m1)
		}
		mods.fams[k] = true
		return
	}
	for _, s := range stores {
		ref := s.args[1]
		d := Sub(ref, h.alloc)
		if d.lo != nil && d.lo.Sign() >= 0 {
			continue // allocated in this iteration
		}
		if newerThan(ref, mark) {
			if x.eng.vlevel > 1 {
				fmt.Println("   family", k, "store to", ref, "mark", mark)
			}
			mods.fams[k] = true
			return
		}
		rk := locKey{k, ref, nil}
		rs, rex, ok := storeDiff(Select(m0, ref), s.args[2])
		if !ok {
			mods.rows[rk] = true
			continue
		}
		var idxs []*Term
		for _, r := range rs {
			idxs = append(idxs, r.args[1])
		}
		for _, r := range rex {
			idxs = append(idxs, r.args[1])
		}
		for _, i := range idxs {
			if newerThan(i, mark) {
				mods.rows[rk] = true
			} else {
				mods.locs[locKey{k, ref, i}] = true
			}
		}
		if mods.rows[rk] {
			mods.rowIdx[rk] = append(mods.rowIdx[rk], idxs...)
		}
	}
	for _, s := range extra {
		if newerThan(s.args[1], mark) {
			mods.fams[k] = true
			return
		}
		mods.rows[locKey{k, s.args[1], nil}] = true
	}
}

// storeDiff compares two store chains: the stores of b above the common base, and the stores of a above it at indices b does not store to.
func storeDiff(a, b *Term) (top, extra []*Term, ok bool) {
	inA := map[*Term]bool{}
	t := a
	for {
		inA[t] = true
		if t.op != "store" {
			break
		}
		t = t.args[0]
	}
	at := map[*Term]bool{}
	for n := 0; !inA[b]; n++ {
		if b.op != "store" || n > 300 {
			return nil, nil, false
		}
		top = append(top, b)
		at[b.args[1]] = true
		b = b.args[0]
	}
	for t = a; t != b; t = t.args[0] {
		if !at[t.args[1]] {
			extra = append(extra, t)
		}
	}
	return top, extra, true
}

// candidates builds the invariant candidates of a loop.
func (x *Exec) candidates(entry, h *State, backs []*State, conds []*Term, fr *Frame, lp *loopDef, phis []*ssa.Phi, mods *modSet, mark int, allocEntry *Term) []*cand {
	var out []*cand
	seen := map[string]bool{}
	metaInv := false
	add := func(user bool, name string, at func(st *State) *Term) {
		if seen[name] {
			return
		}
		seen[name] = true
		out = append(out, &cand{name: name, at: at, user: user, meta: user && metaInv})
	}
	// leaf variables
	type iv struct {
		name string
		get  func(st *State) *Term
		typ  types.Type
	}
	var ints []iv
	var pairs []iv // variables usable in linear relations
	var slices, strs, ptrs, bools []lvar
	var ghosts []lvar
	var addVal func(name string, get func(st *State) Value, v Value)
	addVal = func(name string, get func(st *State) Value, v Value) {
		switch y := v.(type) {
		case Scalar:
			switch y.T.sort {
			case SInt:
				i := iv{name, func(st *State) *Term { return get(st).(Scalar).T }, y.Typ}
				ints = append(ints, i)
				pairs = append(pairs, i)
			case SBool:
				bools = append(bools, lvar{name, "bool", get, y.Typ})
				add(false, name+" unchanged", func(st *State) *Term {
					return Eq(get(st).(Scalar).T, get(entry).(Scalar).T)
				})
			case SSeq:
				strs = append(strs, lvar{name, "seq", get, y.Typ})
			default:
				ghosts = append(ghosts, lvar{name, "ghost", get, y.Typ})
			}
		case SliceVal:
			slices = append(slices, lvar{name, "slice", get, y.Typ})
			i := iv{"len(" + name + ")", func(st *State) *Term { return get(st).(SliceVal).Len }, nil}
			ints = append(ints, i)
			pairs = append(pairs, i)
			gs := func(st *State) SliceVal { return x.realSlice(st, get(st).(SliceVal)) }
			e0 := x.realSlice(entry, get(entry).(SliceVal))
			add(false, name+": same or new backing array", func(st *State) *Term {
				s := gs(st)
				return Or(Eq(s.Ref, e0.Ref), Ge(s.Ref, allocEntry))
			})
			add(false, name+": same window or new backing array", func(st *State) *Term {
				s := gs(st)
				return Or(And(Eq(s.Ref, e0.Ref), Eq(s.Off, e0.Off), Eq(s.Cap, e0.Cap)), Ge(s.Ref, allocEntry))
			})
			add(false, name+": same backing array", func(st *State) *Term { return Eq(gs(st).Ref, e0.Ref) })
			add(false, name+": same offset", func(st *State) *Term { return Eq(gs(st).Off, e0.Off) })
			add(false, name+": not nil", func(st *State) *Term { return Ne(gs(st).Ref, I(0)) })
		case PtrVal:
			ptrs = append(ptrs, lvar{name, "ptr", get, nil})
			add(false, name+" not nil", func(st *State) *Term { p := get(st).(PtrVal); return Ne(p.Ref, I(0)) })
		case IfaceVal:
			add(false, name+" nil", func(st *State) *Term { return Eq(get(st).(IfaceVal).Tag, I(0)) })
			add(false, name+" not nil", func(st *State) *Term { return Ne(get(st).(IfaceVal).Tag, I(0)) })
		case StructVal:
			u := y.Typ.Underlying().(*types.Struct)
			for i := range y.F {
				i := i
				addVal(name+"."+u.Field(i).Name(), func(st *State) Value { return get(st).(StructVal).F[i] }, y.F[i])
			}
		}
	}
	for _, p := range phis {
		if !mods.phis[p] {
			continue
		}
		p := p
		nm := p.Comment
		if nm == "" {
			nm = p.Name()
		}
		addVal(nm, func(st *State) Value { return st.env[envKey{fr.id, p}] }, h.env[envKey{fr.id, p}])
	}
	var cs []*Cell
	for c := range mods.cells {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	for _, c := range cs {
		c := c
		addVal(c.name, func(st *State) Value { return st.cells[c] }, h.cells[c])
	}
	var ls []locKey
	for l := range mods.locs {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool {
		if ls[i].fam != ls[j].fam {
			return ls[i].fam < ls[j].fam
		}
		if ls[i].ref != ls[j].ref {
			return termLess(ls[i].ref, ls[j].ref)
		}
		return ls[i].idx.id < ls[j].idx.id
	})
	locTerm := func(st *State, fam string, l locKey) *Term { return Select(Select(st.memGet(fam), l.ref), l.idx) }
	for _, l := range ls {
		l := l
		lf := fams[l.fam].leaf
		switch {
		case lf.kind == "slen":
			base := strings.TrimSuffix(l.fam, "#len")
			addVal("loc "+base, func(st *State) Value {
				return SliceVal{Ref: locTerm(st, base+"#ref", l), Off: locTerm(st, base+"#off", l), Len: locTerm(st, base+"#len", l), Cap: locTerm(st, base+"#cap", l), Typ: lf.typ}
			}, SliceVal{Typ: lf.typ})
		case lf.kind == "int":
			addVal("loc "+l.fam, func(st *State) Value { return Scalar{locTerm(st, l.fam, l), lf.typ} }, Scalar{I(0), lf.typ})
		case lf.kind == "bool":
			add(false, "loc "+l.fam+" unchanged", func(st *State) *Term { return Eq(locTerm(st, l.fam, l), locTerm(entry, l.fam, l)) })
		}
	}
	// generic integer facts
	for _, v := range ints {
		v := v
		e := v.get(entry)
		add(false, v.name+" >= initial", func(st *State) *Term { return Ge(v.get(st), e) })
		add(false, v.name+" <= initial", func(st *State) *Term { return Le(v.get(st), e) })
	}
	// conditions met in the body, as bounds
	hv := map[*Term]*Term{}
	var hvOrder []iv
	for _, v := range ints {
		t := v.get(h)
		if t.op == "var" || t.op == "app" || t.op == "select" {
			hv[t] = t
			hvOrder = append(hvOrder, v)
		}
	}
	inst := func(t *Term) func(st *State) *Term {
		return func(st *State) *Term {
			m := map[*Term]*Term{}
			for _, v := range hvOrder {
				m[v.get(h)] = v.get(st)
			}
			return subst(t, m)
		}
	}
	usable := func(t *Term) bool { // only header variables and loop-invariant symbols
		if t.bnd {
			return false
		}
		m := map[*Term]*Term{}
		for v := range hv {
			m[v] = I(0)
		}
		return !newerThan(subst(t, m), mark)
	}
	mentions := func(t *Term) bool {
		for v := range hv {
			if containsTerm(t, v) {
				return true
			}
		}
		return false
	}
	var atoms []*Term
	for _, c := range conds {
		collectAtoms(c, &atoms)
	}
	na := 0
	for _, a := range atoms {
		if na > 24 {
			break
		}
		for _, d := range []*Term{Sub(a.args[1], a.args[0]), stripMod(Sub(a.args[1], a.args[0]))} {
			if d.op == "lit" || !mentions(d) || !usable(d) {
				continue
			}
			na++
			for _, off := range []int64{-1, 0, 1} {
				t1 := Ge(Add(d, I(off)), I(0))
				add(false, t1.String(), inst(t1))
				t2 := Le(Add(d, I(off)), I(0))
				add(false, t2.String(), inst(t2))
				// or the loop has not changed anything in it yet
				var same []func(st *State) *Term
				triv := true
				for _, v := range hvOrder {
					if containsTerm(d, v.get(h)) {
						v := v
						e := v.get(entry)
						if e.op != "lit" {
							triv = false
						}
						same = append(same, func(st *State) *Term { return Eq(v.get(st), e) })
					}
				}
				if triv {
					continue
				}
				for _, t := range []*Term{t1, t2} {
					at := inst(t)
					add(false, t.String()+" or unchanged", func(st *State) *Term {
						var cs []*Term
						for _, f := range same {
							cs = append(cs, f(st))
						}
						return Or(at(st), And(cs...))
					})
				}
			}
		}
	}
	var kept []lvar // slices the loop does not assign (their elements may change)
	{
		var vs []ssa.Value
		for k, v := range entry.env {
			if _, ok := v.(SliceVal); ok && k.frame == fr.id {
				if p, isPhi := k.v.(*ssa.Phi); !isPhi || !mods.phis[p] {
					vs = append(vs, k.v)
				}
			}
		}
		sort.Slice(vs, func(i, j int) bool {
			return vs[i].Pos() < vs[j].Pos() || vs[i].Pos() == vs[j].Pos() && vs[i].Name() < vs[j].Name()
		})
		for _, v := range vs {
			v := v
			kept = append(kept, lvar{v.Name(), "slice", func(st *State) Value { return entry.env[envKey{fr.id, v}] }, v.Type()})
		}
		var cs []*Cell
		for c, v := range entry.cells {
			if _, ok := v.(SliceVal); ok && !mods.cells[c] {
				cs = append(cs, c)
			}
		}
		sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
		for _, c := range cs {
			c := c
			kept = append(kept, lvar{c.name, "slice", func(st *State) Value { return entry.cells[c] }, entry.cells[c].(SliceVal).Typ})
		}
	}
	var homes []lvar // variables that live in memory
	{
		var cs []*Cell
		for c := range entry.cells {
			cs = append(cs, c)
		}
		sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
		for _, c := range cs {
			p := PtrVal{Cell: c, Elem: c.typ, Root: shortType(c.typ)}
			homes = append(homes, lvar{c.name, "ptr", func(st *State) Value { return x.resolveCell(st, p) }, types.NewPointer(c.typ)})
		}
	}
	var maps, iters []lvar // maps and map iterators of the frame
	{
		var vs []ssa.Value
		for k, v := range entry.env {
			switch v.(type) {
			case MapVal, IterVal:
				if _, isPhi := k.v.(*ssa.Phi); !isPhi && k.frame == fr.id {
					vs = append(vs, k.v)
				}
			}
		}
		sort.Slice(vs, func(i, j int) bool {
			return vs[i].Pos() < vs[j].Pos() || vs[i].Pos() == vs[j].Pos() && vs[i].Name() < vs[j].Name()
		})
		for _, v := range vs {
			y := entry.env[envKey{fr.id, v}]
			l := lvar{v.Name(), "map", func(st *State) Value { return y }, v.Type()}
			if it, ok := y.(IterVal); ok {
				if !it.Str {
					iters = append(iters, l)
				}
			} else {
				maps = append(maps, l)
			}
		}
	}
	var fixed []lvar // integers the loop does not change
	{
		var vs []ssa.Value
		seenT := map[*Term]bool{}
		for k, v := range entry.env {
			if sc, ok := v.(Scalar); ok && k.frame == fr.id && sc.T.sort == SInt && sc.T.op != "lit" {
				if p, isPhi := k.v.(*ssa.Phi); !isPhi || !mods.phis[p] {
					vs = append(vs, k.v)
				}
			}
		}
		sort.Slice(vs, func(i, j int) bool {
			return vs[i].Pos() < vs[j].Pos() || vs[i].Pos() == vs[j].Pos() && vs[i].Name() < vs[j].Name()
		})
		for _, v := range vs {
			v := v
			t := entry.env[envKey{fr.id, v}].(Scalar).T
			if seenT[t] {
				continue
			}
			seenT[t] = true
			fixed = append(fixed, lvar{v.Name(), "int", func(st *State) Value { return intV(t) }, v.Type()})
		}
	}
	// counters never run past a slice in scope
	if len(ints) <= 8 {
		for _, v := range ints {
			for n, k := range kept {
				if n >= 8 {
					break
				}
				v := v
				ln := k.get(entry).(SliceVal).Len
				if ln.op == "lit" {
					continue
				}
				t := Sub(ln, v.get(h))
				add(false, Ge(t, I(0)).String(), func(st *State) *Term { return Ge(Sub(ln, v.get(st)), I(0)) })
			}
		}
	}
	// linear relations between pairs
	step := func(v iv) (*Term, bool) {
		var s *Term
		for _, b := range backs {
			d := Sub(v.get(b), v.get(h))
			if d.op != "lit" {
				vb := v.get(b)
				d = Sub(stripMod(vb), v.get(h))
				if n, ok := litInt(d); ok && vb.op == "mod" {
					if m, ok := litInt(vb.args[1]); ok && n > m/2 {
						d = I(n - m)
					}
				}
			}
			if d.op != "lit" {
				return nil, false
			}
			if s == nil {
				s = d
			} else if s != d {
				return nil, false
			}
		}
		return s, s != nil
	}
	for i, p := range pairs {
		sp, ok := step(p)
		if !ok || isZeroT(sp) {
			continue
		}
		for _, q := range pairs[i+1:] {
			sq, ok := step(q)
			if !ok || isZeroT(sq) {
				continue
			}
			p, q := p, q
			for _, o := range [][2]iv{{p, q}, {q, p}} {
				a, b := o[0], o[1]
				sa, sb := sp, sq
				if a.name == q.name {
					sa, sb = sq, sp
				}
				na, ok1 := litInt(sa)
				nb, ok2 := litInt(sb)
				m := wrapOf(a.get, backs)
				if m == nil || !ok1 || !ok2 || na%nb != 0 {
					continue
				}
				add(false, fmt.Sprintf("%s wraps around following %s", a.name, b.name), func(st *State) *Term {
					return Eq(a.get(st), Mod(Add(a.get(entry), Mul(I(na/nb), Sub(b.get(st), b.get(entry)))), m))
				})
			}
			add(false, fmt.Sprintf("%s and %s advance together", p.name, q.name), func(st *State) *Term {
				return Eq(Mul(sq, Sub(p.get(st), p.get(entry))), Mul(sp, Sub(q.get(st), q.get(entry))))
			})
		}
	}
	// frames
	var fk []string
	for k := range mods.fams {
		fk = append(fk, k)
	}
	sort.Strings(fk)
	for _, k := range fk {
		k := k
		m0 := entry.memGet(k)
		var exc []*Term
		for _, s := range slices {
			if sv, ok := s.get(entry).(SliceVal); ok {
				et := sv.Typ.Underlying().(*types.Slice).Elem()
				if strings.HasPrefix(k, shortType(et)+"|") {
					sv = x.realSlice(entry, sv)
					exc = append(exc, sv.Ref)
				}
			}
		}
		for l := range mods.rows {
			if l.fam == k {
				exc = append(exc, l.ref)
			}
		}
		for l := range mods.locs {
			if l.fam == k {
				exc = append(exc, l.ref)
			}
		}
		lf := fams[k].leaf
		frame := func(ex []*Term) func(st *State) *Term {
			return func(st *State) *Term {
				m := st.memGet(k)
				if m == m0 {
					return tTrue
				}
				r := BV("r", SInt)
				cs := []*Term{mkRaw("<", "", SBool, r, allocEntry)}
				for _, e := range ex {
					cs = append(cs, Not(mkRaw("=", "", SBool, r, e)))
				}
				sel := mkRaw("select", "", arrSort(lf.sort), m, r)
				return Forall([]*Term{r}, [][]*Term{{sel}}, Implies(And(cs...), mkRaw("=", "", SBool, sel, Select(m0, r))))
			}
		}
		add(false, "frame "+k, frame(nil))
		if x.pre != nil {
			add(false, "contract frame "+k, func(st *State) *Term {
				m, p0 := st.memGet(k), x.pre.memGet(k)
				if m == p0 {
					return tTrue
				}
				r, i := BV("r", SInt), BV("i", SInt)
				cs := []*Term{mkRaw("<", "", SBool, r, x.pre.alloc), mkRaw("<=", "", SBool, I(0), r)}
				for _, l := range x.locs {
					if !containsStr(l.keys, k) {
						continue
					}
					switch {
					case l.ref == nil:
						return tTrue
					case l.idx != nil:
						cs = append(cs, Not(And(mkRaw("=", "", SBool, r, l.ref), mkRaw("=", "", SBool, i, l.idx))))
					case l.lo != nil:
						cs = append(cs, Not(And(mkRaw("=", "", SBool, r, l.ref), mkRaw("<=", "", SBool, l.lo, i), mkRaw("<", "", SBool, i, l.hi))))
					default:
						cs = append(cs, Not(mkRaw("=", "", SBool, r, l.ref)))
					}
				}
				sel := mkRaw("select", "", lf.sort, mkRaw("select", "", arrSort(lf.sort), m, r), i)
				sel0 := mkRaw("select", "", lf.sort, mkRaw("select", "", arrSort(lf.sort), p0, r), i)
				return Forall([]*Term{r, i}, [][]*Term{{sel}}, Implies(And(cs...), mkRaw("=", "", SBool, sel, sel0)))
			})
		}
		if len(exc) > 0 {
			add(false, "frame "+k+" except own", frame(exc))
		}
	}
	// element frames of rows written at moving indices
	for rk, idxs := range mods.rowIdx {
		rk := rk
		if mods.fams[rk.fam] {
			continue
		}
		lf := fams[rk.fam].leaf
		row0 := Select(entry.memGet(rk.fam), rk.ref)
		for n, ix := range idxs {
			if n > 3 || !usable(ix) {
				continue
			}
			at := inst(ix)
			add(false, fmt.Sprintf("elements of %s from %s on unchanged", rk.fam, ix), func(st *State) *Term {
				i := BV("k", SInt)
				sel := mkRaw("select", "", lf.sort, Select(st.memGet(rk.fam), rk.ref), i)
				return Forall([]*Term{i}, [][]*Term{{sel}}, Implies(mkRaw("<=", "", SBool, at(st), i), mkRaw("=", "", SBool, sel, mkRaw("select", "", lf.sort, row0, i))))
			})
			e0 := inst(ix)(entry)
			add(false, fmt.Sprintf("elements of %s before %s unchanged", rk.fam, e0), func(st *State) *Term {
				i := BV("k", SInt)
				sel := mkRaw("select", "", lf.sort, Select(st.memGet(rk.fam), rk.ref), i)
				return Forall([]*Term{i}, [][]*Term{{sel}}, Implies(mkRaw("<", "", SBool, i, e0), mkRaw("=", "", SBool, sel, mkRaw("select", "", lf.sort, row0, i))))
			})
		}
	}
	// contract templates
	if x.con != nil {
		for _, cl := range x.con.Inv {
			metas := metaVars(cl.E)
			metaInv = len(metas) > 0
			var rec func(i int, b map[string]func(st *State) Value, desc string)
			rec = func(i int, b map[string]func(st *State) Value, desc string) {
				if i == len(metas) {
					bb := map[string]func(st *State) Value{}
					for k, v := range b {
						bb[k] = v
					}
					at := func(st *State) *Term {
						names := map[string]Value{}
						for k, v := range x.names {
							names[k] = v
						}
						for k, v := range bb {
							names[k] = v(st)
						}
						c := &specCtx{x: x, st: st, old: x.pre, names: names}
						return c.bool(cl.E)
					}
					nm := cl.name() + " [" + strings.TrimSpace(desc) + "]"
					add(true, nm, at)
					if len(bools) <= 2 && !containsStr(metas, "META_b") {
						for _, f := range bools {
							f := f
							add(true, nm+" if "+f.name, func(st *State) *Term { return Implies(f.get(st).(Scalar).T, at(st)) })
							add(true, nm+" unless "+f.name, func(st *State) *Term { return Or(f.get(st).(Scalar).T, at(st)) })
						}
					}
					return
				}
				m := metas[i]
				kind := m[len("META_")]
				fits := func(t types.Type) bool { return metaFits(m, t) }
				switch kind {
				case 'i', 'j':
					for _, v := range ints {
						v := v
						if !fits(v.typ) {
							continue
						}
						b[m] = func(st *State) Value { return intV(v.get(st)) }
						rec(i+1, b, desc+" "+v.name)
						b[m] = func(st *State) Value { return intV(Add(v.get(st), I(1))) }
						rec(i+1, b, desc+" "+v.name+"+1")
					}
				case 's', 't':
					for _, v := range slices {
						if !fits(v.typ) {
							continue
						}
						b[m] = v.get
						rec(i+1, b, desc+" "+v.name)
					}
					n := 0
					for _, v := range kept {
						if !fits(v.typ) {
							continue
						}
						if n++; n <= 12 {
							b[m] = v.get
							rec(i+1, b, desc+" "+v.name)
						}
					}
				case 'b':
					for _, v := range bools {
						if !fits(v.typ) {
							continue
						}
						b[m] = v.get
						rec(i+1, b, desc+" "+v.name)
					}
				case 'n':
					n := 0
					for _, v := range fixed {
						if !fits(v.typ) {
							continue
						}
						if n++; n <= 12 {
							b[m] = v.get
							rec(i+1, b, desc+" "+v.name)
						}
					}
				case 'm', 'r':
					vs := maps
					if kind == 'r' {
						vs = iters
					}
					for _, v := range vs {
						if kind == 'm' && !fits(v.typ) {
							continue
						}
						b[m] = v.get
						rec(i+1, b, desc+" "+v.name)
					}
				case 'z':
					for _, v := range strs {
						if !fits(v.typ) {
							continue
						}
						b[m] = v.get
						rec(i+1, b, desc+" "+v.name)
					}
				case 'p':
					if _, typed := metaTypes[m]; typed { // a variable that lives in memory
						for _, v := range homes {
							if fits(v.typ) {
								b[m] = v.get
								rec(i+1, b, desc+" "+v.name)
							}
						}
						break
					}
					for _, v := range ptrs {
						b[m] = v.get
						rec(i+1, b, desc+" "+v.name)
					}
				case 'v':
					for _, v := range ghosts {
						if !fits(v.typ) {
							continue
						}
						b[m] = v.get
						rec(i+1, b, desc+" "+v.name)
					}
				}
				delete(b, m)
			}
			rec(0, map[string]func(st *State) Value{}, "")
		}
	}
	return out
}

// metaFits reports whether a value of type t may stand for the placeholder ($i{type} restricts what it stands for; $i{var}: any variable).
func metaFits(m string, t types.Type) bool {
	ty, ok := metaTypes[m]
	if !ok {
		return true
	}
	if t == nil {
		return false
	}
	return ty == "var" || shortType(t) == ty || strings.HasSuffix(shortType(t), "/"+ty)
}

// wrapOf returns the modulus a variable is reduced by in every iteration, if there is one.
func wrapOf(get func(st *State) *Term, backs []*State) *Term {
	for _, b := range backs {
		if t := get(b); t.op == "mod" && t.args[1].op == "lit" {
			return t.args[1]
		}
	}
	return nil
}

func containsTerm(t, u *Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == u {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

func collectAtoms(c *Term, out *[]*Term) {
	switch c.op {
	case "and", "or", "not", "=>":
		for _, a := range c.args {
			collectAtoms(a, out)
		}
	case "<", "<=":
		for _, o := range *out {
			if o == c {
				return
			}
		}
		*out = append(*out, c)
	case "=":
		if c.args[0].sort == SInt {
			for _, o := range *out {
				if o == c {
					return
				}
			}
			*out = append(*out, c)
		}
	}
}

// stripMod replaces (mod t c) by t: narrowing conversions of loop counters.
func stripMod(t *Term) *Term {
	m := map[*Term]*Term{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.op == "mod" {
			m[t] = t.args[0]
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	if len(m) == 0 {
		return t
	}
	return subst(t, m)
}

func metaVars(e ast.Expr) []string {
	set := map[string]bool{}
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && strings.HasPrefix(id.Name, "META_") {
			set[id.Name] = true
		}
		return true
	})
	var out []string
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
