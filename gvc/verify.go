package main

import (
	"context"
	"fmt"
	"go/token"
	"runtime/debug"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

// FnResult is the outcome of verifying one function against its contract.
type FnResult struct {
	Con     *Contract
	Obls    []*Obl
	Used    []*Contract
	Trusted []string
	Inlined []string
	Paths   int
	Returns int
	Panics  int
	Err     string
	Weak    bool // a loop candidate was dropped without trying every back end
	Dur     time.Duration
}

// verifyFn symbolically executes a function and collects its obligations. The caller holds the gil.
func (e *Engine) verifyFn(con *Contract, fast bool) (res *FnResult) {
	res = &FnResult{Con: con}
	t0 := time.Now()
	fn := e.allFuncs[con.Name]
	x := &Exec{eng: e, con: con, root: fn, start: t0, fast: fast, inlined: map[string]bool{}, used: map[*Contract]bool{}, trusted: map[string]bool{}}
	defer func() {
		if r := recover(); r != nil {
			msg := ""
			switch y := r.(type) {
			case unsupportedErr:
				msg = y.Error()
			case string:
				msg = y
				if e.vlevel > 0 {
					debug.PrintStack()
				}
			default:
				msg = fmt.Sprint(r)
				if e.vlevel > 0 {
					debug.PrintStack()
				}
			}
			res.Err = msg
			x.obls = append(x.obls, &Obl{Fn: con.Name, Kind: "subset", Label: "the function is within the verified subset", goal: tFalse, trace: msg, res: &solveResult{res: "unknown", backend: "engine", raw: msg}})
		}
		res.Obls = x.obls
		res.Weak = x.weak
		for c := range x.used {
			res.Used = append(res.Used, c)
		}
		sort.Slice(res.Used, func(i, j int) bool { return res.Used[i].Name < res.Used[j].Name })
		res.Trusted = sortedKeys(x.trusted)
		res.Inlined = sortedKeys(x.inlined)
		res.Paths, res.Returns, res.Panics = x.npaths, x.nret, x.npan
		res.Dur = time.Since(t0)
	}()
	if fn == nil {
		panic(unsupported("function %s does not exist", con.Name))
	}
	if len(fn.Blocks) == 0 {
		panic(unsupported("function %s has no body", con.Name))
	}
	st := newState()
	st.assume(Ge(alloc0, I(reservedRefs)))
	fr := x.newFrame(fn, nil)
	var args []Value
	for _, p := range fn.Params {
		v := freshValue(st, "p_"+p.Name(), p.Type())
		st.env[envKey{fr.id, p}] = v
		args = append(args, v)
	}
	names := conNames(con, args)
	x.names = names
	ctx := &specCtx{x: x, st: st, names: names}
	for _, r := range con.Requires {
		st.assume(ctx.bool(r.E))
	}
	if len(con.Requires) > 0 {
		// vacuity: the precondition is satisfiable
		r := TH.solve(st.hyps(), e.feasMs, 1)
		o := &Obl{Fn: con.Name, Kind: "vacuity", Label: "the precondition is satisfiable", goal: tTrue, res: &solveResult{res: "unsat", backend: r.backend, ms: r.ms}}
		if r.res == "unsat" {
			o.res.res = "unknown"
			o.res.raw = "precondition is contradictory"
		}
		x.obls = append(x.obls, o)
	}
	pre := st.clone()
	x.pre = pre
	preCtx := &specCtx{x: x, st: pre, names: names}
	var locs []modLoc
	for _, m := range con.Modifies {
		locs = append(locs, preCtx.modLocs(m)...)
	}
	pre.cells = st.cells
	x.locs = locs
	covered := false
	fr.ret = func(s *State, r Value) {
		if s.infeasible() {
			return
		}
		if !covered || x.nret < 3 {
			if q := TH.solve(s.hyps(), e.feasMs, 1); q.res != "unsat" {
				covered = true
			} else {
				return // unreachable
			}
		}
		x.nret++
		s.note("returns")
		for _, p := range con.Panics {
			x.check(s, "panics", "panics if "+p.name(), token.NoPos, p.Props, Not(preCtx.bool(p.E)))
		}
		rc := &specCtx{x: x, st: s, old: pre, names: bindResults(con, names, r)}
		for _, en := range con.Ensures {
			if en.Step {
				x.check(s, "step", en.name(), token.NoPos, en.Props, rc.bool(en.E))
			} else {
				x.checkOnly(s, "ensures", en.name(), token.NoPos, en.Props, rc.bool(en.E))
			}
		}
		x.checkFrame(s, locs)
	}
	fr.unwind = func(s *State, v Value) {
		if s.infeasible() {
			return
		}
		x.npan++
		if con.MayPanic {
			return
		}
		c := tFalse
		var props []string
		for _, p := range con.Panics {
			c = Or(c, preCtx.bool(p.E))
			props = p.Props
		}
		x.check(s, "panics", "panics only where the contract says so", token.NoPos, props, c)
	}
	x.run(st, fr, fn.Blocks[0], 0)
	if x.nret == 0 && x.npan == 0 {
		panic(unsupported("no reachable exit in %s", con.Name))
	}
	if !covered && x.nret == 0 && len(con.Ensures) > 0 && con.Opts["noreturn"] == "" {
		panic(unsupported("no reachable normal exit in %s", con.Name))
	}
	return res
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// solveObls discharges obligations in parallel.
func (e *Engine) solveObls(obls []*Obl, ms, level int) {
	var wg sync.WaitGroup
	for _, o := range obls {
		if o.res != nil {
			continue
		}
		wg.Add(1)
		go func(o *Obl) {
			defer wg.Done()
			gilAcquire(&gctx{name: "o"})
			defer gilRelease()
			o.res = TH.prove(o.hyps, o.goal, ms, level)
			if o.res.res != "unsat" {
				// a conjunction may be easier piecewise
				if o.goal.op == "and" {
					ok := true
					var last *solveResult
					var tot int64
					for _, g := range o.goal.args {
						last = TH.prove(o.hyps, g, ms, level)
						tot += last.ms
						if last.res != "unsat" {
							ok = false
							break
						}
					}
					if ok {
						o.res = &solveResult{res: "unsat", backend: last.backend, ms: tot, text: last.text}
					}
				}
			}
		}(o)
	}
	wg.Wait()
	for _, o := range obls {
		o.failed = o.res.res != "unsat"
	}
}

// secondWind gives the few obligations that are still open a longer run: a busy machine must not look like a broken property.
func (e *Engine) secondWind(obls []*Obl) {
	var open []*Obl
	for _, o := range obls {
		if o.failed && o.res != nil && o.res.res != "sat" && o.goal != nil {
			open = append(open, o)
		}
	}
	if len(open) > 6 {
		return
	}
	for _, o := range open {
		gilAcquire(&gctx{name: "again"})
		r := TH.prove(o.hyps, o.goal, 3*e.oblMs, 5)
		gilRelease()
		if r.res != "unsat" {
			return // one open obligation decides
		}
		o.res, o.failed = r, false
	}
}

// LemmaResult is the outcome of proving one lemma over specification functions.
type LemmaResult struct {
	L   *Lemma
	Obl *Obl
}

// proveLemmas registers every lemma as an axiom for later ones and for function obligations, and returns their obligations.
// Each lemma only sees the lemmas before it.
func (e *Engine) proveLemmas(ms, level int) []*Obl {
	gilAcquire(&gctx{name: "lem"})
	var out []*Obl
	type job struct {
		o *Obl
		q []*Term
		s string
	}
	var jobs []job
	for _, lm := range e.specs.lemmas {
		if e.lemmaUndefined(lm) {
			continue
		}
		o, ax := e.lemmaObl(lm)
		if !lm.NoAx {
			as := append(append([]*Term{}, o.hyps...), Not(o.goal))
			jobs = append(jobs, job{o: o, s: TH.buildQuery(as)})
			out = append(out, o)
		}
		if len(lm.Pats) > 0 {
			TH.addAxiom(ax)
		}
	}
	gilRelease()
	var wg sync.WaitGroup
	if os.Getenv("GVC_PROF") != "" {
		fmt.Fprintln(os.Stderr, "lemma queries built", time.Now())
	}
	for _, j := range jobs {
		wg.Add(1)
		go func(j job) {
			defer wg.Done()
			j.o.res = raceBackends(j.s, ms, level)
		}(j)
	}
	wg.Wait()
	for _, j := range jobs {
		j.o.failed = j.o.res.res != "unsat"
	}
	return out
}

// raceBackends gives the first back end a head start and lets the others join when it has not answered.
func raceBackends(q string, ms, level int) *solveResult {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if level > len(backends) {
		level = len(backends)
	}
	ch := make(chan *solveResult, level)
	start := func(i int) {
		go func() {
			t0 := time.Now()
			r, raw := runBackend(ctx, backends[i], q, ms)
			ch <- &solveResult{res: r, backend: backends[i].name, ms: time.Since(t0).Milliseconds(), raw: raw, text: q}
		}()
	}
	start(0)
	started, n := 1, 0
	head := time.After(1500 * time.Millisecond)
	rest := func() {
		for ; started < level; started++ {
			start(started)
		}
	}
	var last *solveResult
	for n < level {
		select {
		case r := <-ch:
			n++
			last = r
			if r.res == "unsat" {
				return r
			}
			rest()
		case <-head:
			rest()
		}
	}
	return last
}

// lemmaUndefined: types mentioned by the lemma are not loaded.
func (e *Engine) lemmaUndefined(lm *Lemma) (bad bool) {
	defer func() {
		if r := recover(); r != nil {
			bad = true
		}
	}()
	for _, p := range lm.Params {
		sortName(strings.TrimPrefix(p.sort, "?"))
	}
	return false
}

func (e *Engine) lemmaObl(lm *Lemma) (*Obl, *axiom) {
	x := &Exec{eng: e, con: &Contract{Name: "lemma " + lm.Name}, inlined: map[string]bool{}, used: map[*Contract]bool{}, trusted: map[string]bool{}}
	st := newState()
	ctxOf := func(f func(name, srt string) *Term) (*specCtx, map[string]*Term) {
		names := map[string]Value{}
		tm := map[string]*Term{}
		for _, p := range lm.Params {
			t := f(p.name, sortName(strings.TrimPrefix(p.sort, "?")))
			names[p.name] = Scalar{t, nil}
			tm[p.name] = t
		}
		return &specCtx{x: x, st: st, names: names, pure: true}, tm
	}
	body := func(c *specCtx) (hy *Term, concl *Term) {
		hy = tTrue
		for _, h := range lm.Hyps {
			hy = And(hy, c.bool(h.E))
		}
		return hy, c.bool(lm.Concl.E)
	}
	pats := func(c *specCtx) [][]*Term {
		var out [][]*Term
		for _, p := range lm.Pats {
			var ts []*Term
			for _, ex := range p {
				ts = append(ts, c.term(ex))
			}
			out = append(out, ts)
		}
		return out
	}
	cc, _ := ctxOf(func(n, s string) *Term { return V("lem_"+lm.Name+"_"+n, s) })
	hy, concl := body(cc)
	o := &Obl{Fn: "lemma " + lm.Name, Kind: "lemma", Label: lm.Concl.name(), Props: lm.Props, goal: concl, Pos: lm.File}
	o.hyps = append(o.hyps, hy)
	bctx, bt := ctxOf(func(n, s string) *Term { return BV(n+"_"+lm.Name, s) })
	bh, bc := body(bctx)
	var bvs []*Term
	for _, p := range lm.Params {
		bvs = append(bvs, bt[p.name])
	}
	bp := pats(bctx)
	if lm.Ind != nil {
		// induction hypothesis: every instance with a smaller non-negative measure
		ic, it := ctxOf(func(n, s string) *Term { return BV(n+"_ih", s) })
		ih, icn := body(ic)
		mi, m0 := ic.term(lm.Ind), cc.term(lm.Ind)
		var iv2 []*Term
		for _, p := range lm.Params {
			iv2 = append(iv2, it[p.name])
		}
		h := Implies(And(mkRaw("<=", "", SBool, I(0), mi), Lt(mi, m0), ih), icn)
		o.hyps = append(o.hyps, Forall(iv2, pats(ic), h))
	}
	for i, m := range lm.Ment {
		t := cc.term(m)
		o.hyps = append(o.hyps, mkRaw("=", "", SBool, V(fmt.Sprintf("lem_%s_mention%d", lm.Name, i), t.sort), t))
	}
	ax := &axiom{name: "lemma:" + lm.Name, t: Forall(bvs, bp, Implies(bh, bc)), from: "lemma"}
	if lm.NoAx {
		ax.from = "trusted"
	}
	for _, p := range bp {
		syms := map[string]*Term{}
		seen := map[*Term]bool{}
		for _, t := range p {
			collectSyms(t, seen, syms)
		}
		var ns []string
		for n := range syms {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		ax.needs = append(ax.needs, ns)
	}
	return o, ax
}
