package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// axiom is included in a query when, for one of its needs alternatives, all symbols occur in the query.
type axiom struct {
	name  string
	needs [][]string
	t     *Term
	raw   string // raw SMT text instead of t
	from  string // "definition", "lemma", "trusted"
}

type recFun struct {
	name   string
	params []*Term
	ret    string
	body   *Term
}

type theory struct {
	mu     sync.Mutex
	axioms []*axiom
	axIdx  map[string]bool
	recs   map[string]*recFun
	seqs   map[string]string // seq sort -> elem sort
	dts    map[string]string // datatype sort -> declaration
	dtOrd  []string
	dtFun  map[string]bool // functions declared by datatypes
}

func newTheory() *theory {
	th := &theory{axIdx: map[string]bool{}, recs: map[string]*recFun{}, seqs: map[string]string{}, dts: map[string]string{}, dtFun: map[string]bool{}}
	th.addDatatype(SBytes, "(declare-datatypes ((Bytes 0)) (((bnil) (bcons (bhd Int) (btl Bytes)))))", "bnil", "bcons", "bhd", "btl")
	return th
}

func (th *theory) addDatatype(sort, decl string, funs ...string) {
	th.mu.Lock()
	defer th.mu.Unlock()
	if _, ok := th.dts[sort]; ok {
		return
	}
	th.dts[sort] = decl
	th.dtOrd = append(th.dtOrd, sort)
	for _, f := range funs {
		th.dtFun[f] = true
	}
}

func (th *theory) addAxiom(a *axiom) {
	th.mu.Lock()
	defer th.mu.Unlock()
	if th.axIdx[a.name] {
		return
	}
	th.axIdx[a.name] = true
	th.axioms = append(th.axioms, a)
}

// seqSort declares (once) the sequence sort over elem and returns its name.
func (th *theory) seqSort(elem string) string {
	s := "Seq_" + mangle(elem)
	th.mu.Lock()
	_, ok := th.seqs[s]
	if !ok {
		th.seqs[s] = elem
	}
	th.mu.Unlock()
	if ok {
		return s
	}
	a, b, i := BV("a", s), BV("b", s), BV("i", SInt)
	th.addAxiom(&axiom{name: "len_nonneg_" + s, needs: [][]string{{"sl_" + s}}, t: Forall([]*Term{a}, [][]*Term{{mkRaw("app", "sl_"+s, SInt, a)}}, mkRaw("<=", "", SBool, I(0), mkRaw("app", "sl_"+s, SInt, a))), from: "definition"})
	eqp := App("seqeq_"+s, SBool, a, b)
	w := App("sw_"+s, SInt, a, b)
	th.addAxiom(&axiom{name: "seqeq_" + s, needs: [][]string{{"seqeq_" + s}}, from: "definition",
		t: Forall([]*Term{a, b}, [][]*Term{{eqp}}, And(
			mkRaw("=", "", SBool, eqp, mkRaw("=", "", SBool, a, b)),
			Or(eqp, Ne(sl(a), sl(b)), And(Le(I(0), w), Lt(w, sl(a)), Not(veq(sa(elem, a, w), sa(elem, b, w)))))))})
	_ = i
	return s
}

var eltDone = map[string]bool{}

func sl(s *Term) *Term { return bound(App("sl_"+s.sort, SInt, s), Big0, maxLenBig) }
func sa(elem string, s, i *Term) *Term {
	return App("sa_"+s.sort, elem, s, i)
}
func seqEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if termLess(b, a) {
		a, b = b, a
	}
	return App("seqeq_"+a.sort, SBool, a, b)
}

// ---------- query ----------

type queryStats struct {
	total, unsat, sat, unknown int64
	ns                         int64
	byBackend                  sync.Map
}

var stats queryStats
var cacheMu sync.Mutex
var resCache = map[string]*solveResult{}

type solveResult struct {
	res     string // "unsat","sat","unknown","error"
	backend string
	ms      int64
	text    string
	raw     string
}

func collectSyms(t *Term, seen map[*Term]bool, syms map[string]*Term) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == "app" {
		if _, ok := syms[t.name]; !ok {
			syms[t.name] = t
		}
	}
	for _, a := range t.args {
		collectSyms(a, seen, syms)
	}
	for _, p := range t.pats {
		for _, a := range p {
			collectSyms(a, seen, syms)
		}
	}
}

func sortsOf(s string, out map[string]bool) {
	for strings.HasPrefix(s, "(Array Int ") {
		s = arrElem(s)
	}
	out[s] = true
}

// skolemize names the witnesses of quantified goals whose bodies apply a recursive definition to bound variables,
// so that the definition is unfolded for them.
func (th *theory) skolemize(t *Term, pos bool, n *int) *Term {
	switch t.op {
	case "not":
		return Not(th.skolemize(t.args[0], !pos, n))
	case "and", "or":
		var as []*Term
		ch := false
		for _, a := range t.args {
			b := th.skolemize(a, pos, n)
			ch = ch || b != a
			as = append(as, b)
		}
		if !ch {
			return t
		}
		if t.op == "and" {
			return And(as...)
		}
		return Or(as...)
	case "=>":
		return Implies(th.skolemize(t.args[0], !pos, n), th.skolemize(t.args[1], pos, n))
	case "forall", "exists":
		if t.bnd || (t.op == "exists") != pos || !th.recBound(t.args[len(t.args)-1], map[*Term]bool{}) {
			return t
		}
		m := map[*Term]*Term{}
		for _, v := range t.args[:len(t.args)-1] {
			*n++
			m[v] = V(fmt.Sprintf("%s!sk%d", v.name, *n), v.sort)
		}
		return th.skolemize(subst(t.args[len(t.args)-1], m), pos, n)
	}
	return t
}

func (th *theory) recBound(t *Term, seen map[*Term]bool) bool {
	if seen[t] || !t.bnd {
		return false
	}
	seen[t] = true
	if t.op == "app" {
		if _, ok := th.recs[t.name]; ok {
			return true
		}
	}
	for _, a := range t.args {
		if th.recBound(a, seen) {
			return true
		}
	}
	return false
}

// buildQuery produces SMT-LIB text asking whether asserts are satisfiable.
func (th *theory) buildQuery(asserts []*Term) string {
	// 1. unfold recursive definitions on ground applications
	var all []*Term
	nsk := 0
	for _, t := range asserts {
		all = append(all, th.skolemize(t, true, &nsk))
	}
	done := map[*Term]bool{}
	for fuel := 0; fuel < 2; fuel++ {
		var apps []*Term
		seen := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.op == "app" && !t.bnd {
				if _, ok := th.recs[t.name]; ok && !done[t] {
					apps = append(apps, t)
				}
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		for _, t := range all {
			walk(t)
		}
		if len(apps) == 0 {
			break
		}
		for _, ap := range apps {
			done[ap] = true
			r := th.recs[ap.name]
			m := map[*Term]*Term{}
			for i, p := range r.params {
				m[p] = ap.args[i]
			}
			all = append(all, mkRaw("=", "", SBool, ap, subst(r.body, m)))
		}
	}
	// 2. relevant axioms
	syms := map[string]*Term{}
	seen := map[*Term]bool{}
	for _, t := range all {
		collectSyms(t, seen, syms)
	}
	th.mu.Lock()
	axs := append([]*axiom{}, th.axioms...)
	th.mu.Unlock()
	sort.SliceStable(axs, func(i, j int) bool { return axs[i].name < axs[j].name })
	used := map[*axiom]bool{}
	var raws []string
	for changed := true; changed; {
		changed = false
		for _, a := range axs {
			if used[a] {
				continue
			}
			ok := len(a.needs) == 0
			for _, alt := range a.needs {
				o := true
				for _, n := range alt {
					if _, have := syms[n]; !have {
						o = false
						break
					}
				}
				if o {
					ok = true
					break
				}
			}
			if !ok {
				continue
			}
			used[a] = true
			changed = true
			if a.raw != "" {
				raws = append(raws, a.raw)
			} else {
				all = append(all, a.t)
				collectSyms(a.t, seen, syms)
			}
		}
	}
	// 3. typing bounds of ground atoms
	var bnds []*Term
	seen2 := map[*Term]bool{}
	refc := map[*Term]int{}
	var order []*Term
	vars := map[string]*Term{}
	var walk func(t *Term)
	walk = func(t *Term) {
		refc[t]++
		if seen2[t] {
			return
		}
		seen2[t] = true
		for _, a := range t.args {
			walk(a)
		}
		for _, p := range t.pats {
			for _, a := range p {
				walk(a)
			}
		}
		order = append(order, t)
		if t.op == "var" {
			vars[t.name] = t
		}
		if !t.bnd && t.sort == SInt && (t.op == "var" || t.op == "app" || t.op == "select") {
			if t.lo != nil {
				bnds = append(bnds, mkRaw("<=", "", SBool, Big(t.lo), t))
			}
			if t.hi != nil {
				bnds = append(bnds, mkRaw("<=", "", SBool, t, Big(t.hi)))
			}
		}
	}
	for _, t := range all {
		walk(t)
	}
	for _, t := range bnds {
		walk(t)
	}
	// sorts
	sorts := map[string]bool{}
	for t := range seen2 {
		sortsOf(t.sort, sorts)
	}
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	var sn []string
	for s := range sorts {
		sn = append(sn, s)
	}
	sort.Strings(sn)
	for _, s := range sn {
		if s == SInt || s == SBool {
			continue
		}
		if _, ok := th.dts[s]; ok {
			continue
		}
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", s)
	}
	th.mu.Lock()
	for _, d := range th.dtOrd {
		if sorts[d] {
			// element sorts may be undeclared yet
			for _, w := range strings.FieldsFunc(th.dts[d], func(r rune) bool { return r == ' ' || r == '(' || r == ')' }) {
				if strings.HasPrefix(w, "Seq_") && !sorts[w] {
					sorts[w] = true
					if _, isdt := th.dts[w]; !isdt {
						fmt.Fprintf(&b, "(declare-sort %s 0)\n", w)
					}
				}
			}
			b.WriteString(th.dts[d] + "\n")
		}
	}
	th.mu.Unlock()
	var names []string
	for n := range vars {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Fprintf(&b, "(declare-const %s %s)\n", sym(n), vars[n].sort)
	}
	names = names[:0]
	for n := range syms {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if th.dtFun[n] {
			continue
		}
		t := syms[n]
		fmt.Fprintf(&b, "(declare-fun %s (", sym(n))
		for i, a := range t.args {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(a.sort)
		}
		fmt.Fprintf(&b, ") %s)\n", t.sort)
	}
	for _, r := range raws {
		b.WriteString(r + "\n")
	}
	// ground parts of triggers that are not triggers themselves get names of their own
	inPat := map[*Term]bool{}
	for t := range seen2 {
		for _, p := range t.pats {
			for _, a := range p {
				patGround(a, inPat)
			}
		}
	}
	seenReads := readsIn(order)
	// shared subterms
	nm := map[*Term]string{}
	n := 0
	for _, t := range order {
		if inPat[t] {
			var tb strings.Builder
			printTerm(&tb, t, nm, 0)
			n++
			name := fmt.Sprintf("$p%d", n)
			fmt.Fprintf(&b, "(declare-const %s %s)\n(assert (= %s %s))\n", name, t.sort, name, tb.String())
			nm[t] = name
			continue
		}
		if refc[t] > 1 && len(t.args) > 0 && !t.bnd && t.op != "forall" && t.op != "exists" {
			var tb strings.Builder
			printTerm(&tb, t, nm, 0)
			if tb.Len() < 24 {
				continue
			}
			n++
			name := fmt.Sprintf("$t%d", n)
			fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", name, t.sort, tb.String())
			nm[t] = name
		}
	}
	emit := func(t *Term) {
		b.WriteString("(assert ")
		if nn, ok := nm[t]; ok {
			b.WriteString(nn)
		} else {
			printTerm(&b, t, nm, 0)
		}
		b.WriteString(")\n")
	}
	for _, t := range all {
		emit(t)
	}
	for _, t := range bnds {
		emit(t)
	}
	// ground element reads inside of quantified facts take part in instantiation
	if len(seenReads) > 0 {
		decl := map[string]bool{}
		for _, t := range seenReads {
			if !decl[t.sort] {
				decl[t.sort] = true
				fmt.Fprintf(&b, "(declare-fun |$seen:%s| (%s) Bool)\n", t.sort, t.sort)
			}
			fmt.Fprintf(&b, "(assert (|$seen:%s| ", t.sort)
			if nn, ok := nm[t]; ok {
				b.WriteString(nn)
			} else {
				printTerm(&b, t, nm, 0)
			}
			b.WriteString("))\n")
		}
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

// readsIn collects the ground element reads in the bodies of quantified formulas.
func readsIn(order []*Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || len(t.args) == 0 {
			return
		}
		seen[t] = true
		if !t.bnd && t.op == "app" && strings.HasPrefix(t.name, "elt_") {
			out = append(out, t)
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range order {
		if (t.op == "forall" || t.op == "exists") && !t.bnd {
			walk(t)
		}
	}
	return out
}

// patGround collects the maximal ground subterms of a trigger that z3 would not accept or that do not match well.
func patGround(t *Term, out map[*Term]bool) {
	if !t.bnd {
		if len(t.args) > 0 && t.op != "app" && t.op != "select" {
			out[t] = true
			return
		}
		if t.op == "select" && hasOp(t, "ite", "store") {
			out[t] = true
			return
		}
	}
	for _, a := range t.args {
		patGround(a, out)
	}
}

func hasOp(t *Term, ops ...string) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, o := range ops {
			if t.op == o {
				return true
			}
		}
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

type backend struct {
	name string
	args func(ms int) []string
	pre  string
}

var backends = []backend{
	{"z3-new", func(ms int) []string { return []string{"z3-new", "-in", fmt.Sprintf("-t:%d", ms)} }, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.solve_eqs false)\n(set-option :smt.array.extensional false)\n"},
	{"z3-new ext", func(ms int) []string { return []string{"z3-new", "-in", fmt.Sprintf("-t:%d", ms)} }, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.solve_eqs false)\n"},
	{"z3-new seed 17", func(ms int) []string { return []string{"z3-new", "-in", fmt.Sprintf("-t:%d", 2*ms)} }, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.solve_eqs false)\n(set-option :smt.random_seed 17)\n(set-option :sat.random_seed 17)\n"},
	{"z3", func(ms int) []string { return []string{"z3", "-in", fmt.Sprintf("-t:%d", ms)} }, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"},
	{"cvc5", func(ms int) []string { return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "-"} }, ""},
}

var sem = make(chan struct{}, 8)

func runBackend(parent context.Context, be backend, q string, ms int) (string, string) {
	sem <- struct{}{}
	defer func() { <-sem }()
	ctx, cancel := context.WithTimeout(parent, time.Duration(2*ms+2000)*time.Millisecond)
	defer cancel()
	a := be.args(ms)
	cmd := exec.CommandContext(ctx, a[0], a[1:]...)
	cmd.Stdin = strings.NewReader(be.pre + q)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	_ = cmd.Run()
	o := strings.TrimSpace(out.String())
	first := o
	if i := strings.IndexByte(o, '\n'); i >= 0 {
		first = o[:i]
	}
	switch first {
	case "unsat", "sat", "unknown":
		return first, o
	case "timeout":
		return "unknown", o
	}
	if strings.Contains(o, "error") || strings.Contains(o, "Error") {
		return "error", o
	}
	return "unknown", o
}

// solve decides satisfiability of the conjunction of asserts with up to level back ends (1 = first only).
func (th *theory) solve(asserts []*Term, ms int, level int) *solveResult {
	for _, a := range asserts {
		if a == tFalse {
			return &solveResult{res: "unsat", backend: "simplifier"}
		}
	}
	q := th.buildQuery(asserts)
	h := sha256.Sum256([]byte(q))
	k := hex.EncodeToString(h[:]) + fmt.Sprint(level, ms)
	cacheMu.Lock()
	if r, ok := resCache[k]; ok {
		cacheMu.Unlock()
		return r
	}
	cacheMu.Unlock()
	var r *solveResult
	try := func(ctx context.Context, i int) *solveResult {
		t0 := time.Now()
		res, raw := runBackend(ctx, backends[i], q, ms)
		d := time.Since(t0)
		atomic.AddInt64(&stats.total, 1)
		atomic.AddInt64(&stats.ns, int64(d))
		if profOn {
			profAdd(backends[i].name+" "+res, d)
		}
		if res == "error" {
			panic("solver error: " + raw + "\n" + q)
		}
		return &solveResult{res: res, backend: backends[i].name, ms: d.Milliseconds(), text: q, raw: raw}
	}
	gc := gilRelease()
	r = try(context.Background(), 0)
	if r.res != "unsat" && level > 1 {
		ctx, cancel := context.WithCancel(context.Background())
		ch := make(chan *solveResult, len(backends))
		n := 0
		for i := 1; i < level && i < len(backends); i++ {
			n++
			go func(i int) {
				defer func() {
					if e := recover(); e != nil {
						if ctx.Err() == nil {
							fmt.Fprintln(os.Stderr, e)
							os.Exit(2)
						}
						ch <- &solveResult{res: "unknown"}
					}
				}()
				ch <- try(ctx, i)
			}(i)
		}
		for ; n > 0; n-- {
			o := <-ch
			if o.res == "unsat" {
				r = o
				break
			}
			if o.res == "sat" && r.res != "sat" {
				r = o
			}
		}
		cancel()
	}
	gilAcquire(gc)
	cacheMu.Lock()
	resCache[k] = r
	cacheMu.Unlock()
	return r
}

// prove reports whether hyps entail goal.
func (th *theory) prove(hyps []*Term, goal *Term, ms, level int) *solveResult {
	if goal == tTrue {
		return &solveResult{res: "unsat", backend: "simplifier"}
	}
	for _, h := range hyps {
		if h == goal {
			return &solveResult{res: "unsat", backend: "simplifier"}
		}
	}
	as := append(append([]*Term{}, hyps...), Not(goal))
	return th.solve(as, ms, level)
}

var profOn = os.Getenv("GVC_PROF") != ""
var prof = map[string][2]int64{}
var profMu sync.Mutex

func profAdd(k string, d time.Duration) {
	profMu.Lock()
	v := prof[k]
	prof[k] = [2]int64{v[0] + 1, v[1] + d.Milliseconds()}
	profMu.Unlock()
}
