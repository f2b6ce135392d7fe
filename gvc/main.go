package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var repoPkgs = []string{"github.com/amarin/gomorphy/internal/...", "github.com/amarin/gomorphy/pkg/..."}

func main() {
	repo := flag.String("repo", "/repo", "repository under verification")
	verif := flag.String("verif", "", "verification directory (default: parent of the executable's directory)")
	tier := flag.String("tier", "", "quick or thorough")
	v := flag.Int("v", 0, "verbosity")
	jobs := flag.Int("j", runtime.NumCPU(), "parallel solver processes")
	dump := flag.Bool("dump", false, "write the queries of failed obligations to /tmp/gvc-dump")
	flag.Parse()
	if *verif == "" {
		ex, _ := os.Executable()
		*verif = filepath.Dir(filepath.Dir(ex))
		if _, err := os.Stat(filepath.Join(*verif, "contracts")); err != nil {
			*verif = "/verif"
		}
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
		if *tier == "" {
			*tier = "quick"
		}
	}
	sem = make(chan struct{}, *jobs)
	e := newEngine(*repo, *verif)
	e.vlevel = *v
	e.verbose = *v > 0
	if *tier == "thorough" {
		e.oblMs, e.invMs, e.fnBudget = 30000, 6000, 900*time.Second
	}
	args := flag.Args()
	if len(args) == 0 {
		fmt.Fprintln(os.Stderr, "usage: gvc [flags] check PROP | fn NAME... | list")
		os.Exit(2)
	}
	start := time.Now()
	if err := e.load(repoPkgs); err != nil {
		fmt.Fprintln(os.Stderr, "gvc: cannot load the repository:", err)
		os.Exit(2)
	}
	e.specs = loadSpecs(filepath.Join(*verif, "contracts"))
	e.contracts = e.specs.contracts
	if e.verbose {
		fmt.Printf("loaded in %.1fs\n", time.Since(start).Seconds())
	}
	switch args[0] {
	case "list":
		for n := range e.allFuncs {
			fmt.Println(n)
		}
	case "fn":
		var cons []*Contract
		for _, n := range e.specs.order {
			for _, a := range args[1:] {
				if n == a || strings.Contains(n, a) || a == "all" {
					cons = append(cons, e.contracts[n])
					break
				}
			}
		}
		e.runDebug(cons, *dump)
	case "check":
		os.Exit(e.runCheck(args[1], *tier, start))
	}
}

func (e *Engine) verifyAll(cons []*Contract) []*FnResult {
	out := make([]*FnResult, len(cons))
	var wg sync.WaitGroup
	lim := make(chan struct{}, 8)
	for i, c := range cons {
		if c.Trusted {
			out[i] = &FnResult{Con: c}
			continue
		}
		wg.Add(1)
		go func(i int, c *Contract) {
			defer wg.Done()
			lim <- struct{}{}
			defer func() { <-lim }()
			// loop candidates are first tried with one back end; all of them only when something is left open
			gilAcquire(&gctx{name: sanitizeName(c.Name)})
			r := e.verifyFn(c, true)
			gilRelease()
			e.solveObls(r.Obls, e.oblMs, 5)
			open := r.Err != ""
			for _, o := range r.Obls {
				open = open || o.failed
			}
			if open && r.Weak {
				if e.vlevel > 1 {
					fmt.Println("  second pass for", c.Name, r.Err, r.Dur)
					for _, o := range r.Obls {
						if o.failed {
							fmt.Println("    open", o.Kind, o.Label)
						}
					}
				}
				gilAcquire(&gctx{name: sanitizeName(c.Name) + "_again"})
				r = e.verifyFn(c, false)
				gilRelease()
				e.solveObls(r.Obls, e.oblMs, 5)
			}
			out[i] = r
		}(i, c)
	}
	wg.Wait()
	return out
}

func sanitizeName(s string) string {
	r := regexp.MustCompile(`[^A-Za-z0-9]+`)
	return strings.Trim(r.ReplaceAllString(s, "_"), "_")
}

func (e *Engine) runDebug(cons []*Contract, dump bool) {
	lem := e.proveLemmas(e.oblMs, 5)
	for _, o := range lem {
		st := "ok"
		if o.failed {
			st = "FAIL " + o.res.res
		}
		fmt.Printf("%-60s %s %s %dms\n", o.Fn, st, o.res.backend, o.res.ms)
		if o.failed && dump {
			dumpQuery(o)
		}
	}
	for _, r := range e.verifyAll(cons) {
		n, f := 0, 0
		for _, o := range r.Obls {
			n++
			if o.failed {
				f++
			}
		}
		fmt.Printf("%-60s %d obligations, %d failed, %d paths, %d returns, %d panics %.1fs\n", r.Con.Name, n, f, r.Paths, r.Returns, r.Panics, r.Dur.Seconds())
		if profOn {
			for k, v := range prof {
				fmt.Printf("    prof %s: %d queries %d ms\n", k, v[0], v[1])
			}
		}
		for _, o := range r.Obls {
			if o.failed {
				fmt.Printf("    FAIL [%s] %s %s (%s %s %dms)\n        %s\n", o.Kind, o.Label, o.Pos, o.res.res, o.res.backend, o.res.ms, o.trace)
				if dump {
					dumpQuery(o)
				}
			} else if e.vlevel > 0 {
				fmt.Printf("    ok [%s] %s %s (%s %dms)\n", o.Kind, o.Label, o.Pos, o.res.backend, o.res.ms)
			}
		}
		if e.vlevel > 0 {
			fmt.Println("    inlined:", r.Inlined, "trusted:", r.Trusted)
		}
	}
}

var dumpN int

func dumpQuery(o *Obl) {
	os.MkdirAll("/tmp/gvc-dump", 0o755)
	dumpN++
	f := fmt.Sprintf("/tmp/gvc-dump/%03d.smt2", dumpN)
	os.WriteFile(f, []byte("; "+o.Fn+" "+o.Label+"\n; "+o.trace+"\n"+o.res.text), 0o644)
	fmt.Println("        ->", f)
}

// ---------- checks ----------

type finding struct {
	prop, match, text string
}

// knownFindings reads lines "KNOWN-FINDING: property=<id> obligation=<function>::<label> -- <what fails>".
func (e *Engine) knownFindings() []finding {
	b, err := os.ReadFile(filepath.Join(e.verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []finding
	re := regexp.MustCompile(`^KNOWN-FINDING: property=(\S+) obligation="([^"]*)" (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			out = append(out, finding{m[1], m[2], m[3]})
		}
	}
	return out
}

func hasProp(l []string, p string) bool { return containsStr(l, p) }

func (e *Engine) runCheck(prop, tier string, start time.Time) int {
	var roots []*Contract
	for _, n := range e.specs.order {
		if c := e.contracts[n]; hasProp(c.Props, prop) {
			roots = append(roots, c)
		}
	}
	nl := 0
	for _, l := range e.specs.lemmas {
		if hasProp(l.Props, prop) {
			nl++
		}
	}
	if len(roots) == 0 && nl == 0 {
		fmt.Fprintln(os.Stderr, "gvc: no contract decides", prop)
		return 2
	}
	lem := e.proveLemmas(e.oblMs, 5)
	// closure over the contracts used by callers
	done := map[*Contract]*FnResult{}
	isRoot := map[*Contract]bool{}
	for _, r := range roots {
		isRoot[r] = true
	}
	work := roots
	var results []*FnResult
	for len(work) > 0 {
		rs := e.verifyAll(work)
		var next []*Contract
		for i, r := range rs {
			done[work[i]] = r
			results = append(results, r)
		}
		seen := map[*Contract]bool{}
		for _, r := range rs {
			for _, u := range r.Used {
				if done[u] == nil && !seen[u] {
					seen[u] = true
					next = append(next, u)
				}
			}
		}
		work = next
	}
	sort.SliceStable(results, func(i, j int) bool { return results[i].Con.Name < results[j].Con.Name })
	var obls []*Obl
	trusted := map[string]bool{}
	inl := map[string]bool{}
	var fns, trustedFns []string
	var npaths int
	for _, r := range results {
		if r.Con.Trusted {
			trustedFns = append(trustedFns, r.Con.Name)
			continue
		}
		fns = append(fns, r.Con.Name)
		npaths += r.Paths + 1
		for _, t := range r.Trusted {
			trusted[t] = true
		}
		for _, t := range r.Inlined {
			inl[t] = true
		}
		for _, o := range r.Obls {
			if isRoot[r.Con] && len(o.Props) > 0 && !hasProp(o.Props, prop) {
				continue
			}
			obls = append(obls, o)
		}
	}
	obls = append(obls, lem...)
	e.secondWind(obls)
	// an unused lemma of another property does not decide this one, but a false lemma would poison every proof
	var failed []*Obl
	disch := 0
	by := map[string]int{}
	var ms int64
	for _, o := range obls {
		ms += o.res.ms
		if o.failed {
			failed = append(failed, o)
		} else {
			disch++
			by[o.res.backend]++
		}
	}
	known := e.knownFindings()
	var bad []*Obl
	kprinted := map[string]bool{}
	nknown := 0
	for _, o := range failed {
		k := false
		for _, f := range known {
			if f.prop == prop && f.match == o.Fn+"::"+o.Label {
				k = true
				nknown++
				if !kprinted[f.text] {
					kprinted[f.text] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.text)
				}
			}
		}
		if !k {
			bad = append(bad, o)
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var viol int
	var drv *driverResult
	if len(bad) > 0 || tier == "thorough" {
		drv = e.runDriver(prop, tier, seed)
	}
	code := 0
	if len(bad) > 0 {
		viol = len(bad)
		code = 1
		path := e.writeReplay(prop, bad, drv)
		for i, o := range bad {
			if i < 12 {
				fmt.Printf("FAILED-OBLIGATION property=%s %s [%s] %s %s (%s, %s)\n", prop, o.Fn, o.Kind, o.Label, o.Pos, o.res.res, o.res.backend)
				if o.trace != "" {
					fmt.Printf("    path: %s\n", o.trace)
				}
			}
		}
		if drv != nil && drv.failing != "" {
			fmt.Printf("FAILING-INPUT: %s\n", drv.failing)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, path)
		}
	} else if drv != nil && drv.failing != "" {
		// the run of the real code disagrees with an accepted proof
		viol, code = 1, 1
		path := e.writeReplay(prop, nil, drv)
		fmt.Printf("FAILING-INPUT: %s\nVIOLATION property=%s replay=%s\n", drv.failing, prop, path)
	}
	// evidence
	var samples []interface{}
	slow := append([]*Obl{}, obls...)
	sort.SliceStable(slow, func(i, j int) bool { return slow[i].res.ms > slow[j].res.ms })
	for i, o := range slow {
		if i >= 12 {
			break
		}
		samples = append(samples, map[string]interface{}{"function": o.Fn, "kind": o.Kind, "obligation": o.Label, "position": o.Pos, "result": o.res.res, "back_end": o.res.backend, "solver_ms": o.res.ms})
	}
	var tb []string
	tb = append(tb, "gvc (this repository's own verification condition generator, /verif/gvc) over golang.org/x/tools/go/ssa", "z3 5.3.2, z3 4.8.12, cvc5 1.1.2")
	var assume []string
	for _, t := range sortedKeys(trusted) {
		assume = append(assume, t)
	}
	for _, t := range trustedFns {
		assume = append(assume, "assumed contract (not verified): "+t)
	}
	for _, l := range e.specs.lemmas {
		if l.NoAx {
			assume = append(assume, "axiom (not proved): "+l.Name)
		}
	}
	assume = append(assume, baseAssumptions...)
	cov := map[string]interface{}{
		"obligations": len(obls) - nknown, "discharged": disch, "checker_cmd": fmt.Sprintf("/verif/bin/gvc check %s", prop), "trusted_base": tb,
		"functions_under_contract": fns, "functions_inlined_into_callers": sortedKeys(inl), "discharged_by_back_end": by, "solver_ms_total": ms, "solver_calls": stats.total,
		"symbolic_paths": npaths, "lemmas": len(lem), "samples": samples, "failed_obligations": len(bad), "known_findings_hit": nknown,
	}
	if drv != nil {
		cov["real_code_driver"] = map[string]interface{}{"cases": drv.cases, "failing_input": drv.failing, "note": "bounded runs of the real code; never counted as proof"}
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": assume, "wall_s": time.Since(start).Seconds(), "violations": viol}
	os.MkdirAll(filepath.Join(e.verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(e.verif, "evidence", prop+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "gvc: evidence:", err)
		return 2
	}
	fmt.Printf("%s: %d functions under contract, %d obligations, %d discharged, %d lemmas, %.1fs\n", prop, len(fns), len(obls)-nknown, disch, len(lem), time.Since(start).Seconds())
	return code
}

var baseAssumptions = []string{
	"64-bit integer arithmetic is treated as mathematical (8, 16 and 32-bit arithmetic is exact); slices are shorter than 2^40",
	"no data races: functions are verified as sequential code",
	"no termination proof: obligations speak about calls that return",
	"go/ssa translates Go source faithfully; memory is typed (no unsafe)",
}

func (e *Engine) writeReplay(prop string, bad []*Obl, drv *driverResult) string {
	dir := filepath.Join(e.verif, "replay")
	os.MkdirAll(dir, 0o755)
	f := filepath.Join(dir, prop+".txt")
	var b strings.Builder
	fmt.Fprintf(&b, "property %s\n", prop)
	for _, o := range bad {
		fmt.Fprintf(&b, "\nfailed obligation: %s [%s] %s %s\n  verdict: %s by %s after %d ms\n  path: %s\n", o.Fn, o.Kind, o.Label, o.Pos, o.res.res, o.res.backend, o.res.ms, o.trace)
		if o.res.raw != "" {
			fmt.Fprintf(&b, "  verifier output: %s\n", firstLines(o.res.raw, 20))
		}
	}
	if drv != nil {
		fmt.Fprintf(&b, "\nrun of the real code: %s\n", drv.cmd)
		if drv.failing != "" {
			fmt.Fprintf(&b, "FAILING-INPUT: %s\n", drv.failing)
		}
		fmt.Fprintf(&b, "%s\n", firstLines(drv.out, 200))
	}
	for i, o := range bad {
		if i < 3 && o.res.text != "" {
			fmt.Fprintf(&b, "\nquery of %s %s\n%s\n", o.Fn, o.Label, o.res.text)
		}
	}
	_ = os.WriteFile(f, []byte(b.String()), 0o644)
	return f
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// ---------- drivers: runs of the real code ----------

type driverResult struct {
	failing string
	cases   int
	out     string
	cmd     string
}

// runDriver runs /verif/drivers/<prop>__<pkg path with _ for />_test.go inside its package through an overlay.
func (e *Engine) runDriver(prop, tier string, seed int) *driverResult {
	res := &driverResult{}
	dir, err := os.MkdirTemp("", "gvcdrv")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(dir)
	mf, err := e.modfile(dir)
	if err != nil {
		return nil
	}
	files, _ := filepath.Glob(filepath.Join(e.verif, "drivers", "*.go.txt"))
	over := map[string]string{}
	pkgs := map[string]bool{}
	pre := regexp.MustCompile(`(?m)^func TestVerif` + prop + `\b`)
	for _, f := range files {
		b, _ := os.ReadFile(f)
		if !pre.Match(b) {
			continue
		}
		// first line: // dir: pkg/storage
		l := strings.TrimPrefix(strings.SplitN(string(b), "\n", 2)[0], "// dir: ")
		d := strings.TrimSpace(l)
		over[filepath.Join(e.repo, d, "zz_verif_"+strings.TrimSuffix(filepath.Base(f), ".go.txt")+"_test.go")] = f
		pkgs["./"+d] = true
		// existing tests of the package are hidden: they are not part of this run
		ts, _ := filepath.Glob(filepath.Join(e.repo, d, "*_test.go"))
		for _, t := range ts {
			over[t] = ""
		}
	}
	if len(pkgs) == 0 {
		return nil
	}
	ov := filepath.Join(dir, "overlay.json")
	b, _ := json.Marshal(map[string]interface{}{"Replace": over})
	_ = os.WriteFile(ov, b, 0o644)
	args := []string{"test", "-modfile=" + mf, "-overlay=" + ov, "-vet=off", "-count=1", "-timeout=120s", "-run=^TestVerif" + prop + "$", "-v"}
	for p := range pkgs {
		args = append(args, p)
	}
	c := exec.Command("go", args...)
	c.Dir = e.repo
	c.Env = append(goEnv(), fmt.Sprintf("VERIF_SEED=%d", seed), "VERIF_TIER="+tier)
	out, err := c.CombinedOutput()
	res.out = string(out)
	res.cmd = "go " + strings.Join(args, " ")
	for _, l := range strings.Split(res.out, "\n") {
		if i := strings.Index(l, "FAILING-INPUT:"); i >= 0 && res.failing == "" {
			res.failing = strings.Map(func(r rune) rune {
				if r < ' ' || r == 0x7f || r == 0xfffd {
					return '?'
				}
				return r
			}, strings.TrimSpace(l[i+len("FAILING-INPUT:"):]))
		}
		if i := strings.Index(l, "CASES:"); i >= 0 {
			n, _ := strconv.Atoi(strings.TrimSpace(l[i+6:]))
			res.cases += n
		}
	}
	if err != nil && res.failing == "" && strings.Contains(res.out, "panic:") && !strings.Contains(res.out, "[build failed]") {
		res.failing = "the real code panics: " + firstLines(res.out[strings.Index(res.out, "panic:"):], 1)
	}
	return res
}
