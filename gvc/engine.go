package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Engine holds the program under verification and the specifications.
type Engine struct {
	prog      *ssa.Program
	fset      *token.FileSet
	repo      string
	verif     string
	contracts map[string]*Contract
	specs     *Specs
	mu        sync.Mutex
	funcIDs   map[string]int
	funcs     []FuncVal
	loopInfos map[*ssa.Function]*loopInfo
	feasMs    int
	invMs     int
	oblMs     int
	fnBudget  time.Duration
	maxPaths  int
	verbose   bool
	vlevel    int

	pkgs     []*packages.Package
	ssaPkgs  map[string]*ssa.Package
	typeIDs  map[string]int
	types    map[string]types.Type
	allFuncs map[string]*ssa.Function
	globals  map[*ssa.Global]*globInfo
	globName map[string]*ssa.Global
}

var theEngine *Engine

type globInfo struct {
	mutable bool
	c       *ssa.Const // constant initial value
	nonNil  bool       // error value built by errors.New / fmt.Errorf
	elems   []*ssa.Const
	isSlice bool
	ro      bool // slice contents only read
}

func newEngine(repo, verif string) *Engine {
	e := &Engine{repo: repo, verif: verif, funcIDs: map[string]int{}, loopInfos: map[*ssa.Function]*loopInfo{}, feasMs: 600, invMs: 2500, oblMs: 10000,
		fnBudget: 240 * time.Second, maxPaths: 4000, typeIDs: map[string]int{}, types: map[string]types.Type{}, allFuncs: map[string]*ssa.Function{}, ssaPkgs: map[string]*ssa.Package{}, globals: map[*ssa.Global]*globInfo{}, globName: map[string]*ssa.Global{}}
	theEngine = e
	return e
}

// modfile writes the module file used for type checking (stub modules replace what is not in the module cache).
func (e *Engine) modfile(dir string) (string, error) {
	f := filepath.Join(dir, "go.mod")
	s := "module github.com/amarin/gomorphy\n\ngo 1.18\n\nrequire (\n\tgithub.com/amarin/binutils v0.6.0\n\tgithub.com/amarin/libxml v0.1.2\n\tgithub.com/amarin/logging v0.1.0\n)\n\n" +
		"replace github.com/amarin/logging => " + e.verif + "/stubs/logging\n\nreplace github.com/amarin/libxml => " + e.verif + "/stubs/libxml\n"
	if err := os.WriteFile(f, []byte(s), 0o644); err != nil {
		return "", err
	}
	b, err := os.ReadFile(filepath.Join(e.repo, "go.sum"))
	if err == nil {
		_ = os.WriteFile(filepath.Join(dir, "go.sum"), b, 0o644)
	}
	return f, nil
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "CGO_ENABLED=0")
}

func (e *Engine) load(patterns []string) error {
	dir, err := os.MkdirTemp("", "gvcmod")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	mf, err := e.modfile(dir)
	if err != nil {
		return err
	}
	e.fset = token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir:  e.repo, Fset: e.fset, Env: goEnv(), BuildFlags: []string{"-modfile=" + mf},
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return err
	}
	for _, p := range pkgs {
		for _, er := range p.Errors {
			return fmt.Errorf("load %s: %v", p.PkgPath, er)
		}
	}
	e.pkgs = pkgs
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	e.prog = prog
	for _, p := range spkgs {
		if p == nil {
			return fmt.Errorf("no SSA for a package")
		}
		p.Build()
		e.ssaPkgs[p.Pkg.Path()] = p
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg != nil && e.ssaPkgs[fn.Pkg.Pkg.Path()] != nil || fn.Pkg == nil {
			e.allFuncs[fnName(fn)] = fn
		}
	}
	for _, p := range spkgs {
		for _, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok {
				e.allFuncs[fnName(f)] = f
			}
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				ms := prog.MethodSets.MethodSet(tt)
				for i := 0; i < ms.Len(); i++ {
					if f := prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
						e.allFuncs[fnName(f)] = f
					}
				}
			}
		}
	}
	e.scanGlobals()
	return nil
}

func goList(args ...string) ([]byte, error) {
	c := exec.Command("go", args...)
	c.Env = goEnv()
	return c.Output()
}

func (e *Engine) typeID(t types.Type) int {
	k := types.TypeString(t, nil)
	e.mu.Lock()
	defer e.mu.Unlock()
	if n, ok := e.typeIDs[k]; ok {
		return n
	}
	n := len(e.typeIDs) + 1
	e.typeIDs[k] = n
	return n
}

// lookupType resolves a type expression such as "*pkg/dag.Idx" or "[]uint8".
func (e *Engine) lookupType(s string) types.Type {
	e.mu.Lock()
	if t, ok := e.types[s]; ok {
		e.mu.Unlock()
		return t
	}
	e.mu.Unlock()
	t := e.lookupType1(s)
	e.mu.Lock()
	e.types[s] = t
	e.mu.Unlock()
	return t
}

func (e *Engine) lookupType1(s string) types.Type {
	if strings.HasPrefix(s, "*") {
		return types.NewPointer(e.lookupType(s[1:]))
	}
	if strings.HasPrefix(s, "[]") {
		return types.NewSlice(e.lookupType(s[2:]))
	}
	if strings.HasPrefix(s, "map[") {
		i := strings.Index(s, "]")
		return types.NewMap(e.lookupType(s[4:i]), e.lookupType(s[i+1:]))
	}
	for _, b := range types.Typ {
		if b.Name() == s {
			return b
		}
	}
	switch s {
	case "byte":
		return types.Typ[types.Uint8]
	case "rune":
		return types.Typ[types.Int32]
	case "error":
		return types.Universe.Lookup("error").Type()
	}
	i := strings.LastIndex(s, ".")
	if i > 0 {
		for _, path := range []string{modPrefix + s[:i], s[:i]} {
			var tp *types.Package
			if p := e.ssaPkgs[path]; p != nil {
				tp = p.Pkg
			} else if p := e.prog.ImportedPackage(path); p != nil {
				tp = p.Pkg
			}
			if tp != nil {
				if o := tp.Scope().Lookup(s[i+1:]); o != nil {
					return o.Type()
				}
			}
		}
	}
	panic("spec: unknown type " + s)
}

// implementers lists the types of the repository (and binutils) that implement an interface.
func (e *Engine) implementers(t types.Type) []types.Type {
	it, ok := t.Underlying().(*types.Interface)
	if !ok || it.NumMethods() == 0 {
		return nil
	}
	var out []types.Type
	var paths []string
	for p := range e.ssaPkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		sc := e.ssaPkgs[p].Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if types.IsInterface(tn.Type()) {
				continue
			}
			if types.Implements(tn.Type(), it) {
				out = append(out, tn.Type())
			} else if types.Implements(types.NewPointer(tn.Type()), it) {
				out = append(out, types.NewPointer(tn.Type()))
			}
		}
	}
	return out
}

// recFun registers a recursive spec function with the theory.
func (e *Engine) recFun(r *specFun) *recFun {
	name := "rec_" + r.name
	TH.mu.Lock()
	if rf, ok := TH.recs[name]; ok {
		TH.mu.Unlock()
		return rf
	}
	TH.mu.Unlock()
	rf := &recFun{name: name, ret: r.ret}
	names := map[string]Value{}
	for i, p := range r.params {
		b := BV(p, sortName(r.sorts[i]))
		rf.params = append(rf.params, b)
		names[p] = Scalar{b, nil}
	}
	TH.mu.Lock()
	TH.recs[name] = rf
	TH.mu.Unlock()
	if r.body != nil {
		c := &specCtx{x: &Exec{eng: e}, st: newState(), names: names, pure: true}
		rf.body = c.term(r.body)
	}
	return rf
}

func newState() *State {
	return &State{env: map[envKey]Value{}, cells: map[*Cell]Value{}, mem: map[string]*Term{}, ghost: map[string]*Term{}, alloc: alloc0,
		defers: map[int][]deferred{}, loops: map[loopKey]*loopCtx{}, unroll: map[loopKey]int{}}
}

// ---------- globals ----------

func (e *Engine) scanGlobals() {
	info := func(g *ssa.Global) *globInfo {
		gi := e.globals[g]
		if gi == nil {
			gi = &globInfo{ro: true}
			e.globals[g] = gi
			e.globName["glob:"+g.String()] = g
		}
		return gi
	}
	names := make([]string, 0, len(e.allFuncs))
	for n := range e.allFuncs {
		names = append(names, n)
	}
	sort.Strings(names)
	seen := map[*ssa.Function]bool{}
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			scan(a)
		}
		isInit := f.Synthetic != "" && f.Name() == "init"
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					gi := info(g)
					switch y := in.(type) {
					case *ssa.Store:
						if y.Addr == g && isInit && y.Val != g {
							e.initValue(gi, y.Val)
						} else {
							gi.mutable = true
						}
					case *ssa.UnOp:
						for _, r := range *y.Referrers() {
							if !readOnlyUse(r, y) {
								gi.ro = false
							}
						}
					case *ssa.DebugRef:
					case *ssa.FieldAddr:
						for _, r := range *y.Referrers() {
							if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
								gi.mutable = true
							}
						}
					default:
						gi.mutable = true
						gi.ro = false
					}
				}
			}
		}
	}
	for _, n := range names {
		scan(e.allFuncs[n])
	}
	for _, p := range e.ssaPkgs {
		if f := p.Func("init"); f != nil {
			scan(f)
		}
	}
}

func readOnlyUse(r ssa.Instruction, v ssa.Value) bool {
	switch y := r.(type) {
	case *ssa.IndexAddr:
		for _, q := range *y.Referrers() {
			if u, ok := q.(*ssa.UnOp); !ok || u.Op != token.MUL {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := y.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap":
				return true
			case "append", "copy": // as the source only
				return len(y.Call.Args) == 2 && y.Call.Args[1] == v && y.Call.Args[0] != v
			}
		}
		if f, ok := y.Call.Value.(*ssa.Function); ok {
			switch f.String() {
			case "bytes.Equal", "bytes.Compare", "(*github.com/amarin/binutils.BinaryWriter).WriteBytes":
				return true
			}
		}
	case *ssa.Convert, *ssa.Range, *ssa.BinOp, *ssa.DebugRef:
		return true
	case *ssa.Slice, *ssa.ChangeType:
		for _, q := range *y.(ssa.Value).Referrers() {
			if !readOnlyUse(q, y.(ssa.Value)) {
				return false
			}
		}
		return true
	case *ssa.MakeInterface, *ssa.ChangeInterface:
		return true
	}
	return false
}

func (e *Engine) initValue(gi *globInfo, v ssa.Value) {
	switch y := v.(type) {
	case *ssa.Const:
		gi.c = y
	case *ssa.Call:
		if f, ok := y.Call.Value.(*ssa.Function); ok {
			switch f.String() {
			case "errors.New", "fmt.Errorf":
				gi.nonNil = true
			}
		}
	case *ssa.Slice:
		al, ok := y.X.(*ssa.Alloc)
		if !ok || y.Low != nil || y.High != nil {
			return
		}
		at, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok || at.Len() > 64 {
			return
		}
		el := make([]*ssa.Const, at.Len())
		for _, r := range *al.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			c, ok := ia.Index.(*ssa.Const)
			if !ok {
				return
			}
			i, _ := constant.Int64Val(c.Value)
			for _, q := range *ia.Referrers() {
				s, ok := q.(*ssa.Store)
				if !ok {
					return
				}
				cv, ok := s.Val.(*ssa.Const)
				if !ok {
					return
				}
				el[i] = cv
			}
		}
		gi.elems = el
		gi.isSlice = true
	}
}

// globalFacts refines the value loaded from a package variable that is only written by initialisers.
func (x *Exec) globalFacts(st *State, p PtrVal, v Value) Value {
	g := x.eng.globName[p.Root]
	if g == nil || p.Path != "" {
		return v
	}
	gi := x.eng.globals[g]
	if gi == nil || gi.mutable {
		return v
	}
	switch {
	case gi.c != nil:
		return x.constVal(gi.c)
	case gi.nonNil:
		if iv, ok := v.(IfaceVal); ok {
			st.assume(Gt(iv.Tag, I(0)))
		}
	case gi.isSlice && gi.ro:
		s, ok := v.(SliceVal)
		if !ok {
			return v
		}
		et := s.Typ.Underlying().(*types.Slice).Elem()
		if _, ok := et.Underlying().(*types.Basic); !ok {
			return v
		}
		st.assume(Eq(s.Len, I(int64(len(gi.elems)))))
		s.Len = I(int64(len(gi.elems)))
		st.assume(Gt(s.Ref, I(0)))
		for i, c := range gi.elems {
			if c == nil {
				continue
			}
			e := x.loadElt(st, shortType(et), "", s.Ref, s.Off, I(int64(i)), et, true)
			st.assume(x.valEq(st, e, x.constVal(c)))
		}
		return s
	}
	return v
}
