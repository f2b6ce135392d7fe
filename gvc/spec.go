package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Clause is one specification expression.
type Clause struct {
	Label string
	Props []string
	Src   string
	E     ast.Expr
	Step  bool // proof step: checked at returns, then used for the clauses after it; callers do not see it
}

// Contract is the specification of one function.
type Contract struct {
	Name     string // SSA name without the module prefix
	Params   []string
	Results  []string
	Props    []string
	Requires []*Clause
	Ensures  []*Clause
	Panics   []*Clause
	MayPanic bool
	Modifies []*Clause
	Inv      []*Clause
	Trusted  bool // contract assumed, body not verified
	Pure     bool
	File     string
	Line     int
	Opts     map[string]string
}

// Lemma is a property over spec functions, proved once and then available as an axiom.
type Lemma struct {
	Name   string
	Params []*Term
	Ind    ast.Expr   // measure for induction
	Ment   []ast.Expr // terms to unfold in the proof
	Hyps   []*Clause
	Concl  *Clause
	Pats   [][]ast.Expr
	Props  []string
	File   string
	NoAx   bool
	uses   []string
}

type specFun struct {
	name   string
	params []string
	sorts  []string
	ret    string
	body   ast.Expr
	src    string
}

type macro struct {
	name   string
	params []string
	body   ast.Expr
}

type Specs struct {
	contracts map[string]*Contract
	macros    map[string]*macro
	recs      map[string]*specFun
	lemmas    []*Lemma
	order     []string
}

// ---------- text to expressions ----------

// logic rewrites ==> and <==> (lowest precedence, right associative) into calls.
func logic(s string) string {
	// rewrite inside parentheses first
	var out strings.Builder
	depth := 0
	start := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if depth == 0 {
				out.WriteString(s[i:min(j+1, len(s))])
			}
			i = j
		case '(', '[':
			if depth == 0 {
				out.WriteByte(s[i])
				start = i + 1
			}
			depth++
		case ')', ']':
			depth--
			if depth == 0 {
				parts := splitTop(s[start:i], ",")
				for k, p := range parts {
					if k > 0 {
						out.WriteString(",")
					}
					out.WriteString(logic(p))
				}
				out.WriteByte(s[i])
			}
		default:
			if depth == 0 {
				out.WriteByte(s[i])
			}
		}
	}
	r := out.String()
	if p := splitTop(r, "<==>"); len(p) > 1 {
		if len(p) != 2 {
			panic("chained <==>: " + s)
		}
		return "iff(" + logic(p[0]) + "," + logic(p[1]) + ")"
	}
	if p := splitTop(r, "==>"); len(p) > 1 {
		x := p[len(p)-1]
		for i := len(p) - 2; i >= 0; i-- {
			x = "imp(" + p[i] + "," + x + ")"
		}
		return x
	}
	return r
}

func splitTop(s, sep string) []string {
	var out []string
	d := 0
	last := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '"':
			i++
			for i < len(s) && s[i] != '"' {
				if s[i] == '\\' {
					i++
				}
				i++
			}
			continue
		case '(', '[':
			d++
			continue
		case ')', ']':
			d--
			continue
		}
		if d == 0 && strings.HasPrefix(s[i:], sep) {
			if sep == "==>" && i > 0 && s[i-1] == '<' {
				continue
			}
			out = append(out, s[last:i])
			i += len(sep) - 1
			last = i + 1
		}
	}
	return append(out, s[last:])
}

var metaTypes = map[string]string{}
var metaRe = regexp.MustCompile(`\$([a-z])\{([^}]*)\}`)

// typedMetas rewrites $x{type} and the other occurrences of $x in the clause to a placeholder that remembers the type.
func typedMetas(src string) string {
	for _, m := range metaRe.FindAllStringSubmatch(src, -1) {
		ty := m[2]
		name := fmt.Sprintf("META_%s_%d", m[1], len(metaTypes))
		for n, t := range metaTypes {
			if t == ty && strings.HasPrefix(n, "META_"+m[1]+"_") {
				name = n
			}
		}
		metaTypes[name] = ty
		src = strings.ReplaceAll(src, m[0], name)
		src = regexp.MustCompile(`\$`+m[1]+`\b`).ReplaceAllString(src, name)
	}
	return src
}

func parseSpec(src string, where string) ast.Expr {
	src = typedMetas(src)
	t := strings.ReplaceAll(src, "$", "META_")
	t = logic(t)
	e, err := parser.ParseExpr(t)
	if err != nil {
		panic(fmt.Sprintf("%s: %v in %q", where, err, t))
	}
	return e
}

var clauseKW = []string{"props", "requires", "ensures", "step", "panics", "maypanic", "modifies", "inv", "trusted", "pure", "opt"}

func loadSpecs(dir string) *Specs {
	sp := &Specs{contracts: map[string]*Contract{}, macros: map[string]*macro{}, recs: map[string]*specFun{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(files)
	for _, f := range files {
		sp.loadFile(f)
	}
	return sp
}

type rawLine struct {
	text string
	line int
}

func (sp *Specs) loadFile(f string) {
	b, err := os.ReadFile(f)
	if err != nil {
		panic(err)
	}
	base := filepath.Base(f)
	// join continuation lines
	var ls []rawLine
	for n, l := range strings.Split(string(b), "\n") {
		if i := strings.Index(l, "//"); i >= 0 && !strings.Contains(l[:i], "\"") {
			l = l[:i]
		}
		tr := strings.TrimSpace(l)
		if tr == "" {
			continue
		}
		w := firstWord(tr)
		top := w == "func" || w == "def" || w == "rec" || w == "lemma" || w == "axiom" || w == "by" || w == "hyp" || w == "concl" || w == "trigger" || w == "uses" || w == "mention"
		kw := top
		for _, k := range clauseKW {
			if w == k {
				kw = true
			}
		}
		if !kw {
			if len(ls) == 0 {
				panic(fmt.Sprintf("%s:%d: unexpected %q", base, n+1, tr))
			}
			ls[len(ls)-1].text += " " + tr
			continue
		}
		ls = append(ls, rawLine{tr, n + 1})
	}
	var c *Contract
	var lm *Lemma
	for _, l := range ls {
		where := fmt.Sprintf("%s:%d", base, l.line)
		w := firstWord(l.text)
		rest := strings.TrimSpace(l.text[len(w):])
		label, props := "", []string(nil)
		if strings.HasPrefix(rest, "[") && w != "props" {
			i := strings.Index(rest, "]")
			for _, p := range strings.Fields(strings.ReplaceAll(rest[1:i], ",", " ")) {
				if len(p) == 3 && p[0] >= 'A' && p[0] <= 'Z' && p[1] >= '0' && p[1] <= '9' {
					props = append(props, p)
				} else {
					label = p
				}
			}
			rest = strings.TrimSpace(rest[i+1:])
		}
		mk := func(s string) *Clause {
			return &Clause{Label: label, Props: props, Src: strings.Join(strings.Fields(s), " "), E: parseSpec(s, where)}
		}
		switch w {
		case "func":
			lm = nil
			c = parseHeader(rest, where)
			c.File, c.Line = base, l.line
			if sp.contracts[c.Name] != nil {
				panic(where + ": duplicate contract " + c.Name)
			}
			sp.contracts[c.Name] = c
			sp.order = append(sp.order, c.Name)
		case "def":
			name, params, body := parseDef(rest, where)
			sp.macros[name] = &macro{name, params, parseSpec(body, where)}
		case "rec":
			// rec f(a:sort, b:sort) sort = body
			i := strings.Index(rest, "(")
			j := strings.Index(rest, ")")
			eq := strings.Index(rest, "=")
			sf := &specFun{name: rest[:i], ret: sortName(strings.TrimSpace(rest[j+1 : eq])), body: parseSpec(rest[eq+1:], where), src: rest}
			for _, p := range splitTop(rest[i+1:j], ",") {
				ab := strings.SplitN(strings.TrimSpace(p), ":", 2)
				sf.params = append(sf.params, ab[0])
				sf.sorts = append(sf.sorts, ab[1])
			}
			sp.recs[sf.name] = sf
		case "lemma", "axiom":
			c = nil
			i := strings.Index(rest, "(")
			j := strings.LastIndex(rest, ")")
			lm = &Lemma{Name: rest[:i], File: base, Props: props}
			for _, p := range splitTop(rest[i+1:j], ",") {
				ab := strings.SplitN(strings.TrimSpace(p), ":", 2)
				lm.Params = append(lm.Params, BV(ab[0], "?"+ab[1]))
			}
			if w == "axiom" {
				lm.NoAx = true
			}
			sp.lemmas = append(sp.lemmas, lm)
		case "by":
			lm.Ind = parseSpec(rest, where)
		case "mention":
			for _, s := range splitTop(rest, ";") {
				lm.Ment = append(lm.Ment, parseSpec(s, where))
			}
		case "hyp":
			lm.Hyps = append(lm.Hyps, mk(rest))
		case "concl":
			if e := mk(rest); lm.Concl == nil {
				lm.Concl = e
			} else {
				lm.Concl.E = &ast.BinaryExpr{X: &ast.ParenExpr{X: lm.Concl.E}, Op: token.LAND, Y: &ast.ParenExpr{X: e.E}}
			}
		case "uses":
			lm.uses = strings.Fields(rest)
		case "trigger":
			var p []ast.Expr
			for _, s := range splitTop(rest, ";") {
				p = append(p, parseSpec(s, where))
			}
			lm.Pats = append(lm.Pats, p)
		case "props":
			c.Props = strings.Fields(rest)
		case "requires":
			c.Requires = append(c.Requires, mk(rest))
		case "ensures":
			c.Ensures = append(c.Ensures, mk(rest))
		case "step":
			cl := mk(rest)
			cl.Step = true
			c.Ensures = append(c.Ensures, cl)
		case "panics":
			c.Panics = append(c.Panics, mk(rest))
		case "maypanic":
			c.MayPanic = true
		case "modifies":
			for _, m := range splitTop(rest, ",") {
				if strings.TrimSpace(m) == "nothing" {
					continue
				}
				c.Modifies = append(c.Modifies, mk(m))
			}
		case "inv":
			c.Inv = append(c.Inv, mk(rest))
		case "trusted":
			c.Trusted = true
		case "pure":
			c.Pure = true
		case "opt":
			if c.Opts == nil {
				c.Opts = map[string]string{}
			}
			f := strings.Fields(rest)
			v := "1"
			if len(f) > 1 {
				v = f[1]
			}
			c.Opts[f[0]] = v
		}
	}
}

func firstWord(s string) string {
	for i := 0; i < len(s); i++ {
		if !(s[i] >= 'a' && s[i] <= 'z') {
			return s[:i]
		}
	}
	return s
}

// parseHeader: NAME(params) (results)
func parseHeader(s, where string) *Contract {
	// the name may itself start with a parenthesised receiver
	i := 0
	if s[0] == '(' {
		i = strings.Index(s, ")") + 1
	}
	j := i + strings.Index(s[i:], "(")
	k := j + strings.Index(s[j:], ")")
	c := &Contract{Name: s[:j]}
	c.Params = fieldsComma(s[j+1 : k])
	r := strings.TrimSpace(s[k+1:])
	r = strings.Trim(r, "()")
	c.Results = fieldsComma(r)
	return c
}

func parseDef(s, where string) (string, []string, string) {
	i := strings.Index(s, "(")
	j := strings.Index(s, ")")
	eq := strings.Index(s[j:], "=") + j
	return s[:i], fieldsComma(s[i+1 : j]), s[eq+1:]
}

func fieldsComma(s string) []string {
	var out []string
	for _, p := range strings.Split(s, ",") {
		p = strings.TrimSpace(p)
		if p != "" {
			out = append(out, p)
		}
	}
	return out
}

func sortName(s string) string {
	switch s {
	case "int":
		return SInt
	case "bool":
		return SBool
	case "bytes":
		return SBytes
	case "seq", "str":
		TH.seqSort(SInt)
		return SSeq
	}
	if strings.HasPrefix(s, "seq<") {
		return TH.seqSort(sortName(s[4 : len(s)-1]))
	}
	if strings.HasPrefix(s, "view<") {
		t := theEngine.lookupType(s[5 : len(s)-1])
		return viewSort(t)
	}
	panic("unknown sort " + s)
}

// ---------- evaluation ----------

type specCtx struct {
	x     *Exec
	st    *State // current state
	old   *State // old state (nil: same as st)
	names map[string]Value
	depth int
	pure  bool // no state (lemmas, spec functions)
}

func (c *specCtx) with(name string, v Value) *specCtx {
	n := *c
	n.names = make(map[string]Value, len(c.names)+1)
	for k, w := range c.names {
		n.names[k] = w
	}
	n.names[name] = v
	return &n
}

func (c *specCtx) bool(e ast.Expr) *Term {
	t := c.term(e)
	if t.sort != SBool {
		panic(fmt.Sprintf("spec: boolean expected: %s (%s)", exprStr(e), t.sort))
	}
	return t
}

func (c *specCtx) term(e ast.Expr) *Term {
	v := c.eval(e)
	switch y := v.(type) {
	case Scalar:
		return y.T
	case PtrVal:
		if y.Cell == nil {
			return y.Ref
		}
	case MapVal:
		return y.Ref
	case StructVal:
		return c.x.viewOf(c.st, y, y.Typ)
	}
	panic(fmt.Sprintf("spec: term expected: %s (%T)", exprStr(e), v))
}

func exprStr(e ast.Expr) string { return types.ExprString(e) }

func intV(t *Term) Value  { return Scalar{t, types.Typ[types.Int]} }
func boolV(t *Term) Value { return Scalar{t, types.Typ[types.Bool]} }

func (c *specCtx) eval(e ast.Expr) Value {
	switch y := e.(type) {
	case *ast.ParenExpr:
		return c.eval(y.X)
	case *ast.BasicLit:
		switch y.Kind {
		case token.INT:
			v, ok := new(big.Int).SetString(y.Value, 0)
			if !ok {
				panic("bad int " + y.Value)
			}
			return intV(Big(v))
		case token.CHAR:
			r, _, _, _ := strconv.UnquoteChar(y.Value[1:], '\'')
			return intV(I(int64(r)))
		case token.STRING:
			s, _ := strconv.Unquote(y.Value)
			return Scalar{strLit(s), types.Typ[types.String]}
		}
	case *ast.Ident:
		switch y.Name {
		case "true":
			return boolV(tTrue)
		case "false":
			return boolV(tFalse)
		case "nil":
			return nil
		case "bnil":
			return Scalar{App("bnil", SBytes), nil}
		}
		if v, ok := c.names[y.Name]; ok {
			return v
		}
		if m, ok := theEngine.specs.macros[y.Name]; ok && len(m.params) == 0 {
			return c.eval(m.body)
		}
		panic(fmt.Sprintf("spec: unknown name %s", y.Name))
	case *ast.StarExpr:
		p, ok := c.eval(y.X).(PtrVal)
		if !ok {
			panic("spec: * of non-pointer " + exprStr(y.X))
		}
		return c.x.loadQuiet(c.st, p)
	case *ast.UnaryExpr:
		switch y.Op {
		case token.NOT:
			return boolV(Not(c.bool(y.X)))
		case token.SUB:
			return intV(Neg(c.term(y.X)))
		case token.AND:
			// &x[i]: pointer to a slice element
			if ix, ok := y.X.(*ast.IndexExpr); ok {
				s := c.eval(ix.X).(SliceVal)
				et := s.Typ.Underlying().(*types.Slice).Elem()
				return PtrVal{Root: shortType(et), Ref: s.Ref, Off: s.Off, Idx: c.term(ix.Index), Elem: et}
			}
		}
	case *ast.SelectorExpr:
		v := c.eval(y.X)
		return c.field(v, y.Sel.Name, y)
	case *ast.IndexExpr:
		v := c.eval(y.X)
		return c.index(v, y.Index, y)
	case *ast.SliceExpr:
		if s, ok := c.eval(y.X).(SliceVal); ok {
			lo, hi := I(0), s.Len
			if y.Low != nil {
				lo = c.term(y.Low)
			}
			if y.High != nil {
				hi = c.term(y.High)
			}
			return SliceVal{Ref: s.Ref, Off: Add(s.Off, lo), Len: Sub(hi, lo), Cap: Sub(s.Cap, lo), Typ: s.Typ, Cell: s.Cell}
		}
	case *ast.BinaryExpr:
		return c.binary(y)
	case *ast.CallExpr:
		return c.call(y)
	}
	panic(fmt.Sprintf("spec: cannot evaluate %s (%T)", exprStr(e), e))
}

func (c *specCtx) field(v Value, name string, e ast.Expr) Value {
	switch s := v.(type) {
	case PtrVal:
		u, ok := s.Elem.Underlying().(*types.Struct)
		if !ok {
			break
		}
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				return c.x.loadQuiet(c.st, ptrField(c.x.resolveCell(c.st, s), i))
			}
		}
	case StructVal:
		u := s.Typ.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				return s.F[i]
			}
		}
	case Scalar:
		if strings.HasPrefix(s.T.sort, "V_") {
			return Scalar{dtField(s.T, name), nil}
		}
	}
	panic(fmt.Sprintf("spec: no field %s in %s (%T)", name, exprStr(e), v))
}

// dtField selects a field of a struct view.
func dtField(t *Term, name string) *Term {
	decl := TH.dts[t.sort]
	// find selector position and sort
	sel := sym(t.sort + "." + name)
	i := strings.Index(decl, "("+sel+" ")
	if i < 0 {
		panic("spec: view " + t.sort + " has no field " + name)
	}
	rest := decl[i+len(sel)+2:]
	srt := rest[:strings.Index(rest, ")")]
	if strings.HasPrefix(t.name, "mkv_") {
		n := strings.Count(decl[:i], "("+sym(t.sort+".")) // approximate position
		_ = n
		pos := 0
		for _, part := range strings.Split(decl[:i], "(") {
			if strings.Contains(part, t.sort+".") {
				pos++
			}
		}
		return t.args[pos]
	}
	return App(t.sort+"."+name, srt, t)
}

func (c *specCtx) index(v Value, ie ast.Expr, e ast.Expr) Value {
	switch s := v.(type) {
	case SliceVal:
		i := c.term(ie)
		if s.Cell != nil {
			if n, ok := litInt(i); ok {
				if av, ok := c.st.cells[s.Cell].(ArrVal); ok {
					o, _ := litInt(s.Off)
					return av.E[o+n]
				}
			}
			s = c.x.realSlice(c.st, s)
		}
		et := s.Typ.Underlying().(*types.Slice).Elem()
		v := c.x.loadElt(c.st, shortType(et), "", s.Ref, s.Off, i, et, false)
		if !i.bnd {
			c.noteLoaded(v)
		}
		return v
	case MapVal:
		return c.x.mapLoadQuiet(c.st, s, c.eval(ie))
	case ArrVal:
		n, ok := litInt(c.term(ie))
		if ok {
			return s.E[n]
		}
	case PtrVal:
		return c.index(c.x.loadQuiet(c.st, s), ie, e)
	case Scalar:
		if strings.HasPrefix(s.T.sort, "Seq_") {
			el := seqElem(s.T.sort)
			i := c.term(ie)
			t := sa(el, s.T, i)
			return Scalar{t, nil}
		}
	}
	panic(fmt.Sprintf("spec: index of %T in %s", v, exprStr(e)))
}

// noteLoaded assumes typing facts of loaded values in the current state.
func (c *specCtx) noteLoaded(v Value) {
	if c.st != nil {
		assumeValue(c.st, v)
	}
}

func (x *Exec) loadQuiet(st *State, p PtrVal) Value {
	p = x.resolveCell(st, p)
	if p.Cell == nil && (p.Ref.bnd || p.Idx.bnd) {
		return x.loadElt(st, p.Root, p.Path, p.Ref, p.Off, p.Idx, p.Elem, false)
	}
	return x.load(st, p)
}

func (x *Exec) mapLoadQuiet(st *State, m MapVal, key Value) Value {
	mt := m.Typ.Underlying().(*types.Map)
	k := x.keyTerm(st, key)
	_, vks := x.mapKeys(m)
	ls := leavesOf(mt.Elem())
	ts := make([]*Term, len(ls))
	for i := range ls {
		ts[i] = Select(Select(st.memGet(vks[i]), m.Ref), k)
	}
	v, _ := unflatten(mt.Elem(), ts)
	return v
}

func (c *specCtx) binary(y *ast.BinaryExpr) Value {
	switch y.Op {
	case token.LAND:
		a := c.bool(y.X)
		return boolV(And(a, c.bool(y.Y)))
	case token.LOR:
		a := c.bool(y.X)
		return boolV(Or(a, c.bool(y.Y)))
	case token.EQL:
		return boolV(c.eq(y.X, y.Y))
	case token.NEQ:
		return boolV(Not(c.eq(y.X, y.Y)))
	}
	a, b := c.term(y.X), c.term(y.Y)
	switch y.Op {
	case token.ADD:
		if a.sort == SSeq {
			return Scalar{Cat(a, b), nil}
		}
		return intV(Add(a, b))
	case token.SUB:
		return intV(Sub(a, b))
	case token.MUL:
		return intV(Mul(a, b))
	case token.QUO:
		return intV(Div(a, b))
	case token.REM:
		return intV(Mod(a, b))
	case token.LSS:
		return boolV(Lt(a, b))
	case token.LEQ:
		return boolV(Le(a, b))
	case token.GTR:
		return boolV(Gt(a, b))
	case token.GEQ:
		return boolV(Ge(a, b))
	}
	panic("spec: operator " + y.Op.String())
}

func (c *specCtx) eq(xe, ye ast.Expr) *Term {
	a, b := c.eval(xe), c.eval(ye)
	return c.eqV(a, b, exprStr(xe)+" == "+exprStr(ye))
}

func (c *specCtx) eqV(a, b Value, what string) *Term {
	if a == nil {
		a, b = b, a
	}
	if b == nil { // nil comparison
		switch p := a.(type) {
		case nil:
			return tTrue
		case SliceVal:
			return c.x.sliceNil(p)
		case PtrVal:
			if p.Cell != nil {
				return tFalse
			}
			return Eq(p.Ref, I(0))
		case MapVal:
			return Eq(p.Ref, I(0))
		case IfaceVal:
			return Eq(p.Tag, I(0))
		case FuncVal:
			if p.Ref == nil {
				return tFalse
			}
			return Eq(p.Ref, I(0))
		}
		panic("spec: nil comparison in " + what)
	}
	if s, ok := a.(Scalar); ok {
		if _, isStruct := b.(StructVal); isStruct {
			return veq(s.T, c.x.viewOf(c.st, b, b.(StructVal).Typ))
		}
		return veq(s.T, b.(Scalar).T)
	}
	switch p := a.(type) {
	case StructVal:
		if q, ok := b.(Scalar); ok {
			return veq(c.x.viewOf(c.st, p, p.Typ), q.T)
		}
		q := b.(StructVal)
		var cs []*Term
		for i := range p.F {
			cs = append(cs, c.eqV(p.F[i], q.F[i], what))
		}
		return And(cs...)
	case SliceVal: // identity of slice headers
		q := b.(SliceVal)
		p, q = c.x.realSlice(c.st, p), c.x.realSlice(c.st, q)
		return And(Eq(p.Ref, q.Ref), Eq(p.Off, q.Off), Eq(p.Len, q.Len), Eq(p.Cap, q.Cap))
	case IfaceVal:
		q := b.(IfaceVal)
		if p.Ref == nil || q.Ref == nil {
			p, q = c.x.boxIface(c.st, p), c.x.boxIface(c.st, q)
		}
		return And(Eq(p.Tag, q.Tag), Eq(p.Ref, q.Ref), Eq(p.Idx, q.Idx))
	}
	return c.x.valEq(c.st, a, b)
}

func (c *specCtx) oldCtx() *specCtx {
	n := *c
	if c.old != nil {
		n.st = c.old
	}
	return &n
}

func (c *specCtx) call(y *ast.CallExpr) Value {
	fn, ok := y.Fun.(*ast.Ident)
	if !ok {
		if id, ok2 := y.Fun.(*ast.SelectorExpr); ok2 {
			panic("spec: method call " + exprStr(id))
		}
		panic("spec: call " + exprStr(y))
	}
	name := fn.Name
	arg := func(i int) Value { return c.eval(y.Args[i]) }
	targ := func(i int) *Term { return c.term(y.Args[i]) }
	switch name {
	case "imp":
		a := c.bool(y.Args[0])
		if a == tFalse {
			return boolV(tTrue)
		}
		return boolV(Implies(a, c.bool(y.Args[1])))
	case "iff":
		a, b := c.bool(y.Args[0]), c.bool(y.Args[1])
		return boolV(And(Implies(a, b), Implies(b, a)))
	case "old":
		return c.oldCtx().eval(y.Args[0])
	case "ite":
		cnd := c.bool(y.Args[0])
		if cnd == tTrue {
			return arg(1)
		}
		if cnd == tFalse {
			return arg(2)
		}
		return Scalar{Ite(cnd, targ(1), targ(2)), nil}
	case "len":
		switch v := arg(0).(type) {
		case SliceVal:
			return intV(v.Len)
		case Scalar:
			return intV(sl(v.T))
		case ArrVal:
			return intV(I(int64(len(v.E))))
		}
		panic("spec: len of " + exprStr(y.Args[0]))
	case "cap":
		return intV(arg(0).(SliceVal).Cap)
	case "ref":
		switch v := arg(0).(type) {
		case SliceVal:
			v = c.x.realSlice(c.st, v)
			return intV(v.Ref)
		case PtrVal:
			if v.Cell != nil {
				return intV(c.x.resolveCell(c.st, c.x.promote(c.st, v.Cell)).Ref)
			}
			return intV(v.Ref)
		case MapVal:
			return intV(v.Ref)
		case IfaceVal:
			return intV(c.x.boxIface(c.st, v).Ref)
		}
		panic("spec: ref of " + exprStr(y.Args[0]))
	case "off":
		return intV(c.x.realSlice(c.st, arg(0).(SliceVal)).Off)
	case "id": // pointer identity (address) as an integer pair is compared with ==; index part
		return intV(arg(0).(PtrVal).addr())
	case "fresh": // allocated since the old state
		o := c.old
		if o == nil {
			o = c.st
		}
		var r *Term
		switch v := arg(0).(type) {
		case SliceVal:
			r = c.x.realSlice(c.st, v).Ref
		case PtrVal:
			if v.Cell != nil {
				return boolV(tTrue)
			}
			r = v.Ref
		case MapVal:
			r = v.Ref
		case IfaceVal:
			r = c.x.boxIface(c.st, v).Ref
		default:
			panic("spec: fresh of " + exprStr(y.Args[0]))
		}
		return boolV(Ge(r, o.alloc))
	case "forall", "exists":
		vn := y.Args[0].(*ast.Ident).Name
		b := BV(fmt.Sprintf("%s_%d", vn, c.depth), SInt)
		n := c.with(vn, intV(b))
		n.depth = c.depth + 1
		var rng *Term = tTrue
		bodyE := y.Args[len(y.Args)-1]
		if len(y.Args) == 4 {
			lo, hi := c.term(y.Args[1]), c.term(y.Args[2])
			if d := Sub(hi, lo); d.op == "lit" && d.val.Sign() <= 0 {
				return boolV(B(name == "forall"))
			} else if d.op == "lit" && d.val.Cmp(big.NewInt(8)) <= 0 && lo.op == "lit" {
				// small literal range: expand
				var cs []*Term
				for k := new(big.Int).Set(lo.val); k.Cmp(hi.val) < 0; k = new(big.Int).Add(k, one) {
					cs = append(cs, c.with(vn, intV(Big(k))).bool(bodyE))
				}
				if name == "forall" {
					return boolV(And(cs...))
				}
				return boolV(Or(cs...))
			}
			rng = And(mkRaw("<=", "", SBool, lo, b), mkRaw("<", "", SBool, b, hi))
		}
		body := n.bool(bodyE)
		pats := findPats(b, body)
		if name == "forall" {
			return boolV(Forall([]*Term{b}, pats, Implies(rng, body)))
		}
		return boolV(Exists([]*Term{b}, pats, And(rng, body)))
	case "seq":
		switch v := arg(0).(type) {
		case SliceVal:
			return Scalar{c.x.seqOf(c.st, v), nil}
		case Scalar:
			return v
		}
		panic("spec: seq of " + exprStr(y.Args[0]))
	case "rowof": // the whole backing array of a slice of scalars
		sv := c.x.realSlice(c.st, arg(0).(SliceVal))
		et := sv.Typ.Underlying().(*types.Slice).Elem()
		return Scalar{Select(c.st.memGet(famKey(shortType(et), "", leavesOf(et)[0])), sv.Ref), nil}
	case "lens": // the lengths of the slices in a slice
		sv := c.x.realSlice(c.st, arg(0).(SliceVal))
		et := sv.Typ.Underlying().(*types.Slice).Elem()
		if _, ok := et.Underlying().(*types.Slice); !ok {
			panic("spec: lens of " + exprStr(y.Args[0]))
		}
		ints := types.NewSlice(types.Typ[types.Int])
		mkView(SliceVal{Ref: I(0), Off: I(0), Len: I(0), Cap: I(0), Typ: ints}, func(k string) *Term { return c.st.memGet(k) })
		return Scalar{App("mk:int", seqSortFull(SInt), Select(c.st.memGet(famKey(shortType(et), "", leavesOf(et)[2])), sv.Ref), sv.Off, sv.Len), nil}
	case "view":
		switch v := arg(0).(type) {
		case StructVal:
			return Scalar{c.x.viewOf(c.st, v, v.Typ), nil}
		case Scalar:
			return v
		case SliceVal:
			return Scalar{c.x.seqOf(c.st, v), nil}
		}
		panic("spec: view of " + exprStr(y.Args[0]))
	case "pview": // what the pointers in a slice point to
		return Scalar{mkPView(c.x.realSlice(c.st, arg(0).(SliceVal)), func(k string) *Term { return c.st.memGet(k) }), nil}
	case "tail": // region [len, cap) marker, only meaningful in modifies
		return arg(0)
	case "sortv":
		s := targ(0)
		initSort()
		return Scalar{App("sortv", SSeq, s), nil}
	case "sorted":
		initSort()
		return boolV(App("sorted", SBool, targ(0)))
	case "cons":
		return Scalar{bcons(targ(0), targ(1)), nil}
	case "bhd":
		return Scalar{App("bhd", SInt, targ(0)), nil}
	case "btl":
		return Scalar{App("btl", SBytes, targ(0)), nil}
	case "isnil":
		return boolV(Eq(targ(0), App("bnil", SBytes)))
	case "in":
		return Scalar{c.x.streamGet(c.st, arg(0), "in"), nil}
	case "out":
		return Scalar{c.x.streamGet(c.st, arg(0), "out"), nil}
	case "full":
		return boolV(c.x.streamFull(c.st, arg(0)))
	case "ideal":
		return boolV(c.x.streamIdeal(c.st, arg(0)))
	case "written":
		return intV(c.x.bytesWritten(c.st, arg(0)))
	case "held":
		return boolV(c.x.mutexHeld(c.st, arg(0).(PtrVal)))
	case "seen": // the iteration has delivered the key
		it := arg(0).(IterVal)
		return boolV(Select(c.st.cells[it.Cell].(Scalar).T, c.x.keyTerm(c.st, arg(1))))
	case "has": // map membership
		m := arg(0).(MapVal)
		return boolV(And(Ne(m.Ref, I(0)), Select(c.x.mapDom(c.st, m), c.x.keyTerm(c.st, arg(1)))))
	case "strz":
		initStrz()
		return Scalar{strzTerm(targ(0), targ(1)), nil}
	case "zhead":
		initStrz()
		return Scalar{App("strz_head", SSeq, targ(0)), nil}
	case "ztail":
		initStrz()
		return Scalar{App("strz_tail", SBytes, targ(0)), nil}
	case "zok":
		initStrz()
		return boolV(App("strz_ok", SBool, targ(0)))
	case "zfree":
		return boolV(zfree(targ(0)))
	case "utf8":
		return Scalar{Utf8(targ(0)), nil}
	case "utf8n":
		initStrings()
		return Scalar{App("utf8p", SSeq, targ(0), targ(1)), nil}
	case "runes":
		return Scalar{Runes(targ(0)), nil}
	case "chr":
		return Scalar{Chr(targ(0)), nil}
	case "cat":
		return Scalar{Cat(targ(0), targ(1)), nil}
	case "snoc": // a sequence with one element more
		return Scalar{Snoc(targ(0), targ(1)), nil}
	case "uf": // uninterpreted function: uf(name, sort, args...)
		var as []*Term
		for i := 2; i < len(y.Args); i++ {
			as = append(as, targ(i))
		}
		return Scalar{App("uf_"+y.Args[0].(*ast.Ident).Name, sortName(y.Args[1].(*ast.Ident).Name), as...), nil}
	case "errtext": // the text of an error
		return Scalar{c.x.errText(c.st, arg(0)), nil}
	case "sprintf":
		return Scalar{c.x.sprintf(c.st, targ(0), arg(1).(SliceVal)), nil}
	case "joinpath":
		return Scalar{joinPath(targ(0), targ(1)), nil}
	case "abspath":
		return Scalar{App("abspath", SSeq, targ(0)), nil}
	case "atoi":
		return intV(App("atoi", SInt, targ(0)))
	case "isint":
		return boolV(App("isint", SBool, targ(0)))
	case "isdir":
		return boolV(App("isdir", SBool, targ(0)))
	case "elemptr": // the address of an element of a slice
		sv := c.x.realSlice(c.st, arg(0).(SliceVal))
		et := sv.Typ.Underlying().(*types.Slice).Elem()
		return PtrVal{Root: shortType(et), Ref: sv.Ref, Off: sv.Off, Idx: targ(1), Elem: et}
	case "pow2":
		n, _ := litInt(targ(0))
		return intV(pow2(n))
	case "dyn": // dynamic type test dyn(x, "type")
		v := arg(0).(IfaceVal)
		s, _ := strconv.Unquote(y.Args[1].(*ast.BasicLit).Value)
		return boolV(Eq(v.Tag, I(int64(theEngine.typeID(theEngine.lookupType(s))))))
	case "unbox": // pointer held by an interface value
		v := arg(0).(IfaceVal)
		s, _ := strconv.Unquote(y.Args[1].(*ast.BasicLit).Value)
		t := theEngine.lookupType(s)
		if v.Dyn != nil {
			return v.DynV
		}
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			return PtrVal{Root: shortType(pt.Elem()), Ref: v.Ref, Idx: v.Idx, Elem: pt.Elem()}
		}
		return c.x.loadQuiet(c.st, PtrVal{Root: shortType(t), Ref: v.Ref, Idx: v.Idx, Elem: t})
	}
	if m, ok := theEngine.specs.macros[name]; ok {
		if len(m.params) != len(y.Args) {
			panic("spec: wrong number of arguments for " + name)
		}
		n := *c
		n.names = map[string]Value{}
		for k, v := range c.names {
			n.names[k] = v
		}
		for i, p := range m.params {
			n.names[p] = arg(i)
		}
		n.depth = c.depth
		return n.eval(m.body)
	}
	if r, ok := theEngine.specs.recs[name]; ok {
		rf := theEngine.recFun(r)
		var as []*Term
		for i := range y.Args {
			v := arg(i)
			var t *Term
			switch w := v.(type) {
			case SliceVal:
				t = c.x.seqOf(c.st, w)
			case StructVal:
				t = c.x.viewOf(c.st, w, w.Typ)
			default:
				t = c.term(y.Args[i])
			}
			if t.sort != rf.params[i].sort {
				panic(fmt.Sprintf("spec: %s: argument %d has sort %s, want %s", name, i, t.sort, rf.params[i].sort))
			}
			as = append(as, t)
		}
		return Scalar{App(rf.name, rf.ret, as...), nil}
	}
	panic("spec: unknown function " + name)
}

func bcons(h, t *Term) *Term { return App("bcons", SBytes, h, t) }

// findPats chooses triggers for a bound variable.
func findPats(b *Term, body *Term) [][]*Term {
	var out [][]*Term
	seen := map[*Term]bool{}
	have := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.bnd {
			return
		}
		seen[t] = true
		direct := false
		if t.op == "app" || t.op == "select" {
			for _, a := range t.args {
				if a == b {
					direct = true
				}
			}
			if t.op == "select" && t.args[1] != b {
				direct = false
			}
		}
		if direct && !have[t] && !hasOtherBound(t, b, body) && !boundLogic(t) {
			have[t] = true
			out = append(out, []*Term{t})
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	if len(out) > 12 {
		out = out[:12]
	}
	return out
}

// boundLogic reports whether a part of t with bound variables has an operation no trigger may contain.
func boundLogic(t *Term) bool {
	if !t.bnd {
		return false
	}
	switch t.op {
	case "bvar", "app", "select", "store", "+", "-", "*":
	default:
		return true
	}
	for _, a := range t.args {
		if boundLogic(a) {
			return true
		}
	}
	return false
}

// hasOtherBound reports whether t mentions variables bound inside body (they would not be in scope of the outer trigger).
func hasOtherBound(t, b, body *Term) bool {
	inner := map[*Term]bool{}
	seen := map[*Term]bool{}
	var walk func(u *Term)
	walk = func(u *Term) {
		if seen[u] {
			return
		}
		seen[u] = true
		if u.op == "forall" || u.op == "exists" {
			for _, v := range u.args[:len(u.args)-1] {
				inner[v] = true
			}
		}
		for _, a := range u.args {
			walk(a)
		}
	}
	walk(body)
	fv := map[*Term]bool{}
	freeB(t, map[*Term]bool{}, fv)
	for v := range fv {
		if inner[v] && v != b {
			return true
		}
	}
	return false
}

var sortInit bool

func initSort() {
	if sortInit {
		return
	}
	sortInit = true
	TH.seqSort(SInt)
	s, i, j := bv("s", SSeq), bv("i", SInt), bv("j", SInt)
	sv := App("sortv", SSeq, s)
	ln := func(s *Term) *Term { return mkRaw("app", "sl_"+SSeq, SInt, s) }
	at := func(s, i *Term) *Term { return mkRaw("app", "sa_"+SSeq, SInt, s, i) }
	so := func(s *Term) *Term { return App("sorted", SBool, s) }
	TH.addAxiom(&axiom{name: "sortv_len", needs: [][]string{{"sortv"}}, from: "definition", t: Forall([]*Term{s}, [][]*Term{{sv}}, And(mkRaw("=", "", SBool, ln(sv), ln(s)), so(sv)))})
	TH.addAxiom(&axiom{name: "sortv_id", needs: [][]string{{"sortv"}}, from: "definition", t: Forall([]*Term{s}, [][]*Term{{sv}}, Implies(so(s), mkRaw("=", "", SBool, sv, s)))})
	p := App("sort_from", SInt, s, i)
	p2 := App("sort_to", SInt, s, i)
	inr := func(i, s *Term) *Term { return And(mkRaw("<=", "", SBool, I(0), i), mkRaw("<", "", SBool, i, ln(s))) }
	// a permutation: sort_from and sort_to are mutually inverse position maps
	TH.addAxiom(&axiom{name: "sortv_from", needs: [][]string{{"sortv"}}, from: "definition", t: Forall([]*Term{s, i}, [][]*Term{{at(sv, i)}}, Implies(inr(i, s), And(inr(p, s), mkRaw("=", "", SBool, at(sv, i), at(s, p)), mkRaw("=", "", SBool, App("sort_to", SInt, s, p), i))))})
	TH.addAxiom(&axiom{name: "sortv_to", needs: [][]string{{"sortv"}}, from: "definition", t: Forall([]*Term{s, i}, [][]*Term{{sv, at(s, i)}}, Implies(inr(i, s), And(inr(p2, s), mkRaw("=", "", SBool, at(sv, p2), at(s, i)), mkRaw("=", "", SBool, App("sort_from", SInt, s, p2), i))))})
	TH.addAxiom(&axiom{name: "sorted_def", needs: [][]string{{"sorted"}}, from: "definition", t: Forall([]*Term{s, i, j}, [][]*Term{{so(s), at(s, i), at(s, j)}}, Implies(And(so(s), mkRaw("<=", "", SBool, I(0), i), mkRaw("<=", "", SBool, i, j), mkRaw("<", "", SBool, j, ln(s))), mkRaw("<=", "", SBool, at(s, i), at(s, j))))})
	w := App("sorted_w", SInt, s)
	TH.addAxiom(&axiom{name: "sorted_intro", needs: [][]string{{"sorted"}}, from: "definition", t: Forall([]*Term{s}, [][]*Term{{so(s)}}, Or(so(s), And(mkRaw("<=", "", SBool, I(0), w), mkRaw("<", "", SBool, Add(w, I(1)), ln(s)), mkRaw("<", "", SBool, at(s, Add(w, I(1))), at(s, w)))))})
}

// ---------- contracts at calls and exits ----------

// modLoc is a set of memory locations a contract may modify.
type modLoc struct {
	keys   []string
	ref    *Term // nil: every ref
	idx    *Term // nil: a whole row
	lo, hi *Term // row range (absolute), nil: whole row
	off    *Term // offset of the slice (for row ranges)
	cell   *PtrVal
}

func (c *specCtx) modLocs(cl *Clause) []modLoc {
	x := c.x
	var out []modLoc
	ptrLoc := func(p PtrVal) {
		p = x.resolveCell(c.st, p)
		if p.Cell != nil {
			out = append(out, modLoc{cell: &p})
			return
		}
		if strings.HasPrefix(p.Root, "array:") {
			panic(unsupported("modifies array pointer"))
		}
		l := modLoc{ref: p.Ref, idx: p.addr()}
		for _, lf := range leavesOf(p.Elem) {
			l.keys = append(l.keys, famKey(p.Root, p.Path, lf))
		}
		out = append(out, l)
	}
	switch y := cl.E.(type) {
	case *ast.StarExpr:
		ptrLoc(c.eval(y.X).(PtrVal))
		return out
	case *ast.SelectorExpr: // p.f
		ptrLoc(c.lval(y))
		return out
	case *ast.CallExpr:
		fn := y.Fun.(*ast.Ident).Name
		switch fn {
		case "elems", "tail", "row":
			s := x.realSlice(c.st, c.eval(y.Args[0]).(SliceVal))
			et := s.Typ.Underlying().(*types.Slice).Elem()
			l := modLoc{ref: s.Ref, off: s.Off}
			for _, lf := range leavesOf(et) {
				l.keys = append(l.keys, famKey(shortType(et), "", lf))
			}
			switch fn {
			case "elems":
				l.lo, l.hi = s.Off, Add(s.Off, s.Len)
			case "tail":
				l.lo, l.hi = Add(s.Off, s.Len), Add(s.Off, s.Cap)
			}
			return append(out, l)
		case "in", "out":
			r := x.streamKey(c.st, c.eval(y.Args[0]))
			return append(out, modLoc{keys: []string{streamFam(fn)}, ref: r, idx: I(0)})
		case "written":
			p := c.eval(y.Args[0]).(PtrVal)
			return append(out, x.writtenLoc(c.st, p))
		case "mutex":
			p := c.eval(y.Args[0]).(PtrVal)
			return append(out, modLoc{keys: []string{mutexFam(p)}, ref: p.Ref, idx: p.addr()})
		case "mapof":
			m := c.eval(y.Args[0]).(MapVal)
			dk, vks := x.mapKeys(m)
			return append(out, modLoc{keys: append([]string{dk}, vks...), ref: m.Ref})
		case "family": // family("type", "path"): every object of a family
			t, _ := strconv.Unquote(y.Args[0].(*ast.BasicLit).Value)
			l := modLoc{}
			var typ types.Type
			root := t
			if strings.HasPrefix(t, "map:") {
				mt := theEngine.lookupType(t[4:]).Underlying().(*types.Map)
				dk, vks := x.mapKeys(MapVal{I(0), theEngine.lookupType(t[4:])})
				_ = mt
				l.keys = append([]string{dk}, vks...)
				return append(out, l)
			}
			typ = theEngine.lookupType(t)
			root = shortType(typ)
			path := ""
			if len(y.Args) > 1 {
				path, _ = strconv.Unquote(y.Args[1].(*ast.BasicLit).Value)
				u := typ.Underlying().(*types.Struct)
				for i := 0; i < u.NumFields(); i++ {
					if "."+u.Field(i).Name() == path {
						typ = u.Field(i).Type()
					}
				}
			}
			for _, lf := range leavesOf(typ) {
				l.keys = append(l.keys, famKey(root, path, lf))
			}
			return append(out, l)
		}
	}
	panic("spec: modifies " + cl.Src)
}

// lval is the address of p.f or p.f.g, where p is a pointer.
func (c *specCtx) lval(y *ast.SelectorExpr) PtrVal {
	var p PtrVal
	switch b := c.eval(y.X).(type) {
	case PtrVal:
		p = c.x.resolveCell(c.st, b)
	case StructVal:
		if in, ok := y.X.(*ast.SelectorExpr); ok {
			p = c.lval(in)
		} else {
			panic("spec: no address of " + exprStr(y))
		}
	default:
		panic("spec: no address of " + exprStr(y))
	}
	u := p.Elem.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == y.Sel.Name {
			return ptrField(p, i)
		}
	}
	panic("spec: no field " + exprStr(y))
}

// conNames binds contract names positionally.
func conNames(con *Contract, args []Value) map[string]Value {
	if len(con.Params) != len(args) {
		panic(unsupported("contract %s: %d parameters declared, function has %d", con.Name, len(con.Params), len(args)))
	}
	m := map[string]Value{}
	for i, p := range con.Params {
		m[p] = args[i]
	}
	return m
}

func bindResults(con *Contract, m map[string]Value, res Value) map[string]Value {
	n := map[string]Value{}
	for k, v := range m {
		n[k] = v
	}
	switch r := res.(type) {
	case TupleVal:
		if len(con.Results) > len(r) {
			panic(unsupported("contract %s: %d results declared, function has %d", con.Name, len(con.Results), len(r)))
		}
		for i, nm := range con.Results {
			n[nm] = r[i]
		}
	default:
		if len(con.Results) > 1 {
			panic(unsupported("contract %s: too many results declared", con.Name))
		}
		if len(con.Results) == 1 {
			n[con.Results[0]] = r
		}
	}
	return n
}

func (cl *Clause) name() string {
	if cl.Label != "" {
		return cl.Label
	}
	s := cl.Src
	if len(s) > 110 {
		s = s[:107] + "..."
	}
	return s
}

// applyContract uses the callee's contract at a call.
func (x *Exec) applyContract(st *State, fr *Frame, con *Contract, fn *ssa.Function, args []Value, pos token.Pos, k func(*State, Value)) {
	names := conNames(con, args)
	ctx := &specCtx{x: x, st: st, names: names}
	for _, r := range con.Requires {
		x.check(st, "precondition", con.Name+": "+r.name(), pos, r.Props, ctx.bool(r.E))
	}
	var pc *Term = tFalse
	if con.MayPanic {
		pc = freshVar("panics", SBool)
	}
	for _, p := range con.Panics {
		pc = Or(pc, ctx.bool(p.E))
	}
	x.branch(st, pc, func(s *State) {
		s.note("%s panics", con.Name)
		x.doPanic(s, fr, freshErr(s, "panicval", types.NewInterfaceType(nil, nil)))
	}, func(s *State) { x.applyNormal(s, con, fn, names, k) })
}

func (x *Exec) applyNormal(st *State, con *Contract, fn *ssa.Function, names map[string]Value, k func(*State, Value)) {
	ctx := &specCtx{x: x, st: st, names: names}
	var locs []modLoc
	for _, m := range con.Modifies {
		locs = append(locs, ctx.modLocs(m)...)
	}
	old := st.clone()
	if !con.Pure {
		na := freshVar("alloc", SInt)
		st.assume(Le(st.alloc, na))
		st.alloc = na
	}
	x.havocLocs(st, old, locs)
	rs := fn.Signature.Results()
	var res Value
	switch rs.Len() {
	case 0:
		res = TupleVal{}
	case 1:
		res = freshValue(st, "r_"+fn.Name(), rs.At(0).Type())
	default:
		var tv TupleVal
		for i := 0; i < rs.Len(); i++ {
			tv = append(tv, freshValue(st, "r_"+fn.Name(), rs.At(i).Type()))
		}
		res = tv
	}
	ec := &specCtx{x: x, st: st, old: old, names: bindResults(con, names, res)}
	for _, e := range con.Ensures {
		if e.Step {
			continue
		}
		st.assume(ec.bool(e.E))
	}
	if !st.infeasible() {
		k(st, res)
	}
}

func (x *Exec) havocLocs(st, old *State, locs []modLoc) {
	whole := map[string]bool{}
	for _, l := range locs {
		if l.cell != nil {
			v := freshValue(st, "mod", l.cell.Elem)
			x.store(st, *l.cell, v)
			continue
		}
		if l.ref == nil {
			for _, k := range l.keys {
				whole[k] = true
			}
			continue
		}
		if l.idx != nil {
			// one object: fresh typed leaves, assumed consistent
			ts := make([]*Term, len(l.keys))
			for i, k := range l.keys {
				lf := fams[k].leaf
				ts[i] = freshVar("m", lf.sort)
				lo, hi := leafRange(lf)
				bound(ts[i], lo, hi)
				switch lf.kind {
				case "sref", "pref", "mref", "iref":
					st.assume(Lt(ts[i], st.alloc))
				case "scap":
					if i >= 3 {
						st.assume(Le(ts[i-1], ts[i]))
						st.assume(Implies(Eq(ts[i-3], I(0)), Eq(ts[i], I(0))))
					}
				}
				m := st.memGet(k)
				st.mem[k] = Store(m, l.ref, Store(Select(m, l.ref), l.idx, ts[i]))
			}
			continue
		}
		for _, k := range l.keys {
			m := st.memGet(k)
			row := rowSym(k, st.alloc)
			if l.lo != nil {
				lf := fams[k].leaf
				orow := Select(m, l.ref)
				i := BV("k", SInt)
				sel := mkRaw("select", "", lf.sort, row, i)
				st.assume(Forall([]*Term{i}, [][]*Term{{sel}}, Or(And(Le(l.lo, i), Lt(i, l.hi)), mkRaw("=", "", SBool, sel, mkRaw("select", "", lf.sort, orow, i)))))
			}
			st.mem[k] = Store(m, l.ref, row)
		}
	}
	if len(whole) > 0 {
		var ks []string
		for k := range whole {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		st.havocMem(ks)
	}
}

// rowSym is an arbitrary well-typed backing array for a family leaf.
func rowSym(k string, alloc *Term) *Term {
	lf := fams[k].leaf
	name := freshName("row")
	t := App(name, arrSort(lf.sort))
	i := BV("i", SInt)
	sel := mkRaw("select", "", lf.sort, t, i)
	var cs []*Term
	lo, hi := leafRange(lf)
	if lo != nil {
		cs = append(cs, mkRaw("<=", "", SBool, Big(lo), sel))
	}
	if hi != nil {
		cs = append(cs, mkRaw("<=", "", SBool, sel, Big(hi)))
	}
	switch lf.kind {
	case "sref", "pref", "mref", "iref":
		cs = append(cs, mkRaw("<", "", SBool, sel, alloc))
	}
	if len(cs) > 0 {
		TH.addAxiom(&axiom{name: "typing:" + name, needs: [][]string{{name}}, t: Forall([]*Term{i}, [][]*Term{{sel}}, And(cs...)), from: "typing"})
	}
	return t
}

// checkFrame proves that everything outside the modifies clause kept its value.
func (x *Exec) checkFrame(st *State, locs []modLoc) {
	keys := make([]string, 0, len(st.mem))
	for k := range st.mem {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		m0 := x.pre.memGet(k)
		m1 := st.mem[k]
		if m0 == m1 {
			continue
		}
		allowedAll := false
		for _, l := range locs {
			if l.ref == nil {
				for _, lk := range l.keys {
					if lk == k {
						allowedAll = true
					}
				}
			}
		}
		if allowedAll {
			continue
		}
		// quick syntactic test
		t := m1
		ok := true
		for t.op == "store" && ok {
			r := t.args[1]
			d := Sub(r, x.pre.alloc)
			okk := d.lo != nil && d.lo.Sign() >= 0
			if !okk {
				for _, l := range locs {
					if l.ref == r && l.idx == nil && l.lo == nil && containsStr(l.keys, k) {
						okk = true
					}
				}
			}
			ok = okk
			t = t.args[0]
		}
		if ok && t == m0 {
			continue
		}
		r, i := freshVar("fr_r", SInt), freshVar("fr_i", SInt)
		cond := []*Term{Lt(r, x.pre.alloc), Le(I(0), r)}
		for _, l := range locs {
			if !containsStr(l.keys, k) {
				continue
			}
			switch {
			case l.idx != nil:
				cond = append(cond, Not(And(Eq(r, l.ref), Eq(i, l.idx))))
			case l.lo != nil:
				cond = append(cond, Not(And(Eq(r, l.ref), Le(l.lo, i), Lt(i, l.hi))))
				if l.off != nil { // names the element the way facts about slices do
					e := Elt(Select(m1, l.ref), l.off, Sub(i, l.off))
					cond = append(cond, mkRaw("=", "", SBool, e, mkRaw("select", "", e.sort, Select(m1, l.ref), i)))
				}
			default:
				cond = append(cond, Ne(r, l.ref))
			}
		}
		a := Select(Select(m1, r), i)
		b := Select(Select(m0, r), i)
		g := Implies(And(cond...), veqRaw(a, b))
		x.check(st, "frame", "only what the contract allows is modified ("+strings.ReplaceAll(k, "|", "")+")", token.NoPos, nil, g)
	}
}

func veqRaw(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	return mkRaw("=", "", SBool, a, b)
}

func containsStr(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
