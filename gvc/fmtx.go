package main

import (
	"go/types"
	"path"
	"strings"
)

// ---------- formatted text, error texts and file paths ----------

// errText is the text of an error value: the result of its Error method.
func (x *Exec) errText(st *State, v Value) *Term {
	i := v.(IfaceVal)
	if i.Dyn != nil {
		i = x.boxIface(st, i)
	}
	return App("errtext", SSeq, i.Tag, i.Ref, i.Idx)
}

// sprintf is the text fmt.Sprintf makes of a format and a list of arguments: a function of the format and the arguments.
// A format known here whose verbs are %s and %v on strings and errors is spelled out.
func (x *Exec) sprintf(st *State, format *Term, args SliceVal) *Term {
	if s, ok := litOf(format); ok {
		if t, ok := x.sprintfLit(st, s, args); ok {
			return t
		}
	}
	a := x.realSlice(st, args)
	as := []*Term{format}
	for _, l := range leavesOf(a.Typ.Underlying().(*types.Slice).Elem()) {
		as = append(as, Select(st.memGet(famKey("interface{}", "", l)), a.Ref))
	}
	return App("sprintf", SSeq, append(as, a.Off, a.Len)...)
}

func (x *Exec) sprintfLit(st *State, f string, args SliceVal) (*Term, bool) {
	n, ok := litInt(args.Len)
	if !ok {
		return nil, false
	}
	out := strLit("")
	k := int64(0)
	for f != "" {
		i := strings.IndexByte(f, '%')
		if i < 0 {
			out = Cat(out, strLit(f))
			break
		}
		if i+1 >= len(f) {
			return nil, false
		}
		out = Cat(out, strLit(f[:i]))
		c := f[i+1]
		f = f[i+2:]
		if c == '%' {
			out = Cat(out, strLit("%"))
			continue
		}
		if c != 's' && c != 'v' || k >= n {
			return nil, false
		}
		t, ok := x.argText(st, x.sliceElem(st, args, I(k)))
		if !ok {
			return nil, false
		}
		out = Cat(out, t)
		k++
	}
	return out, k == n
}

// argText is how %v and %s show a plain string or a non-nil error.
func (x *Exec) argText(st *State, v Value) (*Term, bool) {
	i, ok := v.(IfaceVal)
	if !ok {
		return nil, false
	}
	if i.Dyn != nil {
		if b, ok := i.Dyn.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return i.DynV.(Scalar).T, true
		}
		return nil, false
	}
	if shortType(i.Typ) == "error" && st.implied(Ne(i.Tag, I(0))) {
		x.trusted["external fmt: shows an error by its Error text"] = true
		return x.errText(st, i), true
	}
	return nil, false
}

func fmtSprintf(x *Exec, st *State, c *callCtx) {
	x.trusted["external fmt.Sprintf: a function of the format and the arguments"] = true
	c.ret(st, Scalar{x.sprintf(st, c.args[0].(Scalar).T, c.args[1].(SliceVal)), types.Typ[types.String]})
}

func fmtSprint(x *Exec, st *State, c *callCtx) {
	if s := c.args[0].(SliceVal); isLit(s.Len) {
		if n, _ := litInt(s.Len); n == 1 {
			if t, ok := x.argText(st, x.sliceElem(st, s, I(0))); ok {
				c.ret(st, Scalar{t, types.Typ[types.String]})
				return
			}
		}
	}
	havocResult(x, st, c)
}

func errorText(x *Exec, st *State, c *callCtx) {
	x.trusted["external Error methods: the text of an error does not change"] = true
	c.ret(st, Scalar{x.errText(st, c.args[0]), types.Typ[types.String]})
}

// joinPath is path.Join of two elements; path.Join of more is the join of the first ones with the next.
func joinPath(a, b *Term) *Term {
	if s, ok := litOf(a); ok {
		if s == "" {
			if t, ok := litOf(b); ok {
				if t == "" {
					return b
				}
				return strLit(path.Clean(t))
			}
			if b.op == "app" && b.name == "joinpath" {
				return b
			}
		} else if t, ok := litOf(b); ok {
			return strLit(path.Join(s, t))
		}
	}
	return App("joinpath", SSeq, a, b)
}

func pathJoin(x *Exec, st *State, c *callCtx) {
	s := c.args[0].(SliceVal)
	n, ok := litInt(s.Len)
	if !ok {
		havocResult(x, st, c)
		return
	}
	x.trusted["external path.Join: joining in steps gives the same path"] = true
	t := strLit("")
	for k := int64(0); k < n; k++ {
		if k == 0 && n > 1 {
			t = x.sliceElem(st, s, I(k)).(Scalar).T
			continue
		}
		t = joinPath(t, x.sliceElem(st, s, I(k)).(Scalar).T)
	}
	c.ret(st, Scalar{t, types.Typ[types.String]})
}

func pathClean(x *Exec, st *State, c *callCtx) {
	t := c.args[0].(Scalar).T
	if t.op == "app" && t.name == "joinpath" {
		c.ret(st, c.args[0])
		return
	}
	c.ret(st, Scalar{joinPath(strLit(""), t), types.Typ[types.String]})
}

// absPath: filepath.Abs.
func absPath(x *Exec, st *State, c *callCtx) {
	x.trusted["external filepath.Abs: fails or names the same file by an absolute path"] = true
	err := freshValue(st, "err", errT()).(IfaceVal)
	c.ret(st, Scalar{App("abspath", SSeq, c.args[0].(Scalar).T), types.Typ[types.String]}, err)
}

func mkdirAll(x *Exec, st *State, c *callCtx) {
	x.trusted["external os.MkdirAll: fails or leaves the directory in place"] = true
	err := freshValue(st, "err", errT()).(IfaceVal)
	st.assume(Implies(Eq(err.Tag, I(0)), App("isdir", SBool, c.args[0].(Scalar).T)))
	c.ret(st, err)
}

// atoi models strconv.Atoi: whether a text is an integer and which one is a function of the text.
func atoi(x *Exec, st *State, c *callCtx) {
	x.trusted["external strconv.Atoi: succeeds exactly on the texts of integers in range; the integer is a function of the text"] = true
	t := c.args[0].(Scalar).T
	err := freshValue(st, "err", errT()).(IfaceVal)
	n := freshValue(st, "n", types.Typ[types.Int]).(Scalar)
	is := App("isint", SBool, t)
	st.assume(Implies(is, And(Eq(err.Tag, I(0)), Eq(n.T, App("atoi", SInt, t)))))
	st.assume(Implies(Eq(err.Tag, I(0)), is))
	c.ret(st, n, err)
}

// builderAdd models strings.Builder: text is appended to what was built before.
func builderAdd(text func(x *Exec, st *State, v Value) *Term) func(x *Exec, st *State, c *callCtx) {
	return func(x *Exec, st *State, c *callCtx) {
		p := c.args[0].(PtrVal)
		x.nilCheck(st, p, c.pos)
		t := text(x, st, c.args[1])
		x.store(st, p, Scalar{Cat(x.load(st, p).(Scalar).T, t), p.Elem})
		switch c.sig.Results().Len() {
		case 1:
			c.ret(st, nilIface(errT()))
		default:
			c.ret(st, Scalar{sl(t), types.Typ[types.Int]}, nilIface(errT()))
		}
	}
}

func stringsJoin(x *Exec, st *State, c *callCtx) {
	s := c.args[0].(SliceVal)
	n, ok := litInt(s.Len)
	if !ok || n > 16 {
		havocResult(x, st, c)
		return
	}
	t := strLit("")
	for k := int64(0); k < n; k++ {
		if k > 0 {
			t = Cat(t, c.args[1].(Scalar).T)
		}
		t = Cat(t, x.sliceElem(st, s, I(k)).(Scalar).T)
	}
	c.ret(st, Scalar{t, types.Typ[types.String]})
}

func initFmt() {
	sb := "(*strings.Builder)."
	externs["strings.Join"] = stringsJoin
	externs[sb+"WriteString"] = builderAdd(func(x *Exec, st *State, v Value) *Term { return v.(Scalar).T })
	externs[sb+"WriteByte"] = builderAdd(func(x *Exec, st *State, v Value) *Term { return App("byte1", SSeq, v.(Scalar).T) })
	externs[sb+"WriteRune"] = builderAdd(func(x *Exec, st *State, v Value) *Term { return Chr(v.(Scalar).T) })
	externs[sb+"Write"] = builderAdd(func(x *Exec, st *State, v Value) *Term { return x.seqOf(st, v.(SliceVal)) })
	externs[sb+"Grow"] = noop
	externs[sb+"String"] = func(x *Exec, st *State, c *callCtx) {
		c.ret(st, Scalar{x.load(st, c.args[0].(PtrVal)).(Scalar).T, types.Typ[types.String]})
	}
	externs[sb+"Len"] = func(x *Exec, st *State, c *callCtx) {
		c.ret(st, Scalar{sl(x.load(st, c.args[0].(PtrVal)).(Scalar).T), types.Typ[types.Int]})
	}
	externs[sb+"Reset"] = func(x *Exec, st *State, c *callCtx) {
		p := c.args[0].(PtrVal)
		x.store(st, p, Scalar{strLit(""), p.Elem})
		c.ret(st)
	}
	for n, h := range map[string]func(x *Exec, st *State, c *callCtx){
		"fmt.Sprintf": fmtSprintf, "fmt.Sprint": fmtSprint, "(error).Error": errorText,
		"path.Join": pathJoin, "path/filepath.Join": pathJoin, "path.Clean": pathClean, "path/filepath.Clean": pathClean,
		"path/filepath.Abs": absPath, "strconv.Atoi": atoi, "os.MkdirAll": mkdirAll,
	} {
		externs[n] = h
	}
}
