package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var (
	Big0      = big.NewInt(0)
	maxLen    = int64(1) << 40
	maxLenBig = big.NewInt(maxLen)
)

type Value interface{}

// Scalar is any value represented by one term (ints, bools, strings, ghost values).
type Scalar struct {
	T   *Term
	Typ types.Type
}
type SliceVal struct {
	Ref, Off, Len, Cap *Term
	Typ                types.Type // the (possibly named) slice type
	Cell               *Cell      // backing store is a local array cell (Off/Len/Cap literal)
}
type PtrVal struct {
	Root     string // memory family of the pointed-to allocation element
	Path     string // field path below the root
	Ref, Idx *Term
	Off      *Term // slice offset kept apart from Idx for quantifier triggers (nil = 0)
	Elem     types.Type
	Cell     *Cell
	CPath    []int
}
type StructVal struct {
	F   []Value
	Typ types.Type
}
type ArrVal struct {
	E   []Value
	Typ types.Type
}
type TupleVal []Value
type IfaceVal struct {
	Tag, Ref, Idx *Term
	Typ           types.Type
	Dyn           types.Type // statically known dynamic type, or nil
	DynV          Value
}
type MapVal struct {
	Ref *Term
	Typ types.Type
}
type FuncVal struct {
	Fn   *ssa.Function
	Bind []Value
	Ref  *Term
	Typ  types.Type
}
type IterVal struct {
	M    Value
	Cell *Cell // visited set (Array Int Bool) for maps; position for strings
	Str  bool
}

// Cell is a local variable kept at Go level until its address escapes.
type Cell struct {
	id   int
	typ  types.Type
	name string
	glob bool
}

// promoted marks a cell whose contents moved to memory.
type promoted struct{ p PtrVal }

const modPrefix = "github.com/amarin/gomorphy/"

func shortType(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return strings.TrimPrefix(p.Path(), modPrefix) })
	return s
}

type leaf struct {
	path string
	sort string
	kind string // int bool str sref soff slen scap pref pidx mref itag iref iidx fref opaque
	typ  types.Type
}

var leafCache = map[string][]leaf{}

func leavesOf(t types.Type) []leaf {
	k := shortType(t)
	if l, ok := leafCache[k]; ok {
		return l
	}
	var out []leaf
	switch u := und(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			out = []leaf{{"", SBool, "bool", t}}
		case u.Info()&types.IsString != 0:
			out = []leaf{{"", SSeq, "str", t}}
		case u.Info()&types.IsInteger != 0:
			out = []leaf{{"", SInt, "int", t}}
		case u.Kind() == types.UntypedNil:
			out = []leaf{{"", SInt, "opaque", t}}
		default:
			out = []leaf{{"", SInt, "opaque", t}}
		}
	case *types.Slice:
		out = []leaf{{"#ref", SInt, "sref", t}, {"#off", SInt, "soff", t}, {"#len", SInt, "slen", t}, {"#cap", SInt, "scap", t}}
	case *types.Pointer:
		out = []leaf{{"#ref", SInt, "pref", t}, {"#idx", SInt, "pidx", t}}
	case *types.Map:
		out = []leaf{{"#ref", SInt, "mref", t}}
	case *types.Chan:
		out = []leaf{{"#ref", SInt, "mref", t}}
	case *types.Signature:
		out = []leaf{{"#ref", SInt, "fref", t}}
	case *types.Interface:
		out = []leaf{{"#tag", SInt, "itag", t}, {"#ref", SInt, "iref", t}, {"#idx", SInt, "iidx", t}}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leavesOf(f.Type()) {
				l.path = "." + f.Name() + l.path
				out = append(out, l)
			}
		}
	case *types.Array:
		for i := int64(0); i < u.Len(); i++ {
			for _, l := range leavesOf(u.Elem()) {
				l.path = fmt.Sprintf("[%d]", i) + l.path
				out = append(out, l)
			}
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			for _, l := range leavesOf(u.At(i).Type()) {
				l.path = fmt.Sprintf("%d", i) + l.path
				out = append(out, l)
			}
		}
	default:
		panic(unsupported("leaves of %s", t))
	}
	leafCache[k] = out
	return out
}

// intRange returns the value range of an integer type.
func intRange(t types.Type) (lo, hi *big.Int) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, nil
	}
	bits, signed := intBits(b)
	if bits == 0 {
		return nil, nil
	}
	if signed {
		h := new(big.Int).Lsh(one, uint(bits-1))
		return new(big.Int).Neg(h), new(big.Int).Sub(h, one)
	}
	return Big0, new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)
}

func intBits(b *types.Basic) (int, bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Int64, types.Int, types.UntypedInt, types.UntypedRune:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false
	}
	return 0, false
}

func leafRange(l leaf) (lo, hi *big.Int) {
	switch l.kind {
	case "int":
		return intRange(l.typ)
	case "soff", "slen", "scap":
		return Big0, maxLenBig
	case "sref", "pref", "mref", "fref", "itag", "iref":
		return Big0, nil
	case "pidx":
		return Big0, maxLenBig
	}
	return nil, nil
}

type unsupportedErr struct{ msg string }

func (u unsupportedErr) Error() string { return "unsupported: " + u.msg }
func unsupported(f string, a ...interface{}) unsupportedErr {
	return unsupportedErr{fmt.Sprintf(f, a...)}
}

// unflatten rebuilds a value of type t from leaf terms.
func unflatten(t types.Type, ts []*Term) (Value, []*Term) {
	switch u := und(t).(type) {
	case *types.Basic:
		return Scalar{ts[0], t}, ts[1:]
	case *types.Slice:
		return SliceVal{Ref: ts[0], Off: ts[1], Len: ts[2], Cap: ts[3], Typ: t}, ts[4:]
	case *types.Pointer:
		return PtrVal{Root: shortType(u.Elem()), Ref: ts[0], Idx: ts[1], Elem: u.Elem()}, ts[2:]
	case *types.Map:
		return MapVal{ts[0], t}, ts[1:]
	case *types.Chan:
		return MapVal{ts[0], t}, ts[1:]
	case *types.Signature:
		return FuncVal{Ref: ts[0], Typ: t}, ts[1:]
	case *types.Interface:
		return IfaceVal{Tag: ts[0], Ref: ts[1], Idx: ts[2], Typ: t}, ts[3:]
	case *types.Struct:
		s := StructVal{Typ: t}
		for i := 0; i < u.NumFields(); i++ {
			var v Value
			v, ts = unflatten(u.Field(i).Type(), ts)
			s.F = append(s.F, v)
		}
		return s, ts
	case *types.Array:
		s := ArrVal{Typ: t}
		for i := int64(0); i < u.Len(); i++ {
			var v Value
			v, ts = unflatten(u.Elem(), ts)
			s.E = append(s.E, v)
		}
		return s, ts
	case *types.Tuple:
		var s TupleVal
		for i := 0; i < u.Len(); i++ {
			var v Value
			v, ts = unflatten(u.At(i).Type(), ts)
			s = append(s, v)
		}
		return s, ts
	}
	panic(unsupported("unflatten %s", t))
}

func zeroLeaf(l leaf) *Term {
	switch l.sort {
	case SInt:
		return I(0)
	case SBool:
		return tFalse
	case SSeq:
		return strLit("")
	}
	panic("zeroLeaf " + l.sort)
}

func zeroValue(t types.Type) Value {
	ls := leavesOf(t)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = zeroLeaf(l)
	}
	v, _ := unflatten(t, ts)
	return v
}

// ---- string literals ----

var strLits = map[string]*Term{}

// strLit is the sequence term of a constant string.
func strLit(s string) *Term {
	if t, ok := strLits[s]; ok {
		return t
	}
	name := fmt.Sprintf("str!%d!%s", len(strLits), sanitize(s))
	t := App(name, SSeq)
	strLits[s] = t
	TH.seqSort(SInt)
	fs := []*Term{Eq(mkRaw("app", "sl_"+SSeq, SInt, t), I(int64(len(s))))}
	if len(s) <= 64 {
		for i := 0; i < len(s); i++ {
			fs = append(fs, Eq(sa(SInt, t, I(int64(i))), I(int64(s[i]))))
		}
	}
	TH.addAxiom(&axiom{name: name, needs: [][]string{{name}}, t: And(fs...), from: "definition"})
	return t
}

func sanitize(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
			b.WriteRune(c)
		} else {
			b.WriteByte('_')
		}
		if b.Len() > 20 {
			break
		}
	}
	return b.String()
}

func litOf(t *Term) (string, bool) {
	for s, x := range strLits {
		if x == t {
			return s, true
		}
	}
	return "", false
}

var TH = newTheory()

// und is the underlying type; a strings.Builder counts as the text built so far.
func und(t types.Type) types.Type {
	if n, ok := t.(*types.Named); ok && n.Obj().Name() == "Builder" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "strings" {
		return types.Typ[types.String]
	}
	return t.Underlying()
}
