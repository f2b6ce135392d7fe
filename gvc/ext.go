package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- streams ----------
//
// A stream is identified by the key of its ultimate source. For readers, $in holds the bytes still to be read; for
// writers, $out holds the bytes that will be written from now on (a prophecy), so writing b makes old(out) = cons(b, out).
// full(r): every successful read delivers all requested bytes (true for common.FullReader, unknown for other readers).
// ideal(r): the reader fails only when the data ends; the writer never fails.

var streamLeaf = leaf{"", SBytes, "bytes", nil}

func streamFam(kind string) string { return famKey("$stream", kind, streamLeaf) }

const (
	binReader  = "github.com/amarin/binutils.BinaryReader"
	binWriter  = "github.com/amarin/binutils.BinaryWriter"
	fullReader = "pkg/common.FullReader"
)

func ukey(r, i *Term) *Term { return bound(App("strm_key", SInt, r, i), Big0, nil) }

// streamKeyFull resolves a reader or writer value to its key and its fullness.
func (x *Exec) streamKeyFull(st *State, v Value) (*Term, *Term) {
	switch y := v.(type) {
	case IfaceVal:
		if y.Dyn != nil && y.DynV != nil {
			return x.streamKeyFull(st, y.DynV)
		}
		return ukey(y.Ref, y.Idx), App("strm_full", SBool, y.Ref, y.Idx)
	case PtrVal:
		if y.Cell != nil {
			if q := x.resolveCell(st, y); q.Cell == nil {
				y = q
			} else {
				if sv, ok := x.load(st, y).(StructVal); ok {
					if shortType(sv.Typ) == fullReader {
						return x.streamKeyFull(st, sv)
					}
				}
				y = x.promote(st, y.Cell)
			}
		}
		if shortType(y.Elem) == fullReader {
			return x.streamKeyFull(st, x.load(st, y))
		}
		return ukey(y.Ref, y.addr()), App("strm_full", SBool, y.Ref, y.addr())
	case StructVal:
		if shortType(y.Typ) == fullReader {
			k, _ := x.streamKeyFull(st, y.F[0])
			return k, tTrue
		}
		if strings.HasSuffix(shortType(y.Typ), "LimitedReader") {
			break
		}
	}
	panic(unsupported("stream %T", v))
}

func (x *Exec) streamKey(st *State, v Value) *Term {
	k, _ := x.streamKeyFull(st, v)
	return k
}

func (x *Exec) streamFull(st *State, v Value) *Term {
	_, f := x.streamKeyFull(st, v)
	return f
}
func (x *Exec) streamIdeal(st *State, v Value) *Term {
	return App("strm_ideal", SBool, x.streamKey(st, v))
}

func (x *Exec) streamGet(st *State, v Value, kind string) *Term {
	return Select(Select(st.memGet(streamFam(kind)), x.streamKey(st, v)), I(0))
}

func (x *Exec) streamSet(st *State, key *Term, kind string, b *Term) {
	k := streamFam(kind)
	m := st.memGet(k)
	st.mem[k] = Store(m, key, Store(Select(m, key), I(0), b))
}

func (x *Exec) bytesWritten(st *State, v Value) *Term { panic(unsupported("written()")) }
func (x *Exec) writtenLoc(st *State, p PtrVal) modLoc { panic(unsupported("written()")) }

// ---------- mutexes ----------

func mutexFam(p PtrVal) string {
	return famKey("$mutex:"+p.Root, p.Path, leaf{"#held", SBool, "bool", types.Typ[types.Bool]})
}

func (x *Exec) mutexPtr(st *State, p PtrVal) PtrVal {
	p = x.resolveCell(st, p)
	if p.Cell != nil {
		x.promote(st, p.Cell)
		p = x.resolveCell(st, p)
	}
	return p
}

func (x *Exec) mutexHeld(st *State, p PtrVal) *Term {
	p = x.mutexPtr(st, p)
	return Select(Select(st.memGet(mutexFam(p)), p.Ref), p.addr())
}

func (x *Exec) mutexSet(st *State, p PtrVal, v *Term) {
	p = x.mutexPtr(st, p)
	k := mutexFam(p)
	m := st.memGet(k)
	st.mem[k] = Store(m, p.Ref, Store(Select(m, p.Ref), p.addr(), v))
}

// ---------- helpers ----------

func (c *callCtx) results(x *Exec, st *State) []Value {
	rs := c.sig.Results()
	var out []Value
	for i := 0; i < rs.Len(); i++ {
		out = append(out, freshValue(st, "ext", rs.At(i).Type()))
	}
	return out
}

func (c *callCtx) ret(st *State, vs ...Value) {
	switch len(vs) {
	case 0:
		c.k(st, TupleVal{})
	case 1:
		c.k(st, vs[0])
	default:
		c.k(st, TupleVal(vs))
	}
}

func nilIface(t types.Type) Value { return zeroValue(t) }

func errT() types.Type { return types.Universe.Lookup("error").Type() }

// havocResult returns arbitrary results without touching memory.
func havocResult(x *Exec, st *State, c *callCtx) {
	x.trusted["external "+c.name+": arbitrary result, no effect on the program's memory"] = true
	na := freshVar("alloc", SInt)
	st.assume(Le(st.alloc, na))
	st.alloc = na
	c.ret(st, c.results(x, st)...)
}

// logCall models the logging package: no effect on the program's memory, loggers are never nil.
func logCall(x *Exec, st *State, c *callCtx) {
	x.trusted["logging: log calls return, do not change the program's memory and hand out loggers that are not nil"] = true
	na := freshVar("alloc", SInt)
	st.assume(Le(st.alloc, na))
	st.alloc = na
	vs := c.results(x, st)
	for _, v := range vs {
		if iv, ok := v.(IfaceVal); ok {
			st.assume(Ne(iv.Tag, I(0)))
		}
	}
	c.ret(st, vs...)
}

func nonNilError(x *Exec, st *State, c *callCtx) {
	c.ret(st, freshErr(st, "err", c.sig.Results().At(0).Type()))
}

// readBytes models the delivery of n bytes by one read.
func (x *Exec) readBytes(st *State, rd Value, n int, bytesIn []*Term, k func(st *State, err Value)) {
	key, full := x.streamKeyFull(st, rd)
	old := x.streamGet(st, rd, "in")
	ideal := App("strm_ideal", SBool, key)
	nw := freshVar("in", SBytes)
	err := freshValue(st, "rerr", errT()).(IfaceVal)
	ok := Eq(err.Tag, I(0))
	chain := nw
	for i := n - 1; i >= 0; i-- {
		chain = bcons(bytesIn[i], chain)
	}
	st.assume(Implies(And(ok, full), veqRaw(old, chain)))
	// enough bytes available and a reader that fails only at the end
	enough := tTrue
	cur := old
	for i := 0; i < n; i++ {
		enough = And(enough, Ne(cur, App("bnil", SBytes)))
		cur = App("btl", SBytes, cur)
	}
	st.assume(Implies(And(ideal, full, enough), ok))
	x.streamSet(st, key, "in", nw)
	x.branch(st, ok, func(s *State) { k(s, zeroValue(errT())) }, func(s *State) { k(s, err) })
}

func freshByte(st *State) *Term { return bound(freshVar("byte", SInt), Big0, Big(pow2(8).val).val) }

func byteVar() *Term {
	t := freshVar("byte", SInt)
	return bound(t, Big0, I(255).val)
}

func readUint(n int, rt types.BasicKind) func(x *Exec, st *State, c *callCtx) {
	return func(x *Exec, st *State, c *callCtx) {
		p := c.args[0].(PtrVal)
		x.nilCheck(st, p, c.pos)
		var bs []*Term
		v := I(0)
		for i := 0; i < n; i++ {
			b := byteVar()
			bs = append(bs, b)
			v = Add(Mul(I(256), v), b)
		}
		x.readBytes(st, p, n, bs, func(s *State, err Value) {
			c.ret(s, Scalar{v, types.Typ[rt]}, err)
		})
	}
}

// writeBytes models writing the given bytes.
func (x *Exec) writeBytes(st *State, w Value, bs []*Term, k func(st *State, err Value)) {
	key := x.streamKey(st, w)
	old := x.streamGet(st, w, "out")
	nw := freshVar("out", SBytes)
	err := freshValue(st, "werr", errT()).(IfaceVal)
	ok := Eq(err.Tag, I(0))
	chain := nw
	for i := len(bs) - 1; i >= 0; i-- {
		chain = bcons(bs[i], chain)
	}
	st.assume(Implies(ok, veqRaw(old, chain)))
	st.assume(Implies(App("strm_ideal", SBool, key), ok))
	x.streamSet(st, key, "out", nw)
	x.branch(st, ok, func(s *State) { k(s, zeroValue(errT())) }, func(s *State) { k(s, err) })
}

func beBytes(v *Term, n int) []*Term {
	out := make([]*Term, n)
	for i := n - 1; i >= 0; i-- {
		out[i] = Mod(v, I(256))
		v = Div(v, I(256))
	}
	return out
}

func writeUint(n int) func(x *Exec, st *State, c *callCtx) {
	return func(x *Exec, st *State, c *callCtx) {
		p := c.args[0].(PtrVal)
		x.nilCheck(st, p, c.pos)
		x.writeBytes(st, p, beBytes(c.args[1].(Scalar).T, n), func(s *State, err Value) { c.ret(s, err) })
	}
}

// strb(s, n, t): the first n bytes of s followed by t. strp(s, i, t): s from i on, then t.
func strzTerm(s, t *Term) *Term {
	if lit, ok := litOf(s); ok && !zlits[lit] && !strings.ContainsRune(lit, 0) {
		zlits[lit] = true
		TH.addAxiom(&axiom{name: "zfree " + strconv.Quote(lit), needs: [][]string{{"strz"}}, from: "trusted", t: App("zfree", SBool, s)})
	}
	return App("strz", SBytes, s, t)
}

var (
	zlits    = map[string]bool{} // literals known to be free of zeros
	strzInit bool
)

func initStrz() {
	if strzInit {
		return
	}
	strzInit = true
	TH.seqSort(SInt)
	s, t := bv("s", SSeq), bv("t", SBytes)
	z := App("strz", SBytes, s, t)
	// zero-terminated strings parse uniquely
	TH.addAxiom(&axiom{name: "strz_parts", needs: [][]string{{"strz"}}, from: "trusted", t: Forall([]*Term{s, t}, [][]*Term{{z}}, Implies(App("zfree", SBool, s),
		And(mkRaw("=", "", SBool, App("strz_head", SSeq, z), s), mkRaw("=", "", SBool, App("strz_tail", SBytes, z), t))))})
	TH.addAxiom(&axiom{name: "strz_ok", needs: [][]string{{"strz"}}, from: "trusted", t: Forall([]*Term{s, t}, [][]*Term{{z}}, Implies(App("zfree", SBool, s), App("strz_ok", SBool, z)))})
	TH.addAxiom(&axiom{name: "strz_cons", needs: [][]string{{"strz"}}, from: "trusted", t: Forall([]*Term{s, t}, [][]*Term{{z}}, mkRaw("not", "", SBool, mkRaw("=", "", SBool, z, App("bnil", SBytes))))})
}

func zfree(s *Term) *Term {
	initStrz()
	if lit, ok := litOf(s); ok {
		return B(!strings.ContainsRune(lit, 0))
	}
	return App("zfree", SBool, s)
}

func noop(x *Exec, st *State, c *callCtx) { c.ret(st) }

var externs map[string]func(x *Exec, st *State, c *callCtx)

func init() {
	bw, br := "(*github.com/amarin/binutils.BinaryWriter).", "(*github.com/amarin/binutils.BinaryReader)."
	newStream := func(tn string) func(x *Exec, st *State, c *callCtx) {
		return func(x *Exec, st *State, c *callCtx) {
			k, f := x.streamKeyFull(st, c.args[0])
			ref := st.newRef()
			t := c.sig.Results().At(0).Type().(*types.Pointer).Elem()
			p := PtrVal{Root: shortType(t), Ref: ref, Idx: I(0), Elem: t}
			st.assume(Eq(ukey(ref, I(0)), k))
			if tn == "r" {
				fl := App("strm_full", SBool, ref, I(0))
				if f == tTrue {
					st.assume(fl)
				} else {
					st.assume(And(Implies(fl, f), Implies(f, fl)))
				}
			}
			c.ret(st, p)
		}
	}
	externs = map[string]func(x *Exec, st *State, c *callCtx){
		"github.com/amarin/binutils.NewBinaryReader": newStream("r"),
		"github.com/amarin/binutils.NewBinaryWriter": newStream("w"),
		br + "ReadUint8":   readUint(1, types.Uint8),
		br + "ReadUint16":  readUint(2, types.Uint16),
		br + "ReadUint32":  readUint(4, types.Uint32),
		bw + "WriteUint8":  writeUint(1),
		bw + "WriteUint16": writeUint(2),
		bw + "WriteUint32": writeUint(4),
		bw + "WriteRune":   writeUint(4), // the rune as 32 bits
		br + "ReadBytesCount": func(x *Exec, st *State, c *callCtx) {
			n, ok := litInt(c.args[1].(Scalar).T)
			if !ok || n < 0 || n > 16 {
				panic(unsupported("ReadBytesCount with a non-constant count"))
			}
			var bs []*Term
			for i := int64(0); i < n; i++ {
				bs = append(bs, byteVar())
			}
			x.readBytes(st, c.args[0], int(n), bs, func(s *State, err Value) {
				t := c.sig.Results().At(0).Type()
				sv := x.makeSlice(s, t, I(n), I(n))
				sv = x.realSlice(s, sv)
				et := t.Underlying().(*types.Slice).Elem()
				for i, b := range bs {
					x.store(s, PtrVal{Root: shortType(et), Ref: sv.Ref, Off: sv.Off, Idx: I(int64(i)), Elem: et}, Scalar{b, et})
				}
				if iv, ok := err.(IfaceVal); ok && !isZeroT(iv.Tag) {
					c.ret(s, zeroOrFresh(s, t), err)
					return
				}
				c.ret(s, sv, err)
			})
		},
		br + "ReadStringZ": func(x *Exec, st *State, c *callCtx) {
			initStrz()
			key, full := x.streamKeyFull(st, c.args[0])
			old := x.streamGet(st, c.args[0], "in")
			nw := freshVar("in", SBytes)
			s := freshVar("strz", SSeq)
			err := freshValue(st, "rerr", errT()).(IfaceVal)
			ok := Eq(err.Tag, I(0))
			st.assume(Implies(And(ok, full), And(veqRaw(old, strzTerm(s, nw)), zfree(s))))
			st.assume(Implies(And(App("strm_ideal", SBool, key), full, App("strz_ok", SBool, old)), ok))
			x.streamSet(st, key, "in", nw)
			x.branch(st, ok, func(q *State) { c.ret(q, Scalar{s, types.Typ[types.String]}, zeroValue(errT())) },
				func(q *State) { c.ret(q, Scalar{strLit(""), types.Typ[types.String]}, err) })
		},
		bw + "WriteStringZ": func(x *Exec, st *State, c *callCtx) {
			initStrz()
			key := x.streamKey(st, c.args[0])
			old := x.streamGet(st, c.args[0], "out")
			nw := freshVar("out", SBytes)
			err := freshValue(st, "werr", errT()).(IfaceVal)
			ok := Eq(err.Tag, I(0))
			st.assume(Implies(ok, veqRaw(old, strzTerm(c.args[1].(Scalar).T, nw))))
			if lit, isl := litOf(c.args[1].(Scalar).T); isl && !strings.ContainsRune(lit, 0) {
				st.assume(App("zfree", SBool, c.args[1].(Scalar).T))
			}
			st.assume(Implies(App("strm_ideal", SBool, key), ok))
			x.streamSet(st, key, "out", nw)
			x.branch(st, ok, func(q *State) { c.ret(q, zeroValue(errT())) }, func(q *State) { c.ret(q, err) })
		},
		bw + "WriteBytes": func(x *Exec, st *State, c *callCtx) {
			s := c.args[1].(SliceVal)
			key := x.streamKey(st, c.args[0])
			if n, ok := litInt(s.Len); ok && n <= 16 {
				var bs []*Term
				for i := int64(0); i < n; i++ {
					bs = append(bs, x.sliceElem(st, s, I(i)).(Scalar).T)
				}
				x.writeBytes(st, c.args[0], bs, func(q *State, err Value) { c.ret(q, err) })
				return
			}
			old := x.streamGet(st, c.args[0], "out")
			nw := freshVar("out", SBytes)
			err := freshValue(st, "werr", errT()).(IfaceVal)
			ok := Eq(err.Tag, I(0))
			sq := x.seqOf(st, s)
			// up to 8 bytes spelled out
			for n := int64(0); n <= 8; n++ {
				ch := nw
				for i := n - 1; i >= 0; i-- {
					ch = bcons(sa(SInt, sq, I(i)), ch)
				}
				st.assume(Implies(And(ok, Eq(s.Len, I(n))), veqRaw(old, ch)))
			}
			enc := x.eng.recFun(x.eng.specs.recs["enc8"])
			st.assume(Implies(ok, veqRaw(old, App(enc.name, SBytes, sq, s.Len, nw))))
			st.assume(Implies(App("strm_ideal", SBool, key), ok))
			x.streamSet(st, key, "out", nw)
			x.branch(st, ok, func(q *State) { c.ret(q, zeroValue(errT())) }, func(q *State) { c.ret(q, err) })
		},
		bw + "WriteObject": func(x *Exec, st *State, c *callCtx) {
			v, ok := c.args[1].(IfaceVal)
			if !ok || v.Dyn == nil {
				panic(unsupported("WriteObject of an unknown type"))
			}
			ms := x.eng.prog.MethodSets.MethodSet(v.Dyn)
			for i := 0; i < ms.Len(); i++ {
				switch ms.At(i).Obj().Name() {
				case "WriteTo", "MarshalBinary":
					panic(unsupported("WriteObject of a %s", v.Dyn))
				}
			}
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Name() == "BinaryWriteTo" {
					m := x.eng.prog.MethodValue(ms.At(i))
					x.callFn(st, c.fr, m, nil, []Value{v.DynV, c.args[0]}, c.pos, c.k)
					return
				}
			}
			panic(unsupported("WriteObject of a %s", v.Dyn))
		},

		"io.ReadAtLeast": func(x *Exec, st *State, c *callCtx) {
			if s, ok := c.args[1].(SliceVal); !ok || x.realSlice(st, s).Len != c.args[2].(Scalar).T {
				panic(unsupported("io.ReadAtLeast for less than the whole buffer"))
			}
			externs["io.ReadFull"](x, st, c)
		},
		"io.ReadFull": func(x *Exec, st *State, c *callCtx) {
			// n == len(p) iff err == nil; the bytes are the next bytes of the stream
			s := c.args[1].(SliceVal)
			s = x.realSlice(st, s)
			key := x.streamKey(st, c.args[0])
			before, nw := x.streamGet(st, c.args[0], "in"), freshVar("in", SBytes)
			x.streamSet(st, key, "in", nw)
			et := s.Typ.Underlying().(*types.Slice).Elem()
			k := famKey(shortType(et), "", leavesOf(et)[0])
			m := st.memGet(k)
			row := rowSym(k, st.alloc)
			i := BV("k", SInt)
			sel := mkRaw("select", "", SInt, row, i)
			st.assume(Forall([]*Term{i}, [][]*Term{{sel}}, Or(And(Le(s.Off, i), Lt(i, Add(s.Off, s.Len))), mkRaw("=", "", SBool, sel, mkRaw("select", "", SInt, Select(m, s.Ref), i)))))
			st.mem[k] = Store(m, s.Ref, row)
			n := bound(freshVar("n", SInt), Big0, nil)
			err := freshValue(st, "rerr", errT()).(IfaceVal)
			st.assume(Le(n, s.Len))
			st.assume(And(Implies(Eq(err.Tag, I(0)), Eq(n, s.Len)), Implies(Eq(n, s.Len), Eq(err.Tag, I(0)))))
			x.trusted["io.ReadFull fills the whole buffer with the next bytes of the stream or returns an error"] = true
			enc := x.eng.recFun(x.eng.specs.recs["enc8"])
			st.assume(Implies(Eq(err.Tag, I(0)), veqRaw(before, App(enc.name, SBytes, x.seqOf(st, s), s.Len, nw))))
			c.ret(st, Scalar{n, types.Typ[types.Int]}, err)
		},
		"fmt.Errorf":              nonNilError,
		"errors.New":              nonNilError,
		"(*sync.Mutex).Lock":      lock,
		"(*sync.Mutex).Unlock":    unlock,
		"(*sync.RWMutex).Lock":    lock,
		"(*sync.RWMutex).Unlock":  unlock,
		"(*sync.RWMutex).RLock":   lock,
		"(*sync.RWMutex).RUnlock": unlock,
		"sort.Sort":               sortSort,
		"sort.Stable":             sortSort,
		"sort.Slice":              sortSlice,
		"sort.SliceStable":        sortSlice,
		"slices.Sort":             slicesSort,
		"slices.Equal":            slicesEqual,
		"bytes.Equal":             slicesEqual,
		"sort.IsSorted":           sortIsSorted,
		"slices.IsSorted":         slicesIsSorted,
		"sort.SliceIsSorted":      sortSliceIsSorted,
		"errors.Is":               havocResult,
		"errors.As":               nil,
		"(error).Error":           havocResult,
		"(fmt.Stringer).String":   havocResult,
		"fmt.Sprintf":             havocResult,
		"fmt.Sprint":              havocResult,
		"fmt.Sprintln":            havocResult,
		"strconv.Itoa":            pureStr,
		"strconv.FormatUint":      pureStr,
		"strconv.FormatInt":       pureStr,
		"unicode/utf8.RuneCountInString": func(x *Exec, st *State, c *callCtx) {
			c.ret(st, Scalar{sl(Runes(c.args[0].(Scalar).T)), types.Typ[types.Int]})
		},
	}
	delete(externs, "errors.As")
	initFmt()
}

func zeroOrFresh(st *State, t types.Type) Value { return zeroValue(t) }

func pureStr(x *Exec, st *State, c *callCtx) {
	var as []*Term
	for _, a := range c.args {
		as = append(as, a.(Scalar).T)
	}
	x.trusted["external "+c.name+": a function of its arguments"] = true
	c.ret(st, Scalar{App("ext_"+sanitize(c.name), SSeq, as...), types.Typ[types.String]})
}

// externPrefix returns the model of library functions that only compute a result.
func externPrefix(name string) func(x *Exec, st *State, c *callCtx) {
	n := strings.TrimLeft(name, "(*")
	if strings.HasPrefix(n, "github.com/amarin/logging.") {
		return logCall
	}
	for _, p := range []string{"strings.", "strconv.", "time.", "os.", "path.", "path/filepath.", "github.com/amarin/logging", "net/http.", "log.", "fmt.Sprint", "fmt.Print", "fmt.Fprint", "errors.", "unicode", "io.", "bufio.", "bytes.", "math.", "io/fs.", "github.com/amarin/binutils.OpenFile", "github.com/amarin/binutils.CreateFile"} {
		if strings.HasPrefix(n, p) {
			return havocResult
		}
	}
	if strings.HasPrefix(n, "github.com/amarin/binutils.Binary") && (strings.HasSuffix(n, ").Close") || strings.HasSuffix(n, ").BytesTaken") || strings.HasSuffix(n, ").BytesWritten")) {
		return havocResult
	}
	return nil
}

func lock(x *Exec, st *State, c *callCtx) {
	p := c.args[0].(PtrVal)
	x.nilCheck(st, p, c.pos)
	x.check(st, "lock", "lock is not already held by this call chain", c.pos, []string{"X13"}, Not(x.mutexHeld(st, p)))
	x.mutexSet(st, p, tTrue)
	c.ret(st)
}

func unlock(x *Exec, st *State, c *callCtx) {
	p := c.args[0].(PtrVal)
	x.nilCheck(st, p, c.pos)
	x.check(st, "lock", "unlocked lock is held", c.pos, []string{"X13"}, x.mutexHeld(st, p))
	x.mutexSet(st, p, tFalse)
	c.ret(st)
}

// sliceElem reads element i of a slice value.
func (x *Exec) sliceElem(st *State, s SliceVal, i *Term) Value {
	et := s.Typ.Underlying().(*types.Slice).Elem()
	if s.Cell != nil {
		if _, prom := st.cells[s.Cell].(promoted); !prom {
			if n, ok := litInt(i); ok {
				o, _ := litInt(s.Off)
				return st.cells[s.Cell].(ArrVal).E[o+n]
			}
		}
		s = x.realSlice(st, s)
	}
	return x.loadElt(st, shortType(et), "", s.Ref, s.Off, i, et, true)
}

func (x *Exec) sortedResult(st *State, s SliceVal) {
	initSort()
	et := s.Typ.Underlying().(*types.Slice).Elem()
	before := x.seqOf(st, s)
	k := famKey(shortType(et), "", leavesOf(et)[0])
	m := st.memGet(k)
	row := rowSym(k, st.alloc)
	i := BV("k", SInt)
	sel := mkRaw("select", "", SInt, row, i)
	orow := Select(m, s.Ref)
	st.assume(Forall([]*Term{i}, [][]*Term{{sel}}, Or(And(Le(s.Off, i), Lt(i, Add(s.Off, s.Len))), mkRaw("=", "", SBool, sel, mkRaw("select", "", SInt, orow, i)))))
	st.mem[k] = Store(m, s.Ref, row)
	st.assume(veqRaw(x.seqOf(st, s), App("sortv", SSeq, before)))
	st.assume(Implies(App("sorted", SBool, before), veqRaw(row, orow))) // sorting a sorted slice of integers changes nothing
	x.trusted["sort: package sort orders a slice by its Less method when Less is < on the elements and Swap exchanges"] = true
}

func intSlice(v Value) (SliceVal, bool) {
	s, ok := v.(SliceVal)
	if !ok {
		return s, false
	}
	et := s.Typ.Underlying().(*types.Slice).Elem()
	b, ok := et.Underlying().(*types.Basic)
	return s, ok && b.Info()&types.IsInteger != 0
}

// sub runs a nested symbolic call whose continuation is only used to inspect the outcome.
func (x *Exec) sub(st *State, f func(st *State)) { f(st.clone()) }

// checkSorter generates the obligations on the methods of a sort.Interface value over integers and returns the slice it sorts.
func checkSorter(x *Exec, st *State, c *callCtx, exact bool) SliceVal {
	iv, ok := c.args[0].(IfaceVal)
	if !ok || iv.Dyn == nil {
		panic(unsupported("sort.Sort of an unknown type"))
	}
	dv := iv.DynV
	dt := iv.Dyn
	s, ok := intSlice(dv)
	if pv, isP := dv.(PtrVal); isP && !ok {
		s, ok = intSlice(x.load(st, pv))
	}
	if !ok {
		panic(unsupported("sort.Sort of %s", dt))
	}
	s = x.realSlice(st, s)
	if _, isP := dv.(PtrVal); !isP {
		dv = s
	}
	meth := func(n string) *ssa.Function {
		m := x.eng.prog.LookupMethod(dt, nil, n)
		if m == nil {
			panic(unsupported("no method %s on %s", n, dt))
		}
		return m
	}
	x.sub(st, func(q *State) {
		x.callFn(q, c.fr, meth("Len"), nil, []Value{dv}, c.pos, func(q *State, r Value) {
			x.check(q, "sort", "Len is the number of elements", c.pos, nil, Eq(r.(Scalar).T, s.Len))
		})
	})
	i, j := bound(freshVar("si", SInt), Big0, maxLenBig), bound(freshVar("sj", SInt), Big0, maxLenBig)
	intT := types.Typ[types.Int]
	checkLess(x, st, s, i, j, exact, c, func(q *State, k func(q *State, r Value)) {
		x.callFn(q, c.fr, meth("Less"), nil, []Value{dv, Scalar{i, intT}, Scalar{j, intT}}, c.pos, k)
	})
	if exact {
		return s // Swap is not called
	}
	x.sub(st, func(q *State) {
		q.assume(And(Lt(i, s.Len), Lt(j, s.Len)))
		a, b := x.sliceElem(q, s, i).(Scalar).T, x.sliceElem(q, s, j).(Scalar).T
		k := bound(freshVar("sk", SInt), Big0, maxLenBig)
		q.assume(And(Lt(k, s.Len), Ne(k, i), Ne(k, j)))
		o := x.sliceElem(q, s, k).(Scalar).T
		x.callFn(q, c.fr, meth("Swap"), nil, []Value{dv, Scalar{i, intT}, Scalar{j, intT}}, c.pos, func(q *State, r Value) {
			a2, b2 := x.sliceElem(q, s, i).(Scalar).T, x.sliceElem(q, s, j).(Scalar).T
			x.check(q, "sort", "Swap exchanges the two elements", c.pos, nil, And(Eq(a2, b), Eq(b2, a)))
			x.check(q, "sort", "Swap keeps the other elements", c.pos, nil, Eq(x.sliceElem(q, s, k).(Scalar).T, o))
		})
	})
	return s
}

func checkLess(x *Exec, st *State, s SliceVal, i, j *Term, exact bool, c *callCtx, call func(q *State, k func(q *State, r Value))) {
	x.sub(st, func(q *State) {
		q.assume(And(Lt(i, s.Len), Lt(j, s.Len)))
		a, b := x.sliceElem(q, s, i).(Scalar).T, x.sliceElem(q, s, j).(Scalar).T
		call(q, func(q *State, r Value) {
			rt := r.(Scalar).T
			up := Le(a, b)
			if exact {
				up = Lt(a, b)
			}
			x.check(q, "sort", "the comparison orders elements ascending", c.pos, nil, And(Implies(rt, up), Implies(Lt(a, b), rt)))
		})
	})
}

func sortSort(x *Exec, st *State, c *callCtx) {
	x.sortedResult(st, checkSorter(x, st, c, false))
	c.ret(st)
}

func (x *Exec) isSortedResult(st *State, s SliceVal, c *callCtx) {
	initSort()
	x.trusted["sort: the IsSorted functions report whether no element is less than its predecessor"] = true
	c.ret(st, Scalar{App("sorted", SBool, x.seqOf(st, s)), types.Typ[types.Bool]})
}

func sortIsSorted(x *Exec, st *State, c *callCtx) {
	x.isSortedResult(st, checkSorter(x, st, c, true), c)
}

func checkSortFunc(x *Exec, st *State, c *callCtx, exact bool) SliceVal {
	iv, ok := c.args[0].(IfaceVal)
	if !ok || iv.Dyn == nil {
		panic(unsupported("sort.Slice of an unknown type"))
	}
	s, ok := intSlice(iv.DynV)
	if !ok {
		panic(unsupported("sort.Slice of %s", iv.Dyn))
	}
	s = x.realSlice(st, s)
	f, ok := c.args[1].(FuncVal)
	if !ok || f.Fn == nil {
		panic(unsupported("sort.Slice with an unknown function"))
	}
	i, j := bound(freshVar("si", SInt), Big0, maxLenBig), bound(freshVar("sj", SInt), Big0, maxLenBig)
	intT := types.Typ[types.Int]
	checkLess(x, st, s, i, j, exact, c, func(q *State, k func(q *State, r Value)) {
		x.callFn(q, c.fr, f.Fn, f.Bind, []Value{Scalar{i, intT}, Scalar{j, intT}}, c.pos, k)
	})
	return s
}

func sortSlice(x *Exec, st *State, c *callCtx) {
	x.sortedResult(st, checkSortFunc(x, st, c, false))
	c.ret(st)
}

func sortSliceIsSorted(x *Exec, st *State, c *callCtx) {
	x.isSortedResult(st, checkSortFunc(x, st, c, true), c)
}

func slicesIsSorted(x *Exec, st *State, c *callCtx) {
	s, ok := intSlice(c.args[0])
	if !ok {
		panic(unsupported("slices.IsSorted"))
	}
	x.isSortedResult(st, x.realSlice(st, s), c)
}

func slicesSort(x *Exec, st *State, c *callCtx) {
	s, ok := intSlice(c.args[0])
	if !ok {
		panic(unsupported("slices.Sort"))
	}
	x.sortedResult(st, x.realSlice(st, s))
	c.ret(st)
}

func slicesEqual(x *Exec, st *State, c *callCtx) {
	a, ok1 := intSlice(c.args[0])
	b, ok2 := intSlice(c.args[1])
	if !ok1 || !ok2 {
		panic(unsupported("slices.Equal"))
	}
	c.ret(st, Scalar{veq(x.seqOf(st, a), x.seqOf(st, b)), types.Typ[types.Bool]})
}

var _ = token.NoPos
