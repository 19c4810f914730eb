package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"os"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic struct {
	f   func(st *State, fn *ssa.Function, args []Value) Value
	vis func(st *State, args []Value) (pendOp, bool)
}

var intrinsics map[string]intrinsic

func (e *Engine) intrFn(key string, in intrinsic) *ssa.Function {
	if f, ok := e.intrFns[key]; ok {
		return f
	}
	f := &ssa.Function{}
	e.intrFns[key] = f
	e.cfuncs[f] = &CFunc{fn: f, pos: key, intr: in}
	return f
}

func str(v Value) string {
	s := v.(StrV)
	if s.b != nil {
		panic(unsupported("symbolic string where a constant is required"))
	}
	return s.s
}

func cint(v Value) int64 {
	t := asTerm(v)
	if !t.IsConst() {
		panic(unsupported("symbolic integer where a constant is required"))
	}
	return sx(t.v, t.sort.W)
}

const symP = zz + "sym."

func ptrCell(p Value) (Ptr, bool) {
	q, ok := p.(Ptr)
	return q, ok
}

func isNilPtr(v Value) bool {
	p, ok := v.(Ptr)
	return ok && p.o == 0
}

func atomicVis(write bool) func(st *State, args []Value) (pendOp, bool) {
	return func(st *State, args []Value) (pendOp, bool) {
		p, ok := args[0].(Ptr)
		if !ok || p.o == 0 || !st.multi || !st.obj(p.o).shared || st.atomic > 0 {
			return pendOp{}, false
		}
		return pendOp{kind: opAtomic, o: p.o, off: p.off, n: 1, zero: write}, true
	}
}

func init() {
	I := map[string]intrinsic{}
	intrinsics = I
	def := func(name string, f func(st *State, fn *ssa.Function, args []Value) Value) {
		I[name] = intrinsic{f: f}
	}
	sym := func(name string, f func(st *State, fn *ssa.Function, args []Value) Value) {
		I[symP+name] = intrinsic{f: f}
	}
	// ---- inputs
	for n, w := range map[string]uint8{"Bool": 1, "Int": 64, "Int64": 64, "Uint64": 64, "Uint": 64, "Int32": 32, "Uint32": 32, "Int16": 16, "Uint16": 16, "Int8": 8, "Uint8": 8, "Byte": 8} {
		w := w
		sym(n, func(st *State, fn *ssa.Function, a []Value) Value { return st.freshInput(str(a[0]), w) })
	}
	sym("Float64", func(st *State, fn *ssa.Function, a []Value) Value {
		return st.e.c.FFromBits(st.freshInput(str(a[0]), 64))
	})
	sym("Float32", func(st *State, fn *ssa.Function, a []Value) Value {
		return st.e.c.FFromBits(st.freshInput(str(a[0]), 32))
	})
	sym("Range", func(st *State, fn *ssa.Function, a []Value) Value {
		v := st.freshInput(str(a[0]), 64)
		st.assume(st.e.c.And(st.e.c.Sle(asTerm(a[1]), v), st.e.c.Sle(v, asTerm(a[2]))))
		return v
	})
	sym("Choose", func(st *State, fn *ssa.Function, a []Value) Value {
		n := cint(a[1])
		if n <= 1 {
			return st.e.c.BV(64, 0)
		}
		return st.e.c.BV(64, uint64(st.choose(str(a[0]), int(n))))
	})
	sym("Bytes", func(st *State, fn *ssa.Function, a []Value) Value {
		n := cint(a[1])
		b := make([]*Term, n)
		for i := range b {
			b[i] = st.freshInput(str(a[0]), 8)
		}
		return st.newBytes(b)
	})
	sym("String", func(st *State, fn *ssa.Function, a []Value) Value {
		n := cint(a[1])
		b := make([]*Term, n)
		for i := range b {
			b[i] = st.freshInput(str(a[0]), 8)
		}
		return mkStr(b)
	})
	sym("Concrete", func(st *State, fn *ssa.Function, a []Value) Value {
		t := asTerm(a[0])
		return st.e.constLike(t, st.concretize(t, st.e.maxConc, "sym.Concrete"))
	})
	sym("Assume", func(st *State, fn *ssa.Function, a []Value) Value {
		st.assume(asTerm(a[0]))
		return nil
	})
	sym("Assert", func(st *State, fn *ssa.Function, a []Value) Value {
		e := st.e
		c := asTerm(a[0])
		msg := str(a[1])
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "ASSERT %s: %s | pc %s\n", msg, c, st.describePC())
		}
		e.asserts[msg]++
		if c.IsConst() {
			if c.v == 0 {
				m := st.model
				if m == nil {
					_, m = e.sol.Check(st.pc)
				}
				e.violation(st, "assert", msg, m)
				panic(killPath{"assert"})
			}
			return nil
		}
		e.noFast = true
		r, m := st.feasible(e.c.Not(c))
		e.noFast = false
		switch r {
		case Sat:
			if m == nil {
				e.noteUnknown("model of violated assertion " + msg)
			} else {
				e.violation(st, "assert", msg, m)
			}
			st.assume(c)
		case Unknown:
			e.noteUnknown("assertion " + msg)
			st.assume(c)
		}
		return nil
	})
	sym("Reach", func(st *State, fn *ssa.Function, a []Value) Value {
		if st.reached == nil {
			st.reached = map[string]bool{}
		}
		if !st.reached[str(a[0])] {
			n := map[string]bool{}
			for k := range st.reached {
				n[k] = true
			}
			n[str(a[0])] = true
			st.reached = n
		}
		return nil
	})
	sym("Merge", func(st *State, fn *ssa.Function, a []Value) Value {
		if st.e.opts["nomerge"] != "" || st.multi {
			return nil
		}
		// the instruction completes before parking
		f := st.top()
		_ = f
		st.wantPark = true
		return nil
	})
	sym("Observe", func(st *State, fn *ssa.Function, a []Value) Value {
		r := obsRec{label: str(a[0])}
		for _, c := range st.sliceCells(a[1].(SliceV)) {
			iv := c.(IfaceV)
			v := iv.v
			if s, ok := v.(SliceV); ok {
				v = obsSlice{append([]Value(nil), st.sliceCells(s)...)}
			}
			r.vals = append(r.vals, v)
			r.typs = append(r.typs, iv.t)
		}
		st.obs = append(st.obs, r)
		return nil
	})
	sym("Symbolic", func(st *State, fn *ssa.Function, a []Value) Value { return st.e.c.True })
	sym("Param", func(st *State, fn *ssa.Function, a []Value) Value {
		if v, ok := st.e.opts["param."+str(a[0])]; ok {
			n, _ := strconv.Atoi(v)
			return st.e.c.BV(64, uint64(n))
		}
		if st.e.tier == "thorough" {
			return a[2]
		}
		return a[1]
	})
	// ---- scheduling primitives used by the models
	I[symP+"Yield"] = intrinsic{
		f: func(st *State, fn *ssa.Function, a []Value) Value { return nil },
		vis: func(st *State, a []Value) (pendOp, bool) {
			return pendOp{kind: opYield}, st.multi && st.atomic == 0
		},
	}
	// Step: scheduling point in front of a synchronisation operation
	I[symP+"Step"] = intrinsic{
		f: func(st *State, fn *ssa.Function, a []Value) Value { return nil },
		vis: func(st *State, a []Value) (pendOp, bool) {
			return pendOp{kind: opStart}, st.multi && st.atomic == 0
		},
	}
	wait := func(zero bool) intrinsic {
		return intrinsic{
			f: func(st *State, fn *ssa.Function, a []Value) Value { return nil },
			vis: func(st *State, a []Value) (pendOp, bool) {
				p, ok := a[0].(Ptr)
				if !ok {
					panic(unsupported("wait on symbolic pointer"))
				}
				if p.o == 0 {
					return pendOp{}, false
				}
				return pendOp{kind: opWait, o: p.o, off: p.off, zero: zero}, true
			},
		}
	}
	sym("Acquire", func(st *State, fn *ssa.Function, a []Value) Value { st.acquire(a[0].(Ptr)); return nil })
	sym("Release", func(st *State, fn *ssa.Function, a []Value) Value { st.release(a[0].(Ptr)); return nil })
	I[symP+"WaitZero"] = wait(true)
	I[symP+"WaitNonZero"] = wait(false)
	I[symP+"SleepUntil"] = intrinsic{
		f: func(st *State, fn *ssa.Function, a []Value) Value { return nil },
		vis: func(st *State, a []Value) (pendOp, bool) {
			return pendOp{kind: opSleep, deadline: asTerm(a[0])}, true
		},
	}
	I[symP+"Quiesce"] = intrinsic{
		f: func(st *State, fn *ssa.Function, a []Value) Value {
			n := 0
			st.park(st.cur)
			for i, g := range st.gs {
				if i != st.cur && g.status != gDone && !g.daemon {
					n++
				}
			}
			return st.e.c.BV(64, uint64(n))
		},
		vis: func(st *State, a []Value) (pendOp, bool) {
			for i, g := range st.gs {
				if i != st.cur && g.status != gDone {
					return pendOp{kind: opQuiesce}, true
				}
			}
			return pendOp{}, false
		},
	}
	settle := I[symP+"Quiesce"]
	settle.vis = func(st *State, a []Value) (pendOp, bool) {
		for i, g := range st.gs {
			if i != st.cur && g.status != gDone {
				return pendOp{kind: opQuiesce, zero: true}, true
			}
		}
		return pendOp{}, false
	}
	I[symP+"Settle"] = settle
	sym("Clock", func(st *State, fn *ssa.Function, a []Value) Value { return st.clock })
	sym("GID", func(st *State, fn *ssa.Function, a []Value) Value { return st.e.c.BV(64, uint64(st.cur)) })
	sym("Daemon", func(st *State, fn *ssa.Function, a []Value) Value { st.g().daemon = true; return nil })
	sym("AtomicBegin", func(st *State, fn *ssa.Function, a []Value) Value { st.atomic++; return nil })
	sym("AtomicEnd", func(st *State, fn *ssa.Function, a []Value) Value { st.atomic--; return nil })
	sym("Share", func(st *State, fn *ssa.Function, a []Value) Value { st.share(a[0]); return nil })
	sym("SameCell", func(st *State, fn *ssa.Function, a []Value) Value {
		return st.eq(a[0], a[1], types.Typ[types.UnsafePointer])
	})
	// UF(name, n, mode, args ...[]byte) []byte: ideal function on byte strings.
	// mode 0: arbitrary function; 1: injective (collision free).
	sym("UF", func(st *State, fn *ssa.Function, a []Value) Value {
		e := st.e
		name := str(a[0])
		n := int(cint(a[1]))
		mode := cint(a[2])
		var in []*Term
		lay := fmt.Sprint(n)
		for _, c := range st.sliceCells(a[3].(SliceV)) {
			b := st.bytesOf(c)
			lay += fmt.Sprintf(",%d", len(b))
			in = append(in, b...)
		}
		for _, en := range st.uf[name] {
			if en.lay != lay {
				continue
			}
			same := true
			for i := range in {
				if in[i] != en.in[i] {
					same = false
					break
				}
			}
			if same {
				return st.newBytes(en.out)
			}
		}
		out := make([]*Term, n)
		for i := range out {
			out[i] = st.freshInput("uf."+name, 8)
		}
		for _, en := range st.uf[name] {
			eqOut := []*Term{}
			if len(en.out) != n {
				continue
			}
			for i := range out {
				eqOut = append(eqOut, e.c.Eq(out[i], en.out[i]))
			}
			if en.lay != lay {
				if mode == 1 && n > 0 {
					st.assume(e.c.Not(e.c.And(eqOut...)))
				}
				continue
			}
			var eqIn []*Term
			for i := range in {
				eqIn = append(eqIn, e.c.Eq(in[i], en.in[i]))
			}
			st.assume(e.c.Implies(e.c.And(eqIn...), e.c.And(eqOut...)))
			if mode == 1 && n > 0 {
				st.assume(e.c.Implies(e.c.And(eqOut...), e.c.And(eqIn...)))
			}
		}
		u := map[string][]ufEnt{}
		for k, v := range st.uf {
			u[k] = v
		}
		u[name] = append(u[name][:len(u[name]):len(u[name])], ufEnt{in, lay, out})
		st.uf = u
		return st.newBytes(out)
	})
	// ---- atomics
	type aop struct {
		n string
		w uint8
	}
	for _, t := range []aop{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}} {
		for _, pk := range []string{"sync/atomic."} {
			I[pk+"Load"+t.n] = intrinsic{vis: atomicVis(false), f: func(st *State, fn *ssa.Function, a []Value) Value {
				return st.loadCells(a[0], 1)[0]
			}}
			I[pk+"Store"+t.n] = intrinsic{vis: atomicVis(true), f: func(st *State, fn *ssa.Function, a []Value) Value {
				st.storeCells(a[0], a[1:2])
				return nil
			}}
			I[pk+"Swap"+t.n] = intrinsic{vis: atomicVis(true), f: func(st *State, fn *ssa.Function, a []Value) Value {
				o := st.loadCells(a[0], 1)[0]
				st.storeCells(a[0], a[1:2])
				return o
			}}
			I[pk+"CompareAndSwap"+t.n] = intrinsic{vis: atomicVis(true), f: func(st *State, fn *ssa.Function, a []Value) Value {
				o := st.loadCells(a[0], 1)[0]
				var eqt *Term
				if _, isT := o.(*Term); isT {
					eqt = st.e.c.Eq(asTerm(o), asTerm(a[1]))
				} else if sp, isP := o.(Ptr); isP {
					eqt = st.eq(sp, a[1], types.Typ[types.UnsafePointer])
				} else {
					panic(unsupported(fmt.Sprintf("CompareAndSwap on %T", o)))
				}
				if st.decide(eqt) {
					st.storeCells(a[0], a[2:3])
					return st.e.c.True
				}
				return st.e.c.False
			}}
			if t.w > 0 {
				I[pk+"Add"+t.n] = intrinsic{vis: atomicVis(true), f: func(st *State, fn *ssa.Function, a []Value) Value {
					v := st.e.c.Add(asTerm(st.loadCells(a[0], 1)[0]), asTerm(a[1]))
					st.storeCells(a[0], []Value{v})
					return v
				}}
				I[pk+"And"+t.n] = intrinsic{vis: atomicVis(true), f: func(st *State, fn *ssa.Function, a []Value) Value {
					o := asTerm(st.loadCells(a[0], 1)[0])
					st.storeCells(a[0], []Value{st.e.c.BAnd(o, asTerm(a[1]))})
					return o
				}}
				I[pk+"Or"+t.n] = intrinsic{vis: atomicVis(true), f: func(st *State, fn *ssa.Function, a []Value) Value {
					o := asTerm(st.loadCells(a[0], 1)[0])
					st.storeCells(a[0], []Value{st.e.c.BOr(o, asTerm(a[1]))})
					return o
				}}
			}
		}
	}
	// ---- runtime
	for _, n := range []string{"runtime.GC", "runtime.SetFinalizer", "runtime.KeepAlive", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable", "internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange", "internal/race.Errors"} {
		def(n, func(st *State, fn *ssa.Function, a []Value) Value { return nil })
	}
	// leaving the process is a crash of the program that uses the library
	def("os.Exit", func(st *State, fn *ssa.Function, a []Value) Value {
		panic(crash{g: st.cur, val: IfaceV{t: types.Typ[types.String], v: StrV{s: "the process is ended by os.Exit"}}})
	})
	I["runtime.Gosched"] = I[symP+"Yield"]
	def("runtime.NumGoroutine", func(st *State, fn *ssa.Function, a []Value) Value {
		n := 0
		for _, g := range st.gs {
			if g.status != gDone {
				n++
			}
		}
		return st.e.c.BV(64, uint64(n))
	})
	def("runtime.GOMAXPROCS", func(st *State, fn *ssa.Function, a []Value) Value { return st.e.c.BV(64, 8) })
	def("runtime.NumCPU", func(st *State, fn *ssa.Function, a []Value) Value { return st.e.c.BV(64, 8) })
	ident := func(st *State, fn *ssa.Function, a []Value) Value { return a[0] }
	def("internal/abi.NoEscape", ident)
	def("internal/abi.Escape", ident)
	def("strings.noescape", ident)
	// ---- math
	def("math.Float64bits", func(st *State, fn *ssa.Function, a []Value) Value { return st.floatBits(asTerm(a[0])) })
	def("math.Float32bits", func(st *State, fn *ssa.Function, a []Value) Value { return st.floatBits(asTerm(a[0])) })
	def("math.Float64frombits", func(st *State, fn *ssa.Function, a []Value) Value { return st.e.c.FFromBits(asTerm(a[0])) })
	def("math.Float32frombits", func(st *State, fn *ssa.Function, a []Value) Value { return st.e.c.FFromBits(asTerm(a[0])) })
	for m, n := range []string{"RoundToEven", "Round", "Ceil", "Floor", "Trunc"} {
		m := uint64(m)
		def("math."+n, func(st *State, fn *ssa.Function, a []Value) Value {
			return st.e.c.FRound(asTerm(a[0]), m)
		})
	}
	def("crypto/internal/constanttime.boolToUint8", func(st *State, fn *ssa.Function, a []Value) Value {
		return st.e.c.Ite(asTerm(a[0]), st.e.c.BV(8, 1), st.e.c.BV(8, 0))
	})
	def("maps.clone", func(st *State, fn *ssa.Function, a []Value) Value {
		iv := a[0].(IfaceV)
		return IfaceV{iv.t, st.cloneMap(iv.v.(MapV))}
	})
	sym("SliceLen", lenOfIface)
	def("runtime.Caller", func(st *State, fn *ssa.Function, a []Value) Value {
		return &Tuple{[]Value{st.e.c.BV(64, 0), StrV{}, st.e.c.BV(64, 0), st.e.c.Bool(false)}}
	})
	def("runtime.Stack", func(st *State, fn *ssa.Function, a []Value) Value { return st.e.c.BV(64, 0) })
	def("runtime/debug.Stack", func(st *State, fn *ssa.Function, a []Value) Value { return SliceV{} })
	def("runtime/debug.PrintStack", func(st *State, fn *ssa.Function, a []Value) Value { return nil })
	def("runtime.GC", func(st *State, fn *ssa.Function, a []Value) Value { return nil })
	def("runtime.SetFinalizer", func(st *State, fn *ssa.Function, a []Value) Value { return nil })
	for n, f := range map[string]func(float64) float64{"Sqrt": math.Sqrt, "Log": math.Log, "Log2": math.Log2, "Exp": math.Exp} {
		f := f
		n := n
		def("math."+n, func(st *State, fn *ssa.Function, a []Value) Value {
			t := asTerm(a[0])
			if !t.IsConst() {
				panic(unsupported("math." + n + " on a symbolic value"))
			}
			return st.e.c.F64(f(fval(t)))
		})
	}
	constBits := func(name string, f func(uint64) int, w uint8) {
		def("math/bits."+name, func(st *State, fn *ssa.Function, a []Value) Value {
			t := asTerm(a[0])
			if t.IsConst() {
				return st.e.c.BV(64, uint64(f(t.v)))
			}
			e := st.e
			// build from single bits
			acc := e.c.BV(64, 0)
			switch strings.TrimRight(name, "0123456789") {
			case "OnesCount":
				for i := uint8(0); i < w; i++ {
					acc = e.c.Add(acc, e.c.Zext(e.c.Extract(t, i, i), 64))
				}
				return acc
			case "Len":
				return e.c.bitLen(t, w)
			case "TrailingZeros":
				acc = e.c.BV(64, uint64(w))
				for i := int(w) - 1; i >= 0; i-- {
					acc = e.c.Ite(e.c.Eq(e.c.Extract(t, uint8(i), uint8(i)), e.c.BV(1, 1)), e.c.BV(64, uint64(i)), acc)
				}
				return acc
			case "LeadingZeros":
				acc = e.c.BV(64, uint64(w))
				for i := uint8(0); i < w; i++ {
					acc = e.c.Ite(e.c.Eq(e.c.Extract(t, i, i), e.c.BV(1, 1)), e.c.BV(64, uint64(w-1-i)), acc)
				}
				return acc
			}
			panic(unsupported("math/bits." + name))
		})
	}
	constBits("OnesCount", func(v uint64) int { return bits.OnesCount64(v) }, 64)
	constBits("OnesCount64", func(v uint64) int { return bits.OnesCount64(v) }, 64)
	constBits("OnesCount32", func(v uint64) int { return bits.OnesCount32(uint32(v)) }, 32)
	constBits("OnesCount8", func(v uint64) int { return bits.OnesCount8(uint8(v)) }, 8)
	constBits("Len", func(v uint64) int { return bits.Len64(v) }, 64)
	constBits("Len64", func(v uint64) int { return bits.Len64(v) }, 64)
	constBits("Len32", func(v uint64) int { return bits.Len32(uint32(v)) }, 32)
	constBits("TrailingZeros", func(v uint64) int { return bits.TrailingZeros64(v) }, 64)
	constBits("TrailingZeros64", func(v uint64) int { return bits.TrailingZeros64(v) }, 64)
	constBits("TrailingZeros32", func(v uint64) int { return bits.TrailingZeros32(uint32(v)) }, 32)
	constBits("LeadingZeros64", func(v uint64) int { return bits.LeadingZeros64(v) }, 64)
	def("math/bits.Mul64", func(st *State, fn *ssa.Function, a []Value) Value {
		x, y := asTerm(a[0]), asTerm(a[1])
		if x.IsConst() && y.IsConst() {
			h, l := bits.Mul64(x.v, y.v)
			return &Tuple{[]Value{st.e.c.BV(64, h), st.e.c.BV(64, l)}}
		}
		c := st.e.c
		p := c.Mul(c.Zext(x, 128), c.Zext(y, 128))
		return &Tuple{[]Value{c.Extract(p, 127, 64), c.Extract(p, 63, 0)}}
	})
	// ---- bytealg / bytes
	def("internal/bytealg.IndexByteString", idxByte)
	def("internal/bytealg.IndexByte", idxByte)
	def("strings.IndexByte", idxByte)
	def("bytes.IndexByte", idxByte)
	def("internal/bytealg.CountString", cntByte)
	def("internal/bytealg.Count", cntByte)
	eqB := func(st *State, fn *ssa.Function, a []Value) Value {
		x, y := mkStr(st.bytesOf(a[0])), mkStr(st.bytesOf(a[1]))
		return st.eq(x, y, types.Typ[types.String])
	}
	def("internal/bytealg.Equal", eqB)
	def("bytes.Equal", eqB)
	cmpB := func(st *State, fn *ssa.Function, a []Value) Value {
		e := st.e
		x, y := mkStr(st.bytesOf(a[0])), mkStr(st.bytesOf(a[1]))
		return e.c.Ite(e.strLess(x, y), e.c.BV(64, ^uint64(0)), e.c.Ite(e.strLess(y, x), e.c.BV(64, 1), e.c.BV(64, 0)))
	}
	def("internal/bytealg.Compare", cmpB)
	def("internal/bytealg.CompareString", cmpB)
	def("bytes.Compare", cmpB)
	def("strings.Compare", cmpB)
	def("internal/bytealg.MakeNoZero", func(st *State, fn *ssa.Function, a []Value) Value {
		n := int32(cint(a[0]))
		return st.newSlice(types.Typ[types.Uint8], n, n)
	})
	ctc := func(st *State, fn *ssa.Function, a []Value) Value {
		e := st.e
		x, y := mkStr(st.bytesOf(a[0])), mkStr(st.bytesOf(a[1]))
		return e.c.Ite(st.eq(x, y, types.Typ[types.String]), e.c.BV(64, 1), e.c.BV(64, 0))
	}
	def("crypto/subtle.ConstantTimeCompare", ctc)
	// ---- reflect
	def("reflect.TypeOf", func(st *State, fn *ssa.Function, a []Value) Value {
		iv := a[0].(IfaceV)
		if iv.t == nil {
			return IfaceV{}
		}
		return st.e.rtype(iv.t)
	})
	def("reflect.Type.Elem", func(st *State, fn *ssa.Function, a []Value) Value {
		t := a[0].(TypeV).t.Underlying()
		if el, ok := t.(interface{ Elem() types.Type }); ok {
			return st.e.rtype(el.Elem())
		}
		st.throw("reflect: Elem of invalid type")
		return nil
	})
	def("reflect.Type.String", func(st *State, fn *ssa.Function, a []Value) Value {
		return StrV{s: typeString(a[0].(TypeV).t)}
	})
	def("reflect.Type.Name", func(st *State, fn *ssa.Function, a []Value) Value {
		switch t := a[0].(TypeV).t.(type) {
		case *types.Named:
			s := typeString(t)
			return StrV{s: s[strings.IndexByte(s, '.')+1:]}
		case *types.Basic:
			return StrV{s: t.Name()}
		}
		return StrV{}
	})
	def("reflect.Type.Kind", func(st *State, fn *ssa.Function, a []Value) Value {
		return st.e.c.BV(64, reflectKind(a[0].(TypeV).t))
	})
	def("reflect.Type.Comparable", func(st *State, fn *ssa.Function, a []Value) Value {
		return st.e.c.Bool(types.Comparable(a[0].(TypeV).t))
	})
	sym("AsTarget", func(st *State, fn *ssa.Function, a []Value) Value {
		err, target := a[0].(IfaceV), a[1].(IfaceV)
		if target.t == nil {
			st.throw("errors: target cannot be nil")
		}
		pt, ok := target.t.Underlying().(*types.Pointer)
		if !ok || isNilPtr(target.v) {
			st.throw("errors: target must be a non-nil pointer")
		}
		el := pt.Elem()
		if types.IsInterface(el) {
			if !types.Implements(err.t, el.Underlying().(*types.Interface)) {
				return st.e.c.Bool(false)
			}
			st.store(target.v, err, el)
			return st.e.c.Bool(true)
		}
		if !types.Identical(el, err.t) {
			return st.e.c.Bool(false)
		}
		st.store(target.v, err.v, el)
		return st.e.c.Bool(true)
	})
	sym("Comparable", func(st *State, fn *ssa.Function, a []Value) Value {
		x := a[0].(IfaceV)
		return st.e.c.Bool(x.t == nil || types.Comparable(x.t))
	})
	// reflectlite.Swapper for sort.Slice
	swapper := func(st *State, fn *ssa.Function, a []Value) Value {
		s := a[0].(IfaceV).v.(SliceV)
		return &FuncV{fn: st.e.intrFn("zz.swap", I["zz.swap"]), b: []Value{s}}
	}
	def("internal/reflectlite.Swapper", swapper)
	def("reflect.Swapper", swapper)
	sym("Swapper", swapper)
	def("zz.swap", func(st *State, fn *ssa.Function, a []Value) Value {
		s := a[2].(SliceV)
		n := int(s.len)
		i := st.boundIndex(asTerm(a[0]), types.Typ[types.Int], n)
		j := st.boundIndex(asTerm(a[1]), types.Typ[types.Int], n)
		x := int32(st.concretize(i, n+2, "swap index"))
		y := int32(st.concretize(j, n+2, "swap index"))
		cx := append([]Value(nil), st.loadCells(Ptr{s.o, s.off + x*s.cell}, s.cell)...)
		cy := append([]Value(nil), st.loadCells(Ptr{s.o, s.off + y*s.cell}, s.cell)...)
		st.storeCells(Ptr{s.o, s.off + x*s.cell}, cy)
		st.storeCells(Ptr{s.o, s.off + y*s.cell}, cx)
		return nil
	})
	// ---- fmt
	// operands that are errors, Stringers or symbolic integers come with their
	// text from the model of package fmt
	sym("Sprintf", func(st *State, fn *ssa.Function, a []Value) Value {
		return st.sprintf(str(a[0]), st.sliceCells(a[3].(SliceV)), st.fmtTexts(a[1], a[2]))
	})
	sym("Sprint", func(st *State, fn *ssa.Function, a []Value) Value {
		return st.sprint(st.sliceCells(a[3].(SliceV)), asTerm(a[0]).v != 0, st.fmtTexts(a[1], a[2]))
	})
	sym("IsConst", func(st *State, fn *ssa.Function, a []Value) Value {
		t, ok := a[0].(IfaceV).v.(*Term)
		return st.e.c.Bool(!ok || t.IsConst())
	})
	for _, n := range []string{"fmt.Print", "fmt.Println", "fmt.Printf"} {
		def(n, func(st *State, fn *ssa.Function, a []Value) Value {
			return &Tuple{[]Value{st.e.c.BV(64, 0), IfaceV{}}}
		})
	}
}

type obsSlice struct{ c []Value }

func lenOfIface(st *State, fn *ssa.Function, a []Value) Value {
	return st.e.c.BV(64, uint64(st.length(a[0].(IfaceV).v)))
}

func (e *Engine) rtype(t types.Type) Value {
	return IfaceV{e.canon(e.rtypeType()), TypeV{e.canon(t)}}
}

func (e *Engine) rtypeType() types.Type {
	if p := e.prog.ImportedPackage("reflect"); p != nil {
		if t := p.Type("rtype"); t != nil {
			return types.NewPointer(t.Type())
		}
	}
	panic(unsupported("reflect not loaded"))
}

func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func idxByte(st *State, fn *ssa.Function, a []Value) Value {
	e := st.e
	b := st.bytesOf(a[0])
	c := asTerm(a[1])
	acc := e.c.BV(64, ^uint64(0))
	for i := len(b) - 1; i >= 0; i-- {
		acc = e.c.Ite(e.c.Eq(b[i], c), e.c.BV(64, uint64(i)), acc)
	}
	return acc
}

func cntByte(st *State, fn *ssa.Function, a []Value) Value {
	e := st.e
	acc := e.c.BV(64, 0)
	for _, x := range st.bytesOf(a[0]) {
		acc = e.c.Add(acc, e.c.Ite(e.c.Eq(x, asTerm(a[1])), e.c.BV(64, 1), e.c.BV(64, 0)))
	}
	return acc
}

// fmtTexts gives the text of operand i, if it has one of its own.
func (st *State) fmtTexts(texts, has Value) func(i int) (StrV, bool) {
	t, h := st.sliceCells(texts.(SliceV)), st.sliceCells(has.(SliceV))
	return func(i int) (StrV, bool) {
		if i >= len(h) || asTerm(h[i]).v == 0 {
			return StrV{}, false
		}
		return t[i].(StrV), true
	}
}

func (st *State) sprint(args []Value, ln bool, text func(int) (StrV, bool)) StrV {
	var out []*Term
	for i, a := range args {
		if i > 0 && ln {
			out = append(out, st.e.c.BV(8, ' '))
		} else if i > 0 {
			if !isStringV(args[i-1]) && !isStringV(a) {
				out = append(out, st.e.c.BV(8, ' '))
			}
		}
		s, ok := text(i)
		if !ok {
			s = st.fmtArg("%v", a.(IfaceV))
		}
		out = append(out, st.e.strBytes(s)...)
	}
	if ln {
		out = append(out, st.e.c.BV(8, '\n'))
	}
	return mkStr(out)
}

// isStringV: fmt.Print adds spaces between operands neither of which is a
// string (by kind).
func isStringV(v Value) bool {
	_, ok := v.(IfaceV).v.(StrV)
	return ok
}

func (st *State) sprintf(f string, args []Value, text func(int) (StrV, bool)) StrV {
	var out []*Term
	lit := func(s string) { out = append(out, st.e.strBytes(StrV{s: s})...) }
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit(f[i : i+1])
			continue
		}
		at := i
		for i++; i < len(f) && strings.IndexByte("+-# .0123456789", f[i]) >= 0; i++ {
		}
		if i >= len(f) {
			lit("%!(NOVERB)")
			break
		}
		if f[i] == '%' {
			lit("%")
			continue
		}
		spec, verb := f[at:i+1], f[i]
		if !strings.ContainsRune("vsdTqxXtbocgef", rune(verb)) {
			panic(unsupported("fmt verb %" + string(verb)))
		}
		if k >= len(args) {
			lit("%!" + string(verb) + "(MISSING)")
			continue
		}
		v := args[k].(IfaceV)
		s, ok := text(k)
		_, isInt := v.v.(*Term)
		switch {
		case ok && (verb == 'v' || verb == 's' && !isInt || verb == 'd' && isInt) && len(spec) == 2:
		case ok && (verb == 'v' || verb == 's' || verb == 'q') && !isInt && s.b == nil && !strings.Contains(spec, "#"):
			s = StrV{s: fmt.Sprintf(spec, s.s)}
		default:
			s = st.fmtArg(spec, v)
		}
		out = append(out, st.e.strBytes(s)...)
		k++
	}
	if k < len(args) {
		panic(unsupported("fmt with extra operands"))
	}
	return mkStr(out)
}

// fmtArg formats an operand without methods of its own.
func (st *State) fmtArg(spec string, v IfaceV) StrV {
	verb := spec[len(spec)-1]
	if verb == 'T' {
		if v.t == nil {
			return StrV{s: "<nil>"}
		}
		return StrV{s: typeString(v.t)}
	}
	if v.t == nil {
		return StrV{s: fmt.Sprintf(spec, nil)}
	}
	switch x := v.v.(type) {
	case StrV:
		if len(spec) == 2 && (verb == 'v' || verb == 's') {
			return x
		}
		if x.b == nil {
			return StrV{s: fmt.Sprintf(spec, x.s)}
		}
	case *Term:
		k := basicKind(v.t)
		if x.sort.K == SBV && !x.IsConst() {
			x = st.e.constLike(x, st.concretize(x, 300, "formatted integer"))
		}
		if x.IsConst() {
			switch {
			case k.boolk:
				return StrV{s: fmt.Sprintf(spec, x.v != 0)}
			case k.float && k.w == 32:
				return StrV{s: fmt.Sprintf(spec, float32(fval(x)))}
			case k.float:
				return StrV{s: fmt.Sprintf(spec, fval(x))}
			case k.signed:
				return StrV{s: fmt.Sprintf(spec, sx(x.v, k.w))}
			}
			return StrV{s: fmt.Sprintf(spec, x.v)}
		}
	case SliceV:
		el := v.t.Underlying().(*types.Slice).Elem()
		if b, ok := el.Underlying().(*types.Basic); ok && verb == 'v' && len(spec) == 2 && types.NewMethodSet(el).Len() == 0 {
			_ = b
			var out []*Term
			lit := func(s string) { out = append(out, st.e.strBytes(StrV{s: s})...) }
			lit("[")
			for i, c := range st.sliceCells(x) {
				if i > 0 {
					lit(" ")
				}
				out = append(out, st.e.strBytes(st.fmtArg(spec, IfaceV{el, c}))...)
			}
			lit("]")
			return mkStr(out)
		}
	}
	panic(unsupported(fmt.Sprintf("fmt %s of %v", spec, v.t)))
}

// cloneMap copies a map (maps.Clone): a read of the map and a new object.
func (st *State) cloneMap(m MapV) Value {
	if m.o == 0 {
		return m
	}
	mo := *st.obj(m.o).m
	mo.ents = append([]MapEnt(nil), mo.ents...)
	return MapV{st.alloc(&Obj{m: &mo})}
}

func reflectKind(t types.Type) uint64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		for k := reflect.Bool; k <= reflect.Complex128; k++ {
			if u.Name() == k.String() {
				return uint64(k)
			}
		}
		switch u.Kind() {
		case types.Uint8:
			return uint64(reflect.Uint8)
		case types.Int32:
			return uint64(reflect.Int32)
		case types.String:
			return uint64(reflect.String)
		case types.UnsafePointer:
			return uint64(reflect.UnsafePointer)
		}
	case *types.Array:
		return uint64(reflect.Array)
	case *types.Chan:
		return uint64(reflect.Chan)
	case *types.Signature:
		return uint64(reflect.Func)
	case *types.Interface:
		return uint64(reflect.Interface)
	case *types.Map:
		return uint64(reflect.Map)
	case *types.Pointer:
		return uint64(reflect.Pointer)
	case *types.Slice:
		return uint64(reflect.Slice)
	case *types.Struct:
		return uint64(reflect.Struct)
	}
	panic(unsupported("kind of " + t.String()))
}
