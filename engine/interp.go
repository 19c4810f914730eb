package main

// The symbolic interpreter: one SSA instruction at a time.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type specAbort struct{}

// goPanic is raised by instruction handlers for a Go-level panic.
type goPanic struct{ val IfaceV }

type stepResult uint8

const (
	stepOK   stepResult = iota
	stepPark            // state parked at a merge barrier
	stepStop            // current goroutine stopped before a visible operation
	stepDead            // path finished
)

func (st *State) val(f *Frame, o operand) Value {
	if o.reg < 0 {
		return o.val
	}
	return f.regs[o.reg]
}

func (st *State) args(f *Frame, ops []operand) []Value {
	out := make([]Value, len(ops))
	for i, o := range ops {
		out[i] = st.val(f, o)
	}
	return out
}

func asTerm(v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		panic(unsupported(fmt.Sprintf("scalar expected, have %T", v)))
	}
	return t
}

func (e *Engine) rtErr(msg string) IfaceV {
	return IfaceV{e.canon(e.rtErrType), StrV{s: msg}}
}

func (st *State) throw(msg string) {
	panic(goPanic{st.e.rtErr(msg)})
}

// step executes one instruction of the current goroutine.
func (st *State) step() stepResult {
	g := st.g()
	if len(g.frames) == 0 {
		return stepOK
	}
	f := st.top()
	if f.panicking != nil {
		st.unwind()
		return stepOK
	}
	if f.runDefers {
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			st.invoke(d.fn.(*FuncV), d.args, -1, true, nil)
			return stepOK
		}
		f.runDefers = false
		if f.hasRets {
			st.doReturn(f.rets)
			return stepOK
		}
	}
	ci := &f.fn.blocks[f.block][f.ip]
	st.steps++
	st.e.nsteps++
	if ci.skip {
		f.ip++
		return stepOK
	}
	st.stepGranted = false
	if st.multi && !st.initing {
		if g.granted {
			g = st.wg(st.cur)
			g.granted = false
			st.stepGranted = true
			if st.e.coarse {
				st.syncOp(g.pend, f, ci)
			}
		} else if p, ok := st.visible(f, ci); ok {
			if st.e.coarse && isPlain(p.kind) && g.nacc < 5000 {
				st.access(&p, f, ci)
			} else if st.soloRunnable(&p) {
				if st.e.coarse {
					st.syncOp(p, f, ci)
				}
			} else {
				if g = st.wg(st.cur); true {
					g.status = gStop
					g.pend = p
					g.parked = false
				}
				return stepStop
			}
		}
	} else if !st.initing {
		// single goroutine: only blocking matters
		if p, ok := st.visible(f, ci); ok && !st.enabled(st.cur, &p) {
			g.status = gStop
			g.pend = p
			g.parked = false
			return stepStop
		}
	}
	st.decs = st.decs[:0:0]
	st.insNames = st.insNames[:0:0]
	func() {
		defer func() {
			if r := recover(); r != nil {
				if p, ok := r.(goPanic); ok {
					st.startPanic(p.val)
					return
				}
				panic(r)
			}
		}()
		st.exec(f, ci)
	}()
	st.forced = nil
	st.fpos = 0
	st.decs = nil
	st.insNames = nil
	if st.wantPark {
		st.wantPark = false
		return stepPark
	}
	return stepOK
}

func (st *State) set(f *Frame, ci *CInstr, v Value) {
	if ci.dst >= 0 {
		f.regs[ci.dst] = v
	}
	f.ip++
}

func (st *State) exec(f *Frame, ci *CInstr) {
	e := st.e
	switch ins := ci.ins.(type) {
	case *ssa.Jump:
		st.jump(f, f.fn.fn.Blocks[f.block].Succs[0].Index)
	case *ssa.If:
		c := asTerm(st.val(f, ci.ops[0]))
		succs := f.fn.fn.Blocks[f.block].Succs
		if !c.IsConst() && (!e.noDiamond || f.fn.harness) && st.fpos >= len(st.forced) && st.diamond(f, c) {
			return
		}
		if st.decide(c) {
			st.jump(f, succs[0].Index)
		} else {
			st.jump(f, succs[1].Index)
		}
	case *ssa.Return:
		var rv []Value
		for _, o := range ci.ops {
			rv = append(rv, st.val(f, o))
		}
		st.doReturn(rv)
	case *ssa.Alloc:
		t := ins.Type().Underlying().(*types.Pointer).Elem()
		id := st.allocCells(e.zeroCells(t, nil), t)
		st.set(f, ci, Ptr{id, 0})
	case *ssa.Store:
		a, v := st.val(f, ci.ops[0]), st.val(f, ci.ops[1])
		st.store(a, v, ins.Val.Type())
		f.ip++
	case *ssa.Call:
		st.call(f, ci, &ins.Call, ci.ops)
	case *ssa.Defer:
		fn, args := st.callee(f, &ins.Call, ci.ops)
		f.defers = append(f.defers, deferRec{fn, args})
		f.ip++
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			st.invoke(d.fn.(*FuncV), d.args, -1, true, nil)
			return
		}
		f.ip++
	case *ssa.Go:
		fn, args := st.callee(f, &ins.Call, ci.ops)
		st.spawn(fn, args, "")
		f.ip++
	case *ssa.Panic:
		v := st.val(f, ci.ops[0]).(IfaceV)
		if v.t == nil && !e.panicNil {
			v = e.rtErr("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
		}
		panic(goPanic{v})
	case *ssa.Send:
		st.chanSend(f, ci)
	case *ssa.Select:
		st.chanSelect(f, ci, ins)
	case *ssa.MapUpdate:
		m := st.val(f, ci.ops[0]).(MapV)
		st.mapUpdate(m, st.val(f, ci.ops[1]), st.val(f, ci.ops[2]))
		f.ip++
	default:
		st.set(f, ci, st.pure(f, ci))
	}
}

func (st *State) jump(f *Frame, to int) {
	from := f.block
	b := f.fn.blocks[to]
	if to <= from {
		f.backs++
		if f.backs > st.e.maxBack {
			panic(unsupported(fmt.Sprintf("loop bound %d exceeded in %s", st.e.maxBack, f.fn.fn)))
		}
	}
	// parallel phi assignment
	if len(b) > 0 {
		if _, ok := b[0].ins.(*ssa.Phi); ok {
			blk := f.fn.fn.Blocks[to]
			k := -1
			for i, p := range blk.Preds {
				if p.Index == from {
					k = i
					break
				}
			}
			var tmp [8]Value
			vals := tmp[:0]
			n := 0
			for ; n < len(b); n++ {
				if _, ok := b[n].ins.(*ssa.Phi); !ok {
					break
				}
				vals = append(vals, st.val(f, b[n].ops[k]))
			}
			for i := 0; i < n; i++ {
				f.regs[b[i].dst] = vals[i]
			}
			f.prev, f.block, f.ip = from, to, n
			return
		}
	}
	f.prev, f.block, f.ip = from, to, 0
}

// ---- pure diamonds

type regionInfo struct {
	join int // -1: none
}

func (e *Engine) ipdom(cf *CFunc) []int {
	if r, ok := e.ipdoms[cf]; ok {
		return r
	}
	n := len(cf.fn.Blocks)
	// postdominator sets (small functions only)
	res := make([]int, n)
	for i := range res {
		res[i] = -1
	}
	if n <= 400 {
		pd := make([]map[int]bool, n)
		for i, b := range cf.fn.Blocks {
			if len(b.Succs) == 0 {
				pd[i] = map[int]bool{i: true}
			}
		}
		for changed := true; changed; {
			changed = false
			for i := n - 1; i >= 0; i-- {
				b := cf.fn.Blocks[i]
				if len(b.Succs) == 0 {
					continue
				}
				var acc map[int]bool
				for _, s := range b.Succs {
					if pd[s.Index] == nil {
						continue
					}
					if acc == nil {
						acc = map[int]bool{}
						for k := range pd[s.Index] {
							acc[k] = true
						}
					} else {
						for k := range acc {
							if !pd[s.Index][k] {
								delete(acc, k)
							}
						}
					}
				}
				if acc == nil {
					continue
				}
				acc[i] = true
				if len(acc) != len(pd[i]) {
					pd[i] = acc
					changed = true
				}
			}
		}
		for i := range cf.fn.Blocks {
			// immediate: the postdominator with the largest own set
			best, bn := -1, -1
			for k := range pd[i] {
				if k != i && len(pd[k]) > bn {
					best, bn = k, len(pd[k])
				}
			}
			res[i] = best
		}
	}
	e.ipdoms[cf] = res
	return res
}

type diamEdge struct {
	cond *Term
	pred int
	regs []Value
}

func (st *State) diamond(f *Frame, c *Term) (ok bool) {
	if st.spec {
		return false
	}
	j := st.e.ipdom(f.fn)[f.block]
	if j < 0 {
		return false
	}
	type key struct {
		f *CFunc
		b int
	}
	k := key{f.fn, f.block}
	_ = k
	budget := 40
	if bad := st.e.badDiamond[diamKey{f.fn, f.block}]; bad {
		return false
	}
	succs := f.fn.fn.Blocks[f.block].Succs
	// cheap static screening
	if !st.e.diamondOK(f.fn, f.block, j) {
		return false
	}
	saved := f.regs
	sblock, sip := f.block, f.ip
	st.spec = true
	var edges []diamEdge
	defer func() {
		st.spec = false
		f.regs = saved
		f.block, f.ip = sblock, sip
		if r := recover(); r != nil {
			switch r.(type) {
			case specAbort, goPanic, killPath:
				ok = false
				return
			}
			panic(r)
		}
		if !ok {
			return
		}
		ok = st.finishDiamond(f, j, edges)
	}()
	var walk func(b, from int, cond *Term, regs []Value)
	walk = func(b, from int, cond *Term, regs []Value) {
		if cond.IsConst() && cond.v == 0 {
			return
		}
		if b == j {
			edges = append(edges, diamEdge{cond, from, regs})
			return
		}
		r2 := append([]Value(nil), regs...)
		f.regs = r2
		cis := f.fn.blocks[b]
		for i := range cis {
			ci := &cis[i]
			if ci.skip {
				continue
			}
			budget--
			if budget < 0 {
				panic(specAbort{})
			}
			switch ci.ins.(type) {
			case *ssa.Jump:
				walk(f.fn.fn.Blocks[b].Succs[0].Index, b, cond, r2)
				return
			case *ssa.If:
				cc := asTerm(st.val(f, ci.ops[0]))
				ss := f.fn.fn.Blocks[b].Succs
				walk(ss[0].Index, b, st.e.c.And(cond, cc), r2)
				walk(ss[1].Index, b, st.e.c.And(cond, st.e.c.Not(cc)), r2)
				return
			}
			f.block, f.ip = b, i
			if st.multi {
				if _, vis := st.visible(f, ci); vis {
					panic(specAbort{})
				}
			}
			v := st.pure(f, ci)
			if ci.dst >= 0 {
				r2[ci.dst] = v
			}
		}
		panic(specAbort{})
	}
	walk(succs[0].Index, sblock, c, saved)
	walk(succs[1].Index, sblock, st.e.c.Not(c), saved)
	return len(edges) > 0
}

type diamKey struct {
	f *CFunc
	b int
}

// diamondOK: the region between b and j is acyclic and contains only pure
// instructions and no phis (other than in j).
func (e *Engine) diamondOK(cf *CFunc, b, j int) bool {
	k := diamKey{cf, b}
	if v, ok := e.goodDiamond[k]; ok {
		return v
	}
	ok := true
	seen := map[int]bool{}
	n := 0
	var walk func(x int)
	walk = func(x int) {
		if x == j || seen[x] || !ok {
			return
		}
		if x <= b { // back edge
			ok = false
			return
		}
		seen[x] = true
		for i := range cf.blocks[x] {
			n++
			ci := &cf.blocks[x][i]
			if ci.skip {
				continue
			}
			switch ins := ci.ins.(type) {
			case *ssa.Jump, *ssa.If, *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.Field, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Index, *ssa.Extract:
			case *ssa.UnOp:
				if ins.Op == token.ARROW {
					ok = false
				}
			case *ssa.Call:
				bi, is := ins.Call.Value.(*ssa.Builtin)
				if !is || (bi.Name() != "len" && bi.Name() != "cap") {
					ok = false
				}
			default:
				ok = false
			}
		}
		for _, s := range cf.fn.Blocks[x].Succs {
			walk(s.Index)
		}
	}
	for _, s := range cf.fn.Blocks[b].Succs {
		walk(s.Index)
	}
	if n > 60 {
		ok = false
	}
	e.goodDiamond[k] = ok
	return ok
}

func (st *State) finishDiamond(f *Frame, j int, edges []diamEdge) bool {
	b := f.fn.blocks[j]
	blk := f.fn.fn.Blocks[j]
	n := 0
	var vals []Value
	for ; n < len(b); n++ {
		if _, ok := b[n].ins.(*ssa.Phi); !ok {
			break
		}
		var acc Value
		for i, ed := range edges {
			k := -1
			for q, p := range blk.Preds {
				if p.Index == ed.pred {
					k = q
					break
				}
			}
			sv := f.regs
			f.regs = ed.regs
			v := st.val(f, b[n].ops[k])
			f.regs = sv
			if i == 0 {
				acc = v
				continue
			}
			m, ok := st.e.mergeVal(ed.cond, v, acc)
			if !ok {
				return false
			}
			acc = m
		}
		vals = append(vals, acc)
	}
	regs := append([]Value(nil), f.regs...)
	for i := 0; i < n; i++ {
		regs[b[i].dst] = vals[i]
	}
	f.regs = regs
	f.prev, f.block, f.ip = f.block, j, n
	st.e.ndiamond++
	return true
}

// mergeVal builds "if c then a else b" when the values are mergeable.
func (e *Engine) mergeVal(c *Term, a, b Value) (Value, bool) {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.sort != y.sort {
			return nil, false
		}
		return e.c.Ite(c, x, y), true
	case StrV:
		y, ok := b.(StrV)
		if !ok || x.Len() != y.Len() {
			return nil, false
		}
		if x.b == nil && y.b == nil && x.s == y.s {
			return x, true
		}
		xb, yb := e.strBytes(x), e.strBytes(y)
		out := make([]*Term, len(xb))
		for i := range out {
			out[i] = e.c.Ite(c, xb[i], yb[i])
		}
		return mkStr(out), true
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || len(x.c) != len(y.c) {
			return nil, false
		}
		if x == y {
			return x, true
		}
		out := make([]Value, len(x.c))
		for i := range out {
			v, ok := e.mergeVal(c, x.c[i], y.c[i])
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return &Agg{out}, true
	case *Tuple:
		y, ok := b.(*Tuple)
		if !ok || len(x.c) != len(y.c) {
			return nil, false
		}
		out := make([]Value, len(x.c))
		for i := range out {
			v, ok := e.mergeVal(c, x.c[i], y.c[i])
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return &Tuple{out}, true
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok || x.t != y.t {
			return nil, false
		}
		if x.t == nil {
			return x, true
		}
		v, ok := e.mergeVal(c, x.v, y.v)
		if !ok {
			return nil, false
		}
		return IfaceV{x.t, v}, true
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if x == nil || y == nil || x.fn != y.fn || x.bi != y.bi || len(x.b) != len(y.b) {
			return nil, false
		}
		out := make([]Value, len(x.b))
		for i := range out {
			v, ok := e.mergeVal(c, x.b[i], y.b[i])
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return &FuncV{fn: x.fn, b: out}, true
	case nil:
		if b == nil {
			return nil, true
		}
		return nil, false
	case *SymPtr:
		y, ok := b.(*SymPtr)
		if !ok || x.o != y.o || x.base != y.base || x.stride != y.stride || x.n != y.n || x.add != y.add {
			return nil, false
		}
		z := *x
		z.idx = e.c.Ite(c, x.idx, y.idx)
		return &z, true
	}
	if a == b {
		return a, true
	}
	return nil, false
}

// ---- memory access

func (st *State) checkNil(p Value) {
	if q, ok := p.(Ptr); ok && q.o == 0 {
		st.throw("invalid memory address or nil pointer dereference")
	}
}

func (st *State) loadCells(p Value, n int32) []Value {
	switch q := p.(type) {
	case Ptr:
		if q.o == 0 {
			st.throw("invalid memory address or nil pointer dereference")
		}
		o := st.obj(q.o)
		if o.uninit {
			panic(unsupported("read of uninitialised global " + o.desc))
		}
		if int(q.off+n) > len(o.cells) {
			panic(unsupported(fmt.Sprintf("load outside object (off %d+%d of %d) %s", q.off, n, len(o.cells), o.desc)))
		}
		return o.cells[q.off : q.off+n]
	case *SymPtr:
		o := st.obj(q.o)
		if o.uninit {
			panic(unsupported("read of uninitialised global " + o.desc))
		}
		out := make([]Value, n)
		if n == 1 {
			at := func(k int) *Term {
				t, _ := o.cells[q.base+int32(k)*q.stride+q.add].(*Term)
				return t
			}
			if t := at(0); t != nil && t.sort.K == SBV && t.sort.W <= 64 {
				if t, ok := st.e.c.constTable(q.idx, int(q.n), func(k int) *Term {
					if t := at(k); t != nil {
						return t
					}
					return st.e.c.True
				}); ok {
					out[0] = t
					return out
				}
			}
		}
		okAll := true
		for j := int32(0); j < n && okAll; j++ {
			acc := o.cells[q.base+(q.n-1)*q.stride+q.add+j]
			for i := q.n - 2; i >= 0; i-- {
				v, ok := st.e.mergeVal(st.e.c.Eq(q.idx, st.e.c.BV(64, uint64(i))), o.cells[q.base+i*q.stride+q.add+j], acc)
				if !ok {
					okAll = false
					break
				}
				acc = v
			}
			out[j] = acc
		}
		if okAll {
			return out
		}
		i := int32(st.concretize(q.idx, int(q.n)+2, "element index"))
		off := q.base + i*q.stride + q.add
		return o.cells[off : off+n]
	}
	panic(unsupported(fmt.Sprintf("load through %T", p)))
}

func (st *State) load(p Value, t types.Type) Value {
	if isAgg(t) {
		n := st.e.ly.of(t).n
		cs := st.loadCells(p, n)
		return &Agg{append([]Value(nil), cs...)}
	}
	v := st.loadCells(p, 1)[0]
	return st.retype(v, t)
}

// retype checks a loaded cell against the static type (unsafe casts).
func (st *State) retype(v Value, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.String {
			if s, ok := v.(SliceV); ok && s.cell == 1 {
				return st.sliceToStr(s)
			}
			if _, ok := v.(StrV); !ok {
				panic(unsupported("unsafe load of string"))
			}
			return v
		}
		if k := basicKind(t); k.ok {
			x, ok := v.(*Term)
			if !ok {
				panic(unsupported(fmt.Sprintf("unsafe load of %v from %T", t, v)))
			}
			if k.boolk != (x.sort.K == SBool) || k.float != (x.sort.K == SFP) || (!k.boolk && k.w != x.sort.W) {
				return st.bitcast(x, k)
			}
		}
	case *types.Slice:
		if _, ok := v.(SliceV); !ok {
			panic(unsupported(fmt.Sprintf("unsafe load of slice from %T", v)))
		}
	}
	return v
}

func (st *State) bitcast(x *Term, k intKind) Value {
	e := st.e
	if k.float && x.sort.K == SBV && x.sort.W == k.w {
		return e.c.FFromBits(x)
	}
	if !k.float && !k.boolk && x.sort.K == SFP && x.sort.W == k.w {
		return st.floatBits(x)
	}
	panic(unsupported("unsafe load of differently sized scalar"))
}

func (st *State) floatBits(x *Term) *Term {
	if x.IsConst() {
		return st.e.c.BV(x.sort.W, x.v)
	}
	if x.op == OFFromBits {
		return x.a[0]
	}
	b := st.freshInput("fbits", x.sort.W)
	st.assume(st.e.c.mk(OEq, Sort{SBool, 1}, 0, "", st.e.c.FFromBits(b), x))
	return b
}

// assume adds t to the path condition (kills the path when infeasible).
func (st *State) assume(t *Term) {
	if t.IsConst() {
		if t.v == 0 {
			panic(killPath{"assume"})
		}
		return
	}
	if st.spec {
		panic(specAbort{})
	}
	r, m := st.feasible(t)
	switch r {
	case Unsat:
		panic(killPath{"assume"})
	case Unknown:
		st.e.noteUnknown("assume")
	}
	st.addPC(t)
	st.model = m
}

func (st *State) storeCells(p Value, vs []Value) {
	switch q := p.(type) {
	case Ptr:
		if q.o == 0 {
			st.throw("invalid memory address or nil pointer dereference")
		}
		o := st.wobj(q.o)
		if int(q.off)+len(vs) > len(o.cells) {
			panic(unsupported(fmt.Sprintf("store outside object %s", o.desc)))
		}
		copy(o.cells[q.off:], vs)
		o.uninit = false
		if o.shared {
			for _, v := range vs {
				st.share(v)
			}
		}
		return
	case *SymPtr:
		o := st.obj(q.o)
		n := int32(len(vs))
		news := make([]Value, q.n*n)
		ok := true
		for i := int32(0); i < q.n && ok; i++ {
			c := st.e.c.Eq(q.idx, st.e.c.BV(64, uint64(i)))
			for j := int32(0); j < n; j++ {
				v, o2 := st.e.mergeVal(c, vs[j], o.cells[q.base+i*q.stride+q.add+j])
				if !o2 {
					ok = false
					break
				}
				news[i*n+j] = v
			}
		}
		if !ok {
			i := int32(st.concretize(q.idx, int(q.n)+2, "element index"))
			st.storeCells(Ptr{q.o, q.base + i*q.stride + q.add}, vs)
			return
		}
		w := st.wobj(q.o)
		for i := int32(0); i < q.n; i++ {
			for j := int32(0); j < n; j++ {
				w.cells[q.base+i*q.stride+q.add+j] = news[i*n+j]
			}
		}
		if w.shared {
			for _, v := range vs {
				st.share(v)
			}
		}
		return
	}
	panic(unsupported(fmt.Sprintf("store through %T", p)))
}

func (st *State) store(p Value, v Value, t types.Type) {
	if a, ok := v.(*Agg); ok {
		st.storeCells(p, a.c)
		if len(a.c) == 0 {
			st.checkNil(p)
		}
		return
	}
	st.storeCells(p, []Value{v})
}

// ---- pure (register-producing) instructions

func (st *State) pure(f *Frame, ci *CInstr) Value {
	e := st.e
	switch ins := ci.ins.(type) {
	case *ssa.BinOp:
		return st.binop(ins.Op, st.val(f, ci.ops[0]), st.val(f, ci.ops[1]), ins.X.Type(), ins.Y.Type())
	case *ssa.UnOp:
		x := st.val(f, ci.ops[0])
		switch ins.Op {
		case token.MUL:
			return st.load(x, ins.Type())
		case token.ARROW:
			return st.chanRecv(x.(ChanV), ins.CommaOk, ins.X.Type().Underlying().(*types.Chan).Elem())
		case token.NOT:
			return e.c.Not(asTerm(x))
		case token.SUB:
			if a, ok := x.(*Agg); ok {
				return &Agg{[]Value{e.c.FNeg(asTerm(a.c[0])), e.c.FNeg(asTerm(a.c[1]))}}
			}
			t := asTerm(x)
			if t.sort.K == SFP {
				return e.c.FNeg(t)
			}
			return e.c.Neg(t)
		case token.XOR:
			return e.c.BNot(asTerm(x))
		}
	case *ssa.Call: // only len/cap reach here during speculation
		fn, args := st.callee(f, &ins.Call, ci.ops)
		v, _ := st.builtin(fn.(*FuncV).bi, args, &ins.Call)
		return v
	case *ssa.ChangeType, *ssa.ChangeInterface:
		return st.val(f, ci.ops[0])
	case *ssa.Convert:
		return st.convert(st.val(f, ci.ops[0]), ins.X.Type(), ins.Type())
	case *ssa.MultiConvert:
		return st.convert(st.val(f, ci.ops[0]), ins.X.Type(), ins.Type())
	case *ssa.SliceToArrayPointer:
		s := st.val(f, ci.ops[0]).(SliceV)
		at := ins.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if int64(s.len) < at.Len() {
			st.throw("cannot convert slice to array pointer: length too short")
		}
		return Ptr{s.o, s.off}
	case *ssa.MakeInterface:
		return IfaceV{e.canon(ins.X.Type()), st.val(f, ci.ops[0])}
	case *ssa.MakeClosure:
		fv := &FuncV{fn: ins.Fn.(*ssa.Function)}
		for _, o := range ci.ops[1:] {
			fv.b = append(fv.b, st.val(f, o))
		}
		return fv
	case *ssa.MakeMap:
		mt := ins.Type().Underlying().(*types.Map)
		return MapV{st.alloc(&Obj{m: &MapObj{kt: mt.Key(), vt: mt.Elem()}})}
	case *ssa.MakeChan:
		n := st.toIndex(asTerm(st.val(f, ci.ops[0])), ins.Size.Type(), "makechan: size out of range", 64)
		el := ins.Type().Underlying().(*types.Chan).Elem()
		return ChanV{st.alloc(&Obj{ch: &ChanObj{cap: int32(n), zero: e.zero(el)}, desc: fmt.Sprint(e.prog.Fset.Position(ins.Pos()))})}
	case *ssa.MakeSlice:
		return st.makeSlice(ins.Type(), asTerm(st.val(f, ci.ops[0])), asTerm(st.val(f, ci.ops[1])), ins.Len.Type(), ins.Cap.Type())
	case *ssa.Slice:
		return st.sliceOp(f, ci, ins)
	case *ssa.FieldAddr:
		x := st.val(f, ci.ops[0])
		stt := ins.X.Type().Underlying().(*types.Pointer).Elem()
		off := e.ly.of(stt).fields[ins.Field]
		switch p := x.(type) {
		case Ptr:
			if p.o == 0 {
				st.throw("invalid memory address or nil pointer dereference")
			}
			return Ptr{p.o, p.off + off}
		case *SymPtr:
			q := *p
			q.add += off
			return &q
		}
		panic(unsupported("FieldAddr"))
	case *ssa.Field:
		a := st.val(f, ci.ops[0]).(*Agg)
		return st.sub(a, ins.X.Type(), ins.Field)
	case *ssa.IndexAddr:
		return st.indexAddr(st.val(f, ci.ops[0]), asTerm(st.val(f, ci.ops[1])), ins.X.Type(), ins.Index.Type())
	case *ssa.Index:
		x := st.val(f, ci.ops[0])
		idx := asTerm(st.val(f, ci.ops[1]))
		if s, ok := x.(StrV); ok {
			return st.strIndex(s, idx, ins.Index.Type())
		}
		a := x.(*Agg)
		at := ins.X.Type().Underlying().(*types.Array)
		cn := e.ly.of(at.Elem()).n
		i := st.boundIndex(idx, ins.Index.Type(), int(at.Len()))
		if !i.IsConst() {
			i = e.c.BV(64, st.concretize(i, int(at.Len())+2, "array index"))
		}
		off := int32(i.v) * cn
		if isAgg(at.Elem()) {
			return &Agg{a.c[off : off+cn]}
		}
		return a.c[off]
	case *ssa.Lookup:
		x := st.val(f, ci.ops[0])
		if s, ok := x.(StrV); ok {
			return st.strIndex(s, asTerm(st.val(f, ci.ops[1])), ins.Index.Type())
		}
		return st.mapLookup(x.(MapV), st.val(f, ci.ops[1]), ins.X.Type().Underlying().(*types.Map).Elem(), ins.CommaOk)
	case *ssa.TypeAssert:
		return st.typeAssert(st.val(f, ci.ops[0]).(IfaceV), ins)
	case *ssa.Extract:
		return st.val(f, ci.ops[0]).(*Tuple).c[ins.Index]
	case *ssa.Range:
		x := st.val(f, ci.ops[0])
		if s, ok := x.(StrV); ok {
			return IterV{st.alloc(&Obj{it: &IterObj{str: &s}})}
		}
		m := x.(MapV)
		it := &IterObj{m: m.o}
		if m.o != 0 {
			it.limit = st.obj(m.o).m.serial
		}
		return IterV{st.alloc(&Obj{it: it})}
	case *ssa.Next:
		return st.iterNext(st.val(f, ci.ops[0]).(IterV), ins)
	case *ssa.Phi:
		panic("phi outside jump")
	}
	panic(unsupported(fmt.Sprintf("instruction %T %v", ci.ins, ci.ins)))
}

func (st *State) sub(a *Agg, t types.Type, field int) Value {
	l := st.e.ly.of(t)
	ft := t.Underlying().(*types.Struct).Field(field).Type()
	off := l.fields[field]
	if isAgg(ft) {
		n := st.e.ly.of(ft).n
		return &Agg{a.c[off : off+n : off+n]}
	}
	return a.c[off]
}

// toIndex turns an integer into a concrete non-negative number.
func (st *State) toIndex(t *Term, ty types.Type, msg string, limit int) int64 {
	k := basicKind(ty)
	x := st.e.c.Resize(t, 64, k.signed)
	if !st.decide(st.e.c.Sle(st.e.c.BV(64, 0), x)) {
		st.throw(msg)
	}
	return int64(st.concretize(x, limit, msg))
}

const maxAlloc = 1 << 22

func (st *State) makeSlice(t types.Type, ln, cp *Term, lt, ct types.Type) Value {
	e := st.e
	el := t.Underlying().(*types.Slice).Elem()
	n := st.e.c.Resize(ln, 64, basicKind(lt).signed)
	c := st.e.c.Resize(cp, 64, basicKind(ct).signed)
	lim := e.c.BV(64, uint64(1)<<47)
	if !st.decide(e.c.And(e.c.Sle(e.c.BV(64, 0), n), e.c.Slt(n, lim))) {
		st.throw("makeslice: len out of range")
	}
	if !st.decide(e.c.And(e.c.Sle(n, c), e.c.Slt(c, lim))) {
		st.throw("makeslice: cap out of range")
	}
	nn := int64(st.concretize(n, e.maxConc, "slice length"))
	cc := int64(st.concretize(c, e.maxConc, "slice capacity"))
	if cc > maxAlloc {
		panic(unsupported(fmt.Sprintf("allocation of %d elements", cc)))
	}
	return st.newSlice(el, int32(nn), int32(cc))
}

func (st *State) newSlice(el types.Type, n, c int32) SliceV {
	cn := st.e.ly.of(el).n
	z := st.e.zeroCells(el, nil)
	cells := make([]Value, 0, int(c)*int(cn))
	for i := int32(0); i < c; i++ {
		cells = append(cells, z...)
	}
	id := st.allocCells(cells, el)
	return SliceV{id, 0, n, c, cn}
}

// boundIndex checks 0 <= idx < n (panicking path forked) and returns idx as 64 bits.
func (st *State) boundIndex(idx *Term, ty types.Type, n int) *Term {
	e := st.e
	x := e.c.Resize(idx, 64, basicKind(ty).signed)
	if !st.decide(e.c.Ult(x, e.c.BV(64, uint64(n)))) {
		st.throw(fmt.Sprintf("index out of range [%v] with length %d", x.pretty(2), n))
	}
	return x
}

func (st *State) indexAddr(x Value, idx *Term, xt, it types.Type) Value {
	e := st.e
	var o, base, cn int32
	var n int
	switch u := xt.Underlying().(type) {
	case *types.Slice:
		s := x.(SliceV)
		o, base, cn, n = s.o, s.off, s.cell, int(s.len)
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		cn, n = e.ly.of(at.Elem()).n, int(at.Len())
		switch p := x.(type) {
		case Ptr:
			if p.o == 0 {
				st.throw("invalid memory address or nil pointer dereference")
			}
			o, base = p.o, p.off
		case *SymPtr:
			i := st.boundIndex(idx, it, n)
			iv := st.concretize(i, n+2, "nested array index")
			q := *p
			q.add += int32(iv) * cn
			return &q
		}
	}
	i := st.boundIndex(idx, it, n)
	if i.IsConst() {
		return Ptr{o, base + int32(i.v)*cn}
	}
	if n > 4096 {
		panic(unsupported("symbolic index into large array"))
	}
	return &SymPtr{o, base, cn, int32(n), i, 0}
}

func (st *State) strIndex(s StrV, idx *Term, it types.Type) Value {
	e := st.e
	n := s.Len()
	i := st.boundIndex(idx, it, n)
	if i.IsConst() {
		return strTerm(e, s, int(i.v))
	}
	if t, ok := e.c.constTable(i, n, func(k int) *Term { return strTerm(e, s, k) }); ok {
		return t
	}
	acc := strTerm(e, s, n-1)
	for k := n - 2; k >= 0; k-- {
		acc = e.c.Ite(e.c.Eq(i, e.c.BV(64, uint64(k))), strTerm(e, s, k), acc)
	}
	return acc
}

func (st *State) sliceOp(f *Frame, ci *CInstr, ins *ssa.Slice) Value {
	e := st.e
	x := st.val(f, ci.ops[0])
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		var o operand
		o = e.operand(f.fn, v)
		return e.c.Resize(asTerm(st.val(f, o)), 64, basicKind(v.Type()).signed)
	}
	lo, hi, mx := get(ins.Low), get(ins.High), get(ins.Max)
	var ln, cp int64
	var sv SliceV
	isStr := false
	var str StrV
	switch u := ins.X.Type().Underlying().(type) {
	case *types.Slice:
		sv = x.(SliceV)
		ln, cp = int64(sv.len), int64(sv.cap)
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		p, ok := x.(Ptr)
		if !ok {
			panic(unsupported("slicing through symbolic pointer"))
		}
		if p.o == 0 {
			st.throw("invalid memory address or nil pointer dereference")
		}
		ln, cp = at.Len(), at.Len()
		sv = SliceV{p.o, p.off, int32(ln), int32(cp), e.ly.of(at.Elem()).n}
	default:
		isStr = true
		str = x.(StrV)
		ln = int64(str.Len())
		cp = ln
	}
	if lo == nil {
		lo = e.c.BV(64, 0)
	}
	if hi == nil {
		hi = e.c.BV(64, uint64(ln))
	}
	if mx == nil {
		mx = e.c.BV(64, uint64(cp))
	}
	capT := e.c.BV(64, uint64(cp))
	okc := e.c.And(e.c.Ule(mx, capT), e.c.Ule(hi, mx), e.c.Ule(lo, hi))
	if !st.decide(okc) {
		st.throw(fmt.Sprintf("slice bounds out of range [%v:%v] with capacity %d", lo.pretty(2), hi.pretty(2), cp))
	}
	l := int64(st.concretize(lo, int(cp)+3, "slice low bound"))
	h := int64(st.concretize(hi, int(cp)+3, "slice high bound"))
	m := int64(st.concretize(mx, int(cp)+3, "slice max bound"))
	if isStr {
		if str.b != nil {
			return mkStr(str.b[l:h:h])
		}
		return StrV{s: str.s[l:h]}
	}
	if sv.o == 0 {
		return sv // nil[0:0]
	}
	return SliceV{sv.o, sv.off + int32(l)*sv.cell, int32(h - l), int32(m - l), sv.cell}
}

func (st *State) sliceCells(s SliceV) []Value {
	if s.len == 0 {
		return nil
	}
	o := st.obj(s.o)
	return o.cells[s.off : s.off+s.len*s.cell]
}

func (st *State) sliceToStr(s SliceV) StrV {
	cs := st.sliceCells(s)
	b := make([]*Term, len(cs))
	for i, c := range cs {
		b[i] = asTerm(c)
	}
	return mkStr(b)
}

func (st *State) bytesOf(v Value) []*Term {
	switch x := v.(type) {
	case StrV:
		return st.e.strBytes(x)
	case SliceV:
		cs := st.sliceCells(x)
		b := make([]*Term, len(cs))
		for i, c := range cs {
			b[i] = asTerm(c)
		}
		return b
	}
	panic(unsupported("bytesOf"))
}

func (st *State) newBytes(b []*Term) SliceV {
	cells := make([]Value, len(b))
	for i, t := range b {
		cells[i] = t
	}
	id := st.allocCells(cells, types.Typ[types.Uint8])
	return SliceV{id, 0, int32(len(b)), int32(len(b)), 1}
}

// ---- operators

func (st *State) binop(op token.Token, x, y Value, xt, yt types.Type) Value {
	e := st.e
	switch op {
	case token.EQL:
		return st.eq(x, y, xt)
	case token.NEQ:
		return e.c.Not(st.eq(x, y, xt))
	}
	if a, ok := x.(StrV); ok {
		b := y.(StrV)
		switch op {
		case token.ADD:
			if a.b == nil && b.b == nil {
				return StrV{s: a.s + b.s}
			}
			return mkStr(append(append([]*Term{}, e.strBytes(a)...), e.strBytes(b)...))
		case token.LSS:
			return e.strLess(a, b)
		case token.GTR:
			return e.strLess(b, a)
		case token.LEQ:
			return e.c.Not(e.strLess(b, a))
		case token.GEQ:
			return e.c.Not(e.strLess(a, b))
		}
	}
	if a, ok := x.(*Agg); ok { // complex
		b := y.(*Agg)
		ar, ai, br, bi := asTerm(a.c[0]), asTerm(a.c[1]), asTerm(b.c[0]), asTerm(b.c[1])
		switch op {
		case token.ADD:
			return &Agg{[]Value{e.c.FBin(OFAdd, ar, br), e.c.FBin(OFAdd, ai, bi)}}
		case token.SUB:
			return &Agg{[]Value{e.c.FBin(OFSub, ar, br), e.c.FBin(OFSub, ai, bi)}}
		}
		panic(unsupported("complex arithmetic"))
	}
	a, b := asTerm(x), asTerm(y)
	k := basicKind(xt)
	if k.boolk {
		switch op {
		case token.AND:
			return e.c.And(a, b)
		case token.OR:
			return e.c.Or(a, b)
		}
	}
	if k.float {
		switch op {
		case token.ADD:
			return e.c.FBin(OFAdd, a, b)
		case token.SUB:
			return e.c.FBin(OFSub, a, b)
		case token.MUL:
			return e.c.FBin(OFMul, a, b)
		case token.QUO:
			return e.c.FBin(OFDiv, a, b)
		case token.LSS:
			return e.c.FLt(a, b)
		case token.LEQ:
			return e.c.FLe(a, b)
		case token.GTR:
			return e.c.FLt(b, a)
		case token.GEQ:
			return e.c.FLe(b, a)
		}
	}
	switch op {
	case token.ADD:
		return e.c.Add(a, b)
	case token.SUB:
		return e.c.Sub(a, b)
	case token.MUL:
		return e.c.Mul(a, b)
	case token.QUO, token.REM:
		if st.decide(e.c.Eq(b, e.c.BV(b.sort.W, 0))) {
			st.throw("integer divide by zero")
		}
		switch {
		case op == token.QUO && k.signed:
			return e.c.Sdiv(a, b)
		case op == token.QUO:
			return e.c.Udiv(a, b)
		case k.signed:
			return e.c.Srem(a, b)
		}
		return e.c.Urem(a, b)
	case token.AND:
		return e.c.BAnd(a, b)
	case token.OR:
		return e.c.BOr(a, b)
	case token.XOR:
		return e.c.BXor(a, b)
	case token.AND_NOT:
		return e.c.BAnd(a, e.c.BNot(b))
	case token.SHL, token.SHR:
		yk := basicKind(yt)
		if yk.signed {
			if st.decide(e.c.Slt(b, e.c.BV(b.sort.W, 0))) {
				st.throw("negative shift amount")
			}
		}
		w := a.sort.W
		var cnt *Term
		if b.sort.W > w {
			big := e.c.Not(e.c.Ult(b, e.c.BV(b.sort.W, uint64(w))))
			cnt = e.c.Ite(big, e.c.BV(w, uint64(w)), e.c.Extract(b, w-1, 0))
		} else {
			cnt = e.c.Zext(b, w)
		}
		if op == token.SHL {
			return e.c.Shl(a, cnt)
		}
		if k.signed {
			return e.c.Ashr(a, cnt)
		}
		return e.c.Lshr(a, cnt)
	case token.LSS:
		return e.less(a, b, k.signed)
	case token.GTR:
		return e.less(b, a, k.signed)
	case token.LEQ:
		return e.c.Not(e.less(b, a, k.signed))
	case token.GEQ:
		return e.c.Not(e.less(a, b, k.signed))
	}
	panic(unsupported("binop " + op.String()))
}

func (e *Engine) less(a, b *Term, signed bool) *Term {
	if signed {
		return e.c.Slt(a, b)
	}
	return e.c.Ult(a, b)
}

func (e *Engine) strLess(a, b StrV) *Term {
	if a.b == nil && b.b == nil {
		return e.c.Bool(a.s < b.s)
	}
	n := min(a.Len(), b.Len())
	acc := e.c.Bool(a.Len() < b.Len())
	for i := n - 1; i >= 0; i-- {
		x, y := strTerm(e, a, i), strTerm(e, b, i)
		acc = e.c.Or(e.c.Ult(x, y), e.c.And(e.c.Eq(x, y), acc))
	}
	return acc
}

// eq builds the term for Go equality; may panic for uncomparable types.
func (st *State) eq(x, y Value, t types.Type) *Term {
	e := st.e
	switch a := x.(type) {
	case *Term:
		b, ok := y.(*Term)
		if !ok {
			panic(unsupported("comparison of mismatching values"))
		}
		return e.c.Eq(a, b)
	case StrV:
		b := y.(StrV)
		if a.Len() != b.Len() {
			return e.c.False
		}
		if a.b == nil && b.b == nil {
			return e.c.Bool(a.s == b.s)
		}
		var cs []*Term
		for i := 0; i < a.Len(); i++ {
			cs = append(cs, e.c.Eq(strTerm(e, a, i), strTerm(e, b, i)))
		}
		return e.c.And(cs...)
	case Ptr:
		switch b := y.(type) {
		case Ptr:
			return e.c.Bool(a == b)
		case *SymPtr:
			return st.eqSym(b, a)
		}
	case *SymPtr:
		switch b := y.(type) {
		case Ptr:
			return st.eqSym(a, b)
		case *SymPtr:
			if a.o != b.o {
				return e.c.False
			}
			i := int32(st.concretize(a.idx, int(a.n)+2, "pointer compare"))
			return st.eqSym(b, Ptr{a.o, a.base + i*a.stride + a.add})
		}
	case SliceV: // only against nil
		b := y.(SliceV)
		if b.o == 0 || a.o == 0 {
			return e.c.Bool(a.o == b.o)
		}
	case MapV:
		b := y.(MapV)
		return e.c.Bool(a.o == b.o)
	case ChanV:
		b := y.(ChanV)
		return e.c.Bool(a.o == b.o)
	case *FuncV:
		b, _ := y.(*FuncV)
		if a == nil || b == nil {
			return e.c.Bool((a == nil) == (b == nil))
		}
	case TypeV:
		b := y.(TypeV)
		return e.c.Bool(e.canon(a.t) == e.canon(b.t))
	case IfaceV:
		b, ok := y.(IfaceV)
		if !ok {
			panic(unsupported("interface compared with concrete value"))
		}
		if a.t != b.t || a.t == nil {
			return e.c.Bool(a.t == b.t)
		}
		if !types.Comparable(a.t) {
			st.throw("comparing uncomparable type " + a.t.String())
		}
		return st.eq(a.v, b.v, a.t)
	case *Agg:
		b := y.(*Agg)
		var cs []*Term
		st.eqCells(a.c, b.c, t, &cs)
		return e.c.And(cs...)
	}
	panic(unsupported(fmt.Sprintf("comparison of %T and %T", x, y)))
}

func (st *State) eqCells(a, b []Value, t types.Type, cs *[]*Term) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		off := int32(0)
		for i := 0; i < u.NumFields(); i++ {
			n := st.e.ly.of(u.Field(i).Type()).n
			if u.Field(i).Name() != "_" {
				st.eqCells(a[off:off+n], b[off:off+n], u.Field(i).Type(), cs)
			}
			off += n
		}
	case *types.Array:
		n := st.e.ly.of(u.Elem()).n
		for i := int32(0); i < int32(u.Len()); i++ {
			st.eqCells(a[i*n:i*n+n], b[i*n:i*n+n], u.Elem(), cs)
		}
	default:
		for i := range a {
			*cs = append(*cs, st.eq(a[i], b[i], t))
		}
	}
}

func (st *State) eqSym(a *SymPtr, b Ptr) *Term {
	if a.o != b.o {
		return st.e.c.False
	}
	var cs []*Term
	for i := int32(0); i < a.n; i++ {
		if a.base+i*a.stride+a.add == b.off {
			cs = append(cs, st.e.c.Eq(a.idx, st.e.c.BV(64, uint64(i))))
		}
	}
	return st.e.c.Or(cs...)
}

func (st *State) convert(x Value, from, to types.Type) Value {
	e := st.e
	fu, tu := from.Underlying(), to.Underlying()
	if tp, ok := tu.(*types.Basic); ok && tp.Kind() == types.UnsafePointer {
		if t, ok := x.(*Term); ok {
			if t.IsConst() && t.v == 0 {
				return Ptr{}
			}
			panic(unsupported("uintptr to unsafe.Pointer"))
		}
		return x
	}
	if fp, ok := fu.(*types.Basic); ok && fp.Kind() == types.UnsafePointer {
		if k := basicKind(to); k.ok {
			p, ok := x.(Ptr)
			if !ok {
				panic(unsupported("symbolic pointer to uintptr"))
			}
			return e.c.BV(k.w, uint64(p.o)<<24|uint64(p.off)<<3)
		}
		return x
	}
	if s, ok := tu.(*types.Slice); ok {
		if str, ok := x.(StrV); ok {
			switch basicKind(s.Elem()).w {
			case 8:
				return st.newBytes(e.strBytes(str))
			case 32:
				return st.strToRunes(str)
			}
		}
		return x
	}
	if b, ok := tu.(*types.Basic); ok && b.Info()&types.IsString != 0 {
		switch v := x.(type) {
		case StrV:
			return v
		case SliceV:
			el := fu.(*types.Slice).Elem()
			if basicKind(el).w == 8 {
				return st.sliceToStr(v)
			}
			var out []*Term
			for _, c := range st.sliceCells(v) {
				out = append(out, st.encodeRune(asTerm(c))...)
			}
			return mkStr(out)
		case *Term:
			r := e.c.Resize(v, 64, basicKind(from).signed)
			if v.sort.W > 32 {
				inr := e.c.And(e.c.Sle(e.c.BV(64, 0), r), e.c.Slt(r, e.c.BV(64, 0x110000)))
				if !st.decide(inr) {
					return StrV{s: "\uFFFD"}
				}
			}
			return mkStr(st.encodeRune(e.c.Resize(r, 32, true)))
		}
	}
	k1, k2 := basicKind(from), basicKind(to)
	if k1.ok && k2.ok {
		t := asTerm(x)
		switch {
		case k1.boolk || k2.boolk:
			return t
		case k1.float && k2.float:
			return e.c.FToF(t, k2.w)
		case k1.float:
			return st.floatToInt(t, k2)
		case k2.float:
			return e.c.IntToF(t, k2.w, k1.signed)
		}
		return e.c.Resize(t, k2.w, k1.signed)
	}
	if isAgg(from) && isAgg(to) {
		if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsComplex != 0 {
			a := x.(*Agg)
			w := uint8(64)
			if tu.(*types.Basic).Kind() == types.Complex64 {
				w = 32
			}
			return &Agg{[]Value{e.c.FToF(asTerm(a.c[0]), w), e.c.FToF(asTerm(a.c[1]), w)}}
		}
		return x
	}
	switch tu.(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return x
	}
	panic(unsupported(fmt.Sprintf("convert %v to %v", from, to)))
}

// floatToInt: in range values truncate; out of range results are
// implementation-defined in Go and modelled as an arbitrary value.
func (st *State) floatToInt(t *Term, k intKind) Value {
	e := st.e
	if t.IsConst() {
		f := fval(t)
		if math.IsNaN(f) {
			return st.freshInput("fconv", k.w)
		}
		lo, hi := 0.0, math.Ldexp(1, int(k.w))
		if k.signed {
			lo, hi = -math.Ldexp(1, int(k.w)-1), math.Ldexp(1, int(k.w)-1)
		}
		tr := math.Trunc(f)
		if tr < lo || tr >= hi {
			return st.freshInput("fconv", k.w)
		}
		return e.c.FToInt(t, k.w, k.signed)
	}
	lo, hi := -1.0, math.Ldexp(1, int(k.w))
	var inLo *Term
	if k.signed {
		lo = -math.Ldexp(1, int(k.w)-1)
		hi = math.Ldexp(1, int(k.w)-1)
	}
	if k.signed && k.w < 32 || k.signed && k.w == 32 && t.sort.W == 64 {
		inLo = e.c.FLt(e.c.FP(t.sort.W, lo-1), t)
	} else if k.signed {
		inLo = e.c.FLe(e.c.FP(t.sort.W, lo), t)
	} else {
		inLo = e.c.FLt(e.c.FP(t.sort.W, lo), t)
	}
	in := e.c.And(inLo, e.c.FLt(t, e.c.FP(t.sort.W, hi)))
	if st.decide(in) {
		return e.c.FToInt(t, k.w, k.signed)
	}
	return st.freshInput("fconv", k.w)
}

func (st *State) encodeRune(r *Term) []*Term {
	e := st.e
	if r.IsConst() {
		var out []*Term
		for _, b := range []byte(string(rune(int32(r.v)))) {
			out = append(out, e.c.BV(8, uint64(b)))
		}
		return out
	}
	c32 := func(v uint64) *Term { return e.c.BV(32, v) }
	byteOf := func(shift uint64, m uint64, or uint64) *Term {
		x := e.c.Extract(e.c.Lshr(r, c32(shift)), 7, 0)
		return e.c.BOr(e.c.BAnd(x, e.c.BV(8, m)), e.c.BV(8, or))
	}
	if st.decide(e.c.Ult(r, c32(0x80))) {
		return []*Term{e.c.Extract(r, 7, 0)}
	}
	if st.decide(e.c.Ult(r, c32(0x800))) {
		return []*Term{byteOf(6, 0x1f, 0xc0), byteOf(0, 0x3f, 0x80)}
	}
	bad := e.c.Or(e.c.Not(e.c.Ult(r, c32(0x110000))), e.c.And(e.c.Ule(c32(0xd800), r), e.c.Ule(r, c32(0xdfff))))
	if st.decide(bad) {
		return e.strBytes(StrV{s: "\uFFFD"})
	}
	if st.decide(e.c.Ult(r, c32(0x10000))) {
		return []*Term{byteOf(12, 0x0f, 0xe0), byteOf(6, 0x3f, 0x80), byteOf(0, 0x3f, 0x80)}
	}
	return []*Term{byteOf(18, 0x07, 0xf0), byteOf(12, 0x3f, 0x80), byteOf(6, 0x3f, 0x80), byteOf(0, 0x3f, 0x80)}
}

// decodeRune decodes one UTF-8 sequence; forks on symbolic bytes.
func (st *State) decodeRune(b []*Term) (*Term, int) {
	e := st.e
	conc := true
	for i := 0; i < len(b) && i < 4; i++ {
		if !b[i].IsConst() {
			conc = false
		}
	}
	if conc {
		var buf []byte
		for i := 0; i < len(b) && i < 4; i++ {
			buf = append(buf, byte(b[i].v))
		}
		r, n := utf8.DecodeRune(buf)
		return e.c.BV(32, uint64(uint32(r))), n
	}
	c8 := func(v uint64) *Term { return e.c.BV(8, v) }
	in := func(x *Term, lo, hi uint64) *Term { return e.c.And(e.c.Ule(c8(lo), x), e.c.Ule(x, c8(hi))) }
	bad := e.c.BV(32, 0xFFFD)
	z := func(x *Term, m uint64) *Term { return e.c.Zext(e.c.BAnd(x, c8(m)), 32) }
	sh := func(x *Term, n uint64) *Term { return e.c.Shl(x, e.c.BV(32, n)) }
	b0 := b[0]
	if st.decide(e.c.Ult(b0, c8(0x80))) {
		return e.c.Zext(b0, 32), 1
	}
	if st.decide(in(b0, 0xc2, 0xdf)) {
		if len(b) < 2 || !st.decide(in(b[1], 0x80, 0xbf)) {
			return bad, 1
		}
		return e.c.BOr(sh(z(b0, 0x1f), 6), z(b[1], 0x3f)), 2
	}
	if st.decide(in(b0, 0xe0, 0xef)) {
		if len(b) < 3 {
			return bad, 1
		}
		lo := e.c.Ite(e.c.Eq(b0, c8(0xe0)), c8(0xa0), c8(0x80))
		hi := e.c.Ite(e.c.Eq(b0, c8(0xed)), c8(0x9f), c8(0xbf))
		ok := e.c.And(e.c.Ule(lo, b[1]), e.c.Ule(b[1], hi), in(b[2], 0x80, 0xbf))
		if !st.decide(ok) {
			return bad, 1
		}
		return e.c.BOr(e.c.BOr(sh(z(b0, 0x0f), 12), sh(z(b[1], 0x3f), 6)), z(b[2], 0x3f)), 3
	}
	if st.decide(in(b0, 0xf0, 0xf4)) {
		if len(b) < 4 {
			return bad, 1
		}
		lo := e.c.Ite(e.c.Eq(b0, c8(0xf0)), c8(0x90), c8(0x80))
		hi := e.c.Ite(e.c.Eq(b0, c8(0xf4)), c8(0x8f), c8(0xbf))
		ok := e.c.And(e.c.Ule(lo, b[1]), e.c.Ule(b[1], hi), in(b[2], 0x80, 0xbf), in(b[3], 0x80, 0xbf))
		if !st.decide(ok) {
			return bad, 1
		}
		return e.c.BOr(e.c.BOr(sh(z(b0, 0x07), 18), sh(z(b[1], 0x3f), 12)), e.c.BOr(sh(z(b[2], 0x3f), 6), z(b[3], 0x3f))), 4
	}
	return bad, 1
}

func (st *State) strToRunes(s StrV) Value {
	b := st.e.strBytes(s)
	var cells []Value
	for i := 0; i < len(b); {
		r, n := st.decodeRune(b[i:])
		cells = append(cells, r)
		i += n
	}
	id := st.allocCells(cells, types.Typ[types.Int32])
	return SliceV{id, 0, int32(len(cells)), int32(len(cells)), 1}
}

func (st *State) typeAssert(x IfaceV, ins *ssa.TypeAssert) Value {
	e := st.e
	at := ins.AssertedType
	ok := false
	var v Value
	if x.t != nil {
		if types.IsInterface(at) {
			if tv, is := x.v.(TypeV); is {
				_ = tv
				ok = true
				v = x
			} else if e.implements(x.t, at.Underlying().(*types.Interface)) {
				ok = true
				v = x
			}
		} else if e.canon(at) == x.t {
			ok = true
			v = x.v
		}
	}
	if ins.CommaOk {
		if !ok {
			v = e.zero(at)
		}
		return &Tuple{[]Value{v, e.c.Bool(ok)}}
	}
	if !ok {
		tn := "nil"
		if x.t != nil {
			tn = x.t.String()
		}
		st.throw("interface conversion: interface is " + tn + ", not " + at.String())
	}
	return v
}

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if v, ok := e.impl[k]; ok {
		return v
	}
	v := types.Implements(t, it)
	e.impl[k] = v
	return v
}

type implKey struct {
	t  types.Type
	it *types.Interface
}

func (st *State) iterNext(it IterV, ins *ssa.Next) Value {
	e := st.e
	o := st.obj(it.o).it
	if o.str != nil {
		b := e.strBytes(*o.str)
		if int(o.pos) >= len(b) {
			return &Tuple{[]Value{e.c.False, e.c.BV(64, 0), e.c.BV(32, 0)}}
		}
		r, n := st.decodeRune(b[o.pos:])
		w := st.wobj(it.o).it
		p := w.pos
		w.pos += int32(n)
		return &Tuple{[]Value{e.c.True, e.c.BV(64, uint64(p)), r}}
	}
	tt := ins.Type().(*types.Tuple)
	var cands []MapEnt
	if o.m != 0 {
		for _, en := range st.obj(o.m).m.ents {
			if en.n >= o.limit {
				continue
			}
			seen := false
			for _, s := range o.visited {
				if s == en.n {
					seen = true
				}
			}
			if !seen {
				cands = append(cands, en)
			}
		}
	}
	zt := func(i int) Value {
		t := tt.At(i).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return e.zero(t)
	}
	if len(cands) == 0 {
		return &Tuple{[]Value{e.c.False, zt(1), zt(2)}}
	}
	i := 0
	if !e.mapOrdered && !st.initing {
		i = st.choose("maporder", len(cands))
	}
	w := st.wobj(it.o).it
	w.visited = append(w.visited, cands[i].n)
	return &Tuple{[]Value{e.c.True, cands[i].k, cands[i].v}}
}

// ---- maps

func (st *State) mapFind(m *MapObj, k Value) int {
	for i := range m.ents {
		if st.decide(st.eq(k, m.ents[i].k, m.kt)) {
			return i
		}
	}
	return -1
}

func (st *State) mapLookup(m MapV, k Value, vt types.Type, commaOk bool) Value {
	e := st.e
	i := -1
	if m.o != 0 {
		mo := st.obj(m.o).m
		if iv, ok := k.(IfaceV); ok && iv.t != nil && !types.Comparable(iv.t) {
			st.throw("hash of unhashable type " + iv.t.String())
		}
		// symbolic key with mergeable values: build an ITE instead of forking
		if t, ok := k.(*Term); ok && !t.IsConst() && len(mo.ents) > 0 && st.fpos >= len(st.forced) {
			acc := e.zero(vt)
			found := e.c.False
			good := true
			for _, en := range mo.ents {
				c := st.eq(k, en.k, mo.kt)
				v, ok := e.mergeVal(c, en.v, acc)
				if !ok {
					good = false
					break
				}
				acc = v
				found = e.c.Or(found, c)
			}
			if good {
				if commaOk {
					return &Tuple{[]Value{acc, found}}
				}
				return acc
			}
		}
		i = st.mapFind(mo, k)
		if i >= 0 {
			v := mo.ents[i].v
			if commaOk {
				return &Tuple{[]Value{v, e.c.True}}
			}
			return v
		}
	}
	z := e.zero(vt)
	if commaOk {
		return &Tuple{[]Value{z, e.c.False}}
	}
	return z
}

func (st *State) mapUpdate(m MapV, k, v Value) {
	if m.o == 0 {
		st.throw("assignment to entry in nil map")
	}
	if iv, ok := k.(IfaceV); ok && iv.t != nil && !types.Comparable(iv.t) {
		st.throw("hash of unhashable type " + iv.t.String())
	}
	i := st.mapFind(st.obj(m.o).m, k)
	o := st.wobj(m.o)
	if i >= 0 {
		o.m.ents[i].v = v
	} else {
		o.m.ents = append(o.m.ents, MapEnt{k, v, o.m.serial})
		o.m.serial++
	}
	if o.shared {
		st.share(k)
		st.share(v)
	}
}

func (st *State) mapDelete(m MapV, k Value) {
	if m.o == 0 {
		return
	}
	i := st.mapFind(st.obj(m.o).m, k)
	if i < 0 {
		return
	}
	o := st.wobj(m.o)
	o.m.ents = append(o.m.ents[:i:i], o.m.ents[i+1:]...)
}

// ---- calls

func (st *State) callee(f *Frame, c *ssa.CallCommon, ops []operand) (Value, []Value) {
	if c.IsInvoke() {
		recv := st.val(f, ops[0]).(IfaceV)
		args := st.args(f, ops[1:1+len(c.Args)])
		if recv.t == nil {
			st.throw("invalid memory address or nil pointer dereference")
		}
		if tv, ok := recv.v.(TypeV); ok {
			in, ok := intrinsics["reflect.Type."+c.Method.Name()]
			if !ok {
				panic(unsupported("reflect.Type." + c.Method.Name()))
			}
			return &FuncV{fn: st.e.intrFn("reflect.Type."+c.Method.Name(), in)}, append([]Value{tv}, args...)
		}
		fn := st.e.method(recv.t, c.Method)
		if fn == nil {
			panic(unsupported(fmt.Sprintf("no method %s on %v", c.Method.Name(), recv.t)))
		}
		return &FuncV{fn: fn}, append([]Value{recv.v}, args...)
	}
	fv, ok := st.val(f, ops[0]).(*FuncV)
	if !ok {
		panic(unsupported("call of non-function"))
	}
	return fv, st.args(f, ops[1:1+len(c.Args)])
}

func (st *State) call(f *Frame, ci *CInstr, c *ssa.CallCommon, ops []operand) {
	fn, args := st.callee(f, c, ops)
	st.invoke(fn.(*FuncV), args, ci.dst, false, c)
}

// invoke calls fn; the result goes to register dst of the current top frame,
// whose ip is advanced when the call completes (unless isDefer).
func (st *State) invoke(fv *FuncV, args []Value, dst int, isDefer bool, c *ssa.CallCommon) {
	if fv == nil {
		st.throw("invalid memory address or nil pointer dereference")
	}
	if fv.bi != nil {
		v, done := st.builtin(fv.bi, args, c)
		if !done {
			panic(unsupported("builtin " + fv.bi.Name()))
		}
		if !isDefer {
			f := st.top()
			if dst >= 0 {
				f.regs[dst] = v
			}
			f.ip++
		}
		return
	}
	cf := st.e.cfunc(fv.fn)
	if r := st.e.harnessRedirect(cf); r != nil {
		cf = r
	}
	for cf.redir != nil {
		cf = cf.redir
	}
	if len(fv.b) > 0 {
		args = append(append([]Value(nil), args...), fv.b...)
	}
	if cf.intr.f != nil {
		v := cf.intr.f(st, fv.fn, args)
		if !isDefer {
			f := st.top()
			if dst >= 0 {
				f.regs[dst] = v
			}
			f.ip++
		}
		return
	}
	if len(fv.fn.Blocks) == 0 && len(cf.blocks) == 0 {
		panic(unsupported("call of function without body: " + cf.pos))
	}
	if st.e.blocked[cf.pos] {
		panic(unsupported("call of blocked function " + cf.pos))
	}
	nf := st.pushFrame(cf, args, dst)
	nf.isDefer = isDefer
}

func (st *State) doReturn(rv []Value) {
	g := st.g()
	f := g.frames[len(g.frames)-1]
	g.frames = g.frames[:len(g.frames)-1]
	if len(g.frames) == 0 {
		g.status = gDone
		return
	}
	c := st.top()
	if f.isDefer {
		if c.panicking != nil && c.panicking.recovered {
			st.resumeRecovered()
		}
		return
	}
	if f.retDst >= 0 {
		switch len(rv) {
		case 0:
			c.regs[f.retDst] = nil
		case 1:
			c.regs[f.retDst] = rv[0]
		default:
			c.regs[f.retDst] = &Tuple{rv}
		}
	}
	c.ip++
}

func (st *State) resumeRecovered() {
	c := st.top()
	c.panicking = nil
	if rb := c.fn.fn.Recover; rb != nil {
		// the remaining deferred calls run before the recover block
		c.block, c.ip, c.prev = rb.Index, 0, -1
		c.runDefers = true
		return
	}
	// unnamed results: return zero values
	res := c.fn.fn.Signature.Results()
	var rv []Value
	for i := 0; i < res.Len(); i++ {
		rv = append(rv, st.e.zero(res.At(i).Type()))
	}
	c.rets, c.hasRets, c.runDefers = rv, true, true
}

func (st *State) startPanic(v IfaceV) {
	f := st.top()
	f.panicking = &panicRec{val: v}
}

// unwind advances panic processing of the top frame by one step.
func (st *State) unwind() {
	f := st.top()
	if n := len(f.defers); n > 0 {
		d := f.defers[n-1]
		f.defers = f.defers[:n-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					if p, ok := r.(goPanic); ok {
						f.panicking = &panicRec{val: p.val}
						return
					}
					panic(r)
				}
			}()
			st.decs, st.forced, st.fpos = nil, nil, 0
			st.invoke(d.fn.(*FuncV), d.args, -1, true, nil)
		}()
		return
	}
	if st.initing && f.fn.fn.Synthetic == "package initializer" {
		panic(unsupported("a package initialiser panics"))
	}
	g := st.g()
	pv := *f.panicking
	g.frames = g.frames[:len(g.frames)-1]
	if len(g.frames) == 0 {
		panic(crash{pv.val.(IfaceV), st.cur})
	}
	c := st.top()
	c.panicking = &panicRec{val: pv.val}
}

type crash struct {
	val IfaceV
	g   int
}

var _ = constant.MakeBool
