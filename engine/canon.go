package main

// Canonical form of a state: used to recognise identical states (schedule
// exploration) and structurally equal states (merging).

import (
	"crypto/sha256"
	"encoding/binary"
	"sort"
)

type slot struct {
	t *Term
}

type canonizer struct {
	st     *State
	buf    []byte
	num    map[int32]int32
	order  []int32
	wild   bool // scalars are wildcards, collected in terms
	inHeap bool
	terms  []*Term
}

func (c *canonizer) u(x uint64) {
	c.buf = binary.AppendUvarint(c.buf, x)
}

func (c *canonizer) obj(id int32) {
	if id == 0 {
		c.u(0)
		return
	}
	n, ok := c.num[id]
	if !ok {
		n = int32(len(c.order)) + 1
		c.num[id] = n
		c.order = append(c.order, id)
	}
	c.u(uint64(n))
}

func (c *canonizer) term(t *Term) {
	if c.wild && (c.inHeap || !t.IsConst()) {
		c.u(uint64(t.sort.K)<<8 | uint64(t.sort.W))
		c.terms = append(c.terms, t)
		return
	}
	c.u(uint64(t.id) + 1)
}

func (c *canonizer) val(v Value) {
	switch x := v.(type) {
	case nil:
		c.u(0)
	case *Term:
		c.u(1)
		c.term(x)
	case Ptr:
		c.u(2)
		c.obj(x.o)
		c.u(uint64(x.off))
	case *SymPtr:
		c.u(3)
		c.obj(x.o)
		c.u(uint64(x.base))
		c.u(uint64(x.stride))
		c.u(uint64(x.n))
		c.u(uint64(x.add))
		c.term(x.idx)
	case StrV:
		if x.b == nil && !c.wild {
			c.u(4)
			c.u(uint64(len(x.s)))
			c.buf = append(c.buf, x.s...)
			return
		}
		c.u(5)
		b := c.st.e.strBytes(x)
		c.u(uint64(len(b)))
		for _, t := range b {
			c.term(t)
		}
	case SliceV:
		c.u(6)
		c.obj(x.o)
		c.u(uint64(x.off))
		c.u(uint64(x.len))
		c.u(uint64(x.cap))
	case IfaceV:
		c.u(7)
		if x.t == nil {
			c.u(0)
			return
		}
		c.u(uint64(c.st.e.typeID(x.t)))
		c.val(x.v)
	case *FuncV:
		c.u(8)
		if x == nil {
			c.u(0)
			return
		}
		if x.bi != nil {
			c.u(1)
			c.buf = append(c.buf, x.bi.Name()...)
			return
		}
		c.u(uint64(c.st.e.fnID(x.fn)) + 2)
		for _, b := range x.b {
			c.val(b)
		}
	case MapV:
		c.u(9)
		c.obj(x.o)
	case ChanV:
		c.u(10)
		c.obj(x.o)
	case IterV:
		c.u(11)
		c.obj(x.o)
	case TypeV:
		c.u(12)
		c.u(uint64(c.st.e.typeID(x.t)))
	case *Agg:
		c.u(13)
		c.u(uint64(len(x.c)))
		for _, y := range x.c {
			c.val(y)
		}
	case *Tuple:
		c.u(14)
		c.u(uint64(len(x.c)))
		for _, y := range x.c {
			c.val(y)
		}
	default:
		panic(unsupported("canon of value"))
	}
}

func (st *State) liveRegs(f *Frame, top bool) []int {
	if f.panicking != nil || f.runDefers {
		var l []int
		for i := range f.regs {
			l = append(l, i)
		}
		return l
	}
	if top {
		return f.fn.liveIn(f.block, f.ip)
	}
	ci := &f.fn.blocks[f.block][f.ip]
	l := f.fn.liveIn(f.block, f.ip+1)
	if ci.dst < 0 {
		return l
	}
	out := l[:0:0]
	for _, r := range l {
		if r != ci.dst {
			out = append(out, r)
		}
	}
	return out
}

func (c *canonizer) run() {
	st := c.st
	c.num = map[int32]int32{}
	c.u(uint64(len(st.gs)))
	if g := st.gs[st.cur]; g.status == gRun {
		c.u(uint64(st.cur))
	} else {
		c.u(1 << 20)
	}
	if st.multi {
		c.u(1)
	}
	c.u(uint64(st.atomic))
	for _, g := range st.gs {
		c.u(uint64(g.status))
		if g.status == gDone {
			continue
		}
		if g.granted {
			c.u(1)
		} else {
			c.u(0)
		}
		if g.parked {
			c.u(1)
		} else {
			c.u(0)
		}
		if g.hasRes {
			c.u(1)
			c.val(g.res)
			c.u(uint64(g.resIdx))
		} else {
			c.u(0)
		}
		c.u(uint64(len(g.frames)))
		for i, f := range g.frames {
			c.u(uint64(st.e.fnID(f.fn.fn)))
			c.u(uint64(f.block))
			c.u(uint64(f.ip))
			c.u(uint64(f.prev + 1))
			fl := uint64(0)
			if f.isDefer {
				fl |= 1
			}
			if f.runDefers {
				fl |= 2
			}
			if f.panicking != nil {
				fl |= 4
				if f.panicking.recovered {
					fl |= 8
				}
			}
			c.u(fl)
			if f.panicking != nil {
				c.val(f.panicking.val)
			}
			for _, r := range st.liveRegs(f, i == len(g.frames)-1) {
				c.val(f.regs[r])
			}
			c.u(uint64(len(f.defers)))
			for _, d := range f.defers {
				c.val(d.fn)
				for _, a := range d.args {
					c.val(a)
				}
			}
			for _, r := range f.rets {
				c.val(r)
			}
		}
	}
	if st.clock != nil {
		c.u(uint64(st.clock.id))
	}
	c.u(uint64(st.ticks))
	c.inHeap = true
	// modified objects of the initial heap and modified globals are roots
	var mods []int32
	nb := int32(len(st.base.objs))
	for id := range st.ov {
		if id < nb || id > lateID {
			mods = append(mods, id)
		}
	}
	sort.Slice(mods, func(i, j int) bool { return mods[i] < mods[j] })
	for _, id := range mods {
		c.u(uint64(id))
		c.obj(id)
	}
	for i := 0; i < len(c.order); i++ {
		id := c.order[i]
		if id < nb {
			if _, ok := st.ov[id]; !ok {
				c.u(uint64(id)) // unmodified base object
				continue
			}
		}
		o := st.obj(id)
		fl := uint64(1)
		if o.shared {
			fl |= 2
		}
		if o.ronly {
			fl |= 4
		}
		c.u(fl)
		c.u(uint64(len(o.cells)))
		for _, v := range o.cells {
			c.val(v)
		}
		if o.m != nil {
			c.u(uint64(len(o.m.ents)))
			for _, e := range o.m.ents {
				c.val(e.k)
				c.val(e.v)
			}
		}
		if o.ch != nil {
			c.u(uint64(o.ch.cap))
			if o.ch.closed {
				c.u(1)
			} else {
				c.u(0)
			}
			c.u(uint64(len(o.ch.buf)))
			for _, v := range o.ch.buf {
				c.val(v)
			}
		}
		if o.it != nil {
			c.obj(o.it.m)
			c.u(uint64(len(o.it.visited)))
			for _, v := range o.it.visited {
				c.u(uint64(v))
			}
			c.u(uint64(o.it.limit))
			c.u(uint64(o.it.pos))
		}
	}
	c.accs()
}

// accs adds the pending accesses; accesses to unreachable objects are dropped.
func (c *canonizer) accs() {
	st := c.st
	nb := int32(len(st.base.objs))
	num := func(id int32) (uint64, bool) {
		if id < nb || id > lateID {
			return uint64(id), true
		}
		n, ok := c.num[id]
		return uint64(n) + 1<<32, ok
	}
	for i, g := range st.gs {
		if len(g.acc) == 0 {
			continue
		}
		c.u(uint64(i) + 1<<40)
		for _, a := range g.acc {
			n, ok := num(a.o)
			if !ok {
				continue
			}
			c.u(n)
			c.u(uint64(a.off))
			c.u(uint64(a.n))
			k := uint64(len(a.tags)) << 1
			if a.wr {
				k |= 1
			}
			c.u(k)
			for _, t := range a.tags {
				n, _ := num(t.o)
				c.u(n)
				c.u(uint64(t.off))
			}
		}
	}
}

// gc drops unreachable objects.
func (st *State) gc(order []int32) {
	keep := make(map[int32]bool, len(order))
	for _, id := range order {
		keep[id] = true
	}
	nb := int32(len(st.base.objs))
	for id := range st.ov {
		if id >= nb && !keep[id] {
			delete(st.ov, id)
		}
	}
}

type hashKey [16]byte

// key identifies the state exactly (scalars by term identity, data path
// condition included; schedule variables are excluded).
func (st *State) key() hashKey {
	c := &canonizer{st: st}
	c.run()
	if len(st.ov) > len(c.order)+32 {
		st.gc(c.order)
	}
	var ids []int
	for _, t := range st.pc {
		if !st.e.schedOnly(t) {
			ids = append(ids, int(t.id))
		}
	}
	sort.Ints(ids)
	for _, i := range ids {
		c.u(uint64(i))
	}
	if st.e.maxPreempt >= 0 {
		c.u(uint64(st.preempt))
		c.u(uint64(st.lastG))
	}
	var ns []string
	for n := range st.counts {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		c.buf = append(c.buf, n...)
		c.u(uint64(st.counts[n]))
	}
	h := sha256.Sum256(c.buf)
	var k hashKey
	copy(k[:], h[:])
	return k
}

// shape identifies the state up to scalar contents.
func (st *State) shape() (hashKey, *canonizer) {
	c := &canonizer{st: st, wild: true}
	c.run()
	h := sha256.Sum256(c.buf)
	var k hashKey
	copy(k[:], h[:])
	return k, c
}

// mergeStates joins two states of equal shape.
func (e *Engine) mergeStates(a *State, ca *canonizer, b *State, cb *canonizer) *State {
	if len(ca.terms) != len(cb.terms) || len(ca.order) != len(cb.order) {
		return nil
	}
	inA := map[*Term]bool{}
	for _, t := range a.pc {
		inA[t] = true
	}
	inB := map[*Term]bool{}
	for _, t := range b.pc {
		inB[t] = true
	}
	var common, ra, rb []*Term
	for _, t := range a.pc {
		if inB[t] {
			common = append(common, t)
		} else {
			ra = append(ra, t)
		}
	}
	for _, t := range b.pc {
		if !inA[t] {
			rb = append(rb, t)
		}
	}
	condA, condB := e.c.And(ra...), e.c.And(rb...)
	m := a.clone()
	m.pc = nil
	for _, t := range common {
		m.pc = append(m.pc, t)
	}
	disj := e.c.Or(condA, condB)
	if !disj.IsConst() {
		m.pc = append(m.pc, disj)
	}
	mv := &merger{e: e, m: m, a: a, b: b, ca: ca, cb: cb, sel: condA}
	mv.run()
	// bookkeeping
	for k, v := range b.names {
		if v > m.names[k] {
			m.names[k] = v
		}
	}
	have := map[string]bool{}
	for _, in := range m.inputs {
		have[in.name] = true
	}
	for _, in := range b.inputs {
		if !have[in.name] {
			m.inputs = append(m.inputs, in)
		}
	}
	for k, v := range b.uf {
		if m.uf == nil {
			m.uf = map[string][]ufEnt{}
		}
		seen := map[*Term]bool{}
		for _, x := range m.uf[k] {
			if len(x.out) > 0 {
				seen[x.out[0]] = true
			}
		}
		for _, x := range v {
			if len(x.out) > 0 && !seen[x.out[0]] {
				m.uf[k] = append(m.uf[k], x)
			}
		}
	}
	m.gc(ca.order)
	m.obs = nil
	m.merged = true
	for k := range b.reached {
		if m.reached == nil {
			m.reached = map[string]bool{}
		}
		m.reached[k] = true
	}
	if b.depth > m.depth {
		m.depth = b.depth
	}
	return m
}

type merger struct {
	e      *Engine
	m      *State
	a, b   *State
	ca, cb *canonizer
	sel    *Term
}

func (x *merger) val(a, b Value) Value {
	switch p := a.(type) {
	case *Term:
		return x.e.c.Ite(x.sel, p, b.(*Term))
	case StrV:
		q := b.(StrV)
		if p.b == nil && q.b == nil && p.s == q.s {
			return p
		}
		pb, qb := x.e.strBytes(p), x.e.strBytes(q)
		out := make([]*Term, len(pb))
		for i := range out {
			out[i] = x.e.c.Ite(x.sel, pb[i], qb[i])
		}
		return mkStr(out)
	case *SymPtr:
		q := b.(*SymPtr)
		z := *p
		z.idx = x.e.c.Ite(x.sel, p.idx, q.idx)
		return &z
	case IfaceV:
		if p.t == nil {
			return p
		}
		return IfaceV{p.t, x.val(p.v, b.(IfaceV).v)}
	case *FuncV:
		if p == nil || len(p.b) == 0 {
			return p
		}
		q := b.(*FuncV)
		out := make([]Value, len(p.b))
		for i := range out {
			out[i] = x.val(p.b[i], q.b[i])
		}
		return &FuncV{fn: p.fn, b: out}
	case *Agg:
		q := b.(*Agg)
		out := make([]Value, len(p.c))
		for i := range out {
			out[i] = x.val(p.c[i], q.c[i])
		}
		return &Agg{out}
	case *Tuple:
		q := b.(*Tuple)
		out := make([]Value, len(p.c))
		for i := range out {
			out[i] = x.val(p.c[i], q.c[i])
		}
		return &Tuple{out}
	}
	return a // pointer-like: same canonical object
}

func (x *merger) run() {
	for gi := range x.m.gs {
		ga, gb := x.a.gs[gi], x.b.gs[gi]
		if ga.status == gDone {
			continue
		}
		g := x.m.wg(gi)
		for fi := range g.frames {
			fa, fb := ga.frames[fi], gb.frames[fi]
			f := x.m.copyFrame(fa)
			g.frames[fi] = f
			live := map[int]bool{}
			for _, r := range x.a.liveRegs(fa, fi == len(g.frames)-1) {
				f.regs[r] = x.val(fa.regs[r], fb.regs[r])
				live[r] = true
			}
			for r := range f.regs {
				if !live[r] {
					f.regs[r] = nil
				}
			}
			for i := range f.defers {
				f.defers[i].fn = x.val(fa.defers[i].fn, fb.defers[i].fn)
				args := append([]Value(nil), fa.defers[i].args...)
				for j := range args {
					args[j] = x.val(args[j], fb.defers[i].args[j])
				}
				f.defers[i].args = args
			}
		}
	}
	nb := int32(len(x.m.base.objs))
	for i, ida := range x.ca.order {
		idb := x.cb.order[i]
		if ida < nb {
			if _, ok := x.a.ov[ida]; !ok {
				continue
			}
		}
		oa, ob := x.a.obj(ida), x.b.obj(idb)
		var o *Obj
		for k := range oa.cells {
			v := x.val(oa.cells[k], ob.cells[k])
			if !sameVal(v, oa.cells[k]) {
				if o == nil {
					o = x.m.wobj(ida)
				}
				o.cells[k] = v
			}
		}
		if oa.m != nil {
			o = x.m.wobj(ida)
			for k := range oa.m.ents {
				o.m.ents[k].k = x.val(oa.m.ents[k].k, ob.m.ents[k].k)
				o.m.ents[k].v = x.val(oa.m.ents[k].v, ob.m.ents[k].v)
			}
		}
		if oa.ch != nil {
			o = x.m.wobj(ida)
			for k := range oa.ch.buf {
				o.ch.buf[k] = x.val(oa.ch.buf[k], ob.ch.buf[k])
			}
		}
	}
}

func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x == y
	case SliceV:
		y, ok := b.(SliceV)
		return ok && x == y
	}
	return false
}
