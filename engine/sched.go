package main

// Goroutines, channels and the scheduler.

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (st *State) spawn(fn Value, args []Value, name string) *G {
	fv := fn.(*FuncV)
	if fv == nil {
		st.throw("go of nil func value")
	}
	st.share(fv)
	for _, a := range args {
		st.share(a)
	}
	if !st.multi {
		st.multi = true
	}
	g := &G{own: st.own, id: len(st.gs), name: name}
	if fv.fn != nil {
		g.name = fv.fn.String()
	} else {
		panic(unsupported("go builtin"))
	}
	st.gs = append(st.gs, g)
	if len(st.gs) > 40 {
		panic(unsupported("more than 40 goroutines"))
	}
	cf := st.e.cfunc(fv.fn)
	for cf.redir != nil {
		cf = cf.redir
	}
	if cf.intr.f != nil || len(cf.blocks) == 0 {
		panic(unsupported("go of intrinsic " + cf.pos))
	}
	save := st.cur
	st.cur = g.id
	st.pushFrame(cf, append(append([]Value(nil), args...), fv.b...), -1)
	st.cur = save
	return g
}

// visible reports the pending visible operation at the next instruction.
func (st *State) visible(f *Frame, ci *CInstr) (pendOp, bool) {
	if st.atomic > 0 {
		// only blocking operations matter inside an atomic section
	}
	shared := func(p Value) (int32, int32, int32, bool) {
		switch q := p.(type) {
		case Ptr:
			if q.o != 0 && st.obj(q.o).shared {
				return q.o, q.off, 1, true
			}
		case *SymPtr:
			if st.obj(q.o).shared {
				return q.o, q.base, q.n * q.stride, true
			}
		}
		return 0, 0, 0, false
	}
	switch ins := ci.ins.(type) {
	case *ssa.UnOp:
		if ins.Op == token.ARROW {
			return pendOp{kind: opRecv, o: st.val(f, ci.ops[0]).(ChanV).o, blocking: true}, true
		}
		if ins.Op == token.MUL && st.multi && f.fn.gran && st.atomic == 0 {
			if o, off, _, ok := shared(st.val(f, ci.ops[0])); ok {
				if st.obj(o).ronly {
					return pendOp{}, false
				}
				return pendOp{kind: opLoad, o: o, off: off, n: st.e.ly.of(ins.Type()).n}, true
			}
		}
	case *ssa.Store:
		if st.multi && f.fn.gran && st.atomic == 0 {
			if o, off, _, ok := shared(st.val(f, ci.ops[0])); ok {
				return pendOp{kind: opStore, o: o, off: off, n: st.e.ly.of(ins.Val.Type()).n}, true
			}
		}
	case *ssa.Send:
		return pendOp{kind: opSend, o: st.val(f, ci.ops[0]).(ChanV).o, val: st.val(f, ci.ops[1]), blocking: true}, true
	case *ssa.Select:
		p := pendOp{kind: opSelect, blocking: ins.Blocking}
		k := 0
		for _, s := range ins.States {
			c := selCase{ch: st.val(f, ci.ops[k]).(ChanV).o, send: s.Dir == types.SendOnly}
			k++
			if s.Send != nil {
				c.val = st.val(f, ci.ops[k])
			}
			k++
			p.cases = append(p.cases, c)
		}
		return p, true
	case *ssa.MapUpdate:
		if st.multi && f.fn.gran && st.atomic == 0 {
			if m := st.val(f, ci.ops[0]).(MapV); m.o != 0 && st.obj(m.o).shared {
				return pendOp{kind: opMapWrite, o: m.o, n: 1}, true
			}
		}
	case *ssa.Lookup:
		if st.multi && f.fn.gran && st.atomic == 0 {
			if m, ok := st.val(f, ci.ops[0]).(MapV); ok && m.o != 0 && st.obj(m.o).shared {
				return pendOp{kind: opMapRead, o: m.o, n: 1}, true
			}
		}
	case *ssa.Go:
		// starting a goroutine orders what came before it
		if st.e.coarse && st.multi && st.atomic == 0 && len(st.g().acc) > 0 {
			return pendOp{kind: opStart}, true
		}
	case *ssa.Next:
		if st.e.coarse && !ins.IsString && st.multi && f.fn.gran && st.atomic == 0 {
			if it, ok := st.val(f, ci.ops[0]).(IterV); ok && it.o != 0 {
				if m := st.obj(it.o).it.m; m != 0 && st.obj(m).shared {
					return pendOp{kind: opMapRead, o: m, n: 1}, true
				}
			}
		}
	case *ssa.Convert:
		if st.e.coarse && st.multi && f.fn.gran && st.atomic == 0 {
			if s, ok := st.val(f, ci.ops[0]).(SliceV); ok && s.o != 0 && s.len > 0 && st.obj(s.o).shared {
				return pendOp{kind: opLoad, o: s.o, off: s.off, n: s.len * s.cell}, true
			}
		}
	case *ssa.Call:
		return st.visibleCall(f, &ins.Call, ci.ops)
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			return st.visibleFn(f, d.fn.(*FuncV), d.args)
		}
	}
	return pendOp{}, false
}

func (st *State) visibleCall(f *Frame, c *ssa.CallCommon, ops []operand) (pendOp, bool) {
	if c.IsInvoke() {
		return pendOp{}, false
	}
	fv, ok := st.val(f, ops[0]).(*FuncV)
	if !ok || fv == nil {
		return pendOp{}, false
	}
	if fv.bi != nil {
		switch fv.bi.Name() {
		case "close", "append", "copy", "delete":
			if !st.multi {
				return pendOp{}, false
			}
		default:
			return pendOp{}, false
		}
	} else if st.e.cfunc(fv.fn).intr.vis == nil {
		return pendOp{}, false
	}
	return st.visibleFn(f, fv, st.args(f, ops[1:]))
}

func (st *State) visibleFn(f *Frame, fv *FuncV, args []Value) (pendOp, bool) {
	if fv == nil {
		return pendOp{}, false
	}
	if fv.bi != nil {
		switch fv.bi.Name() {
		case "close":
			return pendOp{kind: opClose, o: args[0].(ChanV).o}, st.multi
		case "append", "copy":
			if st.multi && f.fn.gran && st.atomic == 0 {
				s := args[0].(SliceV)
				var src SliceV
				if a, ok := args[1].(SliceV); ok && st.e.coarse && a.o != 0 && a.len > 0 && st.obj(a.o).shared {
					src = a
				}
				if fv.bi.Name() == "copy" && src.len > s.len {
					src.len = s.len
				}
				if (s.o == 0 || !st.obj(s.o).shared) && src.o != 0 {
					return pendOp{kind: opLoad, o: src.o, off: src.off, n: src.len * src.cell}, true
				}
				if s.o != 0 && st.obj(s.o).shared {
					off, n := s.off, s.len*s.cell
					if fv.bi.Name() == "append" {
						off, n = s.off+s.len*s.cell, (s.cap-s.len)*s.cell
						if a, ok := args[1].(SliceV); ok {
							if a.len > s.cap-s.len {
								return pendOp{kind: opLoad, o: s.o, off: s.off, n: s.len * s.cell, src: src.o, srcOff: src.off, srcN: src.len * src.cell}, true
							}
							n = a.len * s.cell
						}
					}
					if fv.bi.Name() == "copy" && st.e.coarse {
						if l, ok := args[1].(SliceV); ok && l.len*l.cell < n {
							n = l.len * l.cell
						}
					}
					return pendOp{kind: opStore, o: s.o, off: off, n: n, src: src.o, srcOff: src.off, srcN: src.len * src.cell}, true
				}
			}
		case "delete":
			if st.multi && f.fn.gran && st.atomic == 0 {
				if m := args[0].(MapV); m.o != 0 && st.obj(m.o).shared {
					return pendOp{kind: opMapWrite, o: m.o, n: 1}, true
				}
			}
		}
		return pendOp{}, false
	}
	cf := st.e.cfunc(fv.fn)
	if cf.intr.vis != nil {
		p, ok := cf.intr.vis(st, args)
		return p, ok
	}
	return pendOp{}, false
}

// soloRunnable: no other live goroutine, and the operation is enabled.
func (st *State) soloRunnable(p *pendOp) bool {
	if p.kind == opYield || p.kind == opSleep || p.kind == opQuiesce {
		// yields must become graph nodes so that spinning is detected
		if p.kind == opYield {
			return false
		}
	}
	for i, g := range st.gs {
		if i != st.cur && g.status != gDone {
			return false
		}
	}
	return st.enabled(st.cur, p)
}

// partners lists goroutines blocked on the other side of channel ch.
func (st *State) partners(self int, ch int32, wantRecv bool) (out [][2]int) {
	for i, g := range st.gs {
		if i == self || g.status != gStop || g.hasRes {
			continue
		}
		switch g.pend.kind {
		case opRecv:
			if wantRecv && g.pend.o == ch {
				out = append(out, [2]int{i, 0})
			}
		case opSend:
			if !wantRecv && g.pend.o == ch {
				out = append(out, [2]int{i, 0})
			}
		case opSelect:
			if !g.pend.blocking {
				continue
			}
			for k, c := range g.pend.cases {
				if c.ch == ch && c.send != wantRecv {
					out = append(out, [2]int{i, k})
				}
			}
		}
	}
	return
}

func (st *State) canSend(self int, ch int32) bool {
	if ch == 0 {
		return false
	}
	c := st.obj(ch).ch
	return c.closed || len(c.buf) < int(c.cap) || (c.cap == 0 && len(st.partners(self, ch, true)) > 0)
}

func (st *State) canRecv(self int, ch int32) bool {
	if ch == 0 {
		return false
	}
	c := st.obj(ch).ch
	return len(c.buf) > 0 || c.closed || (c.cap == 0 && len(st.partners(self, ch, false)) > 0)
}

func (st *State) enabled(gi int, p *pendOp) bool {
	switch p.kind {
	case opSend:
		return st.canSend(gi, p.o)
	case opRecv:
		return st.canRecv(gi, p.o)
	case opSelect:
		if !p.blocking {
			return true
		}
		for _, c := range p.cases {
			if c.send && st.canSend(gi, c.ch) || !c.send && st.canRecv(gi, c.ch) {
				return true
			}
		}
		return false
	case opWait:
		v := asTerm(st.obj(p.o).cells[p.off])
		if !v.IsConst() {
			panic(unsupported("symbolic synchronisation state"))
		}
		return (v.v == 0) == p.zero
	case opSleep:
		if p.future {
			return false
		}
		c := st.e.c.Sle(p.deadline, st.clock)
		if c.IsConst() {
			return c.v != 0
		}
		return st.decide(c)
	case opQuiesce:
		for i, g := range st.gs {
			if i == gi || g.status == gDone {
				continue
			}
			if g.status == gRun {
				return false
			}
			if g.pend.kind != opQuiesce && st.enabled(i, &g.pend) {
				return false
			}
			if g.pend.kind == opSleep && g.daemon {
				continue
			}
			if g.pend.kind == opSleep && st.ticks < st.e.maxTicks && !p.zero {
				return false
			}
		}
		return true
	}
	return true
}

// ---- channel operations (executed when enabled)

func (st *State) chanSend(f *Frame, ci *CInstr) {
	ch := st.val(f, ci.ops[0]).(ChanV)
	v := st.val(f, ci.ops[1])
	g := st.g()
	if g.hasRes {
		g.hasRes = false
		f.ip++
		return
	}
	st.sendTo(ch.o, v)
	f.ip++
}

func (st *State) sendTo(ch int32, v Value) {
	c := st.obj(ch).ch
	if c.closed {
		st.throw("send on closed channel")
	}
	if len(c.buf) < int(c.cap) {
		o := st.wobj(ch)
		o.ch.buf = append(o.ch.buf, v)
		if o.shared {
			st.share(v)
		}
		return
	}
	ps := st.partners(st.cur, ch, true)
	k := st.choose("partner", len(ps))
	st.share(v)
	st.complete(ps[k][0], ps[k][1], v, true)
}

// complete finishes the blocked operation of goroutine gi.
func (st *State) complete(gi, idx int, v Value, ok bool) {
	p := st.wg(gi)
	p.hasRes = true
	p.res = v
	p.resIdx = idx
	p.status = gRun
	p.granted = true
	p.acc = nil
}

func (st *State) recvFrom(ch int32) (Value, bool) {
	c := st.obj(ch).ch
	if len(c.buf) > 0 {
		v := c.buf[0]
		o := st.wobj(ch)
		o.ch.buf = append([]Value(nil), o.ch.buf[1:]...)
		return v, true
	}
	if c.closed {
		return c.zero, false
	}
	ps := st.partners(st.cur, ch, false)
	k := st.choose("partner", len(ps))
	p := st.gs[ps[k][0]]
	var v Value
	if p.pend.kind == opSend {
		v = p.pend.val
	} else {
		v = p.pend.cases[ps[k][1]].val
	}
	st.share(v)
	st.complete(ps[k][0], ps[k][1], nil, true)
	return v, true
}

func (st *State) chanRecv(ch ChanV, commaOk bool, el types.Type) Value {
	g := st.g()
	var v Value
	ok := true
	if g.hasRes {
		g.hasRes = false
		v = g.res
		g.res = nil
	} else {
		v, ok = st.recvFrom(ch.o)
	}
	if commaOk {
		return &Tuple{[]Value{v, st.e.c.Bool(ok)}}
	}
	return v
}

func (st *State) chanSelect(f *Frame, ci *CInstr, ins *ssa.Select) {
	e := st.e
	p, _ := st.visible(f, ci)
	g := st.g()
	tt := ins.Type().(*types.Tuple)
	finish := func(idx int, v Value, ok bool) {
		out := []Value{e.c.BV(64, uint64(int64(idx))), e.c.Bool(ok)}
		for i, s := range ins.States {
			if s.Dir == types.RecvOnly {
				if i == idx {
					out = append(out, v)
				} else {
					out = append(out, e.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
			}
		}
		_ = tt
		st.set(f, ci, &Tuple{out})
	}
	if g.hasRes {
		g.hasRes = false
		v := g.res
		g.res = nil
		finish(g.resIdx, v, true)
		return
	}
	var ready []int
	for i, c := range p.cases {
		if c.send && st.canSend(st.cur, c.ch) || !c.send && st.canRecv(st.cur, c.ch) {
			ready = append(ready, i)
		}
	}
	if len(ready) == 0 {
		if p.blocking {
			panic("select not enabled")
		}
		finish(-1, nil, false)
		return
	}
	n := len(ready)
	if !p.blocking && !st.certain(p, ready) {
		n++ // the partner may not have started to wait yet
	}
	k := st.choose("select", n)
	if k == len(ready) {
		finish(-1, nil, false)
		return
	}
	i := ready[k]
	c := p.cases[i]
	if c.send {
		st.sendTo(c.ch, c.val)
		finish(i, nil, false)
		return
	}
	v, ok := st.recvFrom(c.ch)
	finish(i, v, ok)
}

// certain tells whether one of the ready cases is ready in every execution of
// the schedule so far: a goroutine stopped in front of its operation on an
// unbuffered channel may or may not be waiting there already.
func (st *State) certain(p pendOp, ready []int) bool {
	for _, i := range ready {
		c := p.cases[i]
		ch := st.obj(c.ch).ch
		if ch.closed || ch.cap > 0 {
			return true
		}
		for _, q := range st.partners(st.cur, c.ch, c.send) {
			if st.gs[q[0]].parked {
				return true
			}
		}
	}
	return false
}

// park: time has passed or the program has come to rest, so whoever cannot
// proceed is waiting.
func (st *State) park(except int) {
	for i, g := range st.gs {
		if i == except || g.status != gStop || g.parked || g.hasRes {
			continue
		}
		switch g.pend.kind {
		case opRecv, opSend, opSelect:
			st.wg(i).parked = true
		}
	}
}

// conflict reports a data race between two stopped goroutines.
func (st *State) race() string {
	for i, g := range st.gs {
		if g.status != gStop || !isMem(g.pend.kind) {
			continue
		}
		for j := i + 1; j < len(st.gs); j++ {
			h := st.gs[j]
			if h.status != gStop || !isMem(h.pend.kind) {
				continue
			}
			a, b := &g.pend, &h.pend
			if a.o != b.o {
				continue
			}
			if a.kind == opAtomic && b.kind == opAtomic {
				continue
			}
			wr := func(p *pendOp) bool {
				return p.kind == opStore || p.kind == opMapWrite || p.kind == opAtomic && p.zero
			}
			if !wr(a) && !wr(b) {
				continue
			}
			if a.kind != opMapRead && a.kind != opMapWrite && (a.off+a.n <= b.off || b.off+b.n <= a.off) {
				continue
			}
			if st.obj(a.o).desc == "norace" {
				continue
			}
			return fmt.Sprintf("data race: goroutine %d (%s) at %s and goroutine %d (%s) at %s", g.id, a.kind, st.gwhere(i), h.id, b.kind, st.gwhere(j))
		}
	}
	return ""
}

func (k opKind) String() string {
	return [...]string{"none", "read", "write", "atomic", "yield", "wait", "sleep", "send", "recv", "select", "close", "quiesce", "mapread", "mapwrite", "start"}[k]
}

// ---- switching at synchronisation operations only
//
// Plain memory accesses are not scheduling points: each goroutine carries the
// set of its plain accesses since its last synchronisation operation. An access
// that conflicts with one in another goroutine's set is a data race, because
// nothing the other goroutine did since can order the two. Conversely, if some
// execution has a race, then cutting it down to what is ordered before the two
// accesses gives an execution in which one goroutine is stopped in front of its
// next synchronisation operation, its set still holding its access, when the
// other access runs - so exploring all interleavings of synchronisation
// operations finds it; and without races they produce every behaviour.

func isPlain(k opKind) bool {
	return k == opLoad || k == opStore || k == opMapRead || k == opMapWrite
}

type raceFound struct{ msg string }

func (st *State) access(p *pendOp, f *Frame, ci *CInstr) {
	wr := p.kind == opStore || p.kind == opMapWrite
	off, n := p.off, p.n
	if p.kind == opMapRead || p.kind == opMapWrite {
		off, n = 0, 1
	}
	if n <= 0 {
		return
	}
	st.accessAt(p.o, off, n, wr, false, f, ci)
	if p.src != 0 && p.srcN > 0 {
		st.accessAt(p.src, p.srcOff, p.srcN, false, false, f, ci)
	}
}

func (st *State) accessAt(o, off, n int32, wr, atomic bool, f *Frame, ci *CInstr) {
	norace := st.obj(o).desc == "norace"
	if st.e.raceCheck && !norace {
		for i, h := range st.gs {
			if i == st.cur {
				continue
			}
			for k := range h.acc {
				a := &h.acc[k]
				if a.o == o && (wr || a.wr) && off < a.off+a.n && a.off < off+n {
					kind := func(w bool) string {
						if w {
							return "write"
						}
						return "read"
					}
					panic(raceFound{fmt.Sprintf("data race: goroutine %d (%s) at %s and goroutine %d (%s) at %s", i, kind(a.wr), a.where(st), st.cur, kind(wr), st.where())})
				}
			}
		}
	}
	if atomic {
		return
	}
	g := st.wg(st.cur)
	g.nacc++
	for k := range g.acc {
		a := &g.acc[k]
		if a.o != o || len(a.tags) > 0 {
			continue
		}
		if a.off <= off && off+n <= a.off+a.n && (a.wr || !wr) {
			return
		}
	}
	if k := len(g.acc) - 1; k >= 0 {
		if a := g.acc[k]; a.o == o && a.wr == wr && len(a.tags) == 0 && a.off+a.n == off {
			na := append([]access(nil), g.acc...)
			na[k].n += n
			g.acc = na
			return
		}
	}
	g.acc = append(g.acc[:len(g.acc):len(g.acc)], access{o: o, off: off, n: n, wr: wr, ci: ci, fn: f.fn})
}

func (a *access) where(st *State) string {
	if p := a.ci.ins.Pos(); p.IsValid() {
		return st.e.prog.Fset.Position(p).String() + " in " + a.fn.fn.String()
	}
	return a.fn.fn.String()
}

// syncOp is called before a synchronisation operation of the current goroutine.
func (st *State) syncOp(p pendOp, f *Frame, ci *CInstr) {
	if isPlain(p.kind) {
		st.access(&p, f, ci)
		return
	}
	g := st.wg(st.cur)
	g.acc, g.nacc = nil, 0
	if p.kind == opAtomic {
		st.accessAt(p.o, p.off, p.n, p.zero, true, f, ci)
	}
	if p.kind == opQuiesce {
		for i := range st.gs {
			if len(st.gs[i].acc) > 0 {
				st.wg(i).acc = nil
			}
		}
	}
}

// release: what the current goroutine did so far is ordered before whoever
// acquires the cell later.
func (st *State) release(p Ptr) {
	if !st.e.coarse || len(st.g().acc) == 0 {
		return
	}
	g := st.wg(st.cur)
	na := append([]access(nil), g.acc...)
	for i := range na {
		na[i].tags = append(na[i].tags[:len(na[i].tags):len(na[i].tags)], relCell{p.o, p.off})
	}
	g.acc = na
}

func (st *State) acquire(p Ptr) {
	if !st.e.coarse {
		return
	}
	r := relCell{p.o, p.off}
	for i, h := range st.gs {
		hit := false
		for _, a := range h.acc {
			for _, t := range a.tags {
				if t == r {
					hit = true
				}
			}
		}
		if !hit {
			continue
		}
		var na []access
	next:
		for _, a := range h.acc {
			for _, t := range a.tags {
				if t == r {
					continue next
				}
			}
			na = append(na, a)
		}
		st.wg(i).acc = na
	}
}

func isMem(k opKind) bool {
	return k == opLoad || k == opStore || k == opAtomic || k == opMapRead || k == opMapWrite
}

func (st *State) gwhere(i int) string {
	s := st.cur
	st.cur = i
	defer func() { st.cur = s }()
	return st.where()
}
