package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Heap struct {
	objs []*Obj // index = id; objs[0] == nil
}

type gstatus uint8

const (
	gRun  gstatus = iota // may execute invisible instructions
	gStop                // stopped in front of a visible operation
	gDone
)

type opKind uint8

const (
	opNone opKind = iota
	opLoad
	opStore
	opAtomic
	opYield
	opWait  // sym.WaitZero / WaitNonZero: enabled iff cell (non)zero
	opSleep // enabled iff clock >= deadline
	opSend
	opRecv
	opSelect
	opClose
	opQuiesce
	opMapRead
	opMapWrite
	opStart
)

// pending visible operation of a stopped goroutine
type pendOp struct {
	kind     opKind
	o        int32
	off, n   int32
	src      int32 // second object read (append, copy)
	srcOff   int32
	srcN     int32
	zero     bool // opWait: wait for zero (else non-zero)
	deadline *Term
	future   bool // deadline known to lie after the current clock
	val      Value
	cases    []selCase
	blocking bool
}

type selCase struct {
	ch   int32
	send bool
	val  Value
}

type panicRec struct {
	val       Value // IfaceV
	recovered bool
	goexit    bool
	frame     int // index of the deferring frame currently processing
}

type deferRec struct {
	fn   Value // *FuncV or builtin via FuncV.bi
	args []Value
}

type Frame struct {
	own    uint64
	fn     *CFunc
	regs   []Value
	block  int
	ip     int
	prev   int
	defers []deferRec
	// panic processing
	panicking *panicRec
	runDefers bool // executing RunDefers instruction
	isDefer   bool // frame was called as a deferred function
	retDst    int  // register in the caller
	rets      []Value
	hasRets   bool
	noRet     bool // discard result
	backs     int  // back-edge counter
}

type G struct {
	own     uint64
	id      int
	frames  []*Frame
	status  gstatus
	granted bool
	daemon  bool
	parked  bool // certainly waiting inside its operation, not just about to start it
	pend    pendOp
	hasRes  bool // rendezvous result was delivered by the partner
	res     Value
	resIdx  int
	name    string
	spawned int
	acc     []access // plain accesses since the last synchronisation operation
	nacc    int
}

// access is a plain memory access of a goroutine to a shared object. tags are
// the synchronisation cells released after it.
type access struct {
	o, off, n int32
	wr        bool
	tags      []relCell
	ci        *CInstr
	fn        *CFunc
}

type relCell struct{ o, off int32 }

type input struct {
	name string
	t    *Term
	w    uint8
}

type obsRec struct {
	label string
	vals  []Value
	typs  []types.Type
}

type ufEnt struct {
	in  []*Term
	lay string
	out []*Term
}

type State struct {
	e           *Engine
	own         uint64
	base        *Heap
	ov          map[int32]*Obj
	nextObj     int32
	gs          []*G
	cur         int
	pc          []*Term
	pcSet       map[*Term]struct{}
	model       Model
	names       map[string]int
	inputs      []input
	stepGranted bool // the current instruction was chosen by the scheduler
	forced      []int
	fpos        int
	decs        []int
	insNames    []string
	obs         []obsRec
	uf          map[string][]ufEnt
	clock       *Term
	ticks       int
	epoch       int
	depth       int // number of forks on the path
	hash        uint64
	sched       []string
	preempt     int
	lastG       int
	node        int // graph node the state stems from
	steps       int64
	multi       bool // a goroutine has been started
	atomic      int
	reached     map[string]bool
	note        string
	counts      map[string]int64
	initing     bool
	spec        bool // speculative evaluation: no forks, no effects
	merged      bool
	wantPark    bool
}

func (st *State) clone() *State {
	e := st.e
	n := *st
	old := st.own
	st.own = e.newOwn()
	n.own = e.newOwn()
	n.ov = make(map[int32]*Obj, len(st.ov)+8)
	for k, v := range st.ov {
		n.ov[k] = v
	}
	n.gs = append([]*G(nil), st.gs...)
	// the instruction being executed holds on to the current frame: it stays
	// with this state, the new one gets a copy
	if st.cur < len(st.gs) && st.gs[st.cur].own == old {
		g := st.gs[st.cur]
		ng := *g
		ng.own = n.own
		ng.frames = append([]*Frame(nil), g.frames...)
		g.own = st.own
		if k := len(g.frames) - 1; k >= 0 && g.frames[k].own == old {
			ng.frames[k] = n.copyFrame(g.frames[k])
			g.frames[k].own = st.own
		}
		n.gs[st.cur] = &ng
	}
	n.pc = st.pc[:len(st.pc):len(st.pc)]
	st.pc = n.pc
	n.inputs = st.inputs[:len(st.inputs):len(st.inputs)]
	st.inputs = n.inputs
	n.obs = st.obs[:len(st.obs):len(st.obs)]
	st.obs = n.obs
	n.sched = st.sched[:len(st.sched):len(st.sched)]
	st.sched = n.sched
	n.names = make(map[string]int, len(st.names))
	for k, v := range st.names {
		n.names[k] = v
	}
	if st.uf != nil {
		n.uf = make(map[string][]ufEnt, len(st.uf))
		for k, v := range st.uf {
			n.uf[k] = v[:len(v):len(v)]
			st.uf[k] = n.uf[k]
		}
	}
	if st.counts != nil {
		n.counts = map[string]int64{}
		for k, v := range st.counts {
			n.counts[k] = v
		}
	}
	if st.reached != nil {
		n.reached = map[string]bool{}
		for k, v := range st.reached {
			n.reached[k] = v
		}
	}
	n.forced = nil
	n.fpos = 0
	n.decs = nil
	return &n
}

// ---- heap

func (st *State) obj(id int32) *Obj {
	if o, ok := st.ov[id]; ok {
		return o
	}
	if st.base != nil && int(id) < len(st.base.objs) {
		return st.base.objs[id]
	}
	if o, ok := st.e.late[id]; ok {
		return o
	}
	panic(fmt.Sprintf("no object %d", id))
}

func (st *State) wobj(id int32) *Obj {
	if o, ok := st.ov[id]; ok && o.own == st.own {
		return o
	}
	o := *st.obj(id)
	o.own = st.own
	if o.cells != nil {
		o.cells = append([]Value(nil), o.cells...)
	}
	if o.m != nil {
		m := *o.m
		m.ents = append([]MapEnt(nil), m.ents...)
		o.m = &m
	}
	if o.ch != nil {
		c := *o.ch
		c.buf = append([]Value(nil), c.buf...)
		o.ch = &c
	}
	if o.it != nil {
		i := *o.it
		i.visited = append([]int32(nil), i.visited...)
		o.it = &i
	}
	st.ov[id] = &o
	return &o
}

func (st *State) alloc(o *Obj) int32 {
	id := st.nextObj
	st.nextObj++
	o.own = st.own
	st.ov[id] = o
	return id
}

func (st *State) allocCells(cells []Value, elem types.Type) int32 {
	return st.alloc(&Obj{cells: cells, elem: elem})
}

// share marks everything reachable from v as visible to other goroutines.
func (st *State) share(v Value) {
	switch x := v.(type) {
	case Ptr:
		st.shareObj(x.o)
	case *SymPtr:
		st.shareObj(x.o)
	case SliceV:
		st.shareObj(x.o)
	case MapV:
		st.shareObj(x.o)
	case ChanV:
		st.shareObj(x.o)
	case IfaceV:
		st.share(x.v)
	case *FuncV:
		if x != nil {
			for _, b := range x.b {
				st.share(b)
			}
		}
	case *Agg:
		for _, c := range x.c {
			st.share(c)
		}
	case *Tuple:
		for _, c := range x.c {
			st.share(c)
		}
	}
}

func (st *State) shareObj(id int32) {
	if id == 0 {
		return
	}
	o := st.obj(id)
	if o.shared {
		return
	}
	o = st.wobj(id)
	o.shared = true
	for _, c := range o.cells {
		st.share(c)
	}
	if o.m != nil {
		for _, e := range o.m.ents {
			st.share(e.k)
			st.share(e.v)
		}
	}
	if o.ch != nil {
		for _, c := range o.ch.buf {
			st.share(c)
		}
	}
}

// ---- goroutines and frames

func (st *State) g() *G { return st.wg(st.cur) }

func (st *State) wg(i int) *G {
	g := st.gs[i]
	if g.own == st.own {
		return g
	}
	n := *g
	n.own = st.own
	n.frames = append([]*Frame(nil), g.frames...)
	st.gs[i] = &n
	return &n
}

func (st *State) top() *Frame {
	g := st.g()
	i := len(g.frames) - 1
	f := g.frames[i]
	if f.own == st.own {
		return f
	}
	n := st.copyFrame(f)
	g.frames[i] = n
	return n
}

func (st *State) copyFrame(f *Frame) *Frame {
	n := *f
	n.own = st.own
	n.regs = append([]Value(nil), f.regs...)
	n.defers = append([]deferRec(nil), f.defers...)
	if f.panicking != nil {
		p := *f.panicking
		n.panicking = &p
	}
	return &n
}

func (st *State) frameAt(i int) *Frame {
	g := st.g()
	f := g.frames[i]
	if f.own == st.own {
		return f
	}
	n := st.copyFrame(f)
	g.frames[i] = n
	return n
}

func (st *State) pushFrame(fn *CFunc, args []Value, retDst int) *Frame {
	f := &Frame{own: st.own, fn: fn, regs: make([]Value, fn.nregs), retDst: retDst, prev: -1}
	copy(f.regs, args)
	g := st.g()
	g.frames = append(g.frames, f)
	if len(g.frames) > 400 {
		panic(unsupported("call depth exceeds 400 frames in " + fn.fn.String()))
	}
	st.e.noteFn(fn.fn)
	return f
}

// ---- path condition

type killPath struct{ why string }

type unsupportedErr struct{ msg string }

func unsupported(msg string) unsupportedErr { return unsupportedErr{msg} }

func (st *State) addPC(t *Term) {
	if t.IsConst() {
		if t.v == 0 {
			panic(killPath{"contradiction"})
		}
		return
	}
	if t.op == OAnd {
		for _, x := range t.a {
			st.addPC(x)
		}
		return
	}
	if t.op == ONot && t.a[0].op == OOr {
		for _, x := range t.a[0].a {
			st.addPC(st.e.c.Not(x))
		}
		return
	}
	st.pc = append(st.pc, t)
}

// relevant returns the conjuncts of pc connected to vars.
func (st *State) relevant(vars []int32) []*Term {
	used := make([]bool, len(st.pc))
	cur := vars
	for changed := true; changed; {
		changed = false
		for i, t := range st.pc {
			if !used[i] && intersects(t.vars, cur) {
				used[i] = true
				changed = true
				cur = unionIDs(cur, t.vars)
			}
		}
	}
	var out []*Term
	for i, t := range st.pc {
		if used[i] {
			out = append(out, t)
		}
	}
	return out
}

// feasible decides pc ∧ c and returns a full model when satisfiable.
func (st *State) feasible(c *Term) (Result, Model) {
	if c.IsConst() {
		if c.v == 0 {
			return Unsat, nil
		}
		return Sat, st.model
	}
	if st.model != nil {
		if b, ok := st.model.evalBool(c); ok && b {
			st.e.sol.Stats.ModelHits++
			return Sat, st.model
		}
	}
	// syntactic shortcut
	nc := st.e.c.Not(c)
	for _, t := range st.pc {
		if t == nc {
			return Unsat, nil
		}
	}
	if !st.e.deadline.IsZero() && !st.initing && time.Now().After(st.e.deadline) {
		st.e.timedOut = true
		panic(unsupported("time budget exhausted"))
	}
	rel := st.relevant(c.vars)
	if !st.e.noFast {
		if r, m := st.orderFast(c, rel); r != Unknown {
			st.e.nfast++
			if n := st.e.nfast; n <= 32 || n%512 == 0 { // confirmed by the solver
				r2, _ := st.e.sol.Check(append(append([]*Term(nil), rel...), c))
				if r2 != Unknown && r2 != r {
					st.e.sol.Stats.Disagree++
				} else {
					st.e.sol.Stats.Cross++
				}
			}
			return r, m
		}
	}
	conds := append(rel, c)
	r, m := st.e.sol.Check(conds)
	if r == Sat {
		if m == nil {
			return Sat, nil
		}
		full := make(Model, len(st.model)+len(m))
		for k, v := range st.model {
			full[k] = v
		}
		for k, v := range m {
			full[k] = v
		}
		return Sat, full
	}
	return r, nil
}

// choice among n alternatives i with conditions conds[i]; forks the state.
// Returns the alternative taken by this state.
func (st *State) fork(conds []*Term) int {
	if st.fpos < len(st.forced) {
		d := st.forced[st.fpos]
		st.fpos++
		st.decs = append(st.decs, d)
		return d
	}
	if st.initing {
		for i, c := range conds {
			if c.IsConst() && c.v != 0 {
				st.decs = append(st.decs, i)
				return i
			}
		}
		panic(unsupported("symbolic branch during package initialisation"))
	}
	type alt struct {
		i int
		m Model
		u bool
	}
	var alts []alt
	for i, c := range conds {
		if c.IsConst() && c.v == 0 {
			continue
		}
		r, m := st.feasible(c)
		switch r {
		case Sat:
			alts = append(alts, alt{i, m, false})
		case Unknown:
			st.e.noteUnknown("branch")
			alts = append(alts, alt{i, nil, true})
		}
	}
	if len(alts) == 0 {
		panic(killPath{"infeasible"})
	}
	single := len(alts) == 1
	// children for the alternatives after the first
	if !single {
		st.depth++
		h0 := st.hash
		for k := len(alts) - 1; k >= 1; k-- {
			a := alts[k]
			ch := st.clone()
			ch.forced = append(append([]int(nil), st.decs...), a.i)
			ch.fpos = 0
			ch.decs = nil
			for _, nm := range st.insNames {
				ch.names[nm]--
			}
			ch.inputs = ch.inputs[:len(ch.inputs)-len(st.insNames)]
			ch.insNames = nil
			if st.stepGranted {
				ch.wg(ch.cur).granted = true // it re-executes the operation
			}
			ch.hash = mix(h0, uint64(a.i)+1)
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(killPath); !ok {
							panic(r)
						}
						ch = nil
					}
				}()
				ch.addPC(conds[a.i])
			}()
			if ch == nil {
				continue
			}
			ch.model = a.m
			if !st.e.shardDrop(ch) {
				st.e.push(ch)
			}
		}
		st.hash = mix(h0, uint64(alts[0].i)+1)
		st.e.nforks++
	}
	a := alts[0]
	if !(conds[a.i].IsConst()) {
		if !single || a.u {
			st.addPC(conds[a.i])
		}
		st.model = a.m
	}
	st.decs = append(st.decs, a.i)
	if !single && st.e.shardDrop(st) {
		panic(killPath{"shard"})
	}
	return a.i
}

func mix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 29
	return h
}

func (st *State) decide(c *Term) bool {
	if c.IsConst() {
		return c.v != 0
	}
	if st.spec {
		panic(specAbort{})
	}
	return st.fork([]*Term{c, st.e.c.Not(c)}) == 0
}

// concretize forks over all feasible values of t (bounded).
func (st *State) concretize(t *Term, limit int, what string) uint64 {
	if st.spec && !t.IsConst() {
		panic(specAbort{})
	}
	for i := 0; ; i++ {
		if t.IsConst() {
			return t.v
		}
		if i > limit {
			panic(unsupported(fmt.Sprintf("too many values while concretising %s", what)))
		}
		var v uint64
		if st.fpos < len(st.forced) {
			// replaying: the value was recorded as decision index pairs
			v = uint64(st.forced[st.fpos])
			st.fpos++
			st.decs = append(st.decs, int(v))
		} else {
			if st.model == nil {
				r, m := st.e.sol.Check(st.pc)
				if r != Sat || m == nil {
					panic(unsupported("no model while concretising " + what))
				}
				st.model = m
			}
			vv, ok := st.model.eval(t)
			if !ok {
				panic(unsupported("cannot evaluate while concretising " + what))
			}
			v = vv
			st.decs = append(st.decs, int(v))
		}
		if st.decide(st.e.c.Eq(t, st.e.constLike(t, v))) {
			return v
		}
	}
}

func (e *Engine) constLike(t *Term, v uint64) *Term {
	switch t.sort.K {
	case SBool:
		return e.c.Bool(v != 0)
	case SBV:
		return e.c.BV(t.sort.W, v)
	}
	return e.c.mk(OConst, t.sort, v, "")
}

// choose makes an n-way nondeterministic choice recorded as a symbolic input.
func (st *State) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	v := st.freshInput(name, 64)
	conds := make([]*Term, n)
	for i := range conds {
		conds[i] = st.e.c.Eq(v, st.e.c.BV(64, uint64(i)))
	}
	return st.fork(conds)
}

// freshInput creates the symbolic variable name#k of width w (1 = bool).
// The counter is rolled back in forked children, which re-execute the
// instruction.
func (st *State) freshInput(name string, w uint8) *Term {
	if st.spec {
		panic(specAbort{})
	}
	k := st.names[name]
	full := fmt.Sprintf("%s#%d", name, k)
	so := Sort{SBV, w}
	if w == 1 {
		so = Sort{SBool, 1}
	}
	t := st.e.c.Var(full, so)
	if st.e.forcing {
		if v, ok := st.e.forceVals[full]; ok {
			t = st.e.constLike(t, v&mask(w))
		}
	}
	st.names[name]++
	st.insNames = append(st.insNames, name)
	st.inputs = append(st.inputs, input{full, t, w})
	return t
}

func (st *State) describePC() string {
	var p []string
	for _, t := range st.pc {
		p = append(p, t.String())
	}
	sort.Strings(p)
	return strings.Join(p, " ∧ ")
}

func (st *State) where() string {
	if st.cur >= len(st.gs) {
		return "?"
	}
	g := st.gs[st.cur]
	if len(g.frames) == 0 {
		return "?"
	}
	for i := len(g.frames) - 1; i >= 0; i-- {
		f := g.frames[i]
		if ins := f.fn.at(f.block, f.ip); ins != nil {
			if p := ins.Pos(); p.IsValid() {
				return st.e.prog.Fset.Position(p).String() + " in " + f.fn.fn.String()
			}
		}
	}
	return g.frames[len(g.frames)-1].fn.fn.String()
}

var _ = ssa.NaiveForm
