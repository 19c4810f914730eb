package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Engine struct {
	c       *Ctx
	sol     *Solver
	prog    *ssa.Program
	ly      Layouts
	types   typeutil.Map
	typeIDs map[types.Type]int
	fnIDs   map[*ssa.Function]int
	cfuncs  map[*ssa.Function]*CFunc
	models  map[string]*ssa.Function
	replace map[string]*CFunc
	impl    map[implKey]bool
	methods map[methKey]*ssa.Function
	sizes   types.Sizes

	rtErrType types.Type
	globals   map[*ssa.Global]int32
	base      *Heap
	late      map[int32]*Obj
	frozen    bool
	badInit   map[string]bool
	hasInit   map[*ssa.Global]bool
	initState *State
	ownCtr    uint64
	blocked   map[string]bool
	modPath   string

	ipdoms      map[*CFunc][]int
	goodDiamond map[diamKey]bool
	badDiamond  map[diamKey]bool
	noDiamond   bool
	mapOrdered  bool

	maxBack    int
	maxConc    int
	maxTicks   int
	maxPreempt int
	raceCheck  bool
	panicNil   bool // panic(nil) is not turned into an error (go.mod before 1.21)
	lazyTick   bool // time passes only when nothing can run
	hang       bool // a harness goroutine that no further tick wakes is stuck
	coarse     bool // switch at synchronisation operations only
	usesTry    bool // TryLock in the code: a held lock is observable
	leakOK     bool
	shardI     int
	shardN     int
	shardD     int
	tier       string
	deadline   time.Time
	opts       map[string]string

	stack  []*State
	parked map[int]map[hashKey][]*parkedState
	merges int

	visited map[hashKey]int32
	nodes   []graphNode

	// statistics
	nsteps     int64
	nforks     int64
	ndiamond   int64
	npaths     int64
	nkilled    int64
	nsched     int64
	nedges     int64
	unsup      map[string]int
	unknowns   map[string]int
	fns        map[*ssa.Function]bool
	reachedL   map[string]int
	viol       []*Violation
	violKeys   map[string]bool
	samples    []*Sample
	sampleSeen int64
	asserts    map[string]int64
	maxViol    int
	timedOut   bool
	dupHits    int64
	intrFns    map[string]*ssa.Function
	noFast     bool // the order pre-solver is off (assertions)
	nfast      int
	forceVals  map[string]uint64
	forcing    bool
}

type methKey struct {
	t types.Type
	n string
}

type graphNode struct {
	succ   []int32
	ok     bool
	parent int32
	sched  []string
	inputs []input
	model  Model
	note   string
}

type parkedState struct {
	st *State
	c  *canonizer
}

type InVal struct {
	Name string `json:"name"`
	Val  uint64 `json:"val"`
	W    uint8  `json:"w"`
}

type Violation struct {
	Kind    string   `json:"kind"`
	Msg     string   `json:"msg"`
	Where   string   `json:"where"`
	Inputs  []InVal  `json:"inputs"`
	Sched   []string `json:"sched,omitempty"`
	Harness string   `json:"harness"`
	PC      string   `json:"pc,omitempty"`
}

type Sample struct {
	Inputs  []InVal  `json:"inputs"`
	Obs     []string `json:"obs"`
	HasObs  bool     `json:"hasObs"`
	Harness string   `json:"harness"`
}

func NewEngine() *Engine {
	e := &Engine{
		c: NewCtx(), typeIDs: map[types.Type]int{}, fnIDs: map[*ssa.Function]int{}, cfuncs: map[*ssa.Function]*CFunc{},
		models: map[string]*ssa.Function{}, replace: map[string]*CFunc{}, impl: map[implKey]bool{}, methods: map[methKey]*ssa.Function{},
		sizes: types.SizesFor("gc", "amd64"), globals: map[*ssa.Global]int32{}, blocked: map[string]bool{},
		ipdoms: map[*CFunc][]int{}, goodDiamond: map[diamKey]bool{}, badDiamond: map[diamKey]bool{},
		maxBack: 3000, maxConc: 4096, maxTicks: 4, maxPreempt: -1, raceCheck: true, shardN: 1, shardD: 6,
		parked: map[int]map[hashKey][]*parkedState{}, visited: map[hashKey]int32{},
		unsup: map[string]int{}, unknowns: map[string]int{}, fns: map[*ssa.Function]bool{}, reachedL: map[string]int{},
		violKeys: map[string]bool{}, late: map[int32]*Obj{}, badInit: map[string]bool{}, hasInit: map[*ssa.Global]bool{}, asserts: map[string]int64{}, maxViol: 3, opts: map[string]string{}, intrFns: map[string]*ssa.Function{}, forceVals: map[string]uint64{},
	}
	e.sol = NewSolver(e.c)
	e.base = &Heap{objs: []*Obj{nil}}
	return e
}

func (e *Engine) newOwn() uint64 { e.ownCtr++; return e.ownCtr }

func (e *Engine) fnID(f *ssa.Function) int {
	if id, ok := e.fnIDs[f]; ok {
		return id
	}
	id := len(e.fnIDs) + 1
	e.fnIDs[f] = id
	return id
}

func (e *Engine) noteFn(f *ssa.Function) {
	if !e.fns[f] {
		e.fns[f] = true
	}
}

func (e *Engine) noteUnknown(what string) { e.unknowns[what]++ }

func (e *Engine) push(st *State) { e.stack = append(e.stack, st) }

func (e *Engine) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Name()}
	if !m.Exported() && m.Pkg() != nil {
		k.n = m.Pkg().Path() + "." + m.Name()
	}
	if f, ok := e.methods[k]; ok {
		return f
	}
	var f *ssa.Function
	if sel := e.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name()); sel != nil {
		f = e.prog.MethodValue(sel)
	}
	e.methods[k] = f
	return f
}

func (e *Engine) harnessRedirect(cf *CFunc) *CFunc {
	if len(e.replace) == 0 {
		return nil
	}
	return e.replace[cf.pos]
}

func (e *Engine) schedOnly(t *Term) bool {
	if len(t.vars) != 1 {
		return false
	}
	return strings.HasPrefix(e.c.all[t.vars[0]].name, "sched#")
}

// shardDrop decides whether the state belongs to another worker.
func (e *Engine) shardDrop(st *State) bool {
	if e.shardN <= 1 || st.depth != e.shardD {
		return false
	}
	return int(st.hash%uint64(e.shardN)) != e.shardI
}

func (e *Engine) run(st *State) {
	e.push(st)
	for {
		for len(e.stack) > 0 {
			if time.Now().After(e.deadline) {
				e.timedOut = true
				return
			}
			s := e.stack[len(e.stack)-1]
			e.stack = e.stack[:len(e.stack)-1]
			e.runState(s)
			if len(e.viol) >= e.maxViol {
				return
			}
		}
		if len(e.parked) == 0 {
			break
		}
		e.release()
	}
	e.livelocks()
}

func (e *Engine) release() {
	var eps []int
	for k := range e.parked {
		eps = append(eps, k)
	}
	sort.Ints(eps)
	groups := e.parked[eps[0]]
	delete(e.parked, eps[0])
	var keys []string
	byKey := map[string][]*parkedState{}
	for k, v := range groups {
		keys = append(keys, string(k[:]))
		byKey[string(k[:])] = v
	}
	sort.Strings(keys)
	for _, k := range keys {
		g := byKey[k]
		cur := g[0]
		for _, o := range g[1:] {
			m := e.mergeStates(cur.st, cur.c, o.st, o.c)
			if m == nil {
				e.push(o.st)
				continue
			}
			e.merges++
			_, c := m.shape()
			cur = &parkedState{m, c}
		}
		e.push(cur.st)
	}
}

func (e *Engine) park(st *State) {
	st.epoch++
	if e.parked[st.epoch] == nil {
		e.parked[st.epoch] = map[hashKey][]*parkedState{}
	}
	k, c := st.shape()
	e.parked[st.epoch][k] = append(e.parked[st.epoch][k], &parkedState{st, c})
}

func (e *Engine) runState(st *State) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case killPath:
			if x.why != "shard" {
				e.nkilled++
				if os.Getenv("VERIF_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "cut: %s %s @ %s\n", x.why, st.sched, st.where())
				}
			}
			e.markOK(st)
		case raceFound:
			e.violation(st, "race", x.msg, st.model)
			e.markOK(st)
		case unsupportedErr:
			w := x.msg
			if os.Getenv("VERIF_DEBUG") != "" {
				w += " @ " + st.where()
			}
			e.unsup[w]++
			e.markOK(st)
		case crash:
			e.markOK(st)
			m := st.model
			if m == nil {
				_, m = e.sol.Check(st.pc)
			}
			kind := "panic"
			if x.g != 0 {
				kind = "goroutine-panic"
			}
			e.violation(st, kind, "uncaught panic: "+e.showPanic(x.val, m), m)
		case stopExplore:
		default:
			if os.Getenv("VERIF_DEBUG") == "2" {
				panic(r)
			}
			e.unsup[fmt.Sprintf("internal: %v @ %s", r, st.where())]++
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "internal error: %v\n%s\n", r, debug.Stack())
			}
			e.markOK(st)
		}
	}()
	n := 0
	for {
		n++
		if n&1023 == 0 && time.Now().After(e.deadline) {
			e.timedOut = true
			panic(unsupported("time budget exhausted"))
		}
		g := st.gs[st.cur]
		if g.status == gDone || len(g.frames) == 0 {
			if st.cur == 0 {
				e.pathEnd(st)
				return
			}
			if !e.nextG(st) {
				return
			}
			continue
		}
		if g.status == gStop {
			if !e.nextG(st) {
				return
			}
			continue
		}
		switch st.step() {
		case stepPark:
			e.park(st)
			return
		case stepStop:
			if !e.nextG(st) {
				return
			}
		}
	}
}

type stopExplore struct{}

func (e *Engine) markOK(st *State) {
	if int(st.node) < len(e.nodes) {
		e.nodes[st.node].ok = true
	}
}

func (e *Engine) pathEnd(st *State) {
	e.markOK(st)
	e.npaths++
	for k := range st.reached {
		e.reachedL[k]++
	}
	e.sample(st)
}

// nextG selects a goroutine that can run invisibly, or makes a scheduling
// decision. It reports false when the state has been consumed.
func (e *Engine) nextG(st *State) bool {
	for i, g := range st.gs {
		if g.status == gRun && len(g.frames) > 0 {
			st.cur = i
			return true
		}
	}
	return e.schedNode(st)
}

func (e *Engine) schedNode(st *State) bool {
	if st.gs[0].status == gDone {
		e.pathEnd(st)
		return false
	}
	st.decs, st.insNames, st.forced, st.fpos = nil, nil, nil, 0
	if e.raceCheck {
		if r := st.race(); r != "" {
			m := st.model
			e.violation(st, "race", r, m)
			e.markOK(st)
			return false
		}
	}
	var en []int
	sleepers := false
	for i, g := range st.gs {
		if g.status != gStop {
			continue
		}
		if g.pend.kind == opSleep {
			if g.pend.future {
				sleepers = true
				continue
			}
			c := e.c.Sle(g.pend.deadline, st.clock)
			if !c.IsConst() {
				// symbolic deadline: split here, both outcomes re-enter
				st.splitClock(c)
				return e.schedNode(st)
			}
			if c.v == 0 {
				sleepers = true
				continue
			}
		}
		if st.enabled(i, &g.pend) {
			en = append(en, i)
		}
	}
	tick := sleepers && st.ticks < e.maxTicks && (!e.lazyTick || len(en) == 0)
	if sleepers && e.hang && len(en) == 0 && st.ticks < e.maxTicks+6 {
		tick = true // before it is called stuck, more time may pass
	}
	if len(en) == 0 && !tick {
		e.markOK(st)
		if sleepers && !(e.hang && st.gs[0].pend.kind != opSleep) {
			e.unsup["bound: clock-advance budget exhausted"]++
			return false
		}
		m := st.model
		if m == nil {
			_, m = e.sol.Check(st.pc)
		}
		var w []string
		for i, g := range st.gs {
			if g.status == gStop {
				w = append(w, fmt.Sprintf("goroutine %d blocked on %v at %s", g.id, g.pend.kind, st.gwhere(i)))
			}
		}
		e.violation(st, "deadlock", "all goroutines are blocked: "+strings.Join(w, "; "), m)
		return false
	}
	if len(en) == 1 && !tick && st.gs[en[0]].pend.kind != opYield {
		g := st.wg(en[0])
		g.status, g.granted = gRun, true
		st.cur = en[0]
		st.lastG = en[0]
		return true
	}
	k := st.key()
	if id, ok := e.visited[k]; ok {
		e.dupHits++
		e.nodes[st.node].succ = append(e.nodes[st.node].succ, id)
		e.nedges++
		return false
	}
	id := int32(len(e.nodes))
	e.visited[k] = id
	e.nodes = append(e.nodes, graphNode{parent: int32(st.node), sched: st.sched, inputs: st.inputs, model: st.model})
	if st.node != int(id) {
		e.nodes[st.node].succ = append(e.nodes[st.node].succ, id)
		e.nedges++
	}
	st.node = int(id)
	type choice struct {
		g int // -1: tick
	}
	var ch []choice
	lastOn := false
	for _, i := range en {
		if i == st.lastG && st.gs[i].pend.kind != opYield {
			lastOn = true
		}
	}
	for _, i := range en {
		if e.maxPreempt >= 0 && lastOn && i != st.lastG && st.preempt >= e.maxPreempt {
			continue
		}
		ch = append(ch, choice{i})
	}
	if tick {
		ch = append(ch, choice{-1})
	}
	if len(e.nodes) > 3000000 {
		panic(unsupported("state budget exhausted"))
	}
	e.nsched++
	// the schedule is a symbolic input: sched#k = goroutine chosen at step k
	sv := st.freshInput("sched", 8)
	st.insNames = nil
	for k := len(ch) - 1; k >= 0; k-- {
		c := ch[k]
		n := st
		if k > 0 {
			n = st.clone()
		}
		val := uint64(255)
		if c.g >= 0 {
			val = uint64(c.g)
		}
		if sv.IsConst() {
			if sv.v != val {
				if k == 0 {
					return false
				}
				continue
			}
		} else if len(ch) > 1 {
			n.pc = append(n.pc, e.c.Eq(sv, e.c.BV(8, val)))
		}
		if n.model != nil && !sv.IsConst() {
			m := make(Model, len(n.model)+1)
			for a, b := range n.model {
				m[a] = b
			}
			m[sv.id] = val
			n.model = m
		}
		if c.g >= 0 {
			n.sched = append(n.sched, fmt.Sprintf("g%d:%v@%s", c.g, n.gs[c.g].pend.kind, n.gwhere(c.g)))
			if lastOn && c.g != n.lastG {
				n.preempt++
			}
			g := n.wg(c.g)
			g.status, g.granted = gRun, true
			n.cur, n.lastG = c.g, c.g
			if k > 0 {
				e.push(n)
			}
			continue
		}
		n.sched = append(n.sched, "tick")
		n.ticks++
		if len(en) == 0 {
			n.park(-1)
		}
		if k > 0 {
			e.pushTick(n)
		} else {
			e.pushTick(n)
			return false
		}
	}
	return true
}

// splitClock forks on a symbolic comparison with the clock.
func (st *State) splitClock(c *Term) {
	e := st.e
	r1, m1 := st.feasible(c)
	r2, m2 := st.feasible(e.c.Not(c))
	switch {
	case r1 != Unsat && r2 != Unsat:
		o := st.clone()
		o.addPC(e.c.Not(c))
		o.model = m2
		o.clockFacts(e.c.Not(c))
		e.push(o)
		st.addPC(c)
		st.model = m1
		st.clockFacts(c)
	case r1 != Unsat:
		st.clockFacts(c)
	case r2 != Unsat:
		st.clockFacts(e.c.Not(c))
	default:
		panic(killPath{"infeasible"})
	}
}

// clockFacts rewrites sleeping deadlines decided by fact so that the
// comparison becomes constant: elapsed deadlines are replaced by "now - 1"
// markers and pending ones keep an explicit flag.
func (st *State) clockFacts(fact *Term) {
	for i, g := range st.gs {
		if g.status == gStop && g.pend.kind == opSleep {
			c := st.e.c.Sle(g.pend.deadline, st.clock)
			if c == fact {
				w := st.wg(i)
				w.pend.deadline = st.clock // elapsed
			} else if st.e.c.Not(c) == fact {
				w := st.wg(i)
				w.pend.future = true
			}
		}
	}
}

func (e *Engine) pushTick(st *State) {
	// advance the clock to the earliest pending deadline
	var idx []int
	for i, g := range st.gs {
		if g.status == gStop && g.pend.kind == opSleep {
			c := e.c.Sle(g.pend.deadline, st.clock)
			if c.IsConst() && c.v == 0 || g.pend.future {
				idx = append(idx, i)
			}
		}
	}
	for n, i := range idx {
		d := st.gs[i].pend.deadline
		var cs []*Term
		for m, j := range idx {
			if m == n {
				continue
			}
			o := st.gs[j].pend.deadline
			if m < n {
				cs = append(cs, e.c.Slt(d, o))
			} else {
				cs = append(cs, e.c.Sle(d, o))
			}
		}
		cond := e.c.And(cs...)
		r, m := st.feasible(cond)
		if r == Unsat {
			continue
		}
		s := st.clone()
		if !cond.IsConst() {
			s.addPC(cond)
		}
		s.model = m
		s.clock = d
		for j := range s.gs {
			if s.gs[j].status == gStop && s.gs[j].pend.future {
				s.wg(j).pend.future = false
			}
		}
		e.push(s)
	}
}

func (e *Engine) livelocks() {
	if len(e.nodes) <= 1 || len(e.viol) > 0 {
		return
	}
	rev := make([][]int32, len(e.nodes))
	for i := range e.nodes {
		for _, s := range e.nodes[i].succ {
			rev[s] = append(rev[s], int32(i))
		}
	}
	good := make([]bool, len(e.nodes))
	var q []int32
	for i := range e.nodes {
		if e.nodes[i].ok {
			good[i] = true
			q = append(q, int32(i))
		}
	}
	for len(q) > 0 {
		x := q[len(q)-1]
		q = q[:len(q)-1]
		for _, p := range rev[x] {
			if !good[p] {
				good[p] = true
				q = append(q, p)
			}
		}
	}
	for i := range e.nodes {
		if !good[i] {
			n := &e.nodes[i]
			st := &State{e: e, inputs: n.inputs, sched: n.sched}
			e.violation(st, "livelock", "no continuation of this schedule ever finishes (goroutines spin forever)", n.model)
			return
		}
	}
}

func (e *Engine) modelOf(st *State, m Model) []InVal {
	var out []InVal
	for _, in := range st.inputs {
		v := m[in.t.id]
		if in.t.IsConst() {
			v = in.t.v
		}
		out = append(out, InVal{in.name, v & mask(in.w), in.w})
	}
	return out
}

func (e *Engine) violation(st *State, kind, msg string, m Model) {
	w := ""
	if len(st.gs) > 0 {
		w = st.where()
	}
	key := kind + "|" + msg + "|" + w
	if kind == "deadlock" || kind == "race" {
		key = kind + "|" + msg
	}
	if e.violKeys[key] {
		return
	}
	e.violKeys[key] = true
	v := &Violation{Kind: kind, Msg: msg, Where: w, Inputs: e.modelOf(st, m), Sched: st.sched, Harness: e.opts["harness"]}
	if os.Getenv("VERIF_DEBUG") != "" {
		v.PC = st.describePC()
	}
	e.viol = append(e.viol, v)
}

func (e *Engine) showPanic(v IfaceV, m Model) string {
	if s, ok := v.v.(StrV); ok {
		return fmt.Sprintf("%v: %s", v.t, e.concStr(s, m))
	}
	if p, ok := v.v.(Ptr); ok && p.o != 0 {
		return fmt.Sprintf("%v", v.t)
	}
	return e.show(v)
}

func (e *Engine) concStr(s StrV, m Model) string {
	if s.b == nil {
		return s.s
	}
	var out []byte
	for _, t := range s.b {
		v, _ := m.eval(t)
		out = append(out, byte(v))
	}
	return string(out)
}

// sample keeps a spread of finished paths for validation against native runs.
func (e *Engine) sample(st *State) {
	e.sampleSeen++
	limit := 24
	keep := len(e.samples) < limit
	slot := len(e.samples)
	if !keep {
		// deterministic thinning: keep path numbers at growing intervals
		if e.sampleSeen&(e.sampleSeen-1) == 0 || e.sampleSeen%977 == 0 {
			keep = true
			slot = int(e.sampleSeen) % limit
		}
	}
	if !keep {
		return
	}
	m := st.model
	if m == nil {
		r, mm := e.sol.Check(st.pc)
		if r != Sat || mm == nil {
			return
		}
		m = mm
	}
	s := &Sample{Inputs: e.modelOf(st, m), HasObs: !st.merged, Harness: e.opts["harness"]}
	for _, o := range st.obs {
		s.Obs = append(s.Obs, e.fmtObs(st, o, m))
	}
	if slot == len(e.samples) {
		e.samples = append(e.samples, s)
	} else {
		e.samples[slot] = s
	}
}

func (e *Engine) fmtObs(st *State, o obsRec, m Model) string {
	var sb strings.Builder
	sb.WriteString(o.label)
	sb.WriteByte('=')
	for i, v := range o.vals {
		if i > 0 {
			sb.WriteByte(',')
		}
		sb.WriteString(e.fmtVal(st, v, o.typs[i], m))
	}
	return sb.String()
}

func (e *Engine) fmtVal(st *State, v Value, t types.Type, m Model) string {
	switch x := v.(type) {
	case *Term:
		b, ok := m.eval(x)
		if !ok {
			return "?"
		}
		switch x.sort.K {
		case SBool:
			return fmt.Sprint(b != 0)
		case SFP:
			return fmt.Sprintf("f%x", b)
		}
		if t != nil && basicKind(t).signed {
			return fmt.Sprint(sx(b, x.sort.W))
		}
		return fmt.Sprint(b)
	case StrV:
		return fmt.Sprintf("%q", e.concStr(x, m))
	case obsSlice:
		var p []string
		var el types.Type
		if t != nil {
			if s, ok := t.Underlying().(*types.Slice); ok {
				el = s.Elem()
			}
		}
		for _, c := range x.c {
			p = append(p, e.fmtVal(st, c, el, m))
		}
		return "[" + strings.Join(p, " ") + "]"
	case SliceV:
		var p []string
		var el types.Type
		if t != nil {
			if s, ok := t.Underlying().(*types.Slice); ok {
				el = s.Elem()
			}
		}
		if x.cell == 1 {
			for _, c := range x.cellsIn(st) {
				p = append(p, e.fmtVal(st, c, el, m))
			}
		}
		return "[" + strings.Join(p, " ") + "]"
	case IfaceV:
		if x.t == nil {
			return "nil"
		}
		return e.fmtVal(st, x.v, x.t, m)
	}
	return "?"
}

func (s SliceV) cellsIn(st *State) []Value {
	if s.len == 0 || s.o == 0 {
		return nil
	}
	return st.obj(s.o).cells[s.off : s.off+s.len]
}
