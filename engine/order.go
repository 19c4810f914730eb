package main

import "sort"

// A pre-solver for path conditions that are mostly comparisons between the
// same few terms (sorting, searching, ordered maps). It answers "infeasible"
// when the comparison literals of the path condition, closed under
// transitivity, contradict the new literal, and otherwise proposes a model,
// which is accepted only if every relevant conjunct evaluates to true in it.
// Everything else goes to the SMT solver. Assertions never use it.

type ordEdge struct {
	to     int
	strict bool
}

type ordGraph struct {
	op    Op
	id    map[*Term]int
	terms []*Term
	out   [][]ordEdge
	neq   [][2]int
}

func (g *ordGraph) node(t *Term) int {
	if i, ok := g.id[t]; ok {
		return i
	}
	i := len(g.terms)
	g.id[t] = i
	g.terms = append(g.terms, t)
	g.out = append(g.out, nil)
	return i
}

func (g *ordGraph) add(t *Term) {
	neg := false
	if t.op == ONot {
		neg = true
		t = t.a[0]
	}
	switch {
	case t.op == g.op:
		x, y := g.node(t.a[0]), g.node(t.a[1])
		if neg {
			g.out[y] = append(g.out[y], ordEdge{x, false})
		} else {
			g.out[x] = append(g.out[x], ordEdge{y, true})
		}
	case t.op == OEq && t.a[0].sort.K == SBV:
		x, y := g.node(t.a[0]), g.node(t.a[1])
		if neg {
			g.neq = append(g.neq, [2]int{x, y})
		} else {
			g.out[x] = append(g.out[x], ordEdge{y, false})
			g.out[y] = append(g.out[y], ordEdge{x, false})
		}
	}
}

// reach: 0 no path, 1 non-strict, 2 strict path from x to y.
func (g *ordGraph) reach(x, y int) int {
	n := len(g.terms)
	best := make([]int8, n) // 0 unseen, 1 non-strict, 2 strict
	best[x] = 1
	work := []int{x}
	for len(work) > 0 {
		u := work[len(work)-1]
		work = work[:len(work)-1]
		for _, e := range g.out[u] {
			v := best[u]
			if e.strict {
				v = 2
			}
			if v > best[e.to] {
				best[e.to] = v
				work = append(work, e.to)
			}
		}
	}
	if x == y {
		if best[x] == 2 {
			return 2
		}
		return 1
	}
	return int(best[y])
}

func ordOp(c *Term) (Op, bool) {
	t := c
	if t.op == ONot {
		t = t.a[0]
	}
	if t.op == OSlt || t.op == OUlt {
		return t.op, true
	}
	if t.op == OEq && t.a[0].sort.K == SBV && t.a[0].sort.W > 1 {
		return OEq, true
	}
	return 0, false
}

func (st *State) orderFast(c *Term, rel []*Term) (Result, Model) {
	lits := []*Term{c}
	if c.op == OAnd {
		lits = c.a
	}
	op, ok := OEq, false
	for _, l := range lits {
		if o, k := ordOp(l); k {
			ok = true
			if o != OEq {
				op = o
			}
		}
	}
	if !ok {
		return Unknown, nil
	}
	if op == OEq {
		op = OSlt
		for _, t := range rel {
			if o, ok := ordOp(t); ok && o == OUlt {
				op = OUlt
				break
			}
		}
	}
	g := &ordGraph{op: op, id: map[*Term]int{}}
	for _, t := range rel {
		g.add(t)
	}
	var cs []int
	for i, t := range g.terms {
		if t.IsConst() {
			cs = append(cs, i)
		}
	}
	less := func(a, b *Term) bool {
		if op == OUlt {
			return a.v < b.v
		}
		w := a.sort.W
		return int64(a.v<<(64-w)) < int64(b.v<<(64-w))
	}
	sort.Slice(cs, func(i, j int) bool { return less(g.terms[cs[i]], g.terms[cs[j]]) })
	for i := 1; i < len(cs); i++ {
		if g.terms[cs[i]].sort != g.terms[cs[i-1]].sort {
			return Unknown, nil
		}
		g.out[cs[i-1]] = append(g.out[cs[i-1]], ordEdge{cs[i], true})
	}
	for _, q := range g.neq {
		for k := 0; k < 2; k++ {
			for i := range g.out[q[k]] {
				if g.out[q[k]][i].to == q[1-k] {
					g.out[q[k]][i].strict = true
				}
			}
		}
	}
	for _, l := range lits {
		if _, k := ordOp(l); k && g.refutes(l) {
			return Unsat, nil
		}
	}
	// candidate model: each class of variables forced to be equal gets the
	// least value its predecessors allow (distinct from the class before it
	// when no constant is involved)
	for _, l := range lits {
		if _, k := ordOp(l); k {
			g.add(l)
		}
	}
	n := len(g.terms)
	if n > 160 {
		return Unknown, nil
	}
	var sorts Sort
	hasConst := false
	for i, t := range g.terms {
		if t.op != OVar && !t.IsConst() || i > 0 && t.sort != sorts {
			return Unknown, nil
		}
		sorts = t.sort
		hasConst = hasConst || t.IsConst()
	}
	if sorts.W < 7 {
		return Unknown, nil
	}
	comp, order := g.classes()
	nc := len(order)
	val := make([]int64, nc)
	fixed := make([]bool, nc)
	w := sorts.W
	min := int64(0)
	if op == OSlt {
		min = -1 << (w - 1)
	}
	sval := func(t *Term) int64 {
		if op == OSlt {
			return int64(t.v<<(64-w)) >> (64 - w)
		}
		return int64(t.v)
	}
	for i, t := range g.terms {
		if t.IsConst() {
			if op == OUlt && t.v > 1<<62 {
				return Unknown, nil
			}
			fixed[comp[i]] = true
			val[comp[i]] = sval(t)
		}
	}
	type cedge struct {
		from   int
		strict bool
	}
	preds := make([][]cedge, nc)
	for u := range g.out {
		for _, e := range g.out[u] {
			if comp[u] != comp[e.to] {
				preds[comp[e.to]] = append(preds[comp[e.to]], cedge{comp[u], e.strict})
			}
		}
	}
	neq := make([][]int, nc)
	for _, q := range g.neq {
		a, b := comp[q[0]], comp[q[1]]
		neq[a] = append(neq[a], b)
		neq[b] = append(neq[b], a)
	}
	done := make([]bool, nc)
	last := int64(-1)
	if !hasConst {
		min = 0
	}
	for _, k := range order {
		if !fixed[k] {
			v := min
			for _, e := range preds[k] {
				x := val[e.from]
				if e.strict {
					x++
				}
				if x > v {
					v = x
				}
			}
			if !hasConst && v <= last {
				v = last + 1
			}
			for again := true; again; {
				again = false
				for _, o := range neq[k] {
					if (done[o] || fixed[o]) && val[o] == v {
						v++
						again = true
					}
				}
			}
			val[k] = v
			last = v
		}
		done[k] = true
	}
	m := make(Model, len(st.model)+n)
	for k, v := range st.model {
		m[k] = v
	}
	for i, t := range g.terms {
		if t.op == OVar {
			m[t.vars[0]] = uint64(val[comp[i]]) & mask(w)
		}
	}
	for _, t := range rel {
		if b, ok := m.evalBool(t); !ok || !b {
			return Unknown, nil
		}
	}
	if b, ok := m.evalBool(c); !ok || !b {
		return Unknown, nil
	}
	return Sat, m
}

// refutes: the literal contradicts the closure of the graph.
func (g *ordGraph) refutes(c *Term) bool {
	neg := c.op == ONot
	t := c
	if neg {
		t = t.a[0]
	}
	x, xok := g.id[t.a[0]]
	y, yok := g.id[t.a[1]]
	if !xok || !yok {
		return false
	}
	switch {
	case t.op == OEq && neg:
		return g.reach(x, y) == 1 && g.reach(y, x) == 1
	case t.op == OEq:
		return g.reach(x, y) == 2 || g.reach(y, x) == 2
	case t.op != g.op:
		return false
	case neg: // y <= x
		return g.reach(x, y) == 2
	}
	return g.reach(y, x) != 0 // x < y
}

// classes computes the strongly connected components in topological order.
func (g *ordGraph) classes() (comp []int, order []int) {
	n := len(g.terms)
	comp = make([]int, n)
	idx := make([]int, n)
	low := make([]int, n)
	on := make([]bool, n)
	var stack []int
	next, nc := 1, 0
	var visit func(u int)
	visit = func(u int) {
		idx[u], low[u] = next, next
		next++
		stack = append(stack, u)
		on[u] = true
		for _, e := range g.out[u] {
			if idx[e.to] == 0 {
				visit(e.to)
				if low[e.to] < low[u] {
					low[u] = low[e.to]
				}
			} else if on[e.to] && idx[e.to] < low[u] {
				low[u] = idx[e.to]
			}
		}
		if low[u] == idx[u] {
			for {
				v := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[v] = false
				comp[v] = nc
				if v == u {
					break
				}
			}
			nc++
		}
	}
	for u := 0; u < n; u++ {
		if idx[u] == 0 {
			visit(u)
		}
	}
	for k := nc - 1; k >= 0; k-- {
		order = append(order, k)
	}
	return
}
