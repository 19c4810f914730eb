package c_syncmap

import (
	"sync"

	"github.com/unsafe-risk/utilx/dsx/mapx/syncmapx"
	"github.com/unsafe-risk/utilx/zzverif/sym"
)

const (
	opGet = iota
	opHas
	opSize
	opKeys
	opValues
	opSet
	opDelete
	opClear
	nops
)

type rec struct {
	op, key, val int
	call, ret    int
	// results
	n    int
	b    bool
	keys []int
	vals []int
}

var (
	now int
	mu  sync.Mutex
)

func stamp(p *int) {
	sym.AtomicBegin()
	now++
	*p = now
	sym.AtomicEnd()
}

func run(m *syncmapx.Map[int, int], r *rec) {
	sym.Yield()
	stamp(&r.call)
	switch r.op {
	case opGet:
		r.n = m.Get(r.key)
	case opHas:
		r.b = m.Has(r.key)
	case opSize:
		r.n = m.Size()
	case opKeys:
		r.keys = m.Keys()
	case opValues:
		r.vals = m.Values()
	case opSet:
		m.Set(r.key, r.val)
	case opDelete:
		m.Delete(r.key)
	case opClear:
		m.Clear()
	}
	stamp(&r.ret)
}

type state struct {
	in  [2]bool
	val [2]int
}

func (s *state) size() (n int) {
	for k := range s.in {
		if s.in[k] {
			n++
		}
	}
	return
}

// apply reports whether the recorded results fit state s and updates it.
func apply(s *state, r *rec) bool {
	switch r.op {
	case opGet:
		if s.in[r.key] {
			return r.n == s.val[r.key]
		}
		return r.n == 0
	case opHas:
		return r.b == s.in[r.key]
	case opSize:
		return r.n == s.size()
	case opKeys:
		if len(r.keys) != s.size() {
			return false
		}
		seen := [2]bool{}
		for _, k := range r.keys {
			if k < 0 || k > 1 || !s.in[k] || seen[k] {
				return false
			}
			seen[k] = true
		}
	case opValues:
		if len(r.vals) != s.size() {
			return false
		}
		used := [2]bool{}
		for k := range s.in {
			if !s.in[k] {
				continue
			}
			ok := false
			for i, v := range r.vals {
				if !used[i] && v == s.val[k] {
					used[i], ok = true, true
					break
				}
			}
			if !ok {
				return false
			}
		}
	case opSet:
		s.in[r.key], s.val[r.key] = true, r.val
	case opDelete:
		s.in[r.key] = false
	case opClear:
		s.in = [2]bool{}
	}
	return true
}

// explained: some order of the operations that respects which of them ended
// before another was called explains every result.
func explained(s state, rs []*rec, done int) bool {
	if done == 1<<len(rs)-1 {
		return true
	}
	for i, r := range rs {
		if done&(1<<i) != 0 {
			continue
		}
		first := true
		for j, q := range rs {
			if j != i && done&(1<<j) == 0 && q.ret < r.call {
				first = false
			}
		}
		if !first {
			continue
		}
		t := s
		if apply(&t, r) && explained(t, rs, done|1<<i) {
			return true
		}
	}
	return false
}

func pick(lo, hi, val int) *rec {
	r := &rec{op: lo + sym.Choose("op", hi-lo), val: val}
	if r.op != opSize && r.op != opKeys && r.op != opValues && r.op != opClear {
		r.key = sym.Choose("key", 2)
	}
	return r
}

func play(init []int, gs [][]*rec) {
	m := syncmapx.New[int, int]()
	var s state
	now = 0
	for _, k := range init {
		m.Set(k, 100+k)
		s.in[k], s.val[k] = true, 100+k
	}
	var wg sync.WaitGroup
	var all []*rec
	for _, rs := range gs {
		rs := rs
		all = append(all, rs...)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, r := range rs {
				run(m, r)
			}
		}()
	}
	wg.Wait()
	// what is left afterwards takes part in the explanation
	fin := []*rec{{op: opSize}, {op: opGet, key: 0}, {op: opGet, key: 1}, {op: opHas, key: 0}, {op: opHas, key: 1}}
	for _, r := range fin {
		run(m, r)
	}
	sym.AtomicBegin()
	ok := explained(s, append(all, fin...), 0)
	sym.AtomicEnd()
	sym.Assert(ok, "some order of the operations explains all results")
}

// C15_Pair: one goroutine changes the map twice, the other does any operation.
//
//sym:opt conc=1 shards=8 fresh=1
func C15_Pair() {
	gs := [][]*rec{{pick(opSet, nops, 1), pick(opSet, nops, 2)}, {pick(0, nops, 3)}}
	play([]int{0}[:sym.Choose("init", 2)], gs)
}

// C15_Three: three goroutines, one operation each.
//
//sym:opt conc=1 shards=8 fresh=1 timeout=200
func C15_Three() {
	gs := [][]*rec{{pick(opSet, nops, 1)}, {pick(opSet, nops, 2)}, {pick(0, sym.Param("third", opSet, nops), 3)}}
	play([]int{0}, gs)
}

// C15_Readers: a reader observing twice while another goroutine changes.
//
//sym:opt conc=1 shards=8 fresh=1
func C15_Readers() {
	gs := [][]*rec{{pick(0, opSet, 1), pick(0, opSet, 1)}, {pick(opSet, nops, 2)}}
	play([]int{0, 1}, gs)
}

// C15_Alone: used by one goroutine it is an ordinary map over symbolic keys.
//
//sym:opt shards=8
func C15_Alone() {
	m := syncmapx.New[int16, int]()
	type ent struct {
		k int16
		v int
	}
	var es []ent
	at := func(k int16) int {
		for i := range es {
			if es[i].k == k {
				return i
			}
		}
		return -1
	}
	check := func() {
		sym.Assert(m.Size() == len(es), "Size is the number of keys")
		ks, vs := m.Keys(), m.Values()
		sym.Assert(len(ks) == len(es), "Keys lists every key once")
		sym.Assert(len(vs) == len(es), "Values lists every value once")
		for i := range es {
			n := 0
			for _, k := range ks {
				if k == es[i].k {
					n++
				}
			}
			sym.Assert(n == 1, "Keys lists every key once")
			want, got := 0, 0
			for j := range es {
				if es[j].v == es[i].v {
					want++
				}
				if vs[j] == es[i].v {
					got++
				}
			}
			sym.Assert(want == got, "Values lists the value of every key")
		}
	}
	for i, n := 0, sym.Param("ops", 3, 5); i < n; i++ {
		switch sym.Choose("op", 3) {
		case 0:
			k := sym.Int16("k")
			m.Set(k, 10+i)
			if j := at(k); j >= 0 {
				es[j].v = 10 + i
			} else {
				es = append(es, ent{k, 10 + i})
			}
		case 1:
			k := sym.Int16("k")
			m.Delete(k)
			if j := at(k); j >= 0 {
				es = append(es[:j:j], es[j+1:]...)
			}
		case 2:
			m.Clear()
			es = nil
		}
	}
	check()
	k := sym.Int16("k")
	j := at(k)
	sym.Assert(m.Has(k) == (j >= 0), "Has reports whether the key is present")
	if j >= 0 {
		sym.Assert(m.Get(k) == es[j].v, "Get yields the value last set")
	} else {
		sym.Assert(m.Get(k) == 0, "Get of an absent key yields the zero value")
	}
	sym.Assert(m.Size() == len(es), "reading does not change the map")
}

// C15_Long: maps of up to hundreds of keys, used by one goroutine.
//
//sym:opt shards=2 mapordered=1 back=20000
func C15_Long() {
	m := syncmapx.New[int, int]()
	n := []int{17, 65, 130, 300}[sym.Choose("n", 4)]
	in := make([]bool, n)
	val := make([]int, n)
	check := func() {
		c := 0
		for k := range in {
			sym.Assert(m.Has(k) == in[k], "Has reports whether the key is present")
			sym.Assert(m.Get(k) == val[k], "Get yields the value last set")
			if in[k] {
				c++
			}
		}
		sym.Assert(m.Size() == c, "Size is the number of keys")
		ks, vs := m.Keys(), m.Values()
		sym.Assert(len(ks) == c && len(vs) == c, "Keys and Values list every entry once")
		seen := make([]bool, n)
		for _, k := range ks {
			sym.Assert(k >= 0 && k < n && in[k] && !seen[k], "Keys lists every key once")
			seen[k] = true
		}
		seen = make([]bool, n)
		for _, v := range vs {
			k := (v - 7) / 3
			sym.Assert(k >= 0 && k < n && val[k] == v && !seen[k], "Values lists the value of every key")
			seen[k] = true
		}
	}
	put := func(k int) {
		m.Set(k, 3*k+7)
		in[k], val[k] = true, 3*k+7
	}
	for k := 0; k < n; k++ {
		put(k * 7 % n)
		m.Set(k*7%n, 3*(k*7%n)+7)
	}
	for k := 0; k < n; k++ {
		put(k)
	}
	check()
	for k := sym.Choose("from", 2); k < n; k += 2 {
		m.Delete(k)
		in[k], val[k] = false, 0
	}
	check()
	if sym.Choose("how", 2) == 0 {
		m.Clear()
	} else {
		for k := 0; k < n; k++ {
			m.Delete(k)
		}
	}
	for k := range in {
		in[k], val[k] = false, 0
	}
	check()
	put(3)
	check()
}
