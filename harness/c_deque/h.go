package c_deque

import (
	"github.com/unsafe-risk/utilx/dsx/linkedx/dequex"
	"github.com/unsafe-risk/utilx/zzverif/sym"
)

type rig struct {
	d *dequex.Deque[int]
	m []int
}

func (r *rig) look() {
	f, ok := r.d.PeekFront()
	sym.Assert(ok == (len(r.m) > 0), "PeekFront reports whether the deque is non-empty")
	b, ok2 := r.d.PeekBack()
	sym.Assert(ok2 == (len(r.m) > 0), "PeekBack reports whether the deque is non-empty")
	if len(r.m) > 0 {
		sym.Assert(f == r.m[0], "PeekFront shows the first element")
		sym.Assert(b == r.m[len(r.m)-1], "PeekBack shows the last element")
	} else {
		sym.Assert(f == 0 && b == 0, "a peek of an empty deque yields the zero value")
	}
}

func (r *rig) op(k int) {
	switch k {
	case 0:
		v := sym.Int("v")
		r.d.PushBack(v)
		r.m = append(r.m, v)
	case 1:
		v := sym.Int("v")
		r.d.PushFront(v)
		r.m = append([]int{v}, r.m...)
	case 2:
		v, ok := r.d.PopFront()
		sym.Observe("popfront", v, ok)
		sym.Assert(ok == (len(r.m) > 0), "PopFront reports whether the deque was non-empty")
		if len(r.m) > 0 {
			sym.Assert(v == r.m[0], "PopFront yields the first element")
			r.m = r.m[1:]
			sym.Reach("popfront")
		} else {
			sym.Assert(v == 0, "PopFront of an empty deque yields the zero value")
			sym.Reach("empty")
		}
	case 3:
		v, ok := r.d.PopBack()
		sym.Observe("popback", v, ok)
		sym.Assert(ok == (len(r.m) > 0), "PopBack reports whether the deque was non-empty")
		if len(r.m) > 0 {
			sym.Assert(v == r.m[len(r.m)-1], "PopBack yields the last element")
			r.m = r.m[:len(r.m)-1]
			sym.Reach("popback")
		} else {
			sym.Assert(v == 0, "PopBack of an empty deque yields the zero value")
		}
	}
}

func (r *rig) burst(k, n int) {
	for i := 0; i < n; i++ {
		r.op(k)
	}
	r.look()
}

// C05_Ops: every sequence of operations on a small deque, under every
// recycling policy of the block pool.
//
//sym:opt shards=8 envobs=1
func C05_Ops() {
	r := &rig{d: dequex.New[int]()}
	r.look()
	for i, k := 0, sym.Param("ops", 6, 8); i < k; i++ {
		r.op(sym.Choose("op", 4))
		r.look()
	}
	e := 2 + sym.Choose("end", 2)
	for len(r.m) > 0 {
		r.op(e)
	}
	r.op(e)
	r.look()
}

// C05_Blocks: sequences of bursts whose lengths straddle the block size, so
// that every operation meets block boundaries, emptied blocks and recycled
// blocks.
//
//sym:opt shards=8 envobs=1
func C05_Blocks() {
	r := &rig{d: dequex.New[int]()}
	counts := []int{1, 63, 64, 65}
	for i, k := 0, sym.Param("bursts", 3, 4); i < k; i++ {
		r.burst(sym.Choose("op", 4), counts[sym.Choose("count", len(counts))])
	}
	r.op(sym.Choose("op", 4))
	r.look()
	e := 2 + sym.Choose("end", 2)
	for len(r.m) > 0 {
		r.op(e)
	}
	r.op(e)
	r.look()
	r.op(0)
	r.op(1)
	r.look()
}

// C05_Huge: deques of many blocks, taken down from either end and built up
// again at either end.
//
//sym:opt back=20000
func C05_Huge() {
	r := &rig{d: dequex.New[int]()}
	counts := []int{300, 577, 1030}
	n := counts[sym.Choose("count", len(counts))]
	r.burst(sym.Choose("push", 2), n)
	parts := []int{n - 64, n - 1, n}
	r.burst(2+sym.Choose("pop", 2), parts[sym.Choose("part", len(parts))])
	r.burst(sym.Choose("push", 2), 200)
	r.burst(2+sym.Choose("pop", 2), len(r.m)+1)
	r.op(0)
	r.op(1)
	r.look()
}
