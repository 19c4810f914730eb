package c_queues

import (
	lqueue "github.com/unsafe-risk/utilx/dsx/linkedx/queuex"
	ring "github.com/unsafe-risk/utilx/dsx/slicex/queuex"
	"github.com/unsafe-risk/utilx/zzverif/sym"
)

func checkRing(q *ring.Ring[int], m []int, n int) {
	sym.Assert(q.IsEmpty() == (len(m) == 0), "IsEmpty agrees with the number of queued elements")
	sym.Assert(q.IsFull() == (len(m) == n), "IsFull agrees with the number of queued elements")
	sym.Assert(q.Cap() == n, "Cap is the capacity asked for")
	v, ok := q.Peek()
	sym.Assert(ok == (len(m) > 0), "Peek reports whether the queue is non-empty")
	if len(m) > 0 {
		sym.Assert(v == m[0], "Peek shows the oldest element")
		sym.Assert(q.Head() == m[0], "Head is the oldest element")
	} else {
		sym.Assert(v == 0, "Peek of an empty queue yields the zero value")
		q.Head()
	}
}

func ringEnq(q *ring.Ring[int], m []int, n int) []int {
	v := sym.Int("v")
	ok := q.Enqueue(v)
	sym.Assert(ok == (len(m) < n), "Enqueue succeeds exactly when there is room")
	if len(m) < n {
		m = append(m, v)
	} else {
		sym.Reach("full")
	}
	return m
}

func ringDeq(q *ring.Ring[int], m []int) []int {
	v, ok := q.Dequeue()
	sym.Observe("deq", v, ok)
	sym.Assert(ok == (len(m) > 0), "Dequeue reports whether the queue was non-empty")
	if len(m) > 0 {
		sym.Assert(v == m[0], "Dequeue yields the oldest element")
		m = m[1:]
	} else {
		sym.Assert(v == 0, "Dequeue of an empty queue yields the zero value")
		sym.Reach("empty")
	}
	return m
}

// C01_Ops: every sequence of Enqueue and Dequeue on small rings, observers
// after each.
//
//sym:opt shards=4
func C01_Ops() {
	n := 1 + sym.Choose("cap", sym.Param("caps", 4, 5))
	q := ring.New[int](n)
	sym.Assert(q != nil, "a ring of positive capacity is created")
	var m []int
	checkRing(q, m, n)
	for i, k := 0, sym.Param("ops", 8, 11); i < k; i++ {
		if sym.Choose("op", 2) == 0 {
			m = ringEnq(q, m, n)
		} else {
			m = ringDeq(q, m)
		}
		checkRing(q, m, n)
	}
	for len(m) > 0 {
		m = ringDeq(q, m)
	}
	checkRing(q, m, n)
}

// C01_Wrap: larger capacities; the ring is rotated to every start position,
// filled, partly drained, refilled and drained.
//
//sym:opt shards=8
func C01_Wrap() {
	n := 1 + sym.Choose("cap", sym.Param("caps", 9, 17))
	q := ring.New[int](n)
	var m []int
	for i, k := 0, sym.Choose("rot", n+2); i < k; i++ {
		m = ringEnq(q, m, n)
		m = ringDeq(q, m)
	}
	for i := 0; i <= n; i++ {
		m = ringEnq(q, m, n)
		checkRing(q, m, n)
	}
	for i, k := 0, sym.Choose("part", n+1); i < k; i++ {
		m = ringDeq(q, m)
		checkRing(q, m, n)
	}
	for i := 0; i <= n; i++ {
		m = ringEnq(q, m, n)
	}
	checkRing(q, m, n)
	for i := 0; i <= n; i++ {
		m = ringDeq(q, m)
		checkRing(q, m, n)
	}
}

// C01_Big: capacities around powers of two, filled and drained twice.
func C01_Big() {
	caps := []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257}
	n := caps[sym.Choose("cap", len(caps))]
	q := ring.New[int](n)
	var m []int
	for r := 0; r < 2; r++ {
		for i := 0; i <= n; i++ {
			m = ringEnq(q, m, n)
		}
		checkRing(q, m, n)
		for i := 0; i <= n-2*r; i++ {
			m = ringDeq(q, m)
		}
		checkRing(q, m, n)
	}
}

// C02_Ops: every sequence of operations on the linked queue, under every
// recycling policy of the node pool.
//
//sym:opt shards=4 envobs=1
//sym:opt thorough.shards=8
func C02_Ops() {
	q := lqueue.New[int]()
	var m []int
	deq := func() {
		v, ok := q.Dequeue()
		sym.Observe("deq", v, ok)
		sym.Assert(ok == (len(m) > 0), "Dequeue reports whether the queue was non-empty")
		if len(m) > 0 {
			sym.Assert(v == m[0], "Dequeue yields the oldest element")
			m = m[1:]
			sym.Reach("dequeued")
		} else {
			sym.Assert(v == 0, "Dequeue of an empty queue yields the zero value")
			sym.Reach("empty")
		}
	}
	look := func() {
		sym.Assert(q.IsEmpty() == (len(m) == 0), "IsEmpty agrees with the number of queued elements")
		v, ok := q.Peek()
		sym.Assert(ok == (len(m) > 0), "Peek reports whether the queue is non-empty")
		if len(m) > 0 {
			sym.Assert(v == m[0], "Peek shows the oldest element")
		} else {
			sym.Assert(v == 0, "Peek of an empty queue yields the zero value")
		}
	}
	look()
	for i, k := 0, sym.Param("ops", 8, 11); i < k; i++ {
		if sym.Choose("op", 2) == 0 {
			v := sym.Int("v")
			sym.Assert(q.Enqueue(v), "Enqueue always succeeds")
			m = append(m, v)
		} else {
			deq()
		}
		look()
	}
	for len(m) > 0 {
		deq()
		look()
	}
	deq()
}

// C02_Bursts: longer queues built and drained in bursts.
//
//sym:opt shards=4
func C02_Bursts() {
	q := lqueue.New[int]()
	var m []int
	counts := []int{1, 2, 17, 64}
	for r, k := 0, sym.Param("rounds", 4, 6); r < k; r++ {
		c := counts[sym.Choose("count", len(counts))]
		if r%2 == 0 {
			for i := 0; i < c; i++ {
				v := sym.Int("v")
				q.Enqueue(v)
				m = append(m, v)
			}
			continue
		}
		for i := 0; i < c; i++ {
			v, ok := q.Dequeue()
			sym.Assert(ok == (len(m) > 0), "Dequeue reports whether the queue was non-empty")
			if len(m) > 0 {
				sym.Assert(v == m[0], "Dequeue yields the oldest element")
				m = m[1:]
			}
			sym.Assert(q.IsEmpty() == (len(m) == 0), "IsEmpty agrees with the number of queued elements")
		}
	}
	for len(m) > 0 {
		v, ok := q.Dequeue()
		sym.Assert(ok && v == m[0], "draining yields the elements in FIFO order")
		m = m[1:]
	}
	_, ok := q.Dequeue()
	sym.Assert(!ok && q.IsEmpty(), "a drained queue is empty")
}

// C01_Huge: large rings, filled, drained in part, refilled and drained.
//
//sym:opt back=20000
func C01_Huge() {
	caps := []int{500, 511, 512, 513, 1000, 1023, 1024, 1025, 2049}
	n := caps[sym.Choose("cap", len(caps))]
	q := ring.New[int](n)
	var m []int
	for i := 0; i <= n; i++ {
		m = ringEnq(q, m, n)
	}
	checkRing(q, m, n)
	parts := []int{1, n / 2, n - 1}
	for i, k := 0, parts[sym.Choose("part", len(parts))]; i < k; i++ {
		m = ringDeq(q, m)
	}
	checkRing(q, m, n)
	for len(m) < n {
		m = ringEnq(q, m, n)
	}
	m = ringEnq(q, m, n)
	checkRing(q, m, n)
	for i := 0; i <= n; i++ {
		m = ringDeq(q, m)
	}
	checkRing(q, m, n)
	m = ringEnq(q, m, n)
	checkRing(q, m, n)
}

// C02_Huge: long queues, drained in part, extended and drained.
//
//sym:opt back=20000
func C02_Huge() {
	q := lqueue.New[int]()
	var m []int
	counts := []int{129, 257, 520, 1030}
	n := counts[sym.Choose("count", len(counts))]
	enq := func(k int) {
		for i := 0; i < k; i++ {
			v := sym.Int("v")
			sym.Assert(q.Enqueue(v), "Enqueue always succeeds")
			m = append(m, v)
		}
	}
	deq := func(k int) {
		for i := 0; i < k; i++ {
			v, ok := q.Dequeue()
			sym.Assert(ok == (len(m) > 0), "Dequeue reports whether the queue was non-empty")
			if len(m) > 0 {
				sym.Assert(v == m[0], "Dequeue yields the oldest element")
				m = m[1:]
			}
			sym.Assert(q.IsEmpty() == (len(m) == 0), "IsEmpty agrees with the number of queued elements")
		}
	}
	parts := []int{n / 2, n - 1, n}
	enq(n)
	deq(parts[sym.Choose("part", len(parts))])
	enq(n)
	deq(len(m) + 1)
	enq(1)
	deq(2)
	sym.Reach("end")
}
