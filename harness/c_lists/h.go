package c_lists

import (
	llist "github.com/unsafe-risk/utilx/dsx/linkedx/listx"
	slist "github.com/unsafe-risk/utilx/dsx/slicex/listx"
	"github.com/unsafe-risk/utilx/zzverif/sym"
)

type list interface {
	Append(int)
	Insert(int, int)
	Remove(int) (int, bool)
	At(int) (int, bool)
	Iterate(func(int) bool)
	Len() int
}

func insertAt(m []int, i, v int) []int {
	out := make([]int, 0, len(m)+1)
	out = append(out, m[:i]...)
	out = append(out, v)
	return append(out, m[i:]...)
}

func removeAt(m []int, i int) []int {
	out := make([]int, 0, len(m))
	out = append(out, m[:i]...)
	return append(out, m[i+1:]...)
}

func look(l list, m []int) {
	sym.Assert(l.Len() == len(m), "Len is the number of elements")
	for i := range m {
		v, ok := l.At(i)
		sym.Assert(ok && v == m[i], "At yields the i-th element")
	}
	_, ok := l.At(len(m))
	sym.Assert(!ok, "At past the end reports false")
	n := 0
	l.Iterate(func(v int) bool {
		sym.Assert(n < len(m) && v == m[n], "Iterate visits the elements in order")
		n++
		return true
	})
	sym.Assert(n == len(m), "Iterate visits every element")
}

func drive(l list, ops int, total bool) {
	var m []int
	look(l, m)
	for k := 0; k < ops; k++ {
		switch sym.Choose("op", 5) {
		case 0:
			v := sym.Int("v")
			l.Append(v)
			m = append(m, v)
		case 1:
			i, v := sym.Int("i"), sym.Int("v")
			if !total {
				sym.Assume(i >= 0 && i <= len(m))
			}
			l.Insert(i, v)
			if i >= 0 && i <= len(m) {
				m = insertAt(m, sym.Concrete(i), v)
				sym.Reach("inserted")
			}
		case 2:
			i := sym.Int("i")
			v, ok := l.Remove(i)
			sym.Observe("remove", v, ok)
			in := i >= 0 && i < len(m)
			sym.Assert(ok == in, "Remove reports whether the index is inside the list")
			if in {
				i = sym.Concrete(i)
				sym.Assert(v == m[i], "Remove yields the i-th element")
				m = removeAt(m, i)
				sym.Reach("removed")
			} else {
				sym.Assert(v == 0, "Remove outside the list yields the zero value")
			}
		case 3:
			i := sym.Int("i")
			v, ok := l.At(i)
			in := i >= 0 && i < len(m)
			sym.Assert(ok == in, "At reports whether the index is inside the list")
			if in {
				sym.Assert(v == m[sym.Concrete(i)], "At yields the i-th element")
			} else {
				sym.Assert(v == 0, "At outside the list yields the zero value")
			}
		case 4:
			stop, n := sym.Range("stop", 0, 8), 0
			l.Iterate(func(v int) bool {
				sym.Assert(n < len(m) && v == m[n], "Iterate visits the elements in order")
				n++
				return n <= stop
			})
			want := len(m)
			if stop+1 < want {
				want = stop + 1
			}
			sym.Assert(n == want, "Iterate stops when its callback returns false")
		}
		look(l, m)
	}
	for len(m) > 0 {
		v, ok := l.Remove(0)
		sym.Assert(ok && v == m[0], "draining removes the elements in order")
		m = m[1:]
	}
	look(l, m)
	l.Append(7)
	look(l, []int{7})
}

// C06_Ops: every sequence of operations on the linked list with arbitrary
// indexes, under every recycling policy of the node pool.
//
//sym:opt shards=8 envobs=1
func C06_Ops() {
	drive(llist.New[int](), sym.Param("ops", 4, 5), true)
}

// C06_Long: every sequence of edits at in-range positions.
//
//sym:opt shards=8 envobs=1
func C06_Long() {
	l := llist.New[int]()
	var m []int
	for k, n := 0, sym.Param("ops", 6, 7); k < n; k++ {
		switch sym.Choose("op", 3) {
		case 0:
			v := sym.Int("v")
			l.Append(v)
			m = append(m, v)
		case 1:
			i, v := sym.Choose("i", len(m)+1), sym.Int("v")
			l.Insert(i, v)
			m = insertAt(m, i, v)
		case 2:
			if len(m) == 0 {
				continue
			}
			i := sym.Choose("i", len(m))
			v, ok := l.Remove(i)
			sym.Assert(ok && v == m[i], "Remove yields the i-th element")
			m = removeAt(m, i)
		}
	}
	look(l, m)
	l.Append(3)
	m = append(m, 3)
	look(l, m)
}

// C07_Ops: every sequence of operations on the slice list (Insert positions
// inside the list, every other index arbitrary).
//
//sym:opt shards=8
func C07_Ops() {
	drive(new(slist.List[int]), sym.Param("ops", 4, 5), false)
}

func at(kind, n int) int {
	switch kind {
	case 0:
		return 0
	case 1:
		return n / 2
	case 2:
		return n - n/4
	}
	return n
}

// wide: longer lists, built by bursts of appends, insertions and removals at
// the front, the middle, three quarters and the end; removals may go far
// below the largest length reached.
func wide(l list) {
	var m []int
	counts := []int{1, 4, 9, 20}
	for i, n := 0, counts[sym.Choose("fill", len(counts))]; i < n; i++ {
		v := sym.Int("v")
		l.Append(v)
		m = append(m, v)
	}
	look(l, m)
	rounds := sym.Param("rounds", 3, 4)
	for r := 0; r < rounds; r++ {
		c, kind := counts[sym.Choose("count", len(counts))], sym.Choose("kind", 4)
		if r%2 == 0 {
			for i := 0; i < c && len(m) > 0; i++ {
				k := at(kind, len(m)-1)
				v, ok := l.Remove(k)
				sym.Assert(ok && v == m[k], "Remove yields the i-th element")
				m = removeAt(m, k)
				if len(m) > 0 {
					k = at(kind, len(m)-1)
					v, ok = l.At(k)
					sym.Assert(ok && v == m[k], "At yields the i-th element")
				}
			}
		} else {
			for i := 0; i < c; i++ {
				k, v := at(kind, len(m)), sym.Int("v")
				l.Insert(k, v)
				m = insertAt(m, k, v)
			}
		}
		look(l, m)
	}
	l.Append(5)
	m = append(m, 5)
	look(l, m)
	sym.Reach("end")
}

// C06_Wide: longer linked lists.
//
//sym:opt shards=8
func C06_Wide() { wide(llist.New[int]()) }

// C07_Wide: longer slice lists.
//
//sym:opt shards=8
func C07_Wide() { wide(new(slist.List[int])) }

// huge: lists of hundreds and a thousand elements, with accesses, insertions
// and removals around both ends, the middle and the quarters.
func huge(l list) {
	var m []int
	counts := []int{70, 140, 300, 1030}
	n := counts[sym.Choose("count", len(counts))]
	for i := 0; i < n; i++ {
		v := sym.Int("v")
		l.Append(v)
		m = append(m, v)
	}
	look := func() {
		sym.Assert(l.Len() == len(m), "Len is the number of elements held")
		for _, k := range []int{0, 1, len(m) / 4, len(m)/2 - 1, len(m) / 2, len(m)/2 + 1, len(m) - len(m)/4, len(m) - 2, len(m) - 1} {
			if k < 0 || k >= len(m) {
				continue
			}
			v, ok := l.At(k)
			sym.Assert(ok && v == m[k], "At yields the i-th element")
		}
		_, ok := l.At(len(m))
		sym.Assert(!ok, "At refuses the index Len")
		for _, stop := range []int{len(m) / 3, len(m) - 1, len(m)} {
			c := 0
			l.Iterate(func(v int) bool {
				sym.Assert(c < len(m) && c <= stop && v == m[c], "Iterate visits the elements in order until told to stop")
				c++
				return c <= stop
			})
			sym.Assert(c == stop+1 || c == len(m), "Iterate goes on until told to stop")
		}
	}
	look()
	kind := sym.Choose("kind", 4)
	for i := 0; i < 5; i++ {
		k, v := at(kind, len(m)), sym.Int("v")
		l.Insert(k, v)
		m = insertAt(m, k, v)
	}
	look()
	kind = sym.Choose("kind", 4)
	left := []int{3, n / 4, n / 2}
	for c := left[sym.Choose("left", len(left))]; len(m) > c; {
		k := at(kind, len(m)-1)
		v, ok := l.Remove(k)
		sym.Assert(ok && v == m[k], "Remove yields the i-th element")
		m = removeAt(m, k)
	}
	look()
	l.Append(5)
	m = append(m, 5)
	l.Insert(1, 6)
	m = insertAt(m, 1, 6)
	look()
	for len(m) > 0 {
		v, ok := l.Remove(0)
		sym.Assert(ok && v == m[0], "Remove yields the i-th element")
		m = m[1:]
	}
	sym.Reach("end")
}

// C06_Huge: long linked lists.
//
//sym:opt shards=4 back=20000 depth=2
func C06_Huge() { huge(llist.New[int]()) }

// C07_Huge: long slice lists.
//
//sym:opt shards=4 back=20000 depth=2
func C07_Huge() { huge(new(slist.List[int])) }
