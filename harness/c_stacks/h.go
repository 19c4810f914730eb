package c_stacks

import (
	lstack "github.com/unsafe-risk/utilx/dsx/linkedx/stackx"
	sstack "github.com/unsafe-risk/utilx/dsx/slicex/stackx"
	"github.com/unsafe-risk/utilx/zzverif/sym"
)

type lifo interface {
	Push(int) bool
	Pop() (int, bool)
	Peek() (int, bool)
	Len() int
}

func drive(s lifo, n int, empty func() bool) {
	var m []int
	for i := 0; i < n; i++ {
		switch sym.Choose("op", 3) {
		case 0:
			v := sym.Int("v")
			s.Push(v)
			m = append(m, v)
		case 1:
			v, ok := s.Pop()
			sym.Observe("pop", v, ok)
			sym.Assert(ok == (len(m) > 0), "Pop reports whether the stack was non-empty")
			if len(m) > 0 {
				sym.Assert(v == m[len(m)-1], "Pop yields the most recently pushed element")
				m = m[:len(m)-1]
				sym.Reach("pop")
			} else {
				sym.Assert(v == 0, "Pop of an empty stack yields the zero value")
				sym.Reach("pop-empty")
			}
		case 2:
			v, ok := s.Peek()
			sym.Observe("peek", v, ok)
			sym.Assert(ok == (len(m) > 0), "Peek reports whether the stack is non-empty")
			if len(m) > 0 {
				sym.Assert(v == m[len(m)-1], "Peek shows the most recently pushed element")
			} else {
				sym.Assert(v == 0, "Peek of an empty stack yields the zero value")
			}
		}
		sym.Assert(s.Len() == len(m), "Len is the number of elements held")
		if empty != nil {
			sym.Assert(empty() == (len(m) == 0), "IsEmpty agrees with Len")
		}
	}
	for len(m) > 0 {
		v, ok := s.Pop()
		sym.Assert(ok && v == m[len(m)-1], "draining yields the elements in LIFO order")
		m = m[:len(m)-1]
	}
	_, ok := s.Pop()
	sym.Assert(!ok, "a drained stack is empty")
	sym.Reach("drained")
}

// C03_Seq: every sequence of operations on the linked stack.
//
//sym:opt envobs=1 shards=2
func C03_Seq() {
	s := lstack.New[int]()
	drive(s, sym.Param("ops", 6, 8), nil)
}

// C04_Seq: every sequence of operations on the slice stack.
func C04_Seq() {
	s := sstack.New[int]()
	drive(s, sym.Param("ops", 6, 9), s.IsEmpty)
}

// bursts of pushes and pops, long enough for any memory management at the
// usual sizes to come into play in both directions.
func bursts(s lifo, rounds int) {
	var m []int
	counts := []int{1, 3, 15, 33, 70}
	for r := 0; r < rounds; r++ {
		c := counts[sym.Choose("count", len(counts))]
		for i := 0; i < c; i++ {
			if r%2 == 0 {
				v := sym.Int("v")
				s.Push(v)
				m = append(m, v)
			} else {
				v, ok := s.Pop()
				sym.Assert(ok == (len(m) > 0), "Pop reports whether the stack was non-empty")
				if len(m) > 0 {
					sym.Assert(v == m[len(m)-1], "Pop yields the most recently pushed element")
					m = m[:len(m)-1]
				}
			}
			sym.Assert(s.Len() == len(m), "Len is the number of elements held")
			v, ok := s.Peek()
			sym.Assert(ok == (len(m) > 0), "Peek reports whether the stack is non-empty")
			if ok {
				sym.Assert(v == m[len(m)-1], "Peek shows the most recently pushed element")
			}
		}
	}
	for len(m) > 0 {
		v, ok := s.Pop()
		sym.Assert(ok && v == m[len(m)-1], "draining yields the elements in LIFO order")
		m = m[:len(m)-1]
	}
	_, ok := s.Pop()
	sym.Assert(!ok, "a drained stack is empty")
	sym.Reach("drained")
}

// C03_Bursts: taller stacks built and taken down in bursts.
//
//sym:opt shards=2
func C03_Bursts() { bursts(lstack.New[int](), sym.Param("rounds", 4, 6)) }

// C04_Bursts: taller stacks built and taken down in bursts.
//
//sym:opt shards=2
func C04_Bursts() { bursts(sstack.New[int](), sym.Param("rounds", 4, 6)) }

// tall: stacks of hundreds and thousands of elements, taken down to a part
// and built up again.
func tall(s lifo) {
	var m []int
	counts := []int{129, 257, 520, 1030, 2050}
	n := counts[sym.Choose("count", len(counts))]
	push := func(k int) {
		for i := 0; i < k; i++ {
			v := sym.Int("v")
			s.Push(v)
			m = append(m, v)
			sym.Assert(s.Len() == len(m), "Len is the number of elements held")
		}
		v, ok := s.Peek()
		sym.Assert(ok && v == m[len(m)-1], "Peek shows the most recently pushed element")
	}
	pop := func(k int) {
		for i := 0; i < k; i++ {
			v, ok := s.Pop()
			sym.Assert(ok == (len(m) > 0), "Pop reports whether the stack was non-empty")
			if len(m) > 0 {
				sym.Assert(v == m[len(m)-1], "Pop yields the most recently pushed element")
				m = m[:len(m)-1]
			}
			sym.Assert(s.Len() == len(m), "Len is the number of elements held")
		}
	}
	push(n)
	parts := []int{1, n / 2, n - n/4, n}
	pop(parts[sym.Choose("part", len(parts))])
	push(n / 2)
	pop(len(m) + 1)
	push(3)
	pop(4)
	sym.Reach("end")
}

// C03_Tall: very tall linked stacks.
//
//sym:opt back=20000
func C03_Tall() { tall(lstack.New[int]()) }

// C04_Tall: very tall slice stacks.
//
//sym:opt back=20000
func C04_Tall() { tall(sstack.New[int]()) }
