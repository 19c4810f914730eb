package c_slicex

import (
	"strconv"

	"github.com/unsafe-risk/utilx/dsx/slicex"
	"github.com/unsafe-risk/utilx/zzverif/sym"
)

// mk makes a slice of n arbitrary elements with spare further cells, and a
// copy of its contents.
func mk(n, spare int) (*slicex.Slice[int], []int) {
	back := make([]int, n+spare)
	for i := range back {
		back[i] = sym.Int("e")
	}
	m := append([]int(nil), back[:n]...)
	return slicex.New(back[:n]...), m
}

func clamp(i, n int) int {
	if i < 0 {
		return 0
	}
	if i > n {
		return n
	}
	return sym.Concrete(i)
}

func same(s *slicex.Slice[int], m []int, msg string) {
	sym.Assert(s.Len() == len(m), msg+" (length)")
	got := s.Finalize()
	if len(got) == len(m) {
		for i := range m {
			sym.Assert(got[i] == m[i], msg)
		}
	}
}

func splice(m []int, i, j int, v []int) []int {
	i, j = clamp(i, len(m)), clamp(j, len(m))
	if i > j {
		i, j = j, i
	}
	out := make([]int, 0, len(m)+len(v))
	out = append(out, m[:i]...)
	out = append(out, v...)
	return append(out, m[j:]...)
}

// C08_Splice: Splice with every pair of bounds, argument slices with and
// without spare capacity; the argument's memory is compared after the call
// and after later edits of the result.
//
//sym:opt shards=8
func C08_Splice() {
	s, m := mk(sym.Choose("n", sym.Param("n", 4, 5)), sym.Choose("spare", 4))
	k, vs := sym.Choose("k", sym.Param("k", 3, 4)), sym.Choose("vspare", 5)
	back := make([]int, k+vs)
	for i := range back {
		back[i] = sym.Int("v")
	}
	saved := append([]int(nil), back...)
	i, j := sym.Int("i"), sym.Int("j")
	r := s.Splice(i, j, back[:k]...)
	want := splice(m, i, j, saved[:k])
	same(s, want, "Splice leaves the documented sequence")
	sym.Assert(r == s, "Splice returns its receiver")
	for i := range back {
		sym.Assert(back[i] == saved[i], "Splice does not write the caller's argument slice")
	}
	s.Set(sym.Choose("at", 6), -1)
	s.Push(-2)
	s.UnShift(-3)
	for i := range back {
		sym.Assert(back[i] == saved[i], "later edits do not write the caller's argument slice")
	}
}

// C08_Alias: the argument is a part of the edited slice itself.
//
//sym:opt shards=8
func C08_Alias() {
	n := sym.Choose("n", sym.Param("n", 5, 6))
	s, m := mk(n, sym.Choose("spare", 5))
	a := sym.Choose("a", n+1)
	b := a + sym.Choose("b", n-a+1)
	v := append([]int(nil), m[a:b]...)
	i := sym.Int("i")
	if sym.Choose("op", 2) == 0 {
		j := sym.Int("j")
		s.Splice(i, j, (*s)[a:b]...)
		same(s, splice(m, i, j, v), "Splice inserts elements of the edited slice unchanged")
	} else {
		s.Expand(i, (*s)[a:b]...)
		same(s, splice(m, i, i, v), "Expand inserts elements of the edited slice unchanged")
	}
}

func edit(s *slicex.Slice[int], m []int) []int {
	switch sym.Choose("op", 9) {
	case 0:
		i, k := sym.Int("i"), sym.Choose("k", 3)
		back := make([]int, 2+sym.Choose("vspare", 2))
		for x := range back {
			back[x] = sym.Int("v")
		}
		saved := append([]int(nil), back...)
		s.Expand(i, back[:k]...)
		m = splice(m, i, i, saved[:k])
		for x := range back {
			sym.Assert(back[x] == saved[x], "Expand does not write the caller's argument slice")
		}
		same(s, m, "Expand inserts at the clamped index")
	case 1:
		i, v := sym.Int("i"), sym.Int("v")
		s.Insert(i, v)
		m = splice(m, i, i, []int{v})
		same(s, m, "Insert inserts at the clamped index")
	case 2:
		i, j := sym.Int("i"), sym.Int("j")
		s.Cut(i, j)
		m = splice(m, i, j, nil)
		same(s, m, "Cut removes the elements between the clamped bounds")
	case 3:
		i := sym.Int("i")
		s.Delete(i)
		if i >= 0 && i < len(m) {
			m = splice(m, i, i+1, nil)
			sym.Reach("deleted")
		} else {
			sym.Reach("delete outside")
		}
		same(s, m, "Delete removes exactly the element at an index inside the slice")
	case 4:
		v := sym.Int("v")
		s.Push(v)
		m = append(m[:len(m):len(m)], v)
		same(s, m, "Push appends")
	case 5:
		v := s.Pop()
		sym.Observe("pop", v)
		if len(m) == 0 {
			sym.Assert(v == 0, "Pop of an empty slice yields the zero value")
		} else {
			sym.Assert(v == m[len(m)-1], "Pop yields the last element")
			m = m[:len(m)-1]
		}
		same(s, m, "Pop removes the last element")
	case 6:
		v := sym.Int("v")
		s.UnShift(v)
		m = append([]int{v}, m...)
		same(s, m, "UnShift prepends")
	case 7:
		v := s.Shift()
		sym.Observe("shift", v)
		if len(m) == 0 {
			sym.Assert(v == 0, "Shift of an empty slice yields the zero value")
		} else {
			sym.Assert(v == m[0], "Shift yields the first element")
			m = m[1:]
		}
		same(s, m, "Shift removes the first element")
	case 8:
		i := sym.Int("i")
		s.DeleteReplace(i)
		if len(m) > 0 {
			at := clamp(i, len(m)-1)
			last := m[len(m)-1]
			m = append([]int(nil), m[:len(m)-1]...)
			if at < len(m) {
				m[at] = last
			}
			sym.Reach("replaced")
		}
		same(s, m, "DeleteReplace moves the last element into the clamped position")
	}
	return m
}

// C08_Edits: every sequence of edits with arbitrary arguments.
//
//sym:opt shards=8
func C08_Edits() {
	s, m := mk(sym.Choose("n", sym.Param("n", 4, 5)), sym.Choose("spare", 3))
	for k, n := 0, sym.Param("ops", 2, 3); k < n; k++ {
		m = edit(s, m)
	}
}

// C09_Access: Get, Set, Slice, Extend, Clear on every slice and argument.
//
//sym:opt shards=4
func C09_Access() {
	s, m := mk(sym.Choose("n", sym.Param("n", 4, 6)), sym.Choose("spare", 5))
	for k, n := 0, sym.Param("ops", 2, 3); k < n; k++ {
		switch sym.Choose("op", 5) {
		case 0:
			i := sym.Int("i")
			v := s.Get(i)
			sym.Observe("get", v)
			if len(m) == 0 {
				sym.Assert(v == 0, "Get of an empty slice is the zero value")
			} else {
				sym.Assert(v == m[clamp(i, len(m)-1)], "Get yields the element at the clamped index")
			}
		case 1:
			i, v := sym.Int("i"), sym.Int("v")
			s.Set(i, v)
			if len(m) > 0 {
				m = append([]int(nil), m...)
				m[clamp(i, len(m)-1)] = v
			}
		case 2:
			i, j := sym.Int("i"), sym.Int("j")
			s.Slice(i, j)
			if j < 0 {
				j += len(m)
			}
			i, j = clamp(i, len(m)), clamp(j, len(m))
			if i > j {
				i, j = j, i
			}
			m = m[i:j]
			sym.Reach("sliced")
		case 3:
			n := sym.Int("size")
			sym.Assume(n <= 4)
			s.Extend(n)
			for x := 0; x < n; x++ {
				m = append(m[:len(m):len(m)], 0)
			}
		case 4:
			s.Clear()
			m = nil
		}
		same(s, m, "the slice holds exactly the documented elements")
	}
}

// C09_Copy: a copy and its original never show each other's modifications.
//
//sym:opt shards=4
func C09_Copy() {
	s, m := mk(sym.Choose("n", sym.Param("n", 4, 5)), sym.Choose("spare", 3))
	c := s.Copy()
	same(c, m, "Copy yields an equal slice")
	same(s, m, "Copy leaves the original alone")
	a, b := s, c
	if sym.Choose("side", 2) == 1 {
		a, b = c, s
	}
	switch sym.Choose("op", 12) {
	case 0:
		a.Set(sym.Int("i"), sym.Int("v"))
	case 1:
		a.Push(sym.Int("v"))
	case 2:
		a.Insert(sym.Int("i"), sym.Int("v"))
	case 3:
		a.Delete(sym.Int("i"))
	case 4:
		a.Reverse()
	case 5:
		a.Rotate(sym.Range("r", -3, 3))
	case 6:
		a.DeleteReplace(sym.Int("i"))
	case 7:
		a.Extend(2)
	case 8:
		a.Filter(func(int) bool { return sym.Bool("keep") })
	case 9:
		a.Clear()
		a.Push(sym.Int("v"))
	case 10:
		a.UnShift(sym.Int("v"))
	case 11:
		a.Cut(sym.Int("i"), sym.Int("j"))
	}
	same(b, m, "modifying one side never shows in the other")
	b.Push(5)
	b.Set(0, 6)
	b.Extend(1)
	sym.Assert(b.Len() == len(m)+2, "the other side keeps its length")
}

// C10_Rotate: every slice length, spare capacity and every int rotation.
//
//sym:opt shards=8
func C10_Rotate() {
	s, m := mk(sym.Choose("n", sym.Param("n", 6, 9)), sym.Choose("spare", sym.Param("spare", 3, 9)))
	n := sym.Int("r")
	s.Rotate(n)
	sym.Assert(s.Len() == len(m), "Rotate keeps the length")
	if len(m) == 0 {
		return
	}
	r := n % len(m)
	if r < 0 {
		r += len(m)
	}
	r = sym.Concrete(r)
	got := s.Finalize()
	sym.Observe("rot", r)
	for i := range m {
		sym.Assert(got[i] == m[(i+r)%len(m)], "Rotate is the left rotation by n modulo the length")
	}
	sym.Reach("rotated")
}

// C10_Arrange: Reverse, Filter and Repeat.
//
//sym:opt shards=4
func C10_Arrange() {
	s, m := mk(sym.Choose("n", sym.Param("n", 6, 8)), sym.Choose("spare", 3))
	switch sym.Choose("op", 3) {
	case 0:
		s.Reverse()
		for i, j := 0, len(m)-1; i < j; i, j = i+1, j-1 {
			m[i], m[j] = m[j], m[i]
		}
		same(s, m, "Reverse is the exact reversal")
	case 1:
		var seen, want []int
		s.Filter(func(v int) bool {
			seen = append(seen, v)
			k := sym.Bool("keep")
			if k {
				want = append(want, v)
			}
			return k
		})
		sym.Assert(len(seen) == len(m), "Filter calls the predicate once per element")
		for i := range m {
			if i < len(seen) {
				sym.Assert(seen[i] == m[i], "Filter calls the predicate in order")
			}
		}
		same(s, want, "Filter keeps exactly the accepted elements in order")
		sym.Reach("filtered")
	case 2:
		n := sym.Int("cnt")
		sym.Assume(n <= sym.Param("cnt", 4, 6))
		s.Repeat(n)
		var want []int
		for i := 0; i < n; i++ {
			want = append(want, m...)
		}
		same(s, want, "Repeat is the contents repeated max(n,0) times")
		if n > 1 && len(m) > 0 {
			s.Set(0, 99)
			sym.Assert(s.Get(len(m)) == m[0], "the repetitions are separate elements")
			sym.Reach("repeated")
		}
	}
}

// C10_Shuffle: for every outcome of the random source the result is a
// permutation.
//
//sym:assume C10 math/rand.Shuffle performs n-1 Fisher-Yates swaps with arbitrary indexes; Intn and Perm are arbitrary in range
func C10_Shuffle() {
	n := sym.Choose("n", sym.Param("n", 6, 7))
	back := make([]int, n, n+2)
	for i := range back {
		back[i] = 10 + i
	}
	s := slicex.New(back...)
	s.Shuffle()
	sym.Assert(s.Len() == n, "Shuffle keeps the length")
	for i := 0; i < n; i++ {
		c := 0
		for _, v := range s.Finalize() {
			if v == 10+i {
				c++
			}
		}
		sym.Assert(c == 1, "Shuffle leaves a permutation")
	}
}

var drawn int

func patternShuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, patternIntn(i+1))
	}
}

func patternIntn(n int) int {
	drawn = (drawn*7 + 5) % 1000003
	return drawn % n
}

// C10_ShuffleLong: long slices, for a few sequences of draws.
//
//sym:replace math/rand.Shuffle patternShuffle
//sym:replace math/rand.Intn patternIntn
//sym:opt back=20000 shards=2
func C10_ShuffleLong() {
	n := []int{65, 130, 300, 1100}[sym.Choose("n", 4)]
	drawn = []int{0, 1, 77777}[sym.Choose("draws", 3)]
	back := make([]int, n)
	for i := range back {
		back[i] = i
	}
	s := slicex.New(back...)
	s.Shuffle()
	sym.Assert(s.Len() == n, "Shuffle keeps the length")
	seen := make([]bool, n)
	for _, v := range s.Finalize() {
		sym.Assert(v >= 0 && v < n && !seen[v], "Shuffle leaves a permutation")
		seen[v] = true
	}
}

// C11_Split: every list of sizes, negative ones included.
//
//sym:opt shards=8
func C11_Split() {
	n := sym.Choose("n", sym.Param("n", 5, 6))
	s, m := mk(n, sym.Choose("spare", 2))
	k := sym.Choose("k", sym.Param("k", 4, 4))
	sizes := make([]int, k)
	for i := range sizes {
		sizes[i] = sym.Int("size")
	}
	r := s.Split(append([]int(nil), sizes...)...)
	var want [][]int
	pos := 0
	for _, z := range sizes {
		var next int
		if z >= 0 {
			next = n
			if z <= n-pos {
				next = pos + z
			}
			next = sym.Concrete(next)
			want = append(want, m[pos:next])
		} else {
			next = 0
			if z >= -pos {
				next = pos + z
			}
			next = sym.Concrete(next)
			want = append(want, m[next:pos])
			sym.Reach("back")
		}
		pos = next
	}
	if pos < n {
		want = append(want, m[pos:])
		sym.Reach("remainder")
	}
	sym.Assert(len(r) == len(want), "Split returns one piece per size and the non-empty remainder")
	for i := range want {
		sym.Assert(len(r[i]) == len(want[i]), "every piece has its size, cut short at the end")
		for j := range want[i] {
			sym.Assert(r[i][j] == want[i][j], "the pieces hold the elements in order")
		}
	}
	same(s, m, "Split leaves the slice alone")
}

// C11_Batch: every batch size.
//
//sym:opt shards=4
func C11_Batch() {
	n := sym.Choose("n", sym.Param("n", 8, 12))
	s, m := mk(n, sym.Choose("spare", 2))
	b := sym.Int("batch")
	r := s.Batch(b)
	if b < 1 {
		b = 1
	}
	pos, k := 0, 0
	for pos < n {
		sz := n - pos
		if b < sz {
			sz = b
		}
		sz = sym.Concrete(sz)
		sym.Assert(k < len(r), "Batch covers the whole slice")
		sym.Assert(len(r[k]) == sz, "every piece has the batch size, the last one the rest")
		for j := 0; j < sz && j < len(r[k]); j++ {
			sym.Assert(r[k][j] == m[pos+j], "the pieces hold the elements in order")
		}
		pos += sz
		k++
	}
	sym.Assert(len(r) == k, "Batch returns no further pieces")
}

// C11_BatchEdge: batch sizes at the ends of the range.
func C11_BatchEdge() {
	n := sym.Choose("n", 7)
	s, m := mk(n, sym.Choose("spare", 2))
	const max = 1<<63 - 1
	b := []int{max, max - 1, max - 2, max / 2, max/2 + 1, 1 << 32, 1 << 31, 0, -1, -n, -max, -max - 1}[sym.Choose("batch", 12)]
	r := s.Batch(b)
	if b < 1 {
		sym.Assert(len(r) == n, "a size below one stands for one")
		for i := range r {
			sym.Assert(len(r[i]) == 1 && r[i][0] == m[i], "the pieces hold the elements in order")
		}
		return
	}
	if n == 0 {
		sym.Assert(len(r) == 0, "Batch of an empty slice returns no pieces")
		return
	}
	sym.Assert(len(r) == 1 && len(r[0]) == n, "a size beyond the length yields one piece")
	for i := range m {
		sym.Assert(r[0][i] == m[i], "the pieces hold the elements in order")
	}
}

// C11_LongSearch: search and traversal of long slices.
//
//sym:opt back=20000 shards=2
func C11_LongSearch() {
	n := []int{65, 130, 300, 1030}[sym.Choose("n", 4)]
	at := []int{0, 1, n / 2, n - 2, n - 1, n}[sym.Choose("at", 6)]
	back := make([]int, n)
	for i := range back {
		back[i] = i
	}
	s := slicex.New(back...)
	f := func(v int) bool { return v >= at }
	if sym.Choose("only", 2) == 1 {
		f = func(v int) bool { return v == at }
	}
	want := at
	if at == n {
		want = -1
	}
	sym.Assert(s.IndexOf(f) == want, "IndexOf is the first accepted index")
	sym.Assert(s.Contains(f) == (want >= 0), "Contains tells whether one is accepted")
	k := 0
	s.Each(func(v int) {
		sym.Assert(v == k, "Each visits in order")
		k++
	})
	sym.Assert(k == n, "Each visits every element once")
	k = 0
	s.ForEach(func(i, v int) {
		sym.Assert(i == k && v == k, "ForEach visits in order with the index")
		k++
	})
	sym.Assert(k == n, "ForEach visits every element once")
	text, sep := "", ""
	for _, v := range back {
		text += sep + strconv.Itoa(v)
		sep = "; "
	}
	sym.Assert(s.Join("; ") == text, "Join writes the elements in order with the separator between them")
}

// C11_Search: IndexOf, Contains, Each, ForEach for every predicate.
func C11_Search() {
	n := sym.Choose("n", sym.Param("n", 6, 9))
	p := make([]bool, n)
	back := make([]int, n)
	for i := range p {
		p[i], back[i] = sym.Bool("p"), i
	}
	s := slicex.New(back...)
	want := -1
	for i := n - 1; i >= 0; i-- {
		if p[i] {
			want = i
		}
	}
	sym.Assert(s.IndexOf(func(v int) bool { return p[v] }) == want, "IndexOf is the first accepted index")
	sym.Assert(s.Contains(func(v int) bool { return p[v] }) == (want >= 0), "Contains tells whether one is accepted")
	k := 0
	s.Each(func(v int) {
		sym.Assert(v == k, "Each visits in order")
		k++
	})
	sym.Assert(k == n, "Each visits every element once")
	k = 0
	s.ForEach(func(i, v int) {
		sym.Assert(i == k && v == k, "ForEach visits in order with the index")
		k++
	})
	sym.Assert(k == n, "ForEach visits every element once")
}

// C11_Join: the text of the elements in order with the separator between them.
func C11_Join() {
	n := sym.Choose("n", 4)
	sep := sym.String("sep", sym.Choose("seplen", 3))
	back := make([]string, n)
	want := ""
	for i := range back {
		back[i] = sym.String("e", sym.Choose("elen", 3))
		if i > 0 {
			want += sep
		}
		want += back[i]
	}
	s := slicex.New(back...)
	got := s.Join(sep)
	sym.Observe("join", got)
	sym.Assert(got == want, "Join writes the elements in order with the separator between them")
}

// C11_JoinInts: elements of another type are written in their %v form.
func C11_JoinInts() {
	vals := []int{0, 7, -12, 1 << 40}
	a, b := vals[sym.Choose("a", 4)], vals[sym.Choose("b", 4)]
	txt := map[int]string{0: "0", 7: "7", -12: "-12", 1 << 40: "1099511627776"}
	s := slicex.New(a, b)
	sym.Assert(s.Join(", ") == txt[a]+", "+txt[b], "Join writes integers in decimal")
	sym.Assert(slicex.New(true, false).Join("") == "truefalse", "Join writes booleans")
}

// wideN: lengths beyond the ones of the exhaustive harnesses.
func wideN() (*slicex.Slice[int], []int, int) {
	ns := []int{1, 2, 6, 7, 8, 9, 13, 16}
	n := ns[sym.Choose("n", len(ns))]
	sp := []int{0, 1, n, 2*n + 1, 3*n + 4, 8*n + 16}
	s, m := mk(n, sp[sym.Choose("spare", sym.Param("spares", 5, 6))])
	return s, m, n
}

// spot is one of the positions around the ends and the middle.
func spot(name string, n int) int {
	ps := []int{-1, 0, 1, 2, n/2 - 1, n / 2, n - 2, n - 1, n, n + 1}
	return ps[sym.Choose(name, len(ps))]
}

// C08_Wide: one edit of a longer slice around its ends and middle, with
// argument slices up to its length.
//
//sym:opt shards=8
func C08_Wide() {
	s, m, n := wideN()
	ks := []int{0, 1, 2, 3, n}
	switch sym.Choose("op", 9) {
	case 0:
		i := spot("i", n)
		back := make([]int, ks[sym.Choose("k", len(ks))]+1)
		for x := range back {
			back[x] = sym.Int("v")
		}
		saved := append([]int(nil), back...)
		k := len(back) - 1
		s.Expand(i, back[:k]...)
		same(s, splice(m, i, i, saved[:k]), "Expand inserts at the clamped index")
		s.Set(0, -1)
		s.Push(-2)
		for x := range back {
			sym.Assert(back[x] == saved[x], "Expand does not write the caller's argument slice")
		}
	case 1:
		i, j := spot("i", n), spot("j", n)
		back := make([]int, ks[sym.Choose("k", len(ks))]+1)
		for x := range back {
			back[x] = sym.Int("v")
		}
		saved := append([]int(nil), back...)
		k := len(back) - 1
		s.Splice(i, j, back[:k]...)
		same(s, splice(m, i, j, saved[:k]), "Splice leaves the documented sequence")
		s.Set(0, -1)
		s.Push(-2)
		for x := range back {
			sym.Assert(back[x] == saved[x], "Splice does not write the caller's argument slice")
		}
	case 2:
		i, j := spot("i", n), spot("j", n)
		s.Cut(i, j)
		same(s, splice(m, i, j, nil), "Cut removes the elements between the clamped bounds")
	case 3:
		i := spot("i", n)
		s.Delete(i)
		if i >= 0 && i < n {
			m = splice(m, i, i+1, nil)
		}
		same(s, m, "Delete removes exactly the element at an index inside the slice")
	case 4:
		i, v := spot("i", n), sym.Int("v")
		s.Insert(i, v)
		same(s, splice(m, i, i, []int{v}), "Insert inserts at the clamped index")
	case 5:
		i := spot("i", n)
		s.DeleteReplace(i)
		at := clamp(i, n-1)
		want := append([]int(nil), m[:n-1]...)
		if at < n-1 {
			want[at] = m[n-1]
		}
		same(s, want, "DeleteReplace moves the last element into the clamped position")
	case 6: // the argument is a part of the slice itself
		a, k, i := sym.Choose("a", 2)*(n/2), n/2, spot("i", n)
		v := append([]int(nil), m[a:a+k]...)
		s.Expand(i, (*s)[a:a+k]...)
		same(s, splice(m, i, i, v), "Expand inserts elements of the edited slice unchanged")
	case 7: // used as a queue
		for i := 0; i < 2*n; i++ {
			v := sym.Int("v")
			s.Push(v)
			m = append(m[:len(m):len(m)], v)
			sym.Assert(s.Shift() == m[0], "Shift yields the first element")
			m = m[1:]
		}
		same(s, m, "Push appends and Shift removes the first element")
	case 8: // used as a stack from both sides
		for i := 0; i < n; i++ {
			v := sym.Int("v")
			s.UnShift(v)
			m = append([]int{v}, m...)
			sym.Assert(s.Pop() == m[len(m)-1], "Pop yields the last element")
			m = m[:len(m)-1]
		}
		same(s, m, "UnShift prepends and Pop removes the last element")
	}
	sym.Reach("edited")
}

// C09_Wide: access, resizing and copying of longer slices.
//
//sym:opt shards=4
func C09_Wide() {
	s, m, n := wideN()
	if cut := sym.Choose("cut", 3); cut > 0 { // leave spare elements behind the end
		n = 1 + (cut-1)*n/3
		s.Slice(0, n)
		m = m[:n]
		same(s, m, "Slice keeps the elements between the bounds")
	}
	c := s.Copy()
	same(c, m, "Copy yields an equal slice")
	i, v := spot("i", n), sym.Int("v")
	switch sym.Choose("op", 4) {
	case 0:
		sym.Assert(s.Get(i) == m[clamp(i, n-1)], "Get yields the element at the clamped index")
		s.Set(i, v)
		same(c, m, "modifying one side never shows in the other")
		w := append([]int(nil), m...)
		w[clamp(i, n-1)] = v
		same(s, w, "Set writes the element at the clamped index")
	case 1:
		c.Set(i, v)
		c.Push(v)
		same(s, m, "modifying one side never shows in the other")
		s.Extend(3)
		sym.Assert(c.Get(n) == v, "modifying one side never shows in the other")
		same(s, append(append([]int(nil), m...), 0, 0, 0), "Extend appends zero values")
	case 2:
		s.Push(v)
		c.Push(0)
		c.Extend(n)
		same(s, append(append([]int(nil), m...), v), "modifying one side never shows in the other")
		same(c, append(append([]int(nil), m...), make([]int, n+1)...), "Extend appends zero values")
	case 3:
		k := sym.Choose("k", 2) * n
		s.Clear()
		s.Extend(k)
		same(s, make([]int, k), "Extend of a cleared slice shows zero values only")
		same(c, m, "modifying one side never shows in the other")
	}
}

// C10_Wide: rearrangements of longer slices.
//
//sym:opt shards=4
func C10_Wide() {
	s, m, n := wideN()
	c := s.Copy()
	switch sym.Choose("op", 4) {
	case 0:
		r := sym.Choose("r", 2*n+3) - n - 1
		s.Rotate(r)
		want := make([]int, n)
		for i := range m {
			want[i] = m[((i+r)%n+n)%n]
		}
		same(s, want, "Rotate is the left rotation by n modulo the length")
	case 1:
		s.Reverse()
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			m[i], m[j] = m[j], m[i]
		}
		same(s, m, "Reverse is the exact reversal")
		return
	case 2:
		p, q := 1+sym.Choose("period", 4), sym.Choose("phase", 4)
		var want []int
		k := 0
		s.Filter(func(v int) bool {
			sym.Assert(k < n && v == m[k], "Filter calls the predicate in order")
			k++
			if (k-1)%p == q {
				return false
			}
			want = append(want, v)
			return true
		})
		sym.Assert(k == n, "Filter calls the predicate once per element")
		same(s, want, "Filter keeps exactly the accepted elements in order")
	case 3:
		k := sym.Choose("cnt", 5)
		s.Repeat(k)
		var want []int
		for i := 0; i < k; i++ {
			want = append(want, m...)
		}
		same(s, want, "Repeat is the contents repeated max(n,0) times")
	}
	same(c, m, "a copy made before is left alone")
}

// C11_Wide: partitions of longer slices.
//
//sym:opt shards=4
func C11_Wide() {
	s, m, n := wideN()
	if sym.Choose("op", 2) == 0 {
		b := sym.Choose("batch", n+2)
		r := s.Batch(b)
		if b < 1 {
			b = 1
		}
		sym.Assert(len(r) == (n+b-1)/b, "Batch returns the pieces that cover the slice")
		for i := range m {
			k := i / b
			want := b
			if k == n/b {
				want = n % b
			}
			sym.Assert(len(r[k]) == want, "every piece has the batch size, the last one the rest")
			sym.Assert(r[k][i%b] == m[i], "the pieces hold the elements in order")
		}
	} else {
		sizes := make([]int, sym.Choose("k", 4))
		for i := range sizes {
			zs := []int{-2, 0, 1, 3, n/2 + 1, n, 1<<63 - 1, -1 << 63}
			sizes[i] = zs[sym.Choose("size", len(zs))]
		}
		r := s.Split(sizes...)
		var want [][]int
		pos := 0
		for _, z := range sizes {
			next := pos
			switch {
			case z >= 0 && z <= n-pos:
				next = pos + z
			case z >= 0:
				next = n
			case z >= -pos:
				next = pos + z
			default:
				next = 0
			}
			if next >= pos {
				want = append(want, m[pos:next])
			} else {
				want = append(want, m[next:pos])
			}
			if z < 0 && next == pos {
				want[len(want)-1] = nil
			}
			pos = next
		}
		if pos < n {
			want = append(want, m[pos:])
		}
		sym.Assert(len(r) == len(want), "Split returns one piece per size and the non-empty remainder")
		for i := range want {
			sym.Assert(len(r[i]) == len(want[i]), "every piece has its size, cut short at the end")
			for j := range want[i] {
				sym.Assert(r[i][j] == want[i][j], "the pieces hold the elements in order")
			}
		}
	}
	same(s, m, "Split and Batch leave the slice alone")
}

// hugeN: lengths around powers of two and well beyond.
func hugeN() (*slicex.Slice[int], []int, int) {
	ns := []int{31, 32, 33, 64, 65, 129, 257, 512, 1025}
	n := ns[sym.Choose("n", len(ns))]
	sp := []int{0, 1, n, 2*n + 1}
	s, m := mk(n, sp[sym.Choose("spare", len(sp))])
	return s, m, n
}

// hugeAt is a position near one of the ends or the middle.
func hugeAt(name string, n int) int {
	ps := []int{0, 1, n / 4, n / 2, n - 1, n}
	return ps[sym.Choose(name, len(ps))]
}

// C08_Huge: edits of long slices.
//
//sym:opt back=20000 depth=2 shards=4
func C08_Huge() {
	s, m, n := hugeN()
	i := hugeAt("i", n)
	switch sym.Choose("op", 7) {
	case 0:
		vs := make([]int, []int{1, 40, n}[sym.Choose("k", 3)])
		for x := range vs {
			vs[x] = sym.Int("v")
		}
		saved := append([]int(nil), vs...)
		s.Expand(i, vs...)
		same(s, splice(m, i, i, saved), "Expand inserts at the clamped index")
	case 1:
		vs := make([]int, []int{0, 1, 40}[sym.Choose("k", 3)])
		for x := range vs {
			vs[x] = sym.Int("v")
		}
		j := hugeAt("j", n)
		s.Splice(i, j, vs...)
		same(s, splice(m, i, j, vs), "Splice leaves the documented sequence")
	case 2:
		j := hugeAt("j", n)
		s.Cut(i, j)
		same(s, splice(m, i, j, nil), "Cut removes the elements between the clamped bounds")
	case 3:
		s.Delete(i)
		if i < n {
			m = splice(m, i, i+1, nil)
		}
		same(s, m, "Delete removes exactly the element at an index inside the slice")
	case 4:
		v := sym.Int("v")
		s.Insert(i, v)
		same(s, splice(m, i, i, []int{v}), "Insert inserts at the clamped index")
	case 5:
		s.DeleteReplace(i)
		at := clamp(i, n-1)
		want := append([]int(nil), m[:n-1]...)
		if at < n-1 {
			want[at] = m[n-1]
		}
		same(s, want, "DeleteReplace moves the last element into the clamped position")
	case 6: // drained from one end, then used again
		left := []int{0, 1, n / 4}[sym.Choose("left", 3)]
		for len(m) > left {
			if i < n/2 {
				sym.Assert(s.Shift() == m[0], "Shift yields the first element")
				m = m[1:]
			} else {
				sym.Assert(s.Pop() == m[len(m)-1], "Pop yields the last element")
				m = m[:len(m)-1]
			}
		}
		same(s, m, "Shift and Pop leave the other elements")
		v, w := sym.Int("v"), sym.Int("v")
		s.Push(v)
		s.UnShift(w)
		same(s, append(append([]int{w}, m...), v), "Push appends and UnShift prepends")
	}
	sym.Reach("edited")
}

// C09_Huge: access, resizing and copying of long slices.
//
//sym:opt back=20000 depth=2 shards=4
func C09_Huge() {
	s, m, n := hugeN()
	c := s.Copy()
	i, v := hugeAt("i", n), sym.Int("v")
	sym.Assert(s.Get(i) == m[clamp(i, n-1)], "Get yields the element at the clamped index")
	switch sym.Choose("op", 4) {
	case 0:
		s.Set(i, v)
		w := append([]int(nil), m...)
		w[clamp(i, n-1)] = v
		same(s, w, "Set writes the element at the clamped index")
	case 1:
		s.Extend(n)
		s.Set(i, v)
		w := append(append([]int(nil), m...), make([]int, n)...)
		w[i] = v
		same(s, w, "Extend appends zero values")
	case 2:
		s.Slice(i, n)
		same(s, m[i:], "Slice keeps the elements between the bounds")
		s.Extend(1)
		s.Push(v)
		same(s, append(append([]int(nil), m[i:]...), 0, v), "Extend appends zero values")
	case 3:
		s.Clear()
		same(s, nil, "Clear leaves no elements")
		s.Extend(i)
		same(s, make([]int, i), "Extend of a cleared slice shows zero values only")
	}
	same(c, m, "modifying one side never shows in the other")
}

// C10_Huge: rearrangements of long slices.
//
//sym:opt back=20000 depth=2 shards=4
func C10_Huge() {
	s, m, n := hugeN()
	c := s.Copy()
	switch sym.Choose("op", 4) {
	case 0:
		rs := []int{-n - 1, -n, -n / 2, -1, 0, 1, n / 3, n / 2, n - 1, n, n + 1, 5*n + 2}
		r := rs[sym.Choose("r", len(rs))]
		s.Rotate(r)
		want := make([]int, n)
		for i := range m {
			want[i] = m[((i+r)%n+n)%n]
		}
		same(s, want, "Rotate is the left rotation by n modulo the length")
	case 1:
		s.Reverse()
		want := make([]int, n)
		for i := range m {
			want[n-1-i] = m[i]
		}
		same(s, want, "Reverse is the exact reversal")
	case 2:
		p, q := 1+sym.Choose("period", 3), sym.Choose("phase", 3)
		var want []int
		k := 0
		s.Filter(func(v int) bool {
			k++
			if (k-1)%p == q {
				return false
			}
			want = append(want, v)
			return true
		})
		sym.Assert(k == n, "Filter calls the predicate once per element")
		same(s, want, "Filter keeps exactly the accepted elements in order")
	case 3:
		k := sym.Choose("cnt", 4)
		s.Repeat(k)
		var want []int
		for i := 0; i < k; i++ {
			want = append(want, m...)
		}
		same(s, want, "Repeat is the contents repeated max(n,0) times")
	}
	same(c, m, "a copy made before is left alone")
}

// C10_Many: short slices repeated many times.
//
//sym:opt back=20000
func C10_Many() {
	n := 1 + sym.Choose("n", 3)
	s, m := mk(n, sym.Choose("spare", 2)*40)
	ks := []int{5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100, 257}
	k := ks[sym.Choose("cnt", len(ks))]
	s.Repeat(k)
	var want []int
	for i := 0; i < k; i++ {
		want = append(want, m...)
	}
	same(s, want, "Repeat is the contents repeated max(n,0) times")
}

// C11_Huge: partitions of long slices.
//
//sym:opt back=20000 depth=2 shards=2
func C11_Huge() {
	s, m, n := hugeN()
	bs := []int{1, 2, 7, 31, 32, n/2 + 1, n - 1, n, n + 1}
	b := bs[sym.Choose("batch", len(bs))]
	r := s.Batch(b)
	sym.Assert(len(r) == (n+b-1)/b, "Batch returns the pieces that cover the slice")
	for i := range m {
		k := i / b
		want := b
		if k == n/b {
			want = n % b
		}
		sym.Assert(len(r[k]) == want, "every piece has the batch size, the last one the rest")
		sym.Assert(r[k][i%b] == m[i], "the pieces hold the elements in order")
	}
}

// C11_ManySplits: a split in many parts.
//
//sym:opt back=20000
func C11_ManySplits() {
	s, m, n := hugeN()
	k := []int{9, 16, 17, 33, 70}[sym.Choose("k", 5)]
	z := 1 + sym.Choose("z", 3)
	sizes := make([]int, k)
	for i := range sizes {
		sizes[i] = z
	}
	r := s.Split(sizes...)
	parts := k
	if k*z < n {
		parts++
	}
	sym.Assert(len(r) == parts, "Split returns one part per size and the non-empty rest")
	pos := 0
	for i := range r {
		next := pos + z
		if next > n || i == k {
			next = n
		}
		sym.Assert(len(r[i]) == next-pos, "every part has the size asked for")
		for x := pos; x < next; x++ {
			sym.Assert(r[i][x-pos] == m[x], "the parts hold the elements in order")
		}
		pos = next
	}
}
