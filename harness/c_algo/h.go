package c_algo

import (
	"math"

	"github.com/unsafe-risk/utilx/algox/searchx"
	"github.com/unsafe-risk/utilx/algox/sortx"
	"github.com/unsafe-risk/utilx/zzverif/sym"
	"golang.org/x/exp/constraints"
)

// search: s is ascending.
func search[T constraints.Ordered](s []T, x T) {
	for i := 1; i < len(s); i++ {
		sym.Assume(s[i-1] <= s[i])
	}
	keep := append([]T(nil), s...)
	i, ok := searchx.Search(s, x)
	sym.Assert(i >= 0 && i <= len(s), "the index is between 0 and the length")
	for j := range s {
		sym.Assert(s[j] == keep[j], "the slice is not changed")
		if j < i {
			sym.Assert(s[j] < x, "every element before the index is less than the target")
		} else {
			sym.Assert(s[j] >= x, "no element from the index on is less than the target")
		}
	}
	eq := false
	if i < len(s) && s[i] == x {
		eq = true
	}
	sym.Assert(ok == eq, "found exactly when the element at the index equals the target")
}

func slice[T any](n int, el func() T) []T {
	s := make([]T, n)
	for i := range s {
		s[i] = el()
	}
	return s
}

//sym:opt shards=2 nodiamond=1
func C17_Int() {
	n := sym.Choose("n", sym.Param("n", 8, 16))
	search(slice(n, func() int { return sym.Int("s") }), sym.Int("x"))
}

//sym:opt shards=2 nodiamond=1
func C17_Uint8() {
	n := sym.Choose("n", sym.Param("n", 18, 34))
	search(slice(n, func() uint8 { return sym.Byte("s") }), sym.Byte("x"))
}

//sym:opt shards=2 nodiamond=1
func C17_Float() {
	f := func() float64 {
		f := sym.Float64("s")
		sym.Assume(f == f)
		return f
	}
	n := sym.Choose("n", sym.Param("n", 5, 8))
	search(slice(n, f), f())
}

//sym:opt shards=4 nodiamond=1
func C17_String() {
	f := func() string { return sym.String("s", sym.Choose("len", 3)) }
	n := sym.Choose("n", sym.Param("n", 4, 5))
	search(slice(n, f), f())
}

type item struct {
	at     int
	target bool
}

// C17_Custom: an arbitrary slice sorted consistently with an arbitrary
// three-way comparison with the target.
//
//sym:opt shards=4 nodiamond=1
func C17_Custom() {
	n := sym.Choose("n", sym.Param("n", 20, 66))
	s := make([]item, n)
	c := make([]int, n)
	for i := range s {
		s[i].at = i
		c[i] = sym.Int("cmp")
		sym.Assume(c[i] > -1<<62 && c[i] < 1<<62)
		if i > 0 {
			// negative, then zero, then positive
			sym.Assume(c[i-1] < 0 || c[i] > 0 || c[i-1] == 0 && c[i] == 0)
		}
	}
	i, ok := searchx.SearchCustom(s, item{target: true}, func(a, b item) int {
		switch {
		case a.target && b.target:
			return 0
		case b.target:
			return c[a.at]
		case a.target:
			return -c[b.at]
		}
		return a.at - b.at
	})
	sym.Assert(i >= 0 && i <= n, "the index is between 0 and the length")
	if i > 0 {
		sym.Assert(c[i-1] < 0, "every element before the index is less than the target")
	}
	if i < n {
		sym.Assert(c[i] >= 0, "no element from the index on is less than the target")
		sym.Assert(ok == (c[i] == 0), "found exactly when the element at the index equals the target")
	} else {
		sym.Assert(!ok, "nothing is found past the end")
	}
}

// C17_Large: long slices in arithmetic progression, every position.
//
//sym:opt shards=4 nodiamond=1
func C17_Large() {
	n := []int{100, 127, 128, 129, 1000}[sym.Choose("n", 5)]
	step := 1 + sym.Choose("step", 2)
	s := make([]int, n)
	for i := range s {
		s[i] = i / 3 * step
	}
	x := sym.Int("x")
	i, ok := searchx.Search(s, x)
	sym.Assert(i >= 0 && i <= n, "the index is between 0 and the length")
	if i > 0 {
		sym.Assert(s[i-1] < x, "every element before the index is less than the target")
	}
	if i < n {
		sym.Assert(s[i] >= x, "no element from the index on is less than the target")
		sym.Assert(ok == (s[i] == x), "found exactly when the element at the index equals the target")
	} else {
		sym.Assert(!ok, "nothing is found past the end")
	}
}

// C17_CustomDesc: the comparison decides the order, here descending.
func C17_CustomDesc() {
	n := sym.Choose("n", sym.Param("n", 6, 9))
	s := slice(n, func() int16 { return sym.Int16("s") })
	for i := 1; i < n; i++ {
		sym.Assume(s[i-1] >= s[i])
	}
	x := sym.Int16("x")
	i, ok := searchx.SearchCustom(s, x, func(a, b int16) int { return int(b) - int(a) })
	if i > 0 {
		sym.Assert(s[i-1] > x, "every element before the index orders before the target")
	}
	if i < n {
		sym.Assert(s[i] <= x, "no element from the index on orders before the target")
		sym.Assert(ok == (s[i] == x), "found exactly when the element at the index equals the target")
	} else {
		sym.Assert(i == n && !ok, "nothing is found past the end")
	}
}

// ---- sorting

const (
	kSort = iota
	kSortFalseReverse
	kSortReverse
	kSortTrue
	kStable
	kStableReverse
	nSorts
)

func callSort[T constraints.Ordered](k int, s []T) (desc bool) {
	switch k {
	case kSort, kSortFalseReverse:
		sortx.Sort(s, false)
	case kSortReverse:
		sortx.SortReverse(s)
		return true
	case kSortTrue:
		sortx.Sort(s, true)
		return true
	case kStable:
		sortx.SortStable(s)
	case kStableReverse:
		sortx.SortStableReverse(s)
		return true
	}
	return false
}

func permutation[T constraints.Ordered](s, in []T) {
	sym.Assert(len(s) == len(in), "the result has the same length")
	for _, x := range in {
		a, b := 0, 0
		for i := range in {
			if in[i] == x {
				a++
			}
			if s[i] == x {
				b++
			}
		}
		sym.Assert(a == b, "the result is a permutation of the input")
	}
}

func sorted[T constraints.Ordered](s []T, desc bool) {
	up, down := true, true
	for i := 1; i < len(s); i++ {
		if s[i-1] > s[i] {
			up = false
		}
		if s[i-1] < s[i] {
			down = false
		}
	}
	if desc {
		sym.Assert(down, "the result is in descending order")
		sym.Assert(sortx.IsSortedReverse(s), "IsSortedReverse recognises the result")
	} else {
		sym.Assert(up, "the result is in ascending order")
		sym.Assert(sortx.IsSorted(s), "IsSorted recognises the result")
	}
}

func sortAny[T constraints.Ordered](s []T) {
	in := append([]T(nil), s...)
	desc := callSort(sym.Choose("fn", nSorts), s)
	sorted(s, desc)
	permutation(s, in)
}

// C18_Ints: every order and every pattern of ties of a short slice.
//
//sym:opt shards=8 nodiamond=1
func C18_Ints() {
	n := sym.Choose("n", sym.Param("n", 6, 7))
	sortAny(slice(n, func() int16 { return sym.Int16("s") }))
}

// C18_Wide: 64-bit integers.
//
//sym:opt shards=8 nodiamond=1
func C18_Wide() {
	n := sym.Choose("n", sym.Param("n", 5, 6))
	sortAny(slice(n, func() int { return sym.Int("s") }))
}

// C18_Unsigned: unsigned order.
//
//sym:opt shards=4 nodiamond=1
func C18_Unsigned() {
	n := sym.Choose("n", sym.Param("n", 5, 6))
	sortAny(slice(n, func() uint32 { return sym.Uint32("s") }))
}

// C18_Floats: floats, no NaN; the stable variants keep -0 and +0 in place.
//
//sym:opt shards=8 nodiamond=1
func C18_Floats() {
	n := sym.Choose("n", sym.Param("n", 4, 5))
	s := slice(n, func() float32 {
		f := sym.Float32("s")
		sym.Assume(f == f)
		return f
	})
	in := append([]float32(nil), s...)
	k := sym.Choose("fn", nSorts)
	desc := callSort(k, s)
	sorted(s, desc)
	permutation(s, in)
	if k == kStable || k == kStableReverse {
		for _, x := range in {
			j := 0
			for i := range s {
				if s[i] != x {
					continue
				}
				for in[j] != x {
					j++
				}
				sym.Assert(math.Float32bits(s[i]) == math.Float32bits(in[j]), "the stable variants keep equal elements in their order")
				j++
			}
		}
	}
}

// C18_Strings: strings of length 0 to 2.
//
//sym:opt shards=8 nodiamond=1
func C18_Strings() {
	n := sym.Choose("n", sym.Param("n", 3, 4))
	sortAny(slice(n, func() string { return sym.String("s", sym.Choose("len", 3)) }))
}

type rec struct {
	rank int16
	tag  int
}

func customCheck(s, in []rec, stable, desc bool) {
	seen := make([]bool, len(in))
	ordered, keeps, same := true, true, true
	for i := range s {
		t := s[i].tag
		sym.Assert(t >= 0 && t < len(in) && !seen[t], "the result is a permutation of the input")
		seen[t] = true
		if s[i].rank != in[t].rank {
			same = false
		}
		if i > 0 {
			a, b := s[i-1], s[i]
			if desc {
				a.rank, b.rank = b.rank, a.rank
			}
			if a.rank > b.rank {
				ordered = false
			}
			if stable && s[i-1].tag > t && a.rank == b.rank {
				keeps = false
			}
		}
	}
	sym.Assert(same, "the result is a permutation of the input")
	sym.Assert(ordered, "the result follows the given ordering")
	sym.Assert(keeps, "the stable variants keep equal elements in their order")
}

// C18_Custom: an arbitrary strict weak ordering (ranks), ties included.
//
//sym:opt shards=8 nodiamond=1
func C18_Custom() {
	n := sym.Choose("n", sym.Param("n", 7, 8))
	s := make([]rec, n)
	for i := range s {
		s[i] = rec{sym.Int16("rank"), i}
	}
	in := append([]rec(nil), s...)
	less := func(a, b rec) bool { return a.rank < b.rank }
	stable := sym.Choose("fn", 2) == 1
	if stable {
		sortx.SortStableCustom(s, less)
	} else {
		sortx.SortCustom(s, less)
	}
	customCheck(s, in, stable, false)
	sym.Assert(sortx.IsSortedCustom(s, less), "IsSortedCustom recognises the result")
}

// patterned ranks for long inputs
func pattern(p, i, n int) int16 {
	switch p {
	case 0:
		return int16(i)
	case 1:
		return int16(n - i)
	case 2:
		return int16(i * 7 % 11)
	case 3:
		return int16(i % 2)
	case 4:
		return int16(i * i % 17)
	case 5:
		return 5
	case 6:
		if i < n/2 {
			return int16(2 * i)
		}
		return int16(2*(n-i) - 1)
	}
	return int16((i*31 + 7) % n)
}

// C18_Long: long slices (beyond the thresholds of the library sort) in
// several patterns, with some arbitrary elements.
//
//sym:opt shards=8 nodiamond=1
func C18_Long() {
	n := []int{12, 13, 20, 21, 41, 50, 60}[sym.Choose("n", sym.Param("sizes", 7, 7))]
	p := sym.Choose("pattern", 8)
	s := make([]rec, n)
	for i := range s {
		s[i] = rec{pattern(p, i, n), i}
	}
	s[sym.Choose("where", 3)*(n-1)/2].rank = sym.Int16("x")
	if sym.Param("two", 0, 1) == 1 && n < 50 {
		s[n/3].rank = sym.Int16("y")
	}
	in := append([]rec(nil), s...)
	desc := sym.Choose("dir", 2) == 1
	less := func(a, b rec) bool { return a.rank < b.rank }
	if desc {
		less = func(a, b rec) bool { return a.rank > b.rank }
	}
	stable := sym.Choose("fn", 2) == 1
	if stable {
		sortx.SortStableCustom(s, less)
	} else {
		sortx.SortCustom(s, less)
	}
	customCheck(s, in, stable, desc)
}

// C18_LongFns: the ordered variants on long slices with arbitrary elements.
//
//sym:opt shards=8 nodiamond=1
func C18_LongFns() {
	n := []int{13, 24, 51}[sym.Choose("n", sym.Param("sizes", 3, 3))]
	p := sym.Choose("pattern", 8)
	s := make([]int16, n)
	for i := range s {
		s[i] = pattern(p, i, n)
	}
	s[n/2] = sym.Int16("x")
	in := append([]int16(nil), s...)
	desc := callSort(sym.Choose("fn", nSorts), s)
	for i := 1; i < n; i++ {
		if desc {
			sym.Assert(s[i-1] >= s[i], "the result is in descending order")
		} else {
			sym.Assert(s[i-1] <= s[i], "the result is in ascending order")
		}
	}
	x := in[n/2]
	a, b := 0, 0
	for i := range s {
		if s[i] == x {
			bump(&a)
		}
		if in[i] == x {
			bump(&b)
		}
	}
	sym.Assert(a == b, "the result is a permutation of the input")
	sum := int16(0)
	for i := range s {
		sum += s[i] - in[i]
	}
	sym.Assert(sum == 0, "the result is a permutation of the input")
}

func bump(n *int) { *n++ }

// C18_Bits: thirteen elements of two values in every arrangement.
//
//sym:opt shards=8 nodiamond=1
func C18_Bits() {
	n := sym.Param("n", 13, 14)
	s := make([]rec, n)
	for i := range s {
		s[i] = rec{int16(sym.Choose("bit", 2)), i}
	}
	in := append([]rec(nil), s...)
	less := func(a, b rec) bool { return a.rank < b.rank }
	stable := sym.Choose("fn", 2) == 1
	if stable {
		sortx.SortStableCustom(s, less)
	} else {
		sortx.SortCustom(s, less)
	}
	customCheck(s, in, stable, false)
}

// C18_IsSorted: the predicates hold exactly for ordered slices.
//
//sym:opt shards=4 nodiamond=1
func C18_IsSorted() {
	n := sym.Choose("n", sym.Param("n", 8, 12))
	s := slice(n, func() int { return sym.Int("s") })
	up, down := true, true
	for i := 1; i < n; i++ {
		if s[i] < s[i-1] {
			up = false
		}
		if s[i] > s[i-1] {
			down = false
		}
	}
	keep := append([]int(nil), s...)
	switch sym.Choose("fn", 4) {
	case 0:
		sym.Assert(sortx.IsSorted(s) == up, "IsSorted holds exactly for ascending slices")
	case 1:
		sym.Assert(sortx.IsSortedReverse(s) == down, "IsSortedReverse holds exactly for descending slices")
	case 2:
		sym.Assert(sortx.IsSortedCustom(s, func(a, b int) bool { return a < b }) == up, "IsSortedCustom holds exactly for slices in the given order")
	case 3:
		sym.Assert(sortx.IsSortedCustom(s, func(a, b int) bool { return a > b }) == down, "IsSortedCustom holds exactly for slices in the given order")
	}
	for i := range s {
		sym.Assert(s[i] == keep[i], "the predicates change nothing")
	}
}

// C18_IsSortedFloats: the same for floats and strings.
//
//sym:opt shards=2 nodiamond=1
func C18_IsSortedFloats() {
	n := sym.Choose("n", sym.Param("n", 4, 6))
	s := slice(n, func() float64 {
		f := sym.Float64("s")
		sym.Assume(f == f)
		return f
	})
	up, down := true, true
	for i := 1; i < n; i++ {
		if s[i] < s[i-1] {
			up = false
		}
		if s[i] > s[i-1] {
			down = false
		}
	}
	sym.Assert(sortx.IsSorted(s) == up, "IsSorted holds exactly for ascending slices")
	sym.Assert(sortx.IsSortedReverse(s) == down, "IsSortedReverse holds exactly for descending slices")
}
