package c_mapx

import (
	"strconv"

	"github.com/unsafe-risk/utilx/dsx/mapx/ordmapx"
	"github.com/unsafe-risk/utilx/dsx/mapx/sklmapx"
	"github.com/unsafe-risk/utilx/zzverif/sym"
	"golang.org/x/exp/constraints"
)

// planned coin flips: the height of the next tower is chosen among heights,
// the draws are that many tails followed by a head.
var heights = []int{1, 2, 16}
var left = -1
var top bool

func coin(state *uint64) uint64 {
	if left < 0 {
		h := heights[sym.Choose("rand.height", len(heights))]
		left, top = h-1, h == 16
	}
	if left > 0 {
		left--
		if left == 0 && top {
			left = -1 // a tower of the maximal height ends without a head
		}
		return 0
	}
	left = -1
	return 1
}

// zzreset starts the coins anew, several cases share a native process.
func zzreset() {
	left, top = -1, false
	cycleAt, cycleLeft = 0, -1
}

// anyCoin: every draw is arbitrary.
func anyCoin(state *uint64) uint64 { return sym.Uint64("rand.draw") }

type ent[K constraints.Ordered] struct {
	k K
	v int
}

func find[K constraints.Ordered](m []ent[K], k K) (int, bool) {
	for i := range m {
		if m[i].k == k {
			return i, true
		}
		if m[i].k > k {
			return i, false
		}
	}
	return len(m), false
}

func put[K constraints.Ordered](m []ent[K], k K, v int) []ent[K] {
	i, ok := find(m, k)
	if ok {
		m[i].v = v
		return m
	}
	r := make([]ent[K], 0, len(m)+1)
	r = append(r, m[:i]...)
	r = append(r, ent[K]{k, v})
	return append(r, m[i:]...)
}

func drop[K constraints.Ordered](m []ent[K], k K) ([]ent[K], bool) {
	i, ok := find(m, k)
	if !ok {
		return m, false
	}
	r := make([]ent[K], 0, len(m))
	r = append(r, m[:i]...)
	return append(r, m[i+1:]...), true
}

func checkSkl[K constraints.Ordered](s *sklmapx.SkipListMap[K, int], m []ent[K]) {
	sym.Assert(s.Len() == len(m), "Len is the number of keys")
	ks, vs := s.Keys(), s.Values()
	sym.Assert(len(ks) == len(m), "Keys lists every key once")
	sym.Assert(len(vs) == len(m), "Values lists every value once")
	for i := range m {
		sym.Assert(ks[i] == m[i].k, "Keys is in strictly ascending order")
		sym.Assert(vs[i] == m[i].v, "Values is in key order")
	}
}

func getSkl[K constraints.Ordered](s *sklmapx.SkipListMap[K, int], m []ent[K], k K) {
	v, ok := s.Get(k)
	i, in := find(m, k)
	sym.Assert(ok == in, "Get reports whether the key is present")
	if in {
		sym.Reach("hit")
		sym.Assert(v == m[i].v, "Get yields the value last set")
	} else {
		sym.Reach("miss")
		sym.Assert(v == 0, "Get of an absent key yields the zero value")
	}
}

func runSkl[K constraints.Ordered](key func() K, n int, ops int) {
	s := sklmapx.New[K, int]()
	var m []ent[K]
	checkSkl(s, m)
	for i := 0; i < n; i++ {
		switch op := sym.Choose("op", ops); op {
		case 0:
			k, v := key(), sym.Int("v")
			s.Set(k, v)
			m = put(m, k, v)
		case 1:
			k := key()
			ok := s.Del(k)
			var in bool
			m, in = drop(m, k)
			sym.Assert(ok == in, "Del reports whether the key was present")
			if in {
				sym.Reach("deleted")
			}
		case 2:
			s.Clear()
			m = nil
			checkSkl(s, m)
		}
	}
	checkSkl(s, m)
	for i := range m {
		getSkl(s, m, m[i].k)
	}
	getSkl(s, m, key())
}

// C12_Ints: every history of Set and Del over symbolic integer keys.
//
//sym:replace github.com/unsafe-risk/utilx/dsx/mapx/sklmapx.splitmix64 coin
//sym:opt shards=8
func C12_Ints() {
	heights = []int{1, 2, 16}
	runSkl(func() int { return sym.Int("k") }, sym.Param("ops", 4, 5), 2)
}

// C12_Draws: two insertions with arbitrary draws from the random source (all
// heights), then a deletion and lookups.
//
//sym:replace github.com/unsafe-risk/utilx/dsx/mapx/sklmapx.splitmix64 anyCoin
//sym:opt shards=8
func C12_Draws() {
	s := sklmapx.New[int8, int]()
	var m []ent[int8]
	for i, n := 0, sym.Param("sets", 2, 3); i < n; i++ {
		k, v := sym.Int8("k"), sym.Int("v")
		s.Set(k, v)
		m = put(m, k, v)
	}
	checkSkl(s, m)
	k := sym.Int8("k")
	ok := s.Del(k)
	m, in := drop(m, k)
	sym.Assert(ok == in, "Del reports whether the key was present")
	checkSkl(s, m)
	for i := range m {
		getSkl(s, m, m[i].k)
	}
	getSkl(s, m, k)
}

// C12_Real: the real random source from an arbitrary seed.
//
//sym:opt shards=4
func C12_Real() {
	runSkl(func() int16 { return sym.Int16("k") }, sym.Param("ops", 4, 5), 2)
}

// C12_Clear: histories that include Clear.
//
//sym:replace github.com/unsafe-risk/utilx/dsx/mapx/sklmapx.splitmix64 coin
//sym:opt shards=8
func C12_Clear() {
	heights = []int{2, 16}
	runSkl(func() uint8 { return sym.Byte("k") }, sym.Param("ops", 4, 5), 3)
}

// C12_Floats: float keys (no NaN; -0 and +0 are one key).
//
//sym:replace github.com/unsafe-risk/utilx/dsx/mapx/sklmapx.splitmix64 coin
//sym:opt shards=4
func C12_Floats() {
	heights = []int{1, 2}
	runSkl(func() float32 {
		f := sym.Float32("k")
		sym.Assume(f == f)
		return f
	}, sym.Param("ops", 2, 3), 2)
}

// C12_Strings: string keys of length 0 to 2.
//
//sym:replace github.com/unsafe-risk/utilx/dsx/mapx/sklmapx.splitmix64 coin
//sym:opt shards=4
func C12_Strings() {
	heights = []int{1, 2}
	runSkl(func() string { return sym.String("k", sym.Choose("len", 3)) }, sym.Param("ops", 2, 3), 2)
}

// C12_Long: many fixed keys in every one of several insertion patterns, with
// planned heights cycling, symbolic values, and deletions.
//
//sym:replace github.com/unsafe-risk/utilx/dsx/mapx/sklmapx.splitmix64 cycle
//sym:opt shards=4
func C12_Long() {
	n := sym.Param("n", 40, 120)
	stride := []int{1, 7, 13, 37}[sym.Choose("stride", 4)]
	for n%stride == 0 && stride > 1 {
		n++
	}
	s := sklmapx.New[int, int]()
	var m []ent[int]
	for i := 0; i < n; i++ {
		k := i * stride % n
		v := sym.Int("v")
		s.Set(k, v)
		m = put(m, k, v)
	}
	checkSkl(s, m)
	for i := 0; i < n; i += 1 + sym.Choose("gap", 3) {
		k := i * 5 % (n + 3)
		ok := s.Del(k)
		var in bool
		m, in = drop(m, k)
		sym.Assert(ok == in, "Del reports whether the key was present")
		if i%8 == 0 {
			s.Set(k, i)
			m = put(m, k, i)
		}
		if i > 6 {
			break
		}
	}
	checkSkl(s, m)
	for k := -1; k <= n; k++ {
		getSkl(s, m, k)
	}
}

var cycleAt, cycleLeft = 0, -1

// cycle plans heights 1, 2, 3, ... 16, 1, ...
func cycle(state *uint64) uint64 {
	if cycleLeft < 0 {
		cycleLeft = cycleAt % 16
		cycleAt += 5
	}
	if cycleLeft > 0 {
		cycleLeft--
		if cycleLeft == 0 && (cycleAt-5)%16 == 15 {
			cycleLeft = -1
		}
		return 0
	}
	cycleLeft = -1
	return 1
}

// C12_Show: String and ToMap show exactly the live entries.
//
//sym:replace github.com/unsafe-risk/utilx/dsx/mapx/sklmapx.splitmix64 coin
//sym:opt shards=4
func C12_Show() {
	heights = []int{1, 3}
	s := sklmapx.New[int, int]()
	sym.Assert(s.String() == "sklmapx[]", "an empty map shows no entries")
	in := [4]bool{}
	val := [4]int{}
	for i, n := 0, sym.Param("ops", 4, 5); i < n; i++ {
		k := sym.Choose("k", 4)
		if sym.Choose("op", 3) < 2 {
			v := 10*i + k
			s.Set(k, v)
			in[k], val[k] = true, v
		} else {
			s.Del(k)
			in[k] = false
		}
	}
	mm := s.ToMap()
	want, sep, cnt := "sklmapx[", "", 0
	for k := 0; k < 4; k++ {
		v, ok := mm[k]
		sym.Assert(ok == in[k], "ToMap has exactly the live keys")
		if in[k] {
			cnt++
			sym.Assert(v == val[k], "ToMap has the value last set")
			want += sep + string(rune('0'+k)) + ":" + itoa(val[k])
			sep = " "
		}
	}
	sym.Assert(len(mm) == cnt, "ToMap has exactly the live keys")
	sym.Assert(s.String() == want+"]", "String shows the entries in key order")
	mm[77] = 1
	sym.Assert(s.Len() == cnt, "ToMap returns a copy")
}

func itoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}

// iterators: the model is a cursor into the list of entries.

// C13_Walk: a map of symbolic keys, then every sequence of iterator calls.
//
//sym:replace github.com/unsafe-risk/utilx/dsx/mapx/sklmapx.splitmix64 coin
//sym:opt shards=8
func C13_Walk() {
	heights = []int{1, 2}
	s := sklmapx.New[int8, int]()
	var m []ent[int8]
	n := sym.Choose("n", sym.Param("sets", 3, 4)+1)
	for i := 0; i < n; i++ {
		k, v := sym.Int8("k"), sym.Int("v")
		s.Set(k, v)
		m = put(m, k, v)
	}
	if sym.Choose("del", 2) == 1 {
		k := sym.Int8("k")
		s.Del(k)
		m, _ = drop(m, k)
	}
	it := s.Iterator()
	walk(s, it, m, sym.Param("steps", 6, 8), func() int8 { return sym.Int8("k") })
}

func walk[K constraints.Ordered](s *sklmapx.SkipListMap[K, int], it *sklmapx.Iterator[K, int], m []ent[K], steps int, key func() K) {
	pos := -1
	for i := 0; i < steps; i++ {
		ops := 3
		if i >= sym.Param("free", 3, 4) {
			ops = 1
		}
		switch sym.Choose("call", ops) {
		case 0:
			k, v, ok := it.Next()
			if pos < len(m) {
				pos++
			} else {
				sym.Reach("next after the end")
			}
			if pos < len(m) {
				sym.Assert(ok, "Next yields every live entry")
				sym.Assert(k == m[pos].k, "Next goes in ascending key order")
				sym.Assert(v == m[pos].v, "Next yields the current value")
			} else {
				sym.Assert(!ok, "Next reports the end after the last entry")
				var zk K
				sym.Assert(k == zk && v == 0, "the end has no entry")
			}
		case 1:
			it.Rewind()
			pos = -1
		case 2:
			q := key()
			k, v, ok := it.Seek(q)
			j, in := find(m, q)
			sym.Assert(ok == in, "Seek reports whether the key is present")
			if in {
				sym.Reach("seek hit")
				sym.Assert(k == m[j].k && v == m[j].v, "Seek yields the entry")
				pos = j
			} else {
				sym.Reach("seek miss")
				// what follows a failed Seek is unspecified until the next
				// Rewind
				it.Rewind()
				pos = -1
			}
		}
	}
}

// C13_Update: a value set during the iteration is the one shown.
//
//sym:replace github.com/unsafe-risk/utilx/dsx/mapx/sklmapx.splitmix64 coin
//sym:opt shards=4
func C13_Update() {
	heights = []int{1, 2, 16}
	s := sklmapx.New[int8, int]()
	var m []ent[int8]
	for i, n := 0, sym.Param("sets", 3, 4); i < n; i++ {
		k, v := sym.Int8("k"), sym.Int("v")
		s.Set(k, v)
		m = put(m, k, v)
	}
	it := s.Iterator()
	upd := sym.Choose("when", len(m))
	for i := range m {
		if i == upd {
			j := sym.Choose("which", len(m))
			v := sym.Int("v")
			s.Set(m[j].k, v)
			m[j].v = v
		}
		k, v, ok := it.Next()
		sym.Assert(ok && k == m[i].k && v == m[i].v, "Next yields the current value of every entry in order")
	}
	_, _, ok := it.Next()
	sym.Assert(!ok, "Next reports the end after the last entry")
	_, _, ok = it.Next()
	sym.Assert(!ok, "the end stays the end")
	it.Rewind()
	k, _, ok := it.Next()
	sym.Assert(ok && k == m[0].k, "Rewind restarts from the smallest key")
}

// C13_Two: two iterators over one map do not influence each other.
//
//sym:replace github.com/unsafe-risk/utilx/dsx/mapx/sklmapx.splitmix64 coin
//sym:opt shards=4
func C13_Two() {
	heights = []int{1, 2, 16}
	s := sklmapx.New[int, int]()
	var m []ent[int]
	for i, n := 0, 2+sym.Choose("n", 2); i < n; i++ {
		k, v := sym.Int("k"), sym.Int("v")
		s.Set(k, v)
		m = put(m, k, v)
	}
	its := [2]*sklmapx.Iterator[int, int]{s.Iterator(), s.Iterator()}
	pos := [2]int{}
	for i, n := 0, sym.Param("steps", 6, 9); i < n; i++ {
		w := sym.Choose("who", 2)
		k, v, ok := its[w].Next()
		sym.Assert(ok == (pos[w] < len(m)), "each iterator yields every entry once")
		if pos[w] < len(m) {
			sym.Assert(k == m[pos[w]].k && v == m[pos[w]].v, "each iterator goes in order")
			pos[w]++
		}
		if i == 2 {
			// iterating while the map lists its keys
			checkSkl(s, m)
		}
	}
}

// C13_Before: an iterator made, or rewound, before the map is changed.
//
//sym:replace github.com/unsafe-risk/utilx/dsx/mapx/sklmapx.splitmix64 coin
//sym:opt shards=4
func C13_Before() {
	heights = []int{1, 2}
	s := sklmapx.New[int8, int]()
	var m []ent[int8]
	for i, n := 0, 1+sym.Choose("n", sym.Param("sets", 2, 3)); i < n; i++ {
		k, v := sym.Int8("k"), sym.Int("v")
		s.Set(k, v)
		m = put(m, k, v)
	}
	it := s.Iterator()
	if sym.Choose("started", 2) == 1 {
		k, v, ok := it.Next()
		sym.Assert(ok && k == m[0].k && v == m[0].v, "Next yields the first entry")
		it.Rewind()
	}
	switch sym.Choose("op", 4) {
	case 0:
		k := sym.Int8("k")
		s.Del(k)
		m, _ = drop(m, k)
	case 1:
		k, v := sym.Int8("k"), sym.Int("v")
		s.Set(k, v)
		m = put(m, k, v)
	case 2:
		k, v := sym.Int8("k"), sym.Int("v")
		s.Clear()
		s.Set(k, v)
		m = put[int8](nil, k, v)
	case 3:
		k, v := m[0].k, sym.Int("v")
		s.Del(k)
		s.Set(k, v)
		m[0].v = v
	}
	for i := range m {
		k, v, ok := it.Next()
		sym.Assert(ok && k == m[i].k && v == m[i].v, "the entries live at the first Next are the ones visited")
	}
	_, _, ok := it.Next()
	sym.Assert(!ok, "Next reports the end after the last entry")
}

// C13_Empty: iterating an empty, an emptied and a cleared map.
func C13_Empty() {
	s := sklmapx.New[string, int]()
	it := s.Iterator()
	for i := 0; i < 3; i++ {
		k, v, ok := it.Next()
		sym.Assert(!ok && k == "" && v == 0, "an empty map has no entries")
	}
	q := sym.String("q", 2)
	_, _, ok := it.Seek(q)
	sym.Assert(!ok, "Seek in an empty map reports false")
	it.Rewind()
	s.Set(q, 7)
	k, v, ok := it.Next()
	sym.Assert(ok && k == q && v == 7, "an entry set before the first Next is visited")
	if sym.Choose("how", 2) == 0 {
		sym.Assert(s.Del(q), "Del reports whether the key was present")
	} else {
		s.Clear()
	}
	it = s.Iterator()
	_, _, ok = it.Next()
	sym.Assert(!ok, "an emptied map has no entries")
	_, _, ok = it.Next()
	sym.Assert(!ok, "the end stays the end")
	_, _, ok = it.Seek(q)
	sym.Assert(!ok, "Seek in an emptied map reports false")
}

// C13_Long: a longer map, seeking each key and walking on from there.
//
//sym:replace github.com/unsafe-risk/utilx/dsx/mapx/sklmapx.splitmix64 cycle
//sym:opt shards=4
func C13_Long() {
	n := sym.Param("n", 24, 60)
	s := sklmapx.New[int, int]()
	var m []ent[int]
	for i := 0; i < n; i++ {
		k := 2 * (i * 7 % 31)
		v := sym.Int("v")
		s.Set(k, v)
		m = put(m, k, v)
	}
	it := s.Iterator()
	q := sym.Range("q", -3, 65)
	k, v, ok := it.Seek(q)
	j, in := find(m, q)
	sym.Assert(ok == in, "Seek reports whether the key is present")
	if !in {
		it.Rewind()
		j = -1
	} else {
		sym.Assert(k == m[j].k && v == m[j].v, "Seek yields the entry")
	}
	for j++; j < len(m); j++ {
		k, v, ok := it.Next()
		sym.Assert(ok && k == m[j].k && v == m[j].v, "Next goes in ascending key order")
	}
	_, _, ok = it.Next()
	sym.Assert(!ok, "Next reports the end after the last entry")
	_, _, ok = it.Next()
	sym.Assert(!ok, "the end stays the end")
}

// huge: hundreds of keys set in one of several orders, with every second one
// deleted and some set again; the model is an array indexed by the key.
func huge(set func(k, v int), del func(k int, in bool), clear func(), check func(in []bool, val []int)) {
	n := []int{130, 260, 520}[sym.Choose("n", 3)]
	stride := []int{1, 77, n - 1}[sym.Choose("stride", 3)] // 77 is prime to every n
	in, val := make([]bool, n), make([]int, n)
	for i := 0; i < n; i++ {
		k := i * stride % n
		v := sym.Int("v")
		set(k, v)
		in[k], val[k] = true, v
	}
	check(in, val)
	from := sym.Choose("from", 2)
	for i := from; i < n; i += 2 {
		k := i * stride % n
		del(k, in[k])
		in[k], val[k] = false, 0
	}
	check(in, val)
	for k := 0; k < n; k += 3 {
		v := sym.Int("w")
		set(k, v)
		in[k], val[k] = true, v
	}
	check(in, val)
	for k := 0; k < n; k++ {
		del(k, in[k])
		in[k], val[k] = false, 0
	}
	check(in, val)
	for k := 0; k < n; k++ {
		set(k, k)
	}
	clear()
	check(in, val)
	set(5, 6)
	in[5], val[5] = true, 6
	check(in, val)
}

// C12_Huge: maps of hundreds of keys.
//
//sym:replace github.com/unsafe-risk/utilx/dsx/mapx/sklmapx.splitmix64 cycle
//sym:opt shards=2 back=20000 depth=2
func C12_Huge() {
	s := sklmapx.New[int, int]()
	huge(func(k, v int) { s.Set(k, v) }, func(k int, in bool) { sym.Assert(s.Del(k) == in, "Del reports whether the key was present") }, s.Clear, func(in []bool, val []int) {
		c := 0
		ks, vs := s.Keys(), s.Values()
		sym.Assert(len(ks) == len(vs) && len(ks) == s.Len(), "Keys and Values list every entry once")
		for k := range in {
			v, ok := s.Get(k)
			sym.Assert(ok == in[k], "Get reports whether the key is present")
			sym.Assert(v == val[k], "Get yields the value last set")
			if in[k] {
				sym.Assert(c < len(ks) && ks[c] == k && vs[c] == v, "Keys and Values are in ascending order")
				c++
			}
		}
		sym.Assert(c == s.Len(), "Len is the number of keys")
	})
}

// C12_ShowLong: the text and the copy of a map of hundreds of entries.
//
//sym:replace github.com/unsafe-risk/utilx/dsx/mapx/sklmapx.splitmix64 cycle
//sym:opt shards=2
func C12_ShowLong() {
	s := sklmapx.New[int, bool]()
	n := []int{101, 260}[sym.Choose("n", 2)]
	want := "sklmapx["
	for i := 0; i < n; i++ {
		s.Set(n-1-i, i%3 == 0)
		if i > 0 {
			want += " "
		}
		want += strconv.Itoa(i) + ":" + strconv.FormatBool((n-1-i)%3 == 0)
	}
	sym.Assert(s.String() == want+"]", "String lists every entry in order")
	c := s.ToMap()
	sym.Assert(len(c) == n, "ToMap holds every entry")
	for i := 0; i < n; i++ {
		v, ok := c[i]
		sym.Assert(ok && v == ((n-1-i)%3 == 0), "ToMap holds every entry")
	}
}

// C13_Huge: iteration over hundreds of keys, and seeking in them.
//
//sym:replace github.com/unsafe-risk/utilx/dsx/mapx/sklmapx.splitmix64 cycle
//sym:opt shards=2 back=20000 depth=2
func C13_Huge() {
	s := sklmapx.New[int, int]()
	huge(func(k, v int) { s.Set(k, v) }, func(k int, in bool) { s.Del(k) }, s.Clear, func(in []bool, val []int) {
		it := s.Iterator()
		for r := 0; r < 2; r++ {
			for k := range in {
				if in[k] {
					a, b, ok := it.Next()
					sym.Assert(ok && a == k && b == val[k], "Next yields the entries in ascending order")
				}
			}
			_, _, ok := it.Next()
			sym.Assert(!ok, "the end is reported")
			it.Rewind()
		}
		for k := 0; k < len(in); k += 29 {
			a, b, ok := it.Seek(k)
			sym.Assert(ok == in[k], "Seek reports whether the key is present")
			if !ok {
				continue
			}
			sym.Assert(a == k && b == val[k], "Seek yields the entry")
			x := k + 1
			for x < len(in) && !in[x] {
				x++
			}
			if x < len(in) {
				a, b, ok = it.Next()
				sym.Assert(ok && a == x && b == val[x], "Next goes on behind the entry found")
			}
		}
	})
}

// C14_Huge: ordered maps of hundreds of keys.
//
//sym:replace github.com/unsafe-risk/utilx/dsx/mapx/sklmapx.splitmix64 cycle
//sym:opt shards=2 back=20000 depth=2
func C14_Huge() {
	s := ordmapx.New[int, int]()
	huge(func(k, v int) { s.Set(k, v) }, func(k int, in bool) { s.Del(k) }, s.Clear, func(in []bool, val []int) {
		ks, vs := s.Keys(), s.Values()
		c := 0
		for k := range in {
			v, ok := s.Get(k)
			sym.Assert(ok == in[k], "Get reports whether the key is present")
			sym.Assert(v == val[k], "Get yields the value last set")
			if in[k] {
				sym.Assert(c < len(ks) && ks[c] == k && vs[c] == v, "Keys and Values are in ascending order")
				c++
			}
		}
		sym.Assert(c == s.Len() && len(ks) == c && len(vs) == c, "Len is the number of keys")
		n := 0
		s.Range(func(k, v int) bool {
			sym.Assert(n < c && k == ks[n] && v == vs[n], "Range goes in key order with the values last set")
			n++
			return n == 100
		})
		sym.Assert(n == c || n == 100, "Range visits every entry until asked to stop")
	})
}
