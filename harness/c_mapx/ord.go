package c_mapx

import (
	"github.com/unsafe-risk/utilx/dsx/mapx/ordmapx"
	"github.com/unsafe-risk/utilx/zzverif/sym"
	"golang.org/x/exp/constraints"
)

func checkOrd[K constraints.Ordered](s *ordmapx.OrdMap[K, int], m []ent[K]) {
	sym.Assert(s.Len() == len(m), "Len is the number of keys")
	ks, vs := s.Keys(), s.Values()
	sym.Assert(len(ks) == len(m), "Keys lists every key once")
	sym.Assert(len(vs) == len(m), "Values lists every value once")
	for i := range m {
		sym.Assert(ks[i] == m[i].k, "Keys is in ascending order")
		sym.Assert(vs[i] == m[i].v, "Values is in key order with the values last set")
	}
	stop := len(m)
	if len(m) > 0 {
		stop = sym.Choose("stop", len(m)+1)
	}
	n := 0
	s.Range(func(k K, v int) bool {
		sym.Assert(n < len(m) && n <= stop, "Range visits every entry once and stops when asked")
		sym.Assert(k == m[n].k && v == m[n].v, "Range goes in key order with the values last set")
		n++
		return n == stop+1
	})
	if stop < len(m) {
		sym.Assert(n == stop+1, "Range goes on until asked to stop")
	} else {
		sym.Assert(n == len(m), "Range visits every entry")
	}
}

func getOrd[K constraints.Ordered](s *ordmapx.OrdMap[K, int], m []ent[K], k K) {
	v, ok := s.Get(k)
	i, in := find(m, k)
	sym.Assert(ok == in, "Get reports whether the key is present")
	if in {
		sym.Reach("hit")
		sym.Assert(v == m[i].v, "Get yields the value last set")
	} else {
		sym.Assert(v == 0, "Get of an absent key yields the zero value")
	}
}

func runOrd[K constraints.Ordered](key func() K, n, ops int) {
	s := ordmapx.New[K, int]()
	var m []ent[K]
	for i := 0; i < n; i++ {
		switch sym.Choose("op", ops) {
		case 0:
			k, v := key(), sym.Int("v")
			s.Set(k, v)
			m = put(m, k, v)
		case 1:
			k := key()
			s.Del(k)
			var in bool
			m, in = drop(m, k)
			if in {
				sym.Reach("deleted")
			}
		case 2:
			s.Clear()
			m = nil
			sym.Assert(s.Len() == 0, "Clear empties the map")
		}
	}
	checkOrd(s, m)
	for i := range m {
		getOrd(s, m, m[i].k)
	}
	getOrd(s, m, key())
}

// C14_Ints: every history of Set and Del over symbolic keys.
//
//sym:replace github.com/unsafe-risk/utilx/dsx/mapx/sklmapx.splitmix64 coin
//sym:opt shards=8
func C14_Ints() {
	heights = []int{1, 2}
	runOrd(func() int16 { return sym.Int16("k") }, sym.Param("ops", 4, 5), 2)
}

// C14_Wide: the same for 64-bit keys, shorter histories.
//
//sym:replace github.com/unsafe-risk/utilx/dsx/mapx/sklmapx.splitmix64 coin
//sym:opt shards=8
func C14_Wide() {
	heights = []int{1, 3}
	runOrd(func() int { return sym.Int("k") }, sym.Param("ops", 3, 4), 2)
}

// C14_Clear: histories that include Clear.
//
//sym:replace github.com/unsafe-risk/utilx/dsx/mapx/sklmapx.splitmix64 coin
//sym:opt shards=8
func C14_Clear() {
	heights = []int{2}
	runOrd(func() uint16 { return sym.Uint16("k") }, sym.Param("ops", 4, 6), 3)
}

// C14_Floats: float keys (no NaN; -0 and +0 are one key).
//
//sym:replace github.com/unsafe-risk/utilx/dsx/mapx/sklmapx.splitmix64 coin
//sym:opt shards=4
func C14_Floats() {
	heights = []int{1, 2}
	runOrd(func() float64 {
		f := sym.Float64("k")
		sym.Assume(f == f)
		return f
	}, sym.Param("ops", 2, 3), 2)
}

// C14_Strings: string keys of length 0 to 2.
//
//sym:replace github.com/unsafe-risk/utilx/dsx/mapx/sklmapx.splitmix64 coin
//sym:opt shards=4
func C14_Strings() {
	heights = []int{1, 2}
	runOrd(func() string { return sym.String("k", sym.Choose("len", 3)) }, sym.Param("ops", 2, 3), 2)
}

// C14_Views: what Keys and Values return is the caller's own.
func C14_Views() {
	s := ordmapx.New[int, int]()
	a, b := sym.Int("k"), sym.Int("k")
	s.Set(a, 1)
	s.Set(b, 2)
	ks, vs := s.Keys(), s.Values()
	n := len(ks)
	for i := range ks {
		ks[i], vs[i] = sym.Int("x"), 9
	}
	v, ok := s.Get(b)
	sym.Assert(ok && v == 2, "changing the returned slices does not change the map")
	ks = s.Keys()
	sym.Assert(len(ks) == n, "changing the returned slices does not change the map")
	if a < b {
		sym.Assert(n == 2 && ks[0] == a && ks[1] == b, "Keys is in ascending order")
	} else if a > b {
		sym.Assert(n == 2 && ks[0] == b && ks[1] == a, "Keys is in ascending order")
	} else {
		sym.Assert(n == 1 && ks[0] == a, "Set of an existing key only replaces its value")
	}
}

// C14_Long: many keys in several insertion orders, then deletions.
//
//sym:replace github.com/unsafe-risk/utilx/dsx/mapx/sklmapx.splitmix64 cycle
//sym:opt shards=4
func C14_Long() {
	n := sym.Param("n", 31, 101)
	stride := []int{1, 7, 13, n - 1}[sym.Choose("stride", 4)]
	s := ordmapx.New[int, int]()
	var m []ent[int]
	for i := 0; i < n; i++ {
		k := i * stride % n
		v := sym.Int("v")
		s.Set(k, v)
		m = put(m, k, v)
	}
	for i := 0; i < n; i += 3 {
		k := i * 5 % (n + 3)
		s.Del(k)
		m, _ = drop(m, k)
		if i%2 == 0 {
			s.Set(k, i)
			m = put(m, k, i)
		}
	}
	checkOrd(s, m)
	for k := -1; k <= n; k++ {
		getOrd(s, m, k)
	}
}

// C14_Stop: Range ends when the callback asks for it, whatever the callback
// has done to the map.
//
//sym:replace github.com/unsafe-risk/utilx/dsx/mapx/sklmapx.splitmix64 coin
//sym:opt shards=4
func C14_Stop() {
	heights = []int{1, 2}
	s := ordmapx.New[int, int]()
	n := 1 + sym.Choose("n", 3)
	for i := 0; i < n; i++ {
		s.Set(i, sym.Int("v"))
	}
	at, op := sym.Choose("at", n), sym.Choose("op", 4)
	calls, stopped := 0, false
	s.Range(func(k, v int) bool {
		sym.Assert(!stopped, "Range stops when told to")
		if calls == at {
			stopped = true
			switch op {
			case 1:
				s.Del(k)
			case 2:
				s.Set(k, v+1)
			case 3:
				s.Set(n, 0)
			}
		}
		calls++
		return stopped
	})
	sym.Assert(stopped && calls == at+1, "Range visits every entry before it is told to stop")
}
