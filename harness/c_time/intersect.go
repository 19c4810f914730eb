package c_time

import (
	"github.com/unsafe-risk/utilx/timex/intersectionx"
	"github.com/unsafe-risk/utilx/zzverif/sym"
)

func interval(n uint16) intersectionx.Interval {
	return intersectionx.Interval{Offset: int64(sym.Uint16("offset")%n) - int64(n)/3, ConfidenceBand: int64(sym.Uint16("band") % n)}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func checkIntersection(iv []intersectionx.Interval) {
	given := append([]intersectionx.Interval(nil), iv...)
	lo, hi, ok := intersectionx.Intersection(iv...)
	sym.Observe("result", lo, hi, ok)
	for i := range iv {
		sym.Assert(iv[i] == given[i], "the intervals are not modified")
	}
	m := len(iv)
	for f := 0; 2*f < m; f++ {
		// the smallest and largest points covered by at least m-f intervals
		var l, h int64
		any := false
		for _, x := range iv {
			p := x.Offset - x.ConfidenceBand
			if covers(iv, p) >= m-f && (!any || p < l) {
				l, any = p, true
			}
		}
		if !any {
			continue
		}
		any = false
		for _, x := range iv {
			q := x.Offset + x.ConfidenceBand
			if covers(iv, q) >= m-f && (!any || q > h) {
				h, any = q, true
			}
		}
		out := 0
		for _, x := range iv {
			out += b2i(x.Offset < l || x.Offset > h)
		}
		if out <= f {
			sym.Assert(ok, "there is a consensus")
			sym.Assert(lo == l, "the result begins at the smallest point covered by all but f intervals")
			sym.Assert(hi == h, "the result ends at the largest point covered by all but f intervals")
			sym.Reach("consensus")
			return
		}
	}
	sym.Assert(!ok, "without a consensus the result is not ok")
	sym.Reach("none")
}

func covers(iv []intersectionx.Interval, p int64) int {
	n := 0
	for _, y := range iv {
		n += b2i(y.Offset-y.ConfidenceBand <= p && p <= y.Offset+y.ConfidenceBand)
	}
	return n
}

// C39_Two intersects up to two intervals.
//
//sym:opt shards=16 depth=6
func C39_Two() {
	n := sym.Choose("n", 3)
	iv := make([]intersectionx.Interval, n)
	for i := range iv {
		iv[i] = interval(256)
	}
	switch n {
	case 0:
		_, _, ok := intersectionx.Intersection()
		sym.Assert(!ok, "no intervals have no intersection")
	case 1:
		lo, hi, ok := intersectionx.Intersection(iv...)
		sym.Assert(ok && lo == iv[0].Offset-iv[0].ConfidenceBand && hi == iv[0].Offset+iv[0].ConfidenceBand, "one interval yields its own bounds")
		sym.Reach("one")
	default:
		checkIntersection(iv)
	}
}

// C39_Three intersects three small intervals, given in one of three orders.
//
//sym:opt shards=48 depth=7 timeout=150 thorough.timeout=800
func C39_Three() {
	a, b, c := interval(8), interval(8), interval(8)
	sym.Assume(a.Offset <= b.Offset && b.Offset <= c.Offset)
	switch sym.Choose("order", sym.Param("orders", 2, 3)) {
	case 0:
		checkIntersection([]intersectionx.Interval{a, b, c})
	case 1:
		checkIntersection([]intersectionx.Interval{c, b, a})
	case 2:
		checkIntersection([]intersectionx.Interval{b, c, a})
	}
}

// C39_Far intersects two intervals whose bounds are far apart.
//
//sym:opt shards=8 depth=6
func C39_Far() {
	unit := [...]int64{1 << 31, 1 << 58}[sym.Choose("unit", 2)]
	iv := make([]intersectionx.Interval, 2)
	for i := range iv {
		x := interval(8)
		iv[i] = intersectionx.Interval{Offset: x.Offset * unit, ConfidenceBand: x.ConfidenceBand * unit}
	}
	checkIntersection(iv)
}

// C39_More intersects four or five intervals, some of them equal.
//
//sym:opt shards=32 depth=8 timeout=150
func C39_More() {
	a, b := interval(8), interval(8)
	switch sym.Choose("shape", 4) {
	case 0:
		checkIntersection([]intersectionx.Interval{a, b, a, a})
	case 1:
		checkIntersection([]intersectionx.Interval{a, b, b, a})
	case 2:
		checkIntersection([]intersectionx.Interval{a, b, a, b, a})
	case 3:
		checkIntersection([]intersectionx.Interval{b, a, a, a, a})
	}
}

// C39_Five intersects five intervals, three of them equal.
//
//sym:opt tier=thorough shards=64 depth=10 timeout=800
func C39_Five() {
	a, b, c := interval(4), interval(4), interval(4)
	checkIntersection([]intersectionx.Interval{a, b, a, c, a})
}

// C39_Many intersects many intervals, all of them copies of two.
//
//sym:opt shards=32 depth=8 timeout=200
func C39_Many() {
	n := [...]int{7, 8, 9, 10, 12, 17, 20}[sym.Choose("n", sym.Param("lengths", 7, 7))]
	a, b := interval(8), interval(8)
	k := sym.Choose("k", 4)
	iv := make([]intersectionx.Interval, n)
	for i := range iv {
		switch {
		case k == 3:
			iv[i] = [...]intersectionx.Interval{a, b}[i%2]
		case i > 0 && i <= k:
			iv[i] = b
		default:
			iv[i] = a
		}
	}
	checkIntersection(iv)
}
