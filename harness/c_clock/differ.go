package c_clock

import (
	"time"

	"github.com/unsafe-risk/utilx/timex/diffx"
	"github.com/unsafe-risk/utilx/zzverif/sym"
)

// reading is what the clock told: a wall time that may jump at will and a
// monotonic time that does not go back.
type reading struct {
	set  bool
	sec  int64
	nsec int32
	mono int64
	// natively: no earlier and no later than
	from, to time.Time
}

var (
	last  reading
	count int
)

// readClock stands in for the system clock.
func readClock() (int64, int32, int64) {
	const first, end = -2682288000, 5897000000 // years 1885 to 2156, the range of readings with a monotonic part
	last.set = true
	last.sec = first + int64(sym.Uint64("env.sec")%(end-first))
	last.nsec = int32(sym.Uint32("env.nsec") % 1000000000)
	last.mono += int64(sym.Uint64("env.step") % (1 << 56))
	count++
	return last.sec, last.nsec, last.mono
}

// at calls f, which is to read the clock, and returns the reading.
func at(f func()) reading {
	if !sym.Symbolic() {
		r := reading{set: true, from: time.Now()}
		f()
		r.to = time.Now()
		return r
	}
	n := count
	f()
	sym.Assert(count > n, "Start and End read the clock")
	return last
}

func (r reading) check(t time.Time, who string) {
	switch {
	case !r.set:
		sym.Assert(t.IsZero(), who+" is the zero time as long as there is none")
	case sym.Symbolic():
		sym.Assert(t.Unix() == r.sec && t.Nanosecond() == int(r.nsec), who+" is the instant of the last call")
		sym.Reach(who)
	default:
		sym.Assert(!t.Before(r.from.Round(0)) && !t.After(r.to.Round(0)), who+" is the instant of the last call")
	}
	sym.Assert(t.Location() == time.UTC, who+" is in UTC")
}

// C41_History starts and ends a differ several times.
//
//sym:opt shards=8 depth=3
//sym:replace time.runtimeNow readClock
func C41_History() {
	count, last = 0, reading{mono: 2000000000000000000}
	d := diffx.New()
	var start, end reading
	n := sym.Param("ops", 4, 6)
	for i := 0; i < n; i++ {
		if sym.Choose("op", 2) == 0 {
			start = at(d.Start)
		} else {
			end = at(d.End)
		}
		start.check(d.GetStart(), "GetStart")
		end.check(d.GetEnd(), "GetEnd")
		if !start.set || !end.set {
			continue
		}
		diff := d.GetDiff()
		if sym.Symbolic() {
			sym.Assert(int64(diff) == end.mono-start.mono, "GetDiff is the time elapsed from Start to End")
			sym.Reach("GetDiff")
		} else {
			sym.Assert(diff >= end.from.Sub(start.to) && diff <= end.to.Sub(start.from), "GetDiff is the time elapsed from Start to End")
		}
	}
}

// C41_Two uses two differs at once.
//
//sym:opt shards=8 depth=3
//sym:replace time.runtimeNow readClock
func C41_Two() {
	count, last = 0, reading{mono: 2000000000000000000}
	var ds [2]*diffx.Differ
	var start, end [2]reading
	for k := range ds {
		ds[k] = diffx.New()
		start[k] = at(ds[k].Start)
	}
	n := sym.Param("ops", 2, 3)
	for i := 0; i < n; i++ {
		k := sym.Choose("which", 2)
		if sym.Choose("op", 2) == 0 {
			start[k] = at(ds[k].Start)
		} else {
			end[k] = at(ds[k].End)
		}
	}
	for k := range ds {
		start[k].check(ds[k].GetStart(), "GetStart")
		end[k].check(ds[k].GetEnd(), "GetEnd")
		if end[k].set && sym.Symbolic() {
			sym.Assert(int64(ds[k].GetDiff()) == end[k].mono-start[k].mono, "GetDiff is the time elapsed from Start to End")
		}
	}
}

// jumpClock is a clock whose wall time jumps between a few instants.
func jumpClock() (int64, int32, int64) {
	last.set = true
	last.sec = []int64{1700000000, 1700000001, -2600000000, 5800000000}[sym.Choose("env.jump", 4)]
	last.nsec = []int32{0, 999999999}[sym.Choose("env.frac", 2)]
	last.mono += int64(sym.Uint32("env.step"))
	count++
	return last.sec, last.nsec, last.mono
}

// C41_Jumps measures while the wall clock is set forwards and backwards.
//
//sym:opt shards=8 depth=3
//sym:replace time.runtimeNow jumpClock
func C41_Jumps() {
	count, last = 0, reading{mono: 2000000000000000000}
	d := diffx.New()
	var start, end reading
	n := 2 + sym.Choose("again", 2)
	for i := 0; i < n; i++ {
		if i > 0 && sym.Choose("op", 2) == 1 {
			end = at(d.End)
		} else {
			start = at(d.Start)
		}
		start.check(d.GetStart(), "GetStart")
		end.check(d.GetEnd(), "GetEnd")
		if start.set && end.set && sym.Symbolic() {
			sym.Assert(int64(d.GetDiff()) == end.mono-start.mono, "GetDiff is the time elapsed from Start to End")
			sym.Reach("GetDiff")
		}
	}
}
