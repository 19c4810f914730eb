package c_time

import (
	"time"

	"github.com/unsafe-risk/utilx/timex/truncatex"
	"github.com/unsafe-risk/utilx/zzverif/sym"
)

const (
	year1 = -62135596800 // January 1 of year 1, a Monday
	last  = 253402300799 // the last second of year 9999
)

// daysBefore is the number of days from January 1 of year 1 to January 1 of year y.
func daysBefore(y int64) int64 {
	y--
	return 365*y + y/4 - y/100 + y/400
}

var monthDays = [13]int64{0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365}

func instant() int64 {
	return year1 + int64(sym.Uint64("sec")%(last-year1+1))
}

// away puts this process far from UTC, which no result may depend on.
func away() { time.Local = time.FixedZone("away", 13*3600+45*60) }

// floor is the largest multiple of k seconds since year 1 not after sec.
func floor(sec, k int64) int64 { return sec - (sec-year1)%k }

// C38_Fixed truncates any time to the units of fixed length.
func C38_Fixed() {
	away()
	u := sym.Choose("unit", 7)
	sec := instant()
	var r, k int64
	switch u {
	case 0:
		r, k = truncatex.TruncateSec(sec), 1
	case 1:
		r, k = truncatex.TruncateMin(sec), 60
	case 2:
		r, k = truncatex.TruncateHour(sec), 3600
	case 3:
		r, k = truncatex.TruncateDay(sec), 86400
	case 4:
		r, k = truncatex.TruncateWeek(sec), 7*86400
	case 5:
		r, k = truncatex.Truncate(sec, 90), 90
	case 6:
		r, k = truncatex.Truncate(sec, 1000003), 1000003
	}
	sym.Observe("r", r)
	sym.Assert(r == floor(sec, k), "truncation returns the largest start of a unit not after the time")
	sym.Reach("fixed")
}

// C38_Any truncates any time to any number of seconds that a duration can express.
func C38_Any() {
	away()
	sec := instant()
	k := 1 + int64(sym.Uint64("k")%((1<<63-1)/1000000000))
	r := truncatex.Truncate(sec, k)
	sym.Observe("r", r)
	sym.Assert(r == floor(sec, k), "Truncate returns the largest multiple of the unit since year 1 not after the time")
	sym.Reach("any")
}

// C38_Small truncates to small units, with the result checked by its definition.
//
//sym:opt shards=4 depth=1
func C38_Small() {
	away()
	k := int64(1 + sym.Choose("k", sym.Param("units", 32, 400)))
	sec := instant()
	r := truncatex.Truncate(sec, k)
	sym.Assert(r <= sec && sec-r < k, "the start is not after the time, and the next one is")
	sym.Assert((r-year1)%k == 0, "it is a multiple of the unit")
	sym.Assert(truncatex.Truncate(r, k) == r, "truncation is idempotent")
	sym.Reach("small")
}

// C38_Year truncates any time in any year to its year and its month.
//
//sym:opt shards=16 depth=1 nodiamond=1 timeout=150
func C38_Year() {
	away()
	i, cycle := sym.Choose("year", 400), sym.Choose("cycle", 25)
	y := int64(1 + i + 400*cycle)
	if y > 9999 {
		sym.Assume(false)
	}
	n, extra := int64(365), int64(0)
	if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
		n, extra = 366, 1
	}
	d := int64(sym.Uint16("day")) % n
	var before int64
	for m := 1; m < 12; m++ {
		b := monthDays[m]
		if m > 1 {
			b += extra
		}
		if d >= b {
			before = b
		}
	}
	year := daysBefore(y)*86400 + year1
	sec := year + d*86400 + int64(sym.Uint32("second")%86400)
	r := truncatex.TruncateYear(sec)
	sym.Observe("year", r)
	sym.Assert(r-year == 0, "TruncateYear returns the start of the year")
	r = truncatex.TruncateMonth(sec)
	sym.Observe("month", r)
	sym.Assert((r-year)%86400 == 0 && (r-year)/86400 == before, "TruncateMonth returns the start of the month")
	sym.Reach("civil")
}
