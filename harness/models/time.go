package models

import (
	"math/rand"
	"time"
	"unsafe"

	"github.com/unsafe-risk/utilx/zzverif/sym"
)

// ---- time: one clock, which only advances; a sleeper or timer may run any
// time at or after its deadline. With walljump=1 the wall clock is arbitrary
// at every reading and only the monotonic reading is ordered; with walljump=2
// it is one of a few.

//sym:model time.runtimeNano
func timeNano() int64 { return sym.Clock() }

//sym:model time.runtimeIsBubbled
func timeBubbled() bool { return false }

//sym:model time.runtimeNow
func timeRuntimeNow() (int64, int32, int64) { return timeNow() }

//sym:model time.now
func timeNow() (sec int64, nsec int32, mono int64) {
	sym.Step()
	c := sym.Clock()
	switch sym.Param("walljump", 0, 0) {
	case 2:
		k := sym.Choose("env.jump", 4)
		return [...]int64{0, 1767225599, 1767225600, 4102444800}[k], [...]int32{0, 999999999, 0, 1}[k], c
	case 1:
		const first, last = -62135596800, 253402300799 // years 1 to 9999
		s := first + int64(sym.Uint64("env.wall")%(last-first+1))
		return s, int32(sym.Uint32("env.wallns") % 1000000000), c
	}
	return c / 1000000000, int32(c % 1000000000), c
}

//sym:model time.Sleep
func timeSleep(d time.Duration) {
	if d <= 0 {
		sym.Step()
		return
	}
	w := sym.Clock() + int64(d)
	if w < 0 {
		w = 1<<63 - 1
	}
	sym.SleepUntil(w)
}

type timerHdr struct {
	C      <-chan time.Time
	init   bool
	active bool
	gen    int
	when   int64
	period int64
	f      func(any, uintptr, int64)
	arg    any
	c      chan time.Time
}

//sym:model time.newTimer
func timeNewTimer(when, period int64, f func(any, uintptr, int64), arg any, cp unsafe.Pointer) *time.Timer {
	t := &timerHdr{init: true, active: true, when: when, period: period, f: f, arg: arg}
	if c, ok := arg.(chan time.Time); ok {
		t.c = c
	}
	go timerRun(t, 0)
	return (*time.Timer)(unsafe.Pointer(t))
}

func timerRun(t *timerHdr, gen int) {
	sym.Daemon()
	for {
		sym.SleepUntil(t.when)
		if t.gen != gen || !t.active {
			return
		}
		if t.period == 0 {
			t.active = false
			t.f(t.arg, 0, 0)
			return
		}
		t.when += t.period
		if t.when <= sym.Clock() {
			t.when = sym.Clock() + t.period
		}
		t.f(t.arg, 0, 0)
	}
}

func timerHalt(t *timerHdr) bool {
	was := t.active
	t.active = false
	t.gen++
	if t.c != nil {
		select {
		case <-t.c:
			was = true
		default:
		}
	}
	return was
}

//sym:model time.stopTimer
func timeStopTimer(p *time.Timer) bool {
	t := (*timerHdr)(unsafe.Pointer(p))
	sym.Step()
	return timerHalt(t)
}

//sym:model time.resetTimer
func timeResetTimer(p *time.Timer, when, period int64) bool {
	t := (*timerHdr)(unsafe.Pointer(p))
	sym.Step()
	was := timerHalt(t)
	t.when = when
	t.period = period
	t.active = true
	go timerRun(t, t.gen)
	return was
}

type constSource struct{ v int64 }

func (s *constSource) Int63() int64    { return s.v }
func (s *constSource) Seed(seed int64) {}

//sym:model math/rand.NewSource
func randNewSource(seed int64) rand.Source { return &constSource{v: 42} }
