package c_clock

import (
	"time"

	"github.com/unsafe-risk/utilx/timex/sleepx"
	"github.com/unsafe-risk/utilx/zzverif/sym"
)

func add(p *int, d int) int {
	sym.AtomicBegin()
	*p += d
	n := *p
	sym.AtomicEnd()
	return n
}

// world counts what happened to one sleeper.
type world struct {
	s               *sleepx.Sleeper
	called, ended   int // calls of Wakeup that began and that ended
	begun, returned int // sleeps that began and that returned true
	refused         int // sleeps that returned false
	need            int // sleeps that must return because of a Wakeup
}

const (
	forSeconds = iota
	untilWall
	untilNow
	forever
)

const second = int64(time.Second)

// sleep sleeps once and checks that it was not too short.
func (w *world) sleep(kind int, secs int64) bool {
	ended := add(&w.ended, 0)
	add(&w.begun, 1)
	t0 := sym.Clock()
	var ok bool
	switch kind {
	case forSeconds:
		ok = w.s.SleepFor(time.Duration(secs))
	case untilWall:
		ok = w.s.SleepUntil(time.Unix(0, t0+secs*second))
	case untilNow:
		ok = w.s.SleepUntil(time.Now().Add(time.Duration(secs * second)))
	case forever:
		ok = w.s.SleepForever()
	}
	t1 := sym.Clock()
	if !ok {
		add(&w.refused, 1)
		return false
	}
	if add(&w.called, 0) == ended {
		sym.Assert(kind != forever, "SleepForever returns only after a Wakeup")
		sym.Assert(t1-t0 >= secs*second, "a sleep without a Wakeup lasts as long as asked")
		sym.Reach("a sleep to the end")
	} else {
		sym.Reach("a sleep during which Wakeup is called")
	}
	add(&w.returned, 1)
	return true
}

// wake calls Wakeup once.
func (w *world) wake() bool {
	before := add(&w.returned, 0)
	add(&w.called, 1)
	ok := w.s.Wakeup()
	add(&w.ended, 1)
	if ok {
		sym.Reach("Wakeup returns true")
		sym.AtomicBegin()
		if w.need < before+1 {
			w.need = before + 1
		}
		sym.AtomicEnd()
	}
	return ok
}

// settle lets everything go on that can without time passing.
func (w *world) settle() {
	sym.Settle()
	sym.Assert(add(&w.returned, 0) >= add(&w.need, 0), "a Wakeup that returns true makes the sleep in progress return")
}

// someSeconds is one of a few numbers of seconds: few and small natively.
func someSeconds() int64 {
	secs := [...]int64{1, 0, -1, -1 << 33, 3600, 1 << 30}
	if sym.Symbolic() {
		return secs[sym.Choose("some", len(secs))]
	}
	return secs[sym.Choose("some", len(secs))%4]
}

// C40_Alone sleeps with nobody to wake it.
//
//sym:opt conc=1 hang=1 ticks=3
func C40_Alone() {
	w := &world{s: sleepx.New()}
	if sym.Bool("wakeup before") {
		sym.Assert(!w.wake(), "Wakeup with nobody sleeping returns false")
	}
	n := int64(3)
	if sym.Symbolic() {
		n = 1 << 32
	}
	kind := sym.Choose("kind", 3)
	secs := int64(sym.Uint64("seconds")%uint64(n)) - n/4
	if kind != forSeconds {
		secs = someSeconds()
	}
	sym.Assert(w.sleep(kind, secs), "a sleep that nobody disturbs returns true")
	sym.Assert(!w.wake(), "Wakeup with nobody sleeping returns false")
	sym.Assert(w.sleep(kind, int64(sym.Choose("again", 2))), "a sleeper can be used again")
}

// C40_Jump sleeps until a time told by the clock, whose wall reading jumps.
//
//sym:opt conc=1 hang=1 ticks=2 param.walljump=2 native=no
func C40_Jump() {
	w := &world{s: sleepx.New()}
	sym.Assert(w.sleep(untilNow, someSeconds()), "a sleep that nobody disturbs returns true")
}

// C40_Huge sleeps for any time, while no time passes.
//
//sym:opt conc=1 hang=1 ticks=0 shards=4
func C40_Huge() {
	w := &world{s: sleepx.New()}
	secs := sym.Int64("seconds")
	done := false
	go func() {
		ok := w.s.SleepFor(time.Duration(secs))
		sym.Assert(ok, "a sleep that nobody disturbs returns true")
		sym.AtomicBegin()
		done = true
		sym.AtomicEnd()
	}()
	sym.Settle()
	sym.AtomicBegin()
	d := done
	sym.AtomicEnd()
	sym.Assert(d == (secs <= 0), "a sleep lasts as long as asked")
	sym.Assert(w.s.Wakeup() == !d, "Wakeup tells whether there is a sleep")
	sym.Settle()
	sym.AtomicBegin()
	d = done
	sym.AtomicEnd()
	sym.Assert(d, "a woken sleep returns")
}

// run has sleepers and wakers use one sleeper at once.
func run(sleepers, sleeps, wakers, wakeups int) {
	w := &world{s: sleepx.New()}
	kinds := make([]int, sleepers*sleeps)
	for i := range kinds {
		kinds[i] = sym.Choose("kind", 4)
	}
	n := sleepers + wakers
	left := n
	for g := 0; g < sleepers; g++ {
		g := g
		go func() {
			for i := 0; i < sleeps; i++ {
				w.sleep(kinds[g*sleeps+i], 1)
			}
			add(&left, -1)
		}()
	}
	for g := 0; g < wakers; g++ {
		go func() {
			for i := 0; i < wakeups; i++ {
				w.wake()
			}
			add(&left, -1)
		}()
	}
	for i := 0; i < sleepers*sleeps; i++ {
		w.settle()
		if add(&left, 0) == 0 {
			break
		}
		ended := add(&w.returned, 0)
		if !w.wake() {
			w.settle()
			sym.Assert(add(&w.returned, 0) > ended, "a Wakeup finds the sleep in progress")
		}
	}
	w.settle()
	sym.Assert(add(&left, 0) == 0, "every sleep returns once it is woken")
	sym.Assert(!w.wake(), "Wakeup with nobody sleeping returns false")
	sym.Assert(w.sleep(forSeconds, 0), "a sleeper can be used again")
}

//sym:opt conc=1 hang=1 ticks=2 shards=8
func C40_Wakeup() { run(1, 1, 1, 2) }

//sym:opt conc=1 hang=1 ticks=2 shards=16
func C40_Again() { run(1, 2, 1, 1) }

//sym:opt conc=1 hang=1 ticks=2 shards=16
func C40_Wakers() { run(1, 1, 2, 1) }

// C40_Busy has two goroutines use one sleeper.
//
//sym:opt conc=1 hang=1 ticks=1 shards=8
func C40_Busy() {
	w := &world{s: sleepx.New()}
	k := sym.Choose("kind", 4)
	for i := 0; i < 2; i++ {
		go w.sleep(forever, 0)
	}
	sym.Settle()
	sym.Assert(add(&w.refused, 0) == 1, "a second sleep on a busy sleeper returns false at once")
	sym.Assert(!w.sleep(k, 1), "a second sleep on a busy sleeper returns false at once")
	sym.Assert(add(&w.returned, 0) == 0, "the sleep in progress goes on")
	sym.Assert(w.wake(), "Wakeup finds the sleep in progress")
	sym.Assert(sym.Settle() >= 0 && add(&w.returned, 0) == 1, "a woken sleep returns true")
	if k != forever {
		sym.Assert(w.sleep(k, 1), "a sleeper can be used again")
	}
	go w.sleep(forever, 0)
	sym.Settle()
	r := add(&w.returned, 0)
	sym.Assert(w.wake(), "a sleeper can be used again")
	sym.Settle()
	sym.Assert(add(&w.returned, 0) == r+1, "a woken sleep returns true")
}
