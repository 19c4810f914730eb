package c_pool

import (
	"time"

	"github.com/unsafe-risk/utilx/poolx/gopoolx"
	"github.com/unsafe-risk/utilx/zzverif/sym"
)

func add(p *int, d int) int {
	sym.AtomicBegin()
	*p += d
	n := *p
	sym.AtomicEnd()
	return n
}

// unit is the time scale: one second of the model, a millisecond natively.
func unit() time.Duration {
	if sym.Symbolic() {
		return time.Second
	}
	return time.Millisecond
}

// run drives a pool: gs goroutines call Run tasks times each, Stop is called by
// stoppers goroutines at any time, and everything is checked when it is quiet.
func run(max int64, preheat, gs, tasks, stops int, stopLater bool) {
	n := gs * tasks
	base := sym.Int("base")
	handled := make([]int, n)
	accepted := make([]bool, n)
	stopped, active, early := 0, 0, 0
	pool, err := gopoolx.NewTimedPool(max, func(v int) {
		k := v - base
		sym.Assert(k >= 0 && k < n, "the handler gets a value given to Run")
		sym.Assert(int64(add(&active, 1)) <= max, "no more workers than the limit run at once")
		add(&handled[k], 1)
		sym.Yield()
		add(&active, -1)
	}, unit(), 2*unit(), preheat)
	sym.Assert(err == nil && pool != nil, "valid parameters are accepted")
	sym.Assert(pool.Workers() <= max, "Workers never exceeds the limit")
	left := gs + stops
	done := make(chan bool, left)
	for g := 0; g < gs; g++ {
		g := g
		go func() {
			for i := 0; i < tasks; i++ {
				k := g*tasks + i
				s := add(&stopped, 0)
				ok := pool.Run(base + k)
				accepted[k] = ok
				if s > 0 {
					sym.Assert(!ok, "Run returns false after Stop has returned")
				}
				if !ok && s == 0 {
					add(&early, 1)
				}
			}
			done <- true
		}()
	}
	stop := func() {
		pool.Stop()
		add(&stopped, 1)
		done <- true
	}
	if !stopLater {
		for s := 0; s < stops; s++ {
			go stop()
		}
	}
	for i := 0; i < gs; i++ {
		<-done
		sym.Assert(pool.Workers() <= max, "Workers never exceeds the limit")
	}
	if stopLater {
		for s := 0; s < stops; s++ {
			go stop()
		}
	}
	for i := 0; i < stops; i++ {
		<-done
	}
	if stops == 0 {
		pool.Stop()
	}
	sym.Assert(!pool.Run(base), "Run returns false after Stop has returned")
	live := sym.Quiesce()
	for k := range handled {
		if accepted[k] {
			sym.Reach("a task is accepted")
			sym.Assert(handled[k] == 1, "an accepted task is handled exactly once")
		} else {
			sym.Assert(handled[k] == 0, "a rejected task is never handled")
		}
	}
	sym.Assert(pool.Workers() == 0, "Workers returns to zero after Stop")
	sym.Assert(live == 0, "no goroutine is left after Stop")
	pool.Stop()
	sym.Assert(!pool.Run(base), "Run returns false after Stop has returned")
}

// ---- no collection

//sym:opt conc=1 ticks=0 hang=1
func C23_OneWorker() { run(1, 0, 1, 2, 1, false) }

//sym:opt conc=1 ticks=0 hang=1 shards=8
func C23_TwoCallers() { run(1, 0, 2, 1, 1, false) }

//sym:opt conc=1 ticks=0 hang=1 shards=8
func C23_TwoWorkers() { run(2, 0, 1, 2, 1, false) }

//sym:opt conc=1 ticks=0 hang=1 shards=8
func C23_Preheat() { run(1, 1, 2, 1, 0, true) }

//sym:opt conc=1 ticks=0 hang=1 shards=8
func C24_StopTwice() { run(1, 1, 1, 1, 2, false) }

// ---- with collection

//sym:opt conc=1 ticks=1 hang=1 shards=8
func C23_Collect() { run(1, 0, 1, 2, 0, true) }

//sym:opt conc=1 ticks=1 hang=1 shards=8
func C23_CollectStop() { run(1, 1, 1, 1, 1, false) }

//sym:opt conc=1 ticks=2 hang=1 shards=8
func C23_CollectTwice() { run(1, 1, 1, 1, 0, true) }

// ---- limits

// C24_Accept: acceptance is decided by how many tasks are in progress.
//
//sym:opt conc=1 ticks=0 hang=1 shards=8
func C24_Accept() {
	max := 1 + sym.Choose("max", sym.Param("max", 2, 3))
	preheat := []int{-1, 0, 1, max, max + 1, 60}[sym.Choose("preheat", 6)]
	gate := make(chan bool)
	started, finished := 0, 0
	pool, err := gopoolx.NewTimedPool(int64(max), func(v int) {
		add(&started, 1)
		<-gate
		add(&finished, 1)
	}, unit()*1000000, unit()*1000000, preheat)
	sym.Assert(err == nil && pool != nil, "valid parameters are accepted")
	w0 := pool.Workers()
	sym.Assert(w0 <= int64(max), "Workers never exceeds the limit, preheated ones included")
	busy, n, acc := 0, sym.Param("ops", 4, 5), 0
	for i := 0; i < n; i++ {
		if busy > 0 && sym.Choose("op", 2) == 1 {
			gate <- true
			busy--
		} else {
			ok := pool.Run(i)
			sym.Assert(ok == (busy < max), "Run accepts exactly when a worker is idle or may be started")
			if ok {
				busy++
				acc++
			}
		}
		sym.Settle()
		sym.Assert(add(&started, 0) == acc && add(&finished, 0) == acc-busy, "an accepted task is handled at once")
		w := pool.Workers()
		sym.Assert(w >= int64(busy) && w <= int64(max), "Workers counts the busy workers and never exceeds the limit")
		sym.Assert(w >= w0, "preheated workers are counted")
	}
	pool.Stop()
	sym.Assert(!pool.Run(0), "Run returns false after Stop has returned")
	sym.Assert(sym.Settle() == busy, "every worker without a task terminates after Stop")
	sym.Assert(pool.Workers() == int64(busy), "Workers counts the workers still at work")
	for ; busy > 0; busy-- {
		gate <- true
	}
	sym.Assert(sym.Settle() == 0, "no goroutine is left after Stop")
	sym.Assert(pool.Workers() == 0, "Workers returns to zero after Stop")
	sym.Assert(finished == acc, "an accepted task is handled exactly once")
}

// C24_Burst: tasks that arrive faster than workers can start.
//
//sym:opt conc=1 ticks=0 hang=1 shards=8
func C24_Burst() {
	max := 1 + sym.Choose("max", 2)
	preheat := sym.Choose("preheat", 2)
	gate := make(chan bool)
	active := 0
	pool, err := gopoolx.NewTimedPool(int64(max), func(v int) {
		sym.Assert(add(&active, 1) <= max, "no more workers than the limit run at once")
		<-gate
	}, unit()*1000000, unit()*1000000, preheat)
	sym.Assert(err == nil && pool != nil, "valid parameters are accepted")
	callers := 1 + sym.Choose("callers", 2)
	each := max + 1
	if callers == 2 {
		each = 1 + sym.Choose("each", max)
	}
	acc := 0
	done := make(chan bool, callers)
	for c := 0; c < callers; c++ {
		go func() {
			for i := 0; i < each; i++ {
				if pool.Run(i) {
					add(&acc, 1)
				}
			}
			done <- true
		}()
	}
	for c := 0; c < callers; c++ {
		<-done
	}
	want := max
	if callers*each < max {
		want = callers * each
	}
	sym.Assert(acc == want, "Run accepts exactly when a worker is idle or may be started")
	sym.Assert(pool.Workers() <= int64(max), "Workers never exceeds the limit")
	sym.Settle()
	sym.Assert(active == want, "an accepted task is handled at once")
	pool.Stop()
	for i := 0; i < want; i++ {
		gate <- true
	}
	sym.Assert(sym.Settle() == 0, "no goroutine is left after Stop")
	sym.Assert(pool.Workers() == 0, "Workers returns to zero after Stop")
}

// C24_Idle: workers without a task terminate after the idle timeout.
//
//sym:opt conc=1 ticks=20 tickidle=1 hang=1
func C24_Idle() {
	max := 1 + sym.Choose("max", 2)
	preheat := sym.Choose("preheat", 3)
	tasks := sym.Choose("tasks", 3)
	finished := 0
	pool, _ := gopoolx.NewTimedPool(int64(max), func(v int) { add(&finished, 1) }, unit(), 2*unit(), preheat)
	sym.Assert(pool.Workers() <= int64(max), "Workers never exceeds the limit, preheated ones included")
	acc := 0
	for i := 0; i < tasks; i++ {
		if pool.Run(i) {
			acc++
		}
	}
	sym.Settle()
	sym.Assert(finished == acc, "an accepted task is handled exactly once")
	time.Sleep(5 * unit())
	sym.Settle()
	sym.Reach("the idle timeout has passed")
	sym.Assert(!sym.Symbolic() || pool.Workers() == 0, "idle workers terminate after the timeout")
	pool.Stop()
	sym.Settle()
	sym.Assert(pool.Workers() == 0, "Workers returns to zero after Stop")
}

// C24_Busy: a worker with a task is not terminated by the idle timeout.
//
//sym:opt conc=1 ticks=20 tickidle=1 hang=1
func C24_Busy() {
	gate := make(chan bool)
	finished := 0
	pool, _ := gopoolx.NewTimedPool(int64(1), func(v int) { <-gate; add(&finished, 1) }, unit(), 2*unit(), 0)
	sym.Assert(pool.Run(1), "Run accepts when no worker exists")
	time.Sleep(3 * unit())
	sym.Assert(!pool.Run(2), "Run rejects rather than exceed the limit")
	sym.Assert(pool.Workers() == 1, "Workers counts the busy worker")
	gate <- true
	sym.Settle()
	sym.Assert(finished == 1, "an accepted task is handled exactly once")
	want := 1
	if pool.Run(3) { // not accepted while the idle worker is being terminated
		want = 2
		gate <- true
	}
	pool.Stop()
	sym.Settle()
	sym.Assert(finished == want && pool.Workers() == 0, "the accepted task is handled and its worker terminates")
}

// C24_Params: what the constructor accepts.
//
//sym:opt conc=1 ticks=0 hang=1
func C24_Params() {
	max, it, gp := sym.Int64("max"), sym.Int64("idle"), sym.Int64("gc")
	nilh := sym.Bool("nilh")
	h := func(int) {}
	if nilh {
		h = nil
	}
	pool, err := gopoolx.NewTimedPool(max, h, time.Duration(it), time.Duration(gp), 0)
	bad := max <= 0 || it <= 0 || gp <= 0 || nilh
	if bad {
		sym.Assert(err != nil && pool == nil, "invalid parameters are rejected")
		return
	}
	sym.Assert(err == nil && pool != nil, "valid parameters are accepted")
	sym.Assert(pool.Workers() == 0, "no worker exists before the first task")
	pool.Stop()
}

// C24_Order: several workers expire in the order they became idle.
//
//sym:opt conc=1 ticks=20 tickidle=1 hang=1
func C24_Order() {
	n := 2 + sym.Choose("n", 2)
	gate := make(chan bool)
	pool, _ := gopoolx.NewTimedPool(int64(n), func(v int) { <-gate }, 10*unit(), 6*unit(), 0)
	for i := 0; i < n; i++ {
		sym.Assert(pool.Run(i), "Run accepts when a worker may be started")
	}
	k := 1 + sym.Choose("early", n-1)
	for i := 0; i < k; i++ {
		gate <- true
	}
	sym.Settle()
	time.Sleep(5 * unit())
	sym.Settle()
	if sym.Clock() > 0 {
		for i := k; i < n; i++ {
			gate <- true
		}
	}
	sym.Settle()
	time.Sleep(8 * unit())
	sym.Settle()
	w := pool.Workers()
	sym.Assert(w >= 0 && w <= int64(n), "Workers never exceeds the limit")
	sym.Assert(!sym.Symbolic() || w <= int64(n-k), "idle workers terminate after the timeout")
	time.Sleep(15 * unit())
	sym.Settle()
	sym.Assert(!sym.Symbolic() || pool.Workers() == 0, "idle workers terminate after the timeout")
	pool.Stop()
	sym.Settle()
	sym.Assert(pool.Workers() == 0, "Workers returns to zero after Stop")
}

// rounds gives a pool tasks in rounds with pauses between them that are long
// enough, or not, for the workers to be terminated.
func rounds(n, pauses int) {
	max := 1 + sym.Choose("max", 2)
	preheat := sym.Choose("preheat", 2) * max
	var handled [16]int
	var accepted [16]bool
	base := sym.Int("base")
	pool, _ := gopoolx.NewTimedPool(int64(max), func(v int) {
		k := v - base
		sym.Assert(k >= 0 && k < len(handled), "the handler gets a value given to Run")
		add(&handled[k], 1)
	}, 2*unit(), 3*unit(), preheat)
	at := 0
	for r := 0; r < n; r++ {
		for i, k := 0, 1+sym.Choose("tasks", 2); i < k; i++ {
			accepted[at] = pool.Run(base + at)
			sym.Assert(i > 0 || accepted[at] || !sym.Symbolic(), "Run accepts when a worker is idle or may be started")
			at++
		}
		sym.Settle()
		time.Sleep(time.Duration(1+4*sym.Choose("pause", pauses)) * unit())
		sym.Settle()
		sym.Assert(pool.Workers() <= int64(max), "Workers never exceeds the limit")
	}
	pool.Stop()
	sym.Assert(!pool.Run(base), "Run returns false after Stop has returned")
	sym.Assert(sym.Settle() == 0 || !sym.Symbolic(), "no goroutine is left after Stop")
	for k := 0; k < at; k++ {
		want := 0
		if accepted[k] {
			want = 1
		}
		sym.Assert(add(&handled[k], 0) == want || !sym.Symbolic(), "an accepted task is handled exactly once, a rejected one never")
	}
	sym.Assert(pool.Workers() == 0 || !sym.Symbolic(), "Workers returns to zero after Stop")
	sym.Reach("end")
}

// partial lets some workers expire while others do not, then fills the pool.
func partial() {
	n := 2 + sym.Choose("n", 2)
	gates := make([]chan bool, 2*n)
	for i := range gates {
		gates[i] = make(chan bool, 1)
	}
	handled := make([]int, 2*n)
	pool, _ := gopoolx.NewTimedPool(int64(n), func(v int) {
		add(&handled[v], 1)
		<-gates[v]
	}, 10*unit(), 6*unit(), 0)
	for i := 0; i < n; i++ {
		sym.Assert(pool.Run(i), "Run accepts when a worker may be started")
	}
	k, rev := 1+sym.Choose("early", n-1), sym.Choose("reversed", 2) == 1
	open := func(i int) {
		if rev {
			i = n - 1 - i
		}
		gates[i] <- true
		sym.Settle()
	}
	for i := 0; i < k; i++ {
		open(i)
	}
	time.Sleep(5 * unit())
	for i := k; i < n; i++ {
		open(i)
	}
	time.Sleep(8 * unit())
	sym.Settle()
	w := pool.Workers()
	sym.Assert(w >= 0 && w <= int64(n), "Workers never exceeds the limit")
	sym.Assert(!sym.Symbolic() || w <= int64(n-k), "idle workers terminate after the timeout")
	ok := make([]bool, n)
	for i := range ok {
		ok[i] = pool.Run(n + i)
		sym.Assert(ok[i] || !sym.Symbolic(), "Run accepts when a worker is idle or may be started")
	}
	sym.Assert(!pool.Run(0), "Run rejects rather than exceed the limit")
	sym.Settle()
	pool.Stop()
	for i := range ok {
		gates[n+i] <- true
	}
	sym.Settle()
	for i := range ok {
		sym.Assert(add(&handled[i], 0) == 1, "an accepted task is handled exactly once")
		if ok[i] && sym.Symbolic() {
			sym.Assert(handled[n+i] == 1, "an accepted task is handled exactly once")
		}
	}
	sym.Assert(pool.Workers() == 0 || !sym.Symbolic(), "Workers returns to zero after Stop")
	sym.Reach("end")
}

// C23_Rounds: tasks for workers that are new, idle or recycled.
//
//sym:opt conc=1 ticks=40 tickidle=1 hang=1 shards=8
func C23_Rounds() { rounds(sym.Param("rounds", 3, 4), 2) }

// C24_Rounds: the same, with the limits in view.
//
//sym:opt conc=1 ticks=40 tickidle=1 hang=1 shards=8
func C24_Rounds() { rounds(2, 2) }

// C23_Partial: tasks after some of the workers have expired.
//
//sym:opt conc=1 ticks=40 tickidle=1 hang=1 shards=4
func C23_Partial() { partial() }

// C24_Partial: the same, with the limits in view.
//
//sym:opt conc=1 ticks=40 tickidle=1 hang=1 shards=4
func C24_Partial() { partial() }
