package c_sync

import (
	"sync"

	"github.com/unsafe-risk/utilx/functionalx/lazyx"
	"github.com/unsafe-risk/utilx/syncx/lockx"
	"github.com/unsafe-risk/utilx/syncx/syncpoolx"
	"github.com/unsafe-risk/utilx/zzverif/sym"
)

func add(p *int, d int) int {
	sym.AtomicBegin()
	*p += d
	n := *p
	sym.AtomicEnd()
	return n
}

// ---- lazy values

type pair struct{ a, b int }

func lazyRun(gs, gets int) {
	x := sym.Int("x")
	runs, asked := 0, 0
	l := lazyx.New(func() *pair {
		sym.Assert(add(&asked, 0) > 0, "the constructor runs only after the first Get")
		add(&runs, 1)
		p := new(pair)
		sym.Yield()
		p.a = x
		sym.Yield()
		p.b = x + 1
		return p
	})
	sym.Assert(runs == 0, "the constructor does not run before the first Get")
	var wg sync.WaitGroup
	first := make([]*pair, gs)
	for i := 0; i < gs; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < gets; k++ {
				add(&asked, 1)
				p := l.Get()
				sym.Assert(p != nil, "Get returns the constructed value")
				sym.Assert(p.a == x && p.b == x+1, "Get returns the value fully constructed")
				if k > 0 {
					sym.Assert(p == first[i], "every Get returns the same value")
				}
				first[i] = p
			}
		}()
	}
	wg.Wait()
	for i := range first {
		sym.Assert(first[i] == first[0], "every Get returns the same value")
	}
	sym.Assert(runs == 1, "the constructor runs exactly once")
	sym.Assert(l.Get() == first[0] && runs == 1, "the constructor runs exactly once")
}

//sym:opt conc=1
func C20_Two() { lazyRun(2, 2) }

//sym:opt conc=1
func C20_Three() { lazyRun(3, sym.Param("gets", 1, 2)) }

//sym:opt conc=1 thorough.shards=8
func C20_Many() { lazyRun(sym.Param("gs", 4, 5), 1) }

// C20_Value: plain values, zero values included, one goroutine.
func C20_Value() {
	x, y := sym.Int("x"), sym.String("y", sym.Choose("n", 3))
	n, m := 0, 0
	lx := lazyx.New(func() int { n++; return x })
	ly := lazyx.New(func() string { m++; return y })
	sym.Assert(n == 0 && m == 0, "the constructor does not run before the first Get")
	for i := 1; i <= 3; i++ {
		sym.Assert(lx.Get() == x, "Get returns what the constructor returned")
		sym.Assert(n == 1, "the constructor runs exactly once")
		if i > 1 {
			sym.Assert(ly.Get() == y && m == 1, "Get returns what the constructor returned")
		}
	}
}

// C20_Concrete: a lazy int written by the constructor and read by all.
//
//sym:opt conc=1
func C20_Concrete() {
	x := sym.Int("x")
	n := 0
	l := lazyx.New(func() int {
		sym.Yield()
		n++ // not atomic: a second run is a race as well
		return x
	})
	done := make(chan int, 3)
	for i := 0; i < 3; i++ {
		go func() { done <- l.Get() }()
	}
	for i := 0; i < 3; i++ {
		sym.Assert(<-done == x, "Get returns what the constructor returned")
	}
	sym.Assert(n == 1, "the constructor runs exactly once")
}

// ---- locking on a value

func lockRun(gs, calls int) {
	x := sym.Int("x")
	v := new(pair)
	v.a = x
	inside, n := 0, 0
	var wg sync.WaitGroup
	for i := 0; i < gs; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < calls; k++ {
				ran := 0
				lockx.Lock(v, func(p *pair) {
					sym.Assert(add(&inside, 1) == 1, "no two callbacks run at the same time")
					ran++
					sym.Assert(p == v, "the callback receives the pointer")
					sym.Assert(p.a == x+p.b, "a callback sees the effects of those before it and nothing else")
					p.a++
					sym.Yield()
					p.b++
					n++
					add(&inside, -1)
				})
				sym.Assert(ran == 1, "the callback runs exactly once")
			}
		}()
	}
	wg.Wait()
	sym.Assert(n == gs*calls, "every callback runs exactly once")
	sym.Assert(v.a == x+n && v.b == n, "the value is changed by nothing but the callbacks")
}

//sym:opt conc=1
func C21_Two() { lockRun(2, sym.Param("calls", 1, 2)) }

//sym:opt conc=1 shards=8
func C21_Three() { lockRun(3, 1) }

// C21_Again: one goroutine locks again while another waits or has left.
//
//sym:opt conc=1
func C21_Again() {
	v := new(int)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		lockx.Lock(v, func(p *int) { *p += 1 })
	}()
	for i := 0; i < 2; i++ {
		lockx.Lock(v, func(p *int) { *p += 10 })
	}
	wg.Wait()
	sym.Assert(*v == 21, "every callback runs exactly once")
}

// C21_Words: values of every kind may be locked on and keep their bits.
func C21_Words() {
	a := sym.Int("a")
	n := 0
	lockx.Lock(&a, func(p *int) {
		n++
		sym.Assert(p == &a, "the callback receives the pointer")
	})
	b := sym.Int("a#again")
	_ = b
	u := sym.Uint64("u")
	u0 := u
	lockx.Lock(&u, func(p *uint64) { n++; sym.Assert(*p == u0, "the value is as it was") })
	sym.Assert(u == u0, "the value is changed by nothing but the callbacks")
	c := sym.Byte("c")
	c0 := c
	lockx.Lock(&c, func(p *byte) { n++; *p++ })
	sym.Assert(c == c0+1, "the value is changed by nothing but the callbacks")
	bs := []byte{1, 2, 3}
	lockx.Lock(&bs, func(p *[]byte) { n++; sym.Assert(len(*p) == 3, "the value is as it was"); *p = nil })
	sym.Assert(bs == nil, "the callback's change stays")
	var z *int
	lockx.Lock(&z, func(p **int) { n++; sym.Assert(*p == nil, "the value is as it was") })
	s := struct{ x, y bool }{true, sym.Bool("y")}
	lockx.Lock(&s, func(p *struct{ x, y bool }) { n++; p.x = p.y })
	sym.Assert(s.x == s.y, "the callback's change stays")
	sym.Assert(n == 6, "every callback runs exactly once")
}

// C21_Apart: a callback on one pointer may wait for one on another pointer.
//
//sym:opt conc=1
func C21_Apart() {
	arr := new([2]int)
	done := make(chan bool)
	go lockx.Lock(&arr[0], func(p *int) {
		<-done
		*p = 1
		done <- true
	})
	lockx.Lock(&arr[1], func(p *int) { *p = 2; done <- true })
	<-done
	sym.Assert(arr[0] == 1 && arr[1] == 2, "callbacks on different pointers do not block one another")
}

// C21_Nested: locking another pointer inside a callback.
//
//sym:opt conc=1
func C21_Nested() {
	a, b := new(int), new(int)
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			lockx.Lock(a, func(p *int) {
				*p++
				lockx.Lock(b, func(q *int) { *q += *p })
			})
		}()
	}
	wg.Wait()
	sym.Assert(*a == 2 && *b == 3, "every callback runs exactly once")
}

// ---- the typed pool

type obj struct {
	id, held, uses int
}

func poolRun(gs, rounds int) {
	made, outs := 0, 0
	var p syncpoolx.Pool[obj]
	p.Init(func() *obj {
		return &obj{id: add(&made, 1)}
	})
	var wg sync.WaitGroup
	for i := 0; i < gs; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < rounds; k++ {
				before := add(&made, 0)
				o := p.Get()
				sym.Assert(o != nil, "Get returns a usable object")
				add(&outs, 1)
				sym.Assert(add(&o.held, 1) == 1, "no object is held by two users at once")
				sym.Assert(o.id > 0 && o.id <= add(&made, 0), "the object was built by the constructor")
				if o.uses == 0 {
					sym.Assert(o.id > before, "an object not handed out before was built for this call")
				}
				o.uses++
				sym.Yield()
				o.uses++
				add(&o.held, -1)
				p.Put(o)
			}
		}()
	}
	wg.Wait()
	sym.Assert(made <= outs, "the constructor runs only to serve a Get")
}

//sym:opt conc=1
func C22_Two() { poolRun(2, sym.Param("rounds", 2, 2)) }

//sym:opt conc=1 shards=8
func C22_Three() { poolRun(3, 1) }

// C22_Alone: histories of Get and Put by one user holding several objects.
//
//sym:opt shards=4
func C22_Alone() {
	made := 0
	var p syncpoolx.Pool[obj]
	p.Init(func() *obj { made++; return &obj{id: made} })
	var held []*obj
	for i, n := 0, sym.Param("ops", 7, 9); i < n; i++ {
		if sym.Choose("op", 2) == 0 || len(held) == 0 {
			m := made
			o := p.Get()
			sym.Assert(o != nil, "Get returns a usable object")
			sym.Assert(o.held == 0, "no object is handed out while it is held")
			sym.Assert(made == m && o.uses > 0 || made == m+1 && o.id == made && o.uses == 0, "the object is new for this call or was Put earlier")
			o.held = 1
			held = append(held, o)
		} else {
			k := sym.Choose("which", len(held))
			o := held[k]
			held = append(held[:k:k], held[k+1:]...)
			o.uses++
			o.held = 0
			p.Put(o)
		}
	}
}

// C22_Types: pools of other types.
func C22_Types() {
	var p syncpoolx.Pool[int]
	x := sym.Int("x")
	p.Init(func() *int { v := x; return &v })
	a := p.Get()
	sym.Assert(*a == x, "the object was built by the constructor")
	b := p.Get()
	sym.Assert(a != b && *b == x, "no object is handed out twice")
	*a = 5
	p.Put(a)
	c := p.Get()
	sym.Assert(c == a && *c == 5 || c != a && c != b && *c == x, "the object is new for this call or was Put earlier")
	var q syncpoolx.Pool[error]
	q.Init(func() *error { return new(error) })
	sym.Assert(q.Get() != nil, "Get returns a usable object")
}
