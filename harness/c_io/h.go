package c_io

import (
	"errors"
	"io"
	"log"
	"os"
	"sync"
	"syscall"

	"github.com/unsafe-risk/utilx/iox/decouplex"
	mclosex "github.com/unsafe-risk/utilx/iox/managerx/closex"
	"github.com/unsafe-risk/utilx/iox/usingx"
	"github.com/unsafe-risk/utilx/osx/closex"
	"github.com/unsafe-risk/utilx/zzverif/sym"
)

func add(p *int, d int) int {
	sym.AtomicBegin()
	*p += d
	n := *p
	sym.AtomicEnd()
	return n
}

// ---- termination signals

// subscription is a channel that is told of signals.
type subscription struct {
	c   chan<- os.Signal
	set []os.Signal // none stands for every one
	all bool
}

var (
	subs    []*subscription
	ignored []os.Signal
)

func contains(set []os.Signal, s os.Signal) bool {
	for _, x := range set {
		if x == s {
			return true
		}
	}
	return false
}

// notify stands for os/signal.Notify: a signal that cannot be sent at once is
// lost.
func notify(c chan<- os.Signal, sig ...os.Signal) {
	if c == nil {
		panic("os/signal: Notify using nil channel")
	}
	sym.AtomicBegin()
	var u *subscription
	for _, x := range subs {
		if x.c == c {
			u = x
		}
	}
	if u == nil {
		u = &subscription{c: c}
		subs = append(subs, u)
	}
	u.set, u.all = append(u.set, sig...), u.all || len(sig) == 0
	var left []os.Signal
	for _, x := range ignored {
		if !u.all && !contains(sig, x) {
			left = append(left, x)
		}
	}
	ignored = left
	sym.AtomicEnd()
}

func stopNotify(c chan<- os.Signal) {
	sym.AtomicBegin()
	var left []*subscription
	for _, x := range subs {
		if x.c != c {
			left = append(left, x)
		}
	}
	subs = left
	sym.AtomicEnd()
}

var killing = []os.Signal{syscall.SIGINT, syscall.SIGQUIT, syscall.SIGTERM}

func forget(sig []os.Signal) []os.Signal {
	if len(sig) == 0 {
		sig = killing
	}
	for _, u := range subs {
		if u.all {
			u.set, u.all = killing, false
		}
		var left []os.Signal
		for _, x := range u.set {
			if !contains(sig, x) {
				left = append(left, x)
			}
		}
		u.set = left
	}
	return sig
}

func reset(sig ...os.Signal) {
	sym.AtomicBegin()
	sig = forget(sig)
	var left []os.Signal
	for _, x := range ignored {
		if !contains(sig, x) {
			left = append(left, x)
		}
	}
	ignored = left
	sym.AtomicEnd()
}

func ignore(sig ...os.Signal) {
	sym.AtomicBegin()
	ignored = append(ignored, forget(sig)...)
	sym.AtomicEnd()
}

// deliver sends a signal to this process.
func deliver(s syscall.Signal) {
	if !sym.Symbolic() {
		syscall.Kill(syscall.Getpid(), s)
		return
	}
	sym.AtomicBegin()
	var to []chan<- os.Signal
	for _, u := range subs {
		if u.all || contains(u.set, s) {
			to = append(to, u.c)
		}
	}
	ign := contains(ignored, s)
	sym.AtomicEnd()
	sym.Assert(len(to) > 0 || ign, "interrupt, quit and terminate signals are handled")
	for _, c := range to {
		select {
		case c <- s:
		default:
		}
	}
}

func isClosed(c <-chan struct{}) bool {
	select {
	case _, ok := <-c:
		sym.Assert(!ok, "nothing is sent on the channel")
		return true
	default:
		return false
	}
}

func signals(n, senders int, early bool) {
	all := []syscall.Signal{syscall.SIGINT, syscall.SIGQUIT, syscall.SIGTERM}
	seq := make([]syscall.Signal, n*senders)
	for i := range seq {
		seq[i] = all[sym.Choose("sig", 3)]
	}
	runs, returned := 0, 0
	subs, ignored = nil, nil
	intr := closex.HandleKillSig(func() {
		add(&runs, 1)
		sym.Yield()
		add(&returned, 1)
		sym.Yield()
	}, log.New(io.Discard, "", 0))
	sym.Assert(intr.C != nil, "a channel is returned")
	if !early {
		sym.Settle()
	}
	sym.Assert(!isClosed(intr.C) && add(&runs, 0) == 0, "without a signal the handler does not run and the channel stays open")
	var wg sync.WaitGroup
	for s := 0; s < senders; s++ {
		s := s
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				deliver(seq[s*n+i])
			}
		}()
	}
	if n > 0 {
		<-intr.C
		sym.Assert(add(&returned, 0) == 1 && add(&runs, 0) == 1, "the channel is closed after the handler has returned")
	}
	wg.Wait()
	sym.Settle()
	if n == 0 {
		sym.Assert(!isClosed(intr.C), "without a signal the channel stays open")
		sym.Assert(runs == 0, "without a signal the handler does not run")
		return
	}
	sym.Assert(isClosed(intr.C), "the channel stays closed")
	sym.Assert(runs == 1 && returned == 1, "the handler runs exactly once")
	// and again later
	deliver(all[sym.Choose("late", 3)])
	sym.Settle()
	deliver(all[sym.Choose("later", 3)])
	sym.Settle()
	sym.Assert(isClosed(intr.C) && runs == 1 && returned == 1, "further signals change nothing")
}

//sym:opt conc=1
//sym:replace os/signal.Notify notify
//sym:replace os/signal.Stop stopNotify
//sym:replace os/signal.Reset reset
//sym:replace os/signal.Ignore ignore
func C25_None() { signals(0, 0, false) }

//sym:opt conc=1
//sym:replace os/signal.Notify notify
//sym:replace os/signal.Stop stopNotify
//sym:replace os/signal.Reset reset
//sym:replace os/signal.Ignore ignore
func C25_One() { signals(1, 1, false) }

//sym:opt conc=1 shards=4
//sym:replace os/signal.Notify notify
//sym:replace os/signal.Stop stopNotify
//sym:replace os/signal.Reset reset
//sym:replace os/signal.Ignore ignore
func C25_Several() { signals(sym.Param("n", 3, 4), 1, false) }

//sym:opt conc=1 shards=8
//sym:replace os/signal.Notify notify
//sym:replace os/signal.Stop stopNotify
//sym:replace os/signal.Reset reset
//sym:replace os/signal.Ignore ignore
func C25_TwoSenders() { signals(sym.Param("n", 2, 2), 2, false) }

// C25_Early: the signals may arrive before anything waits for them.
//
//sym:opt conc=1 shards=4
//sym:replace os/signal.Notify notify
//sym:replace os/signal.Stop stopNotify
//sym:replace os/signal.Reset reset
//sym:replace os/signal.Ignore ignore
func C25_Early() { signals(sym.Param("n", 2, 3), 1, true) }

// ---- scoped closing

type closer struct {
	id    int
	err   error
	calls *[]int
	body  *int
}

func (c *closer) Close() error {
	*c.calls = append(*c.calls, c.id)
	if c.body != nil {
		sym.Assert(*c.body == 1, "closers run after the body has ended")
	}
	return c.err
}

type myErr struct{ k int }

func (e *myErr) Error() string { return "e" }

// closers makes n closers, each failing or not.
func closers(n int, body *int) (cs []io.Closer, calls *[]int, want []error) {
	calls = new([]int)
	for i := 0; i < n; i++ {
		var err error
		if sym.Choose("fail", 2) == 1 {
			err = &myErr{i}
			want = append(want, err)
		}
		cs = append(cs, &closer{i, err, calls, body})
	}
	return
}

func inOrder(calls []int, n int) bool {
	if len(calls) != n {
		return false
	}
	for i, c := range calls {
		if c != i {
			return false
		}
	}
	return true
}

func sameErrs(a, b []error) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

//sym:opt shards=4
func C26_Close() {
	n := sym.Choose("n", sym.Param("n", 5, 8))
	body := 0
	cs, calls, want := closers(n, &body)
	runs := 0
	f := usingx.Close(cs...)
	sym.Assert(len(*calls) == 0, "nothing is closed before the body runs")
	errs := f(func() {
		runs++
		sym.Assert(len(*calls) == 0, "nothing is closed before the body has ended")
		body = 1
	})
	sym.Assert(runs == 1, "the body runs once")
	sym.Assert(inOrder(*calls, n), "each closer is closed exactly once, in order")
	sym.Assert(sameErrs(errs, want), "the result lists exactly the errors, in order")
	sym.Assert((errs == nil) == (len(want) == 0), "the result is nil exactly when nothing failed")
}

type boom struct{ x int }

//sym:opt shards=4
func C26_Panic() {
	n := sym.Choose("n", sym.Param("n", 5, 8))
	body := 0
	cs, calls, _ := closers(n, &body)
	p := &boom{sym.Int("x")}
	kind := sym.Choose("kind", 4)
	var got any
	returned := false
	func() {
		defer func() { got = recover() }()
		usingx.Close(cs...)(func() {
			body = 1
			switch kind {
			case 0:
				panic(p)
			case 1:
				panic(errors.New("boom"))
			case 2:
				var a []int
				_ = a[n]
			case 3:
				panic(nil)
			}
		})
		returned = true
	}()
	sym.Assert(inOrder(*calls, n), "each closer is closed exactly once, in order, also when the body panics")
	sym.Assert((got != nil || kind == 3) && !returned, "the panic reaches the caller")
	if kind == 0 {
		sym.Assert(got == any(p), "the panic reaches the caller unchanged")
	}
}

// C26_Twice: a scope may be used again and scopes may be nested.
func C26_Twice() {
	n := sym.Choose("n", 3)
	body := 0
	cs, calls, want := closers(n, &body)
	f := usingx.Close(cs...)
	var kept, first []error
	for i := 0; i < 2; i++ {
		body = 0
		*calls = nil
		errs := f(func() { body = 1 })
		sym.Assert(inOrder(*calls, n), "each closer is closed exactly once, in order")
		sym.Assert(sameErrs(errs, want), "the result lists exactly the errors of this run")
		if i == 0 {
			kept = errs
			for k := range cs {
				// the next run fails the other way round
				c := cs[k].(*closer)
				if c.err == nil {
					c.err = &myErr{9}
				} else {
					c.err = nil
				}
			}
			first, want = want, nil
			for k := range cs {
				if e := cs[k].(*closer).err; e != nil {
					want = append(want, e)
				}
			}
		}
	}
	sym.Assert(sameErrs(kept, first), "a later run leaves an earlier result alone")
	*calls = nil
	inner := 0
	ics, icalls, iwant := closers(1, &inner)
	body = 0
	var ierrs []error
	errs := f(func() {
		ierrs = usingx.Close(ics...)(func() { inner = 1 })
		sym.Assert(len(*calls) == 0 && len(*icalls) == 1, "an inner scope closes only its own closers")
		body = 1
	})
	sym.Assert(sameErrs(errs, want) && sameErrs(ierrs, iwant), "the result lists exactly the errors of its scope")
}

// script closes as it is told: each call of any of its closers takes the next
// error.
type script struct {
	calls []int
	errs  []error
}

func (s *script) next(id int) error {
	s.calls = append(s.calls, id)
	return s.errs[len(s.calls)-1]
}

type ptrCloser struct {
	id int
	s  *script
}

func (c *ptrCloser) Close() error { return c.s.next(c.id) }

// bagCloser is a closer whose value cannot be compared.
type bagCloser struct {
	ids []int
	s   *script
}

func (c bagCloser) Close() error { return c.s.next(c.ids[0]) }

// errBag is an error whose value cannot be compared.
type errBag []int

func (errBag) Error() string { return "bag" }

// repeats makes up to n closers, the same ones several times, which return
// the same errors several times, and what is to happen.
func repeats(n int) (cs []io.Closer, s *script, ids []int, want []error) {
	s = &script{}
	var made []io.Closer
	kind := sym.Choose("kind", 2)
	for i := 0; i < 2; i++ {
		if kind == 0 {
			made = append(made, &ptrCloser{i, s})
		} else {
			made = append(made, bagCloser{[]int{i}, s})
		}
	}
	e := &myErr{7}
	for k := sym.Choose("n", n+1); k > 0; k-- {
		id := sym.Choose("which", 2)
		cs = append(cs, made[id])
		ids = append(ids, id)
		var err error
		switch sym.Choose("err", 3) {
		case 1:
			err = e
		case 2:
			err = errBag{k}
		}
		s.errs = append(s.errs, err)
		if err != nil {
			want = append(want, err)
		}
	}
	return
}

func sameIDs(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameAny(a, b []error) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, isX := a[i].(errBag)
		y, isY := b[i].(errBag)
		if isX != isY || isX && x[0] != y[0] || !isX && a[i] != b[i] {
			return false
		}
	}
	return true
}

// C26_Repeat: a closer or an error that occurs several times counts as often.
//
//sym:opt shards=4
func C26_Repeat() {
	cs, s, ids, want := repeats(sym.Param("n", 3, 4))
	errs := usingx.Close(cs...)(func() {})
	sym.Assert(sameIDs(s.calls, ids), "each closer given is closed exactly once, in order")
	sym.Assert(sameAny(errs, want) && (errs == nil) == (want == nil), "the result lists exactly the errors, in order")
}

// C27_Repeat: the same for the close manager.
//
//sym:opt shards=4
func C27_Repeat() {
	cs, s, ids, want := repeats(sym.Param("n", 3, 4))
	m := mclosex.New()
	for _, c := range cs {
		m.Append(c)
	}
	err := m.Close()
	sym.Assert(sameIDs(s.calls, ids), "each closer appended is closed exactly once, in order")
	errs, ok := mclosex.AsErrs(err)
	sym.Assert((err == nil) == (want == nil) && ok == (want != nil) && sameAny(errs, want), "the individual errors are recovered in order")
	if err != nil {
		sym.Reach("failed")
	}
}

// ---- the close manager

type wrapped struct{ err error }

func (w *wrapped) Error() string { return "w" }
func (w *wrapped) Unwrap() error { return w.err }

func closeOnce(m io.Closer, n int, calls *[]int, want []error) {
	err := m.Close()
	sym.Assert(inOrder(*calls, n), "Close closes each closer exactly once, in the order appended")
	if len(want) == 0 {
		sym.Assert(err == nil, "Close returns nil when nothing failed")
		return
	}
	sym.Assert(err != nil, "Close returns an error when a closer failed")
	if err == nil {
		return
	}
	errs, ok := mclosex.AsErrs(err)
	sym.Assert(ok && sameErrs(errs, want), "the individual errors are recovered in order")
	for i, k := 0, sym.Choose("wraps", 3); i < k; i++ {
		err = &wrapped{err}
	}
	errs, ok = mclosex.AsErrs(err)
	sym.Assert(ok && sameErrs(errs, want), "the individual errors are recovered through wrapping")
	errs, ok = mclosex.AsErrs(errors.Join(errors.New("other"), err))
	sym.Assert(ok && sameErrs(errs, want), "the individual errors are recovered through wrapping")
}

//sym:opt shards=4
func C27_Close() {
	n := sym.Choose("n", sym.Param("n", 5, 8))
	cs, calls, want := closers(n, nil)
	m := mclosex.New()
	for _, c := range cs {
		m.Append(c)
		sym.Assert(len(*calls) == 0, "Append closes nothing")
	}
	closeOnce(m, n, calls, want)
}

type defCloser struct{}

func (defCloser) Close() error { return mclosex.Close() }

// C27_Default: the package-level manager.
//
//sym:opt shards=4
func C27_Default() {
	n := sym.Choose("n", 4)
	cs, calls, want := closers(n, nil)
	mclosex.Default = mclosex.New()
	for _, c := range cs {
		mclosex.Append(c)
	}
	closeOnce(defCloser{}, n, calls, want)
}

// C27_Other: other errors are not mistaken for a list.
func C27_Other() {
	var err error
	switch sym.Choose("kind", 4) {
	case 0:
		err = &myErr{1}
	case 1:
		err = &wrapped{errors.New("x")}
	case 2:
		err = errors.Join(errors.New("x"), errors.New("y"))
	}
	errs, ok := mclosex.AsErrs(err)
	sym.Assert(!ok && errs == nil, "another error is not mistaken for a list")
	// a list of lists: the inner one is an error like any other
	m, inner := mclosex.New(), mclosex.New()
	ics, icalls, iwant := closers(2, nil)
	for _, c := range ics {
		inner.Append(c)
	}
	m.Append(inner)
	err = m.Close()
	sym.Assert(inOrder(*icalls, 2), "Close closes each closer exactly once, in the order appended")
	sym.Assert((err == nil) == (len(iwant) == 0), "Close returns nil exactly when nothing failed")
	if err != nil {
		errs, ok := mclosex.AsErrs(err)
		sym.Assert(ok && len(errs) == 1, "the individual errors are recovered in order")
		es, ok := mclosex.AsErrs(errs[0])
		sym.Assert(ok && sameErrs(es, iwant), "the individual errors are recovered in order")
	}
}

type counter struct {
	n   int
	err error
}

func (c *counter) Close() error { add(&c.n, 1); return c.err }

// conc: gs goroutines append, one of them (or main) closes meanwhile.
func conc(gs, each int, during bool) {
	m := mclosex.New()
	cs := make([]*counter, gs*each)
	var all []error
	for i := range cs {
		cs[i] = &counter{}
		if sym.Choose("fail", 2) == 1 {
			cs[i].err = &myErr{i}
			all = append(all, cs[i].err)
		}
	}
	var wg sync.WaitGroup
	for g := 0; g < gs; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < each; i++ {
				m.Append(cs[g*each+i])
			}
		}()
	}
	if !during {
		wg.Wait()
	}
	err := m.Close()
	errs, _ := mclosex.AsErrs(err)
	closed, failed := 0, 0
	sym.AtomicBegin()
	for _, c := range cs {
		sym.Assert(c.n <= 1, "no closer is closed twice")
		if c.n == 1 {
			closed++
			if c.err != nil {
				failed++
				found := false
				for _, e := range errs {
					if e == c.err {
						found = true
					}
				}
				sym.Assert(found, "every error is reported")
			}
		}
	}
	sym.AtomicEnd()
	sym.Assert(len(errs) == failed && (err == nil) == (failed == 0), "exactly the errors that occurred are reported")
	if !during {
		sym.Assert(closed == len(cs), "every appended closer is closed")
	}
	wg.Wait()
}

//sym:opt conc=1 shards=4
func C27_Concurrent() { conc(2, 2, false) }

//sym:opt conc=1 shards=4
func C27_During() { conc(2, sym.Param("each", 1, 2), true) }

// C27_TwoClose: Close from two goroutines does not deadlock or race.
//
//sym:opt conc=1
func C27_TwoClose() {
	m := mclosex.New()
	c := &counter{err: &myErr{0}}
	m.Append(c)
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if err := m.Close(); err != nil {
				errs, ok := mclosex.AsErrs(err)
				sym.Assert(ok && len(errs) == 1 && errs[0] == c.err, "the individual errors are recovered in order")
			}
		}()
	}
	wg.Wait()
	sym.Assert(c.n >= 1, "every appended closer is closed")
}

// ---- the write decoupler

var errDrop = errors.New("dropped")

// C28_Seq: histories of writes and reads by one goroutine.
//
//sym:opt shards=8
func C28_Seq() {
	size := 1 + sym.Choose("size", sym.Param("size", 3, 4))
	drops := 0
	var dropped []byte
	rn := sym.Int("rn")
	d := decouplex.NewDecoupler(uint64(size), func(b []byte) (int, error) {
		drops++
		dropped = append([]byte(nil), b...)
		return rn, errDrop
	})
	var q [][]byte
	buf := make([]byte, 3)
	for i, n := 0, sym.Param("ops", 6, 8); i < n; i++ {
		if sym.Choose("op", 2) == 0 {
			l := sym.Choose("len", 3)
			msg := sym.Bytes("m", l)
			b := buf[:l]
			copy(b, msg)
			before := drops
			k, err := d.Write(b)
			if l == 0 || len(q) >= size {
				sym.Assert(drops == before+1 && len(dropped) == l, "a write that is not buffered is dropped once")
				sym.Assert(string(dropped) == string(msg), "the drop callback gets the message")
				sym.Assert(k == rn && err == errDrop, "the result of the drop callback is returned")
			} else {
				sym.Assert(drops == before, "a write is dropped only when the buffer is full or it is empty")
				sym.Assert(k == l && err == nil, "a buffered write reports its length")
				q = append(q, msg)
			}
			sym.Assert(string(b) == string(msg), "the caller's bytes are not changed")
			for j := range buf {
				buf[j] = 0xEE // the caller reuses its buffer
			}
			continue
		}
		views := 0
		var got []byte
		view := func(b []byte) {
			views++
			got = append([]byte(nil), b...)
		}
		if sym.Choose("view", 4) == 3 {
			view = nil
		}
		ok := d.Next(view)
		sym.Assert(ok == (len(q) > 0), "Next reports false exactly when nothing is buffered")
		if !ok {
			sym.Assert(views == 0, "nothing is delivered when nothing is buffered")
			continue
		}
		if view != nil {
			sym.Assert(views == 1 && string(got) == string(q[0]), "the oldest message is delivered once with the bytes written")
		}
		q = q[1:]
	}
}

// C28_Wrap: many messages through a small buffer.
func C28_Wrap() {
	size := 1 + sym.Choose("size", 4)
	d := decouplex.NewDecoupler(uint64(size), nil)
	w, r := 0, 0
	for i := 0; i < 3; i++ {
		for w-r < size {
			k, err := d.Write([]byte{byte(w), byte(w + 1)})
			sym.Assert(k == 2 && err == nil, "a buffered write reports its length")
			w++
		}
		k, err := d.Write([]byte{1})
		sym.Assert(k == 1 && err == nil, "without a drop callback a dropped write reports its length")
		for j := 0; j <= i && r < w; j++ {
			ok := d.Next(func(b []byte) {
				sym.Assert(len(b) == 2 && b[0] == byte(r) && b[1] == byte(r+1), "the oldest message is delivered once with the bytes written")
			})
			sym.Assert(ok, "Next reports false exactly when nothing is buffered")
			r++
		}
	}
}

// C28_View: writing from inside the view callback.
func C28_View() {
	size := 1 + sym.Choose("size", 3)
	drops := 0
	d := decouplex.NewDecoupler(uint64(size), func(b []byte) (int, error) { drops++; return len(b), nil })
	x, y := sym.Byte("x"), sym.Byte("y")
	d.Write([]byte{x})
	ok := d.Next(func(b []byte) {
		sym.Assert(len(b) == 1 && b[0] == x, "the oldest message is delivered")
		d.Write([]byte{y})
		sym.Assert(b[0] == x, "a message is not overwritten while it is viewed")
	})
	sym.Assert(ok, "Next reports true when a message is buffered")
	n := 0
	for d.Next(func(b []byte) { sym.Assert(len(b) == 1 && b[0] == y, "the bytes written are delivered") }) {
		n++
	}
	sym.Assert(n+drops == 1, "a write is delivered or dropped")
}

// ---- concurrent writers

func writers(size uint64, ws, each int, readAfter bool) {
	n := ws * each
	drops := make([]int, n)
	deliv := make([]int, n)
	last := make([]int, ws)
	for i := range last {
		last[i] = -1
	}
	x := sym.Byte("x")
	d := decouplex.NewDecoupler(size, func(b []byte) (int, error) {
		sym.Assert(len(b) == 2 && b[1] == x+b[0], "the drop callback gets the message")
		add(&drops[b[0]], 1)
		return 0, errDrop
	})
	done := 0
	var wg sync.WaitGroup
	for w := 0; w < ws; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			b := make([]byte, 2)
			for i := 0; i < each; i++ {
				id := w*each + i
				b[0], b[1] = byte(id), x+byte(id)
				k, err := d.Write(b)
				if add(&drops[id], 0) > 0 {
					sym.Assert(k == 0 && err == errDrop, "the result of the drop callback is returned")
				} else {
					sym.Assert(k == 2 && err == nil, "a buffered write reports its length")
				}
				b[0], b[1] = 0xEE, 0xEE
			}
			add(&done, 1)
		}()
	}
	next := func() bool {
		return d.Next(func(b []byte) {
			sym.Assert(len(b) == 2 && int(b[0]) < n && b[1] == x+b[0], "a message is delivered with exactly its bytes")
			id := int(b[0])
			deliv[id]++
			w := id / each
			sym.Assert(id > last[w], "messages of one writer are delivered in order")
			last[w] = id
		})
	}
	if readAfter {
		wg.Wait()
	} else {
		for i := 0; i < n; i++ {
			all := add(&done, 0) == ws
			if !next() && all {
				break
			}
		}
		wg.Wait()
	}
	for i := 0; i <= n; i++ {
		if !next() {
			break
		}
	}
	for i := range drops {
		sym.Assert(drops[i]+deliv[i] == 1, "every write is delivered exactly once or dropped exactly once")
	}
	sym.Assert(!next(), "the buffer is drained")
}

//sym:opt conc=1 shards=4
func C29_OneWriter() { writers(1, 1, sym.Param("each", 3, 4), false) }

//sym:opt conc=1 shards=8
func C29_TwoWriters() { writers(1, 2, 1, false) }

//sym:opt conc=1 shards=8
func C29_TwoSlots() { writers(2, 2, 1, false) }

//sym:opt conc=1 shards=8
func C29_Burst() { writers(2, 2, 2, true) }

//sym:opt conc=1 shards=8
func C29_ThreeWriters() { writers(2, 3, 1, true) }

//sym:opt conc=1 shards=8
func C29_Reuse() { writers(1, 2, sym.Param("each", 2, 2), false) }

// ---- many of everything

// manyClosers makes n closers of which those at every step-th position from
// start on fail; step 0 means only the one at start.
func manyClosers() (cs []io.Closer, calls *[]int, want []error, n int) {
	ns := []int{9, 16, 17, 32, 33, 63, 64, 65, 66, 130, 257}
	n = ns[sym.Choose("n", len(ns))]
	start := []int{0, 1, n / 2, n - 2, n - 1, n}[sym.Choose("start", 6)]
	step := []int{0, 1, 2, 7}[sym.Choose("step", 4)]
	calls = new([]int)
	for i := 0; i < n; i++ {
		var err error
		if i == start || i > start && step > 0 && (i-start)%step == 0 {
			err = &myErr{i}
			want = append(want, err)
		}
		cs = append(cs, &closer{i, err, calls, nil})
	}
	return
}

// C26_Many: scopes with many closers.
func C26_Many() {
	cs, calls, want, n := manyClosers()
	boomed := sym.Choose("panic", 2) == 1
	var errs []error
	var got any
	func() {
		defer func() { got = recover() }()
		errs = usingx.Close(cs...)(func() {
			sym.Assert(len(*calls) == 0, "nothing is closed before the body has ended")
			if boomed {
				panic("boom")
			}
		})
	}()
	sym.Assert(inOrder(*calls, n), "each closer is closed exactly once, in order")
	if boomed {
		sym.Assert(got == any("boom"), "the panic reaches the caller unchanged")
		return
	}
	sym.Assert(got == nil, "no panic without a panicking body")
	sym.Assert(sameErrs(errs, want), "the result lists exactly the errors, in order")
	sym.Assert((errs == nil) == (len(want) == 0), "the result is nil exactly when nothing failed")
}

// C27_Many: managers with many closers.
func C27_Many() {
	cs, calls, want, n := manyClosers()
	m := mclosex.New()
	for _, c := range cs {
		m.Append(c)
	}
	closeOnce(m, n, calls, want)
}

// C28_Large: larger buffers, filled and emptied more than once.
//
//sym:opt back=20000 depth=2 shards=2
func C28_Large() {
	sizes := []int{5, 7, 8, 9, 15, 16, 17, 33, 64, 65, 130, 257}
	size := sizes[sym.Choose("size", len(sizes))]
	drops := 0
	d := decouplex.NewDecoupler(uint64(size), func(b []byte) (int, error) {
		drops++
		return -7, errDrop
	})
	var q [][]byte
	fill := func(n int) {
		for i := 0; i < n; i++ {
			b := sym.Bytes("m", 1+i%3)
			k, err := d.Write(b)
			if len(q) >= size {
				sym.Assert(drops == 1 && k == -7 && err == errDrop, "a write to a full buffer is dropped")
				drops = 0
				continue
			}
			sym.Assert(drops == 0 && k == len(b) && err == nil, "a write is dropped only when the buffer is full")
			q = append(q, append([]byte(nil), b...))
			b[0]++
		}
	}
	next := func(n int) {
		for i := 0; i < n; i++ {
			views := 0
			ok := d.Next(func(b []byte) {
				views++
				sym.Assert(len(q) > 0 && len(b) == len(q[0]), "the oldest message is delivered")
				for j := range b {
					sym.Assert(b[j] == q[0][j], "the bytes written are delivered")
				}
			})
			sym.Assert(ok == (len(q) > 0) && ok == (views == 1), "Next reports false exactly when nothing is buffered")
			if ok {
				q = q[1:]
			}
		}
	}
	first := []int{1, size / 2, size, size + 1}[sym.Choose("first", 4)]
	fill(first)
	next([]int{1, first / 2, first}[sym.Choose("next", 3)])
	fill(size + 1)
	next(size / 2)
	fill(size)
	next(size + 1)
	fill(2)
	next(3)
}

// C28_Long: long messages.
//
//sym:opt back=20000
func C28_Long() {
	lens := []int{3, 15, 16, 17, 63, 64, 65, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096, 4097}
	d := decouplex.NewDecoupler(2, nil)
	for r := 0; r < 2; r++ {
		a, b := sym.Bytes("a", lens[sym.Choose("len", len(lens))]), sym.Bytes("b", 3)
		buf := append([]byte(nil), a...)
		k, err := d.Write(buf)
		sym.Assert(k == len(a) && err == nil, "a buffered write reports its length")
		for i := range buf {
			buf[i]++
		}
		d.Write(b)
		for i, want := range [][]byte{a, b} {
			ok := d.Next(func(got []byte) {
				sym.Assert(len(got) == len(want), "a message is delivered whole")
				for j := range want {
					sym.Assert(got[j] == want[j], "the bytes written are delivered")
				}
			})
			sym.Assert(ok, "a buffered message is delivered")
			_ = i
		}
	}
}

// C25_Many: many signals, one after the other.
//
//sym:opt conc=1
//sym:replace os/signal.Notify notify
//sym:replace os/signal.Stop stopNotify
//sym:replace os/signal.Reset reset
//sym:replace os/signal.Ignore ignore
func C25_Many() {
	all := []syscall.Signal{syscall.SIGINT, syscall.SIGQUIT, syscall.SIGTERM}
	a, b := sym.Choose("first", 3), sym.Choose("step", 3)
	runs := 0
	subs, ignored = nil, nil
	intr := closex.HandleKillSig(func() { add(&runs, 1) }, log.New(io.Discard, "", 0))
	for i := 0; i < sym.Param("n", 12, 40); i++ {
		deliver(all[(a+i*b)%3])
		if i%2 == 0 {
			sym.Settle()
			sym.Assert(isClosed(intr.C) && add(&runs, 0) == 1, "the handler runs exactly once and the channel is closed")
		}
	}
	sym.Settle()
	sym.Assert(isClosed(intr.C) && add(&runs, 0) == 1, "further signals change nothing")
}
