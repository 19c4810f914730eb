// Package models holds the environment stubs of the encoding: contracts of
// library code whose implementation is below the level of the encoding
// (semaphores, timers, pools, cryptography). They are part of every claim that
// lists them.
package models

import (
	"sync"
	"sync/atomic"
	"unsafe"

	"github.com/unsafe-risk/utilx/zzverif/sym"
)

// ---- sync.Mutex

type mutexHdr struct {
	state int32
	sema  uint32
}

//sym:model (*sync.Mutex).Lock
func mutexLock(m *sync.Mutex) {
	h := (*mutexHdr)(unsafe.Pointer(m))
	sym.WaitZero(&h.state)
	sym.Acquire(&h.state)
	h.state = 1
}

//sym:model (*sync.Mutex).TryLock
func mutexTryLock(m *sync.Mutex) bool {
	h := (*mutexHdr)(unsafe.Pointer(m))
	sym.Step()
	if h.state != 0 {
		return false
	}
	sym.Acquire(&h.state)
	h.state = 1
	return true
}

//sym:model (*sync.Mutex).Unlock
func mutexUnlock(m *sync.Mutex) {
	h := (*mutexHdr)(unsafe.Pointer(m))
	if h.state == 0 {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	sym.Release(&h.state)
	h.state = 0
}

// ---- sync.RWMutex: a pending writer blocks new readers

type rwHdr struct {
	wl   int32
	sema uint32
	ws   uint32
	rs   uint32
	r    int32
	rw   int32
}

//sym:model (*sync.RWMutex).Lock
func rwLock(m *sync.RWMutex) {
	h := (*rwHdr)(unsafe.Pointer(m))
	sym.WaitZero(&h.wl)
	h.wl = 1
	if h.r != 0 {
		sym.WaitZero(&h.r)
	}
	sym.Acquire(&h.wl)
	sym.Acquire(&h.r)
}

//sym:model (*sync.RWMutex).Unlock
func rwUnlock(m *sync.RWMutex) {
	h := (*rwHdr)(unsafe.Pointer(m))
	if h.wl == 0 {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	sym.Release(&h.wl)
	h.wl = 0
}

//sym:model (*sync.RWMutex).RLock
func rwRLock(m *sync.RWMutex) {
	h := (*rwHdr)(unsafe.Pointer(m))
	sym.WaitZero(&h.wl)
	sym.Acquire(&h.wl)
	h.r++
}

//sym:model (*sync.RWMutex).RUnlock
func rwRUnlock(m *sync.RWMutex) {
	h := (*rwHdr)(unsafe.Pointer(m))
	if h.r <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	sym.Release(&h.r)
	h.r--
}

//sym:model (*sync.RWMutex).TryLock
func rwTryLock(m *sync.RWMutex) bool {
	h := (*rwHdr)(unsafe.Pointer(m))
	sym.Step()
	if h.wl != 0 || h.r != 0 {
		return false
	}
	sym.Acquire(&h.wl)
	sym.Acquire(&h.r)
	h.wl = 1
	return true
}

//sym:model (*sync.RWMutex).TryRLock
func rwTryRLock(m *sync.RWMutex) bool {
	h := (*rwHdr)(unsafe.Pointer(m))
	sym.Step()
	if h.wl != 0 {
		return false
	}
	sym.Acquire(&h.wl)
	h.r++
	return true
}

// ---- sync.Cond: waiters are woken in the order in which they began to wait

type condHdr struct {
	L      sync.Locker
	wait   uint32
	notify uint32
	lock   uintptr
	head   unsafe.Pointer
}

type condState struct{ waiting []*int32 }

func condOf(c *sync.Cond) *condState {
	h := (*condHdr)(unsafe.Pointer(c))
	s := (*condState)(h.head)
	if s == nil {
		s = &condState{}
		h.head = unsafe.Pointer(s)
	}
	return s
}

//sym:model (*sync.Cond).Wait
func condWait(c *sync.Cond) {
	f := new(int32)
	sym.Step()
	s := condOf(c)
	s.waiting = append(s.waiting, f)
	c.L.Unlock()
	sym.WaitNonZero(f)
	sym.Acquire(f)
	c.L.Lock()
}

//sym:model (*sync.Cond).Signal
func condSignal(c *sync.Cond) {
	sym.Step()
	s := condOf(c)
	if len(s.waiting) == 0 {
		return
	}
	f := s.waiting[0]
	s.waiting = append([]*int32(nil), s.waiting[1:]...)
	sym.Release(f)
	*f = 1
}

//sym:model (*sync.Cond).Broadcast
func condBroadcast(c *sync.Cond) {
	sym.Step()
	s := condOf(c)
	for _, f := range s.waiting {
		sym.Release(f)
		*f = 1
	}
	s.waiting = nil
}

// ---- sync.WaitGroup

type wgHdr struct {
	n    int64
	sema uint32
}

//sym:model (*sync.WaitGroup).Add
func wgAdd(w *sync.WaitGroup, d int) {
	h := (*wgHdr)(unsafe.Pointer(w))
	sym.Step()
	h.n += int64(d)
	if h.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

//sym:model (*sync.WaitGroup).Done
func wgDone(w *sync.WaitGroup) { wgAdd(w, -1) }

//sym:model (*sync.WaitGroup).Wait
func wgWait(w *sync.WaitGroup) {
	h := (*wgHdr)(unsafe.Pointer(w))
	sym.WaitZero((*int32)(unsafe.Pointer(&h.n)))
}

// ---- sync.Pool: Get may return any object put before, or a new one; objects
// may be dropped at any time. One policy is chosen per path (quick) or one
// choice per Get (thorough).

type poolHdr struct {
	local      unsafe.Pointer
	localSize  uintptr
	victim     unsafe.Pointer
	victimSize uintptr
	New        func() any
}

type poolState struct {
	items []any
}

var poolPolicy = -1

//sym:model (*sync.Pool).Get
func poolGet(p *sync.Pool) any {
	h := (*poolHdr)(unsafe.Pointer(p))
	sym.Step()
	s := (*poolState)(h.local)
	n := 0
	if s != nil {
		n = len(s.items)
	}
	if n == 0 {
		if h.New != nil {
			return h.New()
		}
		return nil
	}
	k := n
	if sym.Param("poolfree", 0, 1) == 1 {
		k = sym.Choose("pool", n+1)
	} else {
		if poolPolicy < 0 {
			poolPolicy = sym.Choose("poolpolicy", 3)
		}
		switch poolPolicy {
		case 0:
			k = n - 1
		case 1:
			k = 0
		}
	}
	if k == n {
		if h.New != nil {
			return h.New()
		}
		return nil
	}
	x := s.items[k]
	s.items = append(s.items[:k:k], s.items[k+1:]...)
	return x
}

//sym:model (*sync.Pool).Put
func poolPut(p *sync.Pool, x any) {
	if x == nil {
		return
	}
	h := (*poolHdr)(unsafe.Pointer(p))
	sym.Step()
	s := (*poolState)(h.local)
	if s == nil {
		s = new(poolState)
		h.local = unsafe.Pointer(s)
	}
	s.items = append(s.items, x)
}

// ---- atomic.Value

type valueHdr struct{ v any }

//sym:model (*sync/atomic.Value).Load
func valueLoad(p *atomic.Value) any {
	sym.Step()
	return (*valueHdr)(unsafe.Pointer(p)).v
}

//sym:model (*sync/atomic.Value).Store
func valueStore(p *atomic.Value, x any) {
	if x == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	sym.Step()
	(*valueHdr)(unsafe.Pointer(p)).v = x
}

//sym:model (*sync/atomic.Value).Swap
func valueSwap(p *atomic.Value, x any) any {
	if x == nil {
		panic("sync/atomic: swap of nil value into Value")
	}
	sym.Step()
	h := (*valueHdr)(unsafe.Pointer(p))
	o := h.v
	h.v = x
	return o
}

//sym:model (*sync/atomic.Value).CompareAndSwap
func valueCAS(p *atomic.Value, o, x any) bool {
	sym.Step()
	h := (*valueHdr)(unsafe.Pointer(p))
	if h.v != o {
		return false
	}
	h.v = x
	return true
}
