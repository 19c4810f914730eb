From f1c03be82158190eb0ff8c94d2391a7ebd1c77f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:56 +0000
Subject: [PATCH 01/31] fix: linked queue returns the dequeued element and
 resets recycled nodes

---
 dsx/linkedx/queuex/queuex.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dsx/linkedx/queuex/queuex.go b/dsx/linkedx/queuex/queuex.go
index 38627c4..4b9e56d 100644
--- a/dsx/linkedx/queuex/queuex.go
+++ b/dsx/linkedx/queuex/queuex.go
@@ -46,9 +46,15 @@ func (q *Queue[T]) Dequeue() (data T, ok bool) {
 	if q.head == nil {
 		return
 	}
-	q.pool.Put(q.head)
-	q.head = q.head.next
-	return q.head.data, true
+	n := q.head
+	data = n.data
+	q.head = n.next
+	if q.head == nil {
+		q.tail = nil
+	}
+	*n = node[T]{}
+	q.pool.Put(n)
+	return data, true
 }
 
 func (q *Queue[T]) Peek() (data T, ok bool) {
-- 
2.43.0


From ce5995b8b4e6af304c47af70f8bb9548385944bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:57 +0000
Subject: [PATCH 02/31] fix: linked stack pops the top element

---
 dsx/linkedx/stackx/stackx.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dsx/linkedx/stackx/stackx.go b/dsx/linkedx/stackx/stackx.go
index 93b5216..21b1377 100644
--- a/dsx/linkedx/stackx/stackx.go
+++ b/dsx/linkedx/stackx/stackx.go
@@ -43,9 +43,12 @@ func (s *Stack[T]) Pop() (data T, ok bool) {
 		return
 	}
 	s.length--
-	s.pool.Put(s.head)
-	s.head = s.head.next
-	return s.head.data, true
+	n := s.head
+	data = n.data
+	s.head = n.next
+	*n = node[T]{}
+	s.pool.Put(n)
+	return data, true
 }
 
 func (s *Stack[T]) Peek() (data T, ok bool) {
-- 
2.43.0


From 9b9e24a8905467b9382a98ee5f20db947a7bf58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:57 +0000
Subject: [PATCH 03/31] fix: linked list keeps tail and length consistent on
 Insert and Remove

---
 dsx/linkedx/listx/listx.go | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/dsx/linkedx/listx/listx.go b/dsx/linkedx/listx/listx.go
index d136036..d8c4d73 100644
--- a/dsx/linkedx/listx/listx.go
+++ b/dsx/linkedx/listx/listx.go
@@ -45,6 +45,13 @@ func (l *List[T]) Append(data T) {
 }
 
 func (l *List[T]) Insert(index int, data T) {
+	if index < 0 || index > l.length {
+		return
+	}
+	if index == l.length {
+		l.Append(data)
+		return
+	}
 	l.length++
 	n := l.pool.Get().(*node[T])
 	n.data = data
@@ -54,11 +61,6 @@ func (l *List[T]) Insert(index int, data T) {
 		l.head = n
 		return
 	}
-	if index == l.Len() {
-		l.tail.next = n
-		l.tail = n
-		return
-	}
 	i := 0
 	for p := l.head; p != nil; p = p.next {
 		if i == index-1 {
@@ -71,14 +73,19 @@ func (l *List[T]) Insert(index int, data T) {
 }
 
 func (l *List[T]) Remove(index int) (rs T, ok bool) {
+	if index < 0 || index >= l.length {
+		return
+	}
 	l.length--
 	if index == 0 {
+		n := l.head
+		rs = n.data
+		l.head = n.next
 		if l.head == nil {
-			return
+			l.tail = nil
 		}
-		rs = l.head.data
-		l.pool.Put(l.head)
-		l.head = l.head.next
+		*n = node[T]{}
+		l.pool.Put(n)
 		ok = true
 		return
 	}
@@ -88,9 +95,14 @@ func (l *List[T]) Remove(index int) (rs T, ok bool) {
 			if p.next == nil {
 				return
 			}
-			rs = p.next.data
-			l.pool.Put(p.next)
-			p.next = p.next.next
+			n := p.next
+			rs = n.data
+			p.next = n.next
+			if p.next == nil {
+				l.tail = p
+			}
+			*n = node[T]{}
+			l.pool.Put(n)
 			ok = true
 			return
 		}
-- 
2.43.0


From cd0ae0a5e28263e5a326d004e1676b1826882203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 04/31] fix: deque resets both ends when emptied and clears
 recycled blocks

---
 dsx/linkedx/dequex/dequex.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dsx/linkedx/dequex/dequex.go b/dsx/linkedx/dequex/dequex.go
index d8adff5..a58e9ec 100644
--- a/dsx/linkedx/dequex/dequex.go
+++ b/dsx/linkedx/dequex/dequex.go
@@ -89,11 +89,15 @@ func (t *Deque[T]) PopFront() (data T, ok bool) {
 	data = t.head.data[t.head.start]
 	t.head.start++
 	if t.head.start == t.head.end {
-		t.pool.Put(t.head)
-		t.head = t.head.next
+		n := t.head
+		t.head = n.next
 		if t.head != nil {
 			t.head.prev = nil
+		} else {
+			t.tail = nil
 		}
+		*n = node[T]{}
+		t.pool.Put(n)
 	}
 	return data, true
 }
@@ -105,11 +109,15 @@ func (t *Deque[T]) PopBack() (data T, ok bool) {
 	t.tail.end--
 	data = t.tail.data[t.tail.end]
 	if t.tail.start == t.tail.end {
-		t.pool.Put(t.tail)
-		t.tail = t.tail.prev
+		n := t.tail
+		t.tail = n.prev
 		if t.tail != nil {
 			t.tail.next = nil
+		} else {
+			t.head = nil
 		}
+		*n = node[T]{}
+		t.pool.Put(n)
 	}
 	return data, true
 }
-- 
2.43.0


From a22dd0241391776de52dcebfb477b09998d832cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 05/31] fix: ring queue allocates the spare slot its indices
 use

---
 dsx/slicex/queuex/queuex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsx/slicex/queuex/queuex.go b/dsx/slicex/queuex/queuex.go
index c4aa0d8..fbe7081 100644
--- a/dsx/slicex/queuex/queuex.go
+++ b/dsx/slicex/queuex/queuex.go
@@ -18,7 +18,7 @@ func New[T any](cap int) *Ring[T] {
 		return nil
 	}
 	return &Ring[T]{
-		data: make([]T, cap),
+		data: make([]T, cap+1),
 		cap:  cap + 1,
 		head: 0,
 		tail: 0,
-- 
2.43.0


From 1c59c6cc2b21b3bad4b62cbfbd7926804417340e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 06/31] fix: Splice does not write into the spare capacity of
 its arguments

---
 dsx/slicex/slicex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsx/slicex/slicex.go b/dsx/slicex/slicex.go
index 08cdfc1..75d27e6 100644
--- a/dsx/slicex/slicex.go
+++ b/dsx/slicex/slicex.go
@@ -58,7 +58,7 @@ func (s *Slice[T]) Slice(i, j int) *Slice[T] {
 
 func (s *Slice[T]) Splice(i, j int, v ...T) *Slice[T] {
 	preprocIndexException(&i, &j, len(*s))
-	*s = append((*s)[:i], append(v, (*s)[j:]...)...)
+	*s = append((*s)[:i], append(v[:len(v):len(v)], (*s)[j:]...)...)
 	return s
 }
 
-- 
2.43.0


From 271b11c88c1e6a06cd26e51dcf750337c096d8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 07/31] fix: Delete ignores the largest int as any other index
 past the end

---
 dsx/slicex/slicex.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsx/slicex/slicex.go b/dsx/slicex/slicex.go
index 75d27e6..0800e16 100644
--- a/dsx/slicex/slicex.go
+++ b/dsx/slicex/slicex.go
@@ -75,6 +75,9 @@ func (s *Slice[T]) Cut(i, j int) *Slice[T] {
 }
 
 func (s *Slice[T]) Delete(i int) *Slice[T] {
+	if i >= len(*s) {
+		return s
+	}
 	return s.Cut(i, i+1)
 }
 
-- 
2.43.0


From 34072293d013fae0ef18527880d26ba10b5c7ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 08/31] fix: DeleteReplace clamps to the last element and
 accepts an empty slice

---
 dsx/slicex/slicex.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsx/slicex/slicex.go b/dsx/slicex/slicex.go
index 0800e16..40a668f 100644
--- a/dsx/slicex/slicex.go
+++ b/dsx/slicex/slicex.go
@@ -110,7 +110,10 @@ func (s *Slice[T]) Shift() T {
 }
 
 func (s *Slice[T]) DeleteReplace(i int) *Slice[T] {
-	preprocIndexException(&i, nil, len(*s))
+	if len(*s) == 0 {
+		return s
+	}
+	preprocIndexException(&i, nil, len(*s)-1)
 	(*s)[i] = (*s)[len(*s)-1]
 	*s = (*s)[:len(*s)-1]
 	return s
-- 
2.43.0


From 5a345a71e1b6f337b1fe1ede125bf736dc4ce8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 09/31] fix: Rotate accepts the smallest int

---
 dsx/slicex/slicex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsx/slicex/slicex.go b/dsx/slicex/slicex.go
index 40a668f..f9dced8 100644
--- a/dsx/slicex/slicex.go
+++ b/dsx/slicex/slicex.go
@@ -135,7 +135,7 @@ func (s *Slice[T]) Rotate(n int) *Slice[T] {
 		index := n % len(*s)
 		*s = append((*s)[index:], (*s)[:index]...)
 	} else if n < 0 {
-		index := -n % len(*s)
+		index := -(n % len(*s))
 		*s = append((*s)[len(*s)-index:], (*s)[:len(*s)-index]...)
 	}
 	return s
-- 
2.43.0


From 01bedee367487fb9196b0d0f1888242bdbbbd6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 10/31] fix: Repeat treats a negative count as zero

---
 dsx/slicex/slicex.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsx/slicex/slicex.go b/dsx/slicex/slicex.go
index f9dced8..94bf2d4 100644
--- a/dsx/slicex/slicex.go
+++ b/dsx/slicex/slicex.go
@@ -161,6 +161,9 @@ func (s *Slice[T]) Filter(f func(T) bool) *Slice[T] {
 }
 
 func (s *Slice[T]) Repeat(cnt int) *Slice[T] {
+	if cnt < 0 {
+		cnt = 0
+	}
 	repeat := make(Slice[T], 0, len(*s)*cnt)
 	for i := 0; i < cnt; i++ {
 		repeat = append(repeat, *s...)
-- 
2.43.0


From e5d596813916cc8dc40fc1caba18b84cdce3778e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 11/31] fix: Split cuts sizes that would overflow the position

---
 dsx/slicex/slicex.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsx/slicex/slicex.go b/dsx/slicex/slicex.go
index 94bf2d4..c085ce1 100644
--- a/dsx/slicex/slicex.go
+++ b/dsx/slicex/slicex.go
@@ -177,6 +177,9 @@ func (s Slice[T]) Split(splits ...int) []Slice[T] {
 	var end int
 	for i := 0; i < len(splits); i++ {
 		endNext := end + splits[i]
+		if splits[i] > len(s)-end {
+			endNext = len(s)
+		}
 		preprocIndexException(&endNext, nil, len(s))
 		if endNext < end {
 			r = append(r, s[endNext:end])
-- 
2.43.0


From 6a214fd20a7a374aab01d92bc26e9aaa4a2c2afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:17 +0000
Subject: [PATCH 12/31] fix: skip-list iterator keeps reporting the end after
 the last entry

---
 dsx/mapx/sklmapx/sklmapx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsx/mapx/sklmapx/sklmapx.go b/dsx/mapx/sklmapx/sklmapx.go
index be8685d..b55215a 100644
--- a/dsx/mapx/sklmapx/sklmapx.go
+++ b/dsx/mapx/sklmapx/sklmapx.go
@@ -213,7 +213,7 @@ func (i *Iterator[K, V]) Rewind() {
 func (i *Iterator[K, V]) Next() (K, V, bool) {
 	if i.node == nil {
 		i.node = i.list.skl.head.next[0]
-	} else {
+	} else if i.node != i.list.skl.tail {
 		i.node = i.node.next[0]
 	}
 	if i.node == i.list.skl.tail {
-- 
2.43.0


From b4d144d4f90b0d7f1e84b00e68fc9e7dcefc0064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 13/31] fix: Sort honours its reverse argument

---
 algox/sortx/sortx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/algox/sortx/sortx.go b/algox/sortx/sortx.go
index c43c333..2d87a18 100644
--- a/algox/sortx/sortx.go
+++ b/algox/sortx/sortx.go
@@ -6,6 +6,10 @@ import (
 )
 
 func Sort[T constraints.Ordered](s []T, reverse bool) {
+	if reverse {
+		SortReverse(s)
+		return
+	}
 	SortCustom(s, func(i, j T) bool {
 		return i < j
 	})
-- 
2.43.0


From cd2c92a86e3f70cde9baab8836709fa6263ed460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 14/31] fix: Lock does not spin forever on a value that is not
 its own address

---
 syncx/lockx/lockx.go | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/syncx/lockx/lockx.go b/syncx/lockx/lockx.go
index ce07a8c..47217f8 100644
--- a/syncx/lockx/lockx.go
+++ b/syncx/lockx/lockx.go
@@ -1,19 +1,41 @@
 package lockx
 
 import (
-	"runtime"
-	"sync/atomic"
+	"sync"
 	"unsafe"
 )
 
+type entry struct {
+	mu   sync.Mutex
+	refs int
+}
+
+var (
+	mu    sync.Mutex
+	locks = map[unsafe.Pointer]*entry{}
+)
+
+// Lock runs f while holding the lock associated with the pointer l.
 func Lock[T any](l *T, f func(*T)) {
-	p := l
-	for !atomic.CompareAndSwapPointer((*unsafe.Pointer)(unsafe.Pointer(l)), unsafe.Pointer(p), nil) {
-		runtime.Gosched()
-		p = l
-	}
-	f(p)
-	for !atomic.CompareAndSwapPointer((*unsafe.Pointer)(unsafe.Pointer(l)), nil, unsafe.Pointer(p)) {
-		runtime.Gosched()
+	p := unsafe.Pointer(l)
+	mu.Lock()
+	e, ok := locks[p]
+	if !ok {
+		e = new(entry)
+		locks[p] = e
 	}
+	e.refs++
+	mu.Unlock()
+
+	e.mu.Lock()
+	defer func() {
+		e.mu.Unlock()
+		mu.Lock()
+		e.refs--
+		if e.refs == 0 {
+			delete(locks, p)
+		}
+		mu.Unlock()
+	}()
+	f(l)
 }
-- 
2.43.0


From 71bcb6ebd19860524f9f5ed788f3d475903a0909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:53 +0000
Subject: [PATCH 15/31] fix: a second termination signal does not close the
 channel again

---
 osx/closex/closex.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/osx/closex/closex.go b/osx/closex/closex.go
index d51a242..44cc059 100644
--- a/osx/closex/closex.go
+++ b/osx/closex/closex.go
@@ -19,8 +19,13 @@ func HandleKillSig(handler func(), logger *log.Logger) interrupt {
 
 	signal.Notify(sigChannel, syscall.SIGINT, syscall.SIGQUIT, syscall.SIGTERM)
 	go func() {
+		closed := false
 		for signal := range sigChannel {
 			logger.Printf("Receive signal %s, Shutting down...", signal)
+			if closed {
+				continue
+			}
+			closed = true
 			handler()
 			close(intr.C)
 		}
-- 
2.43.0


From 516142dadd3546736146b81665141bebce099c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:53 +0000
Subject: [PATCH 16/31] fix: CloseManager.Close returns nil when nothing failed

---
 iox/managerx/closex/manager.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iox/managerx/closex/manager.go b/iox/managerx/closex/manager.go
index 5a6b954..766bc42 100644
--- a/iox/managerx/closex/manager.go
+++ b/iox/managerx/closex/manager.go
@@ -36,5 +36,9 @@ func (c *CloseManager) Close() error {
 		}
 	}
 
+	if len(errs) == 0 {
+		return nil
+	}
+
 	return errs
 }
-- 
2.43.0


From afb797fb655f5a6c1fac431e2c72bd97b17ef626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:53 +0000
Subject: [PATCH 17/31] fix: a dropped write does not consume a decoupler
 ticket

---
 iox/decouplex/decouple.go | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/iox/decouplex/decouple.go b/iox/decouplex/decouple.go
index c53b894..5ada910 100644
--- a/iox/decouplex/decouple.go
+++ b/iox/decouplex/decouple.go
@@ -50,27 +50,23 @@ func (d *Decoupler) Write(b []byte) (int, error) {
 		return d.drop(b)
 	}
 
+	// Reserve room before taking a ticket, a dropped write must not use one up.
 	for {
-		ts := atomic.AddUint64(&d._write, 1)
-		idx := ts % d.size
-
-		lock := atomic.LoadUint64(&d.locktab[idx])
-		if lock == empty {
-			if !atomic.CompareAndSwapUint64(&d.locktab[idx], empty, busy) {
-				continue
-			}
-			d.buffer[idx] = append(d.buffer[idx][:0], b...)
-			atomic.StoreUint64(&d.locktab[idx], ts)
-			atomic.AddUint64(&d._len, 1)
-			return len(b), nil
+		n := atomic.LoadUint64(&d._len)
+		if n >= d.size {
+			return d.drop(b)
 		}
-
-		if lock != busy {
-			if atomic.LoadUint64(&d._len) == d.size {
-				return d.drop(b)
-			}
+		if atomic.CompareAndSwapUint64(&d._len, n, n+1) {
+			break
 		}
 	}
+
+	// At most size tickets are outstanding, so the slot of this one is empty.
+	ts := atomic.AddUint64(&d._write, 1)
+	idx := ts % d.size
+	d.buffer[idx] = append(d.buffer[idx][:0], b...)
+	atomic.StoreUint64(&d.locktab[idx], ts)
+	return len(b), nil
 }
 
 func (d *Decoupler) Next(view func([]byte)) bool {
-- 
2.43.0


From 3b44f81197369eb61a00e1ab90cd52ee85197088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:53 +0000
Subject: [PATCH 18/31] fix: preheating does not exceed the worker limit

---
 poolx/gopoolx/timedpool.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/poolx/gopoolx/timedpool.go b/poolx/gopoolx/timedpool.go
index aedcf63..497e0dc 100644
--- a/poolx/gopoolx/timedpool.go
+++ b/poolx/gopoolx/timedpool.go
@@ -50,6 +50,10 @@ func (pool *TimedPool[T]) start(preheat int) {
 	})
 	pool.stop = make(chan struct{})
 
+	if int64(preheat) > pool.maxWorkers {
+		preheat = int(pool.maxWorkers)
+	}
+
 	if preheat > 0 {
 		pool.workers = int64(preheat)
 		for i := 0; i < preheat; i++ {
-- 
2.43.0


From fda13adaab768eeea6451fa3a1b381b57f5c938f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:53 +0000
Subject: [PATCH 19/31] fix: a preheated worker keeps the channel it was
 started with

---
 poolx/gopoolx/timedpool.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/poolx/gopoolx/timedpool.go b/poolx/gopoolx/timedpool.go
index 497e0dc..3d2d291 100644
--- a/poolx/gopoolx/timedpool.go
+++ b/poolx/gopoolx/timedpool.go
@@ -29,8 +29,8 @@ type TimedPool[T any] struct {
 	dobby   []*timedworker[T]
 }
 
-func tworker[T any](pool *TimedPool[T], w *timedworker[T]) {
-	for v := range w.ch {
+func tworker[T any](pool *TimedPool[T], w *timedworker[T], ch chan T) {
+	for v := range ch {
 		pool.handler(v)
 		if pool.free(w) {
 			return
@@ -60,7 +60,7 @@ func (pool *TimedPool[T]) start(preheat int) {
 			w := pool.pool.Get()
 			w.tt = time.Now().UnixNano()
 			pool.dobby = append(pool.dobby, w)
-			go tworker(pool, w)
+			go tworker(pool, w, w.ch)
 		}
 	}
 
@@ -164,7 +164,7 @@ func (pool *TimedPool[T]) Run(v T) (ok bool) {
 			pool.workers++
 			w = pool.pool.Get()
 			w.ch = make(chan T, 1)
-			go tworker(pool, w)
+			go tworker(pool, w, w.ch)
 		} else {
 			pool.mu.Unlock()
 			return false
-- 
2.43.0


From d0db83e6704a4c14e0c411e89ed12a4bb512cabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:53 +0000
Subject: [PATCH 20/31] fix: Stop drains the pool before it returns and may be
 called concurrently

---
 poolx/gopoolx/timedpool.go | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/poolx/gopoolx/timedpool.go b/poolx/gopoolx/timedpool.go
index 3d2d291..7298a04 100644
--- a/poolx/gopoolx/timedpool.go
+++ b/poolx/gopoolx/timedpool.go
@@ -75,10 +75,6 @@ func (pool *TimedPool[T]) start(preheat int) {
 			case <-ticker.C:
 				pool.mu.Lock()
 				if pool.maxWorkers == -1 {
-					// Stop All Workers
-					for _, w := range pool.dobby {
-						close(w.ch)
-					}
 					pool.mu.Unlock()
 					return
 				}
@@ -115,17 +111,6 @@ func (pool *TimedPool[T]) start(preheat int) {
 				wbuffer = wbuffer[:0]
 
 			case <-pool.stop:
-				pool.mu.Lock()
-				pool.maxWorkers = -1
-				for i := range pool.dobby {
-					close(pool.dobby[i].ch)
-					// Drop All Workers
-					// pool.dobby[i].tt = 0
-					// pool.dobby[i].ch = nil
-					// pool.pool.Put(pool.dobby[i])
-					// pool.dobby[i] = nil
-				}
-				pool.mu.Unlock()
 				return
 			}
 		}
@@ -209,11 +194,16 @@ func NewTimedPool[T any](maxWorkers int64, handler func(T), idleTimeout, gcPerio
 }
 
 func (pool *TimedPool[T]) Stop() {
-	if pool.stop == nil {
+	pool.mu.Lock()
+	defer pool.mu.Unlock()
+	if pool.maxWorkers == -1 {
 		return
 	}
-	pool.stop <- struct{}{}
-	pool.stop = nil
+	pool.maxWorkers = -1
+	for i := range pool.dobby {
+		close(pool.dobby[i].ch)
+	}
+	close(pool.stop)
 }
 
 func (pool *TimedPool[T]) Workers() int64 {
-- 
2.43.0


From e902ec29d2df3f426192fde02f475b74d3220788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 21/31] fix: converters of interface types have their own
 registry keys

---
 typex/convx/convx.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/typex/convx/convx.go b/typex/convx/convx.go
index d8dd152..56fee92 100644
--- a/typex/convx/convx.go
+++ b/typex/convx/convx.go
@@ -8,44 +8,49 @@ import (
 var converters = make(map[reflect.Type]map[reflect.Type]any)
 var convertersLock = sync.RWMutex{}
 
+// typeOf returns the type T itself, also when T is an interface type.
+func typeOf[T any]() reflect.Type {
+	return reflect.TypeOf((*T)(nil)).Elem()
+}
+
 func Register[T, R any](converter func(T) R) {
 	convertersLock.Lock()
 	defer convertersLock.Unlock()
-	if converters[reflect.TypeOf(*new(T))] == nil {
-		converters[reflect.TypeOf(*new(T))] = make(map[reflect.Type]any)
+	if converters[typeOf[T]()] == nil {
+		converters[typeOf[T]()] = make(map[reflect.Type]any)
 	}
-	converters[reflect.TypeOf(*new(T))][reflect.TypeOf(*new(R))] = converter
+	converters[typeOf[T]()][typeOf[R]()] = converter
 }
 
 func Unregister[T, R any]() {
 	convertersLock.Lock()
 	defer convertersLock.Unlock()
-	m := converters[reflect.TypeOf(*new(T))]
+	m := converters[typeOf[T]()]
 	if m == nil {
 		return
 	}
-	delete(m, reflect.TypeOf(*new(R)))
+	delete(m, typeOf[R]())
 }
 
 func Exists[T, R any]() bool {
 	convertersLock.RLock()
 	defer convertersLock.RUnlock()
-	m := converters[reflect.TypeOf(*new(T))]
+	m := converters[typeOf[T]()]
 	if m == nil {
 		return false
 	}
-	_, ok := m[reflect.TypeOf(*new(R))]
+	_, ok := m[typeOf[R]()]
 	return ok
 }
 
 func Into[T, R any](value T) (rs R, ok bool) {
 	convertersLock.RLock()
 	defer convertersLock.RUnlock()
-	m := converters[reflect.TypeOf(value)]
+	m := converters[typeOf[T]()]
 	if m == nil {
 		return
 	}
-	v := m[reflect.TypeOf(rs)]
+	v := m[typeOf[R]()]
 	if v == nil {
 		return
 	}
-- 
2.43.0


From 69d5e8fc6f888e725955ead5b5662ecb0af82dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 22/31] fix: a converter may use the registry itself

---
 typex/convx/convx.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/typex/convx/convx.go b/typex/convx/convx.go
index 56fee92..c694c94 100644
--- a/typex/convx/convx.go
+++ b/typex/convx/convx.go
@@ -43,14 +43,18 @@ func Exists[T, R any]() bool {
 	return ok
 }
 
-func Into[T, R any](value T) (rs R, ok bool) {
+func lookup[T, R any]() any {
 	convertersLock.RLock()
 	defer convertersLock.RUnlock()
 	m := converters[typeOf[T]()]
 	if m == nil {
-		return
+		return nil
 	}
-	v := m[typeOf[R]()]
+	return m[typeOf[R]()]
+}
+
+func Into[T, R any](value T) (rs R, ok bool) {
+	v := lookup[T, R]()
 	if v == nil {
 		return
 	}
-- 
2.43.0


From ae6d0532c1a364b039c5c8a9365c131ee5a9682f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:04 +0000
Subject: [PATCH 23/31] fix: short or misaligned AES input is an error, not a
 panic

---
 cryptox/aesx/aesx.go | 7 +++++++
 cryptox/aesx/cbcx.go | 9 +++++++++
 cryptox/aesx/ctrx.go | 3 +++
 cryptox/aesx/gcmx.go | 3 +++
 4 files changed, 22 insertions(+)

diff --git a/cryptox/aesx/aesx.go b/cryptox/aesx/aesx.go
index 3d6349e..986b94d 100644
--- a/cryptox/aesx/aesx.go
+++ b/cryptox/aesx/aesx.go
@@ -1 +1,8 @@
 package aesx
+
+import "errors"
+
+var (
+	ErrCiphertextTooShort = errors.New("ciphertext too short")
+	ErrNotBlockMultiple   = errors.New("length is not a multiple of the block size")
+)
diff --git a/cryptox/aesx/cbcx.go b/cryptox/aesx/cbcx.go
index 35f95cf..d86f5f2 100644
--- a/cryptox/aesx/cbcx.go
+++ b/cryptox/aesx/cbcx.go
@@ -13,6 +13,9 @@ func EncryptCBC(data []byte, key []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(data)%block.BlockSize() != 0 {
+		return nil, ErrNotBlockMultiple
+	}
 	iv := make([]byte, block.BlockSize())
 	if _, err := rand.Read(iv); err != nil {
 		return nil, err
@@ -30,6 +33,12 @@ func DecryptCBC(data []byte, key []byte) ([]byte, error) {
 		return nil, err
 	}
 	ivSize := block.BlockSize()
+	if len(data) < ivSize {
+		return nil, ErrCiphertextTooShort
+	}
+	if len(data)%ivSize != 0 {
+		return nil, ErrNotBlockMultiple
+	}
 	iv, ciphertext := data[:ivSize], data[ivSize:]
 	mode := cipher.NewCBCDecrypter(block, iv)
 	result := make([]byte, len(ciphertext))
diff --git a/cryptox/aesx/ctrx.go b/cryptox/aesx/ctrx.go
index 032178e..73025a2 100644
--- a/cryptox/aesx/ctrx.go
+++ b/cryptox/aesx/ctrx.go
@@ -30,6 +30,9 @@ func DecryptCTR(data []byte, key []byte) ([]byte, error) {
 		return nil, err
 	}
 	ivSize := block.BlockSize()
+	if len(data) < ivSize {
+		return nil, ErrCiphertextTooShort
+	}
 	iv, ciphertext := data[:ivSize], data[ivSize:]
 	mode := cipher.NewCTR(block, iv)
 	result := make([]byte, len(ciphertext))
diff --git a/cryptox/aesx/gcmx.go b/cryptox/aesx/gcmx.go
index 5724a0b..70ba9eb 100644
--- a/cryptox/aesx/gcmx.go
+++ b/cryptox/aesx/gcmx.go
@@ -36,6 +36,9 @@ func DecryptGCM(data []byte, key []byte) ([]byte, error) {
 		return nil, err
 	}
 	nonceSize := aead.NonceSize()
+	if len(data) < nonceSize {
+		return nil, ErrCiphertextTooShort
+	}
 	nonce, ciphertext := data[:nonceSize], data[nonceSize:]
 	result, err := aead.Open(nil, nonce, ciphertext, nil)
 	if err != nil {
-- 
2.43.0


From 5a1bc46454745aae2c1b1563e89fa466a89b3e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:04 +0000
Subject: [PATCH 24/31] fix: a password longer than bcrypt can distinguish
 never verifies

---
 cryptox/bcryptx/bcryptx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cryptox/bcryptx/bcryptx.go b/cryptox/bcryptx/bcryptx.go
index 086716c..6367733 100644
--- a/cryptox/bcryptx/bcryptx.go
+++ b/cryptox/bcryptx/bcryptx.go
@@ -28,6 +28,9 @@ func Encrypt(pw []byte) ([]byte, error) {
 }
 
 func Decrypt(enc, pw []byte) (bool, error) {
+	if len(pw) > DefMaxLen {
+		return false, ErrPasswordTooLong
+	}
 	err := bcrypt.CompareHashAndPassword(enc, pw)
 	if err != nil {
 		if err == bcrypt.ErrMismatchedHashAndPassword {
-- 
2.43.0


From cc3131fbc501ae0ef639bda1742199e73dea766d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:04 +0000
Subject: [PATCH 25/31] fix: intersection counts touching intervals the same in
 any order

---
 timex/intersectionx/intersectionx.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/timex/intersectionx/intersectionx.go b/timex/intersectionx/intersectionx.go
index e6d9e5d..39b51e7 100644
--- a/timex/intersectionx/intersectionx.go
+++ b/timex/intersectionx/intersectionx.go
@@ -17,7 +17,10 @@ func (s iSlice) Len() int {
 }
 
 func (s iSlice) Less(i, j int) bool {
-	return s[i].Offset < s[j].Offset
+	if s[i].Offset != s[j].Offset {
+		return s[i].Offset < s[j].Offset
+	}
+	return s[i].Type < s[j].Type
 }
 
 func (s iSlice) Swap(i, j int) {
-- 
2.43.0


From 4645d9dfba7ff745fe50b17b8627b55405a9ba6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:05 +0000
Subject: [PATCH 26/31] fix: intersection tolerates every minority of
 falsetickers for odd counts

---
 timex/intersectionx/intersectionx.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/timex/intersectionx/intersectionx.go b/timex/intersectionx/intersectionx.go
index 39b51e7..904de63 100644
--- a/timex/intersectionx/intersectionx.go
+++ b/timex/intersectionx/intersectionx.go
@@ -37,7 +37,7 @@ func intersection(s iSlice) (lower, upper int64, ok bool) {
 	var M int64 = int64(s.Len()) / 3
 	var F int64
 
-	for F < M/2 {
+	for 2*F < M {
 		var End, Mid int64
 
 		for i := range s {
@@ -71,9 +71,6 @@ func intersection(s iSlice) (lower, upper int64, ok bool) {
 		}
 
 		F = F + 1
-		if F >= M/2 {
-			break
-		}
 	}
 
 	ok = false
-- 
2.43.0


From 53a96c2cfffecb4248062dbded681ed8073dcf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:59 +0000
Subject: [PATCH 27/31] fix: a wakeup reaches the sleep in progress

---
 timex/sleepx/sleepx.go | 48 ++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/timex/sleepx/sleepx.go b/timex/sleepx/sleepx.go
index e8e8ce4..a82881c 100644
--- a/timex/sleepx/sleepx.go
+++ b/timex/sleepx/sleepx.go
@@ -2,19 +2,22 @@ package sleepx
 
 import (
 	"context"
-	"sync/atomic"
+	"sync"
 	"time"
 
 	"github.com/unsafe-risk/utilx/timex"
 )
 
 type Sleeper struct {
+	// guards the fields below
+	mu sync.Mutex
+
 	// wakeup signal
 	ctx    context.Context
 	cancel context.CancelFunc
 
 	// slept
-	slept atomic.Bool
+	slept bool
 }
 
 func New() *Sleeper {
@@ -22,16 +25,33 @@ func New() *Sleeper {
 	return &Sleeper{
 		ctx:    ctx,
 		cancel: cancel,
-		slept:  atomic.Bool{},
+		slept:  false,
+	}
+}
+
+// begin claims the sleeper and returns the signal of the sleep it starts.
+func (s *Sleeper) begin() (<-chan struct{}, bool) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if s.slept {
+		return nil, false
 	}
+	s.slept = true
+	return s.ctx.Done(), true
+}
+
+func (s *Sleeper) end() {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	s.slept = false
 }
 
 func (s *Sleeper) SleepFor(d time.Duration) bool {
-	if !s.slept.CompareAndSwap(false, true) {
+	done, ok := s.begin()
+	if !ok {
 		return false
 	}
-	defer s.slept.Store(false)
-	done := s.ctx.Done()
+	defer s.end()
 	for {
 		select {
 		case <-time.After(time.Duration(d) * time.Second):
@@ -43,11 +63,11 @@ func (s *Sleeper) SleepFor(d time.Duration) bool {
 }
 
 func (s *Sleeper) SleepUntil(t time.Time) bool {
-	if !s.slept.CompareAndSwap(false, true) {
+	done, ok := s.begin()
+	if !ok {
 		return false
 	}
-	defer s.slept.Store(false)
-	done := s.ctx.Done()
+	defer s.end()
 	for {
 		select {
 		case <-time.After(t.Sub(timex.Now())):
@@ -59,11 +79,11 @@ func (s *Sleeper) SleepUntil(t time.Time) bool {
 }
 
 func (s *Sleeper) SleepForever() bool {
-	if !s.slept.CompareAndSwap(false, true) {
+	done, ok := s.begin()
+	if !ok {
 		return false
 	}
-	defer s.slept.Store(false)
-	done := s.ctx.Done()
+	defer s.end()
 	for {
 		select {
 		case <-done:
@@ -73,7 +93,9 @@ func (s *Sleeper) SleepForever() bool {
 }
 
 func (s *Sleeper) Wakeup() bool {
-	if !s.slept.Load() {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if !s.slept {
 		return false
 	}
 	s.cancel()
-- 
2.43.0


From 4c2da1b92f5b63352bdb0427b63cbcbcaad4d532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:59 +0000
Subject: [PATCH 28/31] fix: a long sleep does not overflow into none

---
 timex/sleepx/sleepx.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/timex/sleepx/sleepx.go b/timex/sleepx/sleepx.go
index a82881c..f432d94 100644
--- a/timex/sleepx/sleepx.go
+++ b/timex/sleepx/sleepx.go
@@ -2,6 +2,7 @@ package sleepx
 
 import (
 	"context"
+	"math"
 	"sync"
 	"time"
 
@@ -46,6 +47,17 @@ func (s *Sleeper) end() {
 	s.slept = false
 }
 
+// seconds is d seconds, or the longest duration if that is out of range.
+func seconds(d time.Duration) time.Duration {
+	if d > math.MaxInt64/time.Second {
+		return math.MaxInt64
+	}
+	if d < math.MinInt64/time.Second {
+		return math.MinInt64
+	}
+	return d * time.Second
+}
+
 func (s *Sleeper) SleepFor(d time.Duration) bool {
 	done, ok := s.begin()
 	if !ok {
@@ -54,7 +66,7 @@ func (s *Sleeper) SleepFor(d time.Duration) bool {
 	defer s.end()
 	for {
 		select {
-		case <-time.After(time.Duration(d) * time.Second):
+		case <-time.After(seconds(d)):
 			return true
 		case <-done:
 			return true
-- 
2.43.0


From a14cc36593222ddc91f6e3be98fb8c4ec4ed63c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:17 +0000
Subject: [PATCH 29/31] fix: SleepUntil honours the monotonic clock reading of
 its argument

---
 timex/sleepx/sleepx.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/timex/sleepx/sleepx.go b/timex/sleepx/sleepx.go
index f432d94..d6f4937 100644
--- a/timex/sleepx/sleepx.go
+++ b/timex/sleepx/sleepx.go
@@ -5,8 +5,6 @@ import (
 	"math"
 	"sync"
 	"time"
-
-	"github.com/unsafe-risk/utilx/timex"
 )
 
 type Sleeper struct {
@@ -82,7 +80,7 @@ func (s *Sleeper) SleepUntil(t time.Time) bool {
 	defer s.end()
 	for {
 		select {
-		case <-time.After(t.Sub(timex.Now())):
+		case <-time.After(time.Until(t)):
 			return true
 		case <-done:
 			return true
-- 
2.43.0


From e89835cd7e3fe3805a19c9c44de79f0e943d720a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:18 +0000
Subject: [PATCH 30/31] fix: the time differ measures with the monotonic clock

---
 timex/diffx/diffx.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/timex/diffx/diffx.go b/timex/diffx/diffx.go
index 3354f2a..fc9a5ba 100644
--- a/timex/diffx/diffx.go
+++ b/timex/diffx/diffx.go
@@ -2,11 +2,10 @@ package diffx
 
 import (
 	"time"
-
-	"github.com/unsafe-risk/utilx/timex"
 )
 
 type Differ struct {
+	// kept as read, because UTC drops the monotonic clock reading
 	start time.Time
 	end   time.Time
 }
@@ -16,11 +15,11 @@ func New() *Differ {
 }
 
 func (d *Differ) Start() {
-	d.start = timex.Now()
+	d.start = time.Now()
 }
 
 func (d *Differ) End() {
-	d.end = timex.Now()
+	d.end = time.Now()
 }
 
 func (d *Differ) GetDiff() time.Duration {
@@ -28,9 +27,9 @@ func (d *Differ) GetDiff() time.Duration {
 }
 
 func (d *Differ) GetStart() time.Time {
-	return d.start
+	return d.start.UTC()
 }
 
 func (d *Differ) GetEnd() time.Time {
-	return d.end
+	return d.end.UTC()
 }
-- 
2.43.0


From fb3c4e27b11c07522f292c6a5d015239b65e8148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:18 +0000
Subject: [PATCH 31/31] fix: the module tools run once, and only, in
 directories they can enter

---
 cmd/autotidy/autotidy.go     | 10 ++++++++--
 cmd/autoupdate/autoupdate.go | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/cmd/autotidy/autotidy.go b/cmd/autotidy/autotidy.go
index 6ebbac2..36a899b 100644
--- a/cmd/autotidy/autotidy.go
+++ b/cmd/autotidy/autotidy.go
@@ -10,12 +10,18 @@ import (
 
 func main() {
 	workdir, _ := os.Getwd()
-	filepath.WalkDir(".", func(path string, d fs.DirEntry, _ error) error {
+	filepath.WalkDir(".", func(path string, d fs.DirEntry, err error) error {
+		if err != nil {
+			// an unreadable directory, which has been handled already
+			return nil
+		}
 		if d.IsDir() {
 			if d.Name() == "vendor" || d.Name() == ".git" {
 				return filepath.SkipDir
 			}
-			os.Chdir(path)
+			if os.Chdir(path) != nil {
+				return nil
+			}
 			log.Println("entering", path)
 			exec.Command("go", "mod", "tidy").Run()
 			log.Println("leaving", path)
diff --git a/cmd/autoupdate/autoupdate.go b/cmd/autoupdate/autoupdate.go
index 556d49a..62d6c93 100644
--- a/cmd/autoupdate/autoupdate.go
+++ b/cmd/autoupdate/autoupdate.go
@@ -10,12 +10,18 @@ import (
 
 func main() {
 	workdir, _ := os.Getwd()
-	filepath.WalkDir(".", func(path string, d fs.DirEntry, _ error) error {
+	filepath.WalkDir(".", func(path string, d fs.DirEntry, err error) error {
+		if err != nil {
+			// an unreadable directory, which has been handled already
+			return nil
+		}
 		if d.IsDir() {
 			if d.Name() == "vendor" || d.Name() == ".git" {
 				return filepath.SkipDir
 			}
-			os.Chdir(path)
+			if os.Chdir(path) != nil {
+				return nil
+			}
 			log.Println("entering", path)
 			exec.Command("go", "get", "-u").Run()
 			log.Println("leaving", path)
-- 
2.43.0

