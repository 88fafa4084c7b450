package simrt

import (
	"runtime"
	"unsafe"
)

// SyncObj carries the happens-before clock of a synchronization object.
type SyncObj struct{ vc []uint32 }

func joinVC(a, b []uint32) []uint32 {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, c := range b {
		if c > a[i] {
			a[i] = c
		}
	}
	return a
}

// Acquire makes what o knows known to the current task.
func (o *SyncObj) Acquire() {
	if S != nil {
		t := S.cur
		t.vc = joinVC(t.vc, o.vc)
	}
}

// Release adds what the current task knows to o.
func (o *SyncObj) Release() {
	if S != nil {
		t := S.cur
		o.vc = joinVC(o.vc, t.vc)
		t.vc[t.ID]++
	}
}

// ReleaseStore makes o know exactly what the current task knows.
func (o *SyncObj) ReleaseStore() {
	if S != nil {
		t := S.cur
		o.vc = append(o.vc[:0], t.vc...)
		t.vc[t.ID]++
	}
}

// AtomicKind of operation.
type AtomicKind int

// Kinds of atomic operations.
const (
	ALoad AtomicKind = iota
	AStore
	ARMW
)

// AtomicBefore is the scheduling point before an atomic operation on p.
func AtomicBefore(p unsafe.Pointer) {
	s := S
	if s == nil {
		return
	}
	if sinkOn {
		sink = p
	}
	s.St.Atomics++
	s.syncPoint(s.cur.site, 20)
}

// AtomicAfter records the operation just performed.
func AtomicAfter(p unsafe.Pointer, k AtomicKind) {
	s := S
	if s == nil {
		return
	}
	t := s.cur
	a := uintptr(p)
	o := s.syncs[a]
	if o == nil {
		o = new(SyncObj)
		s.syncs[a] = o
	}
	c := s.cells[a]
	if c == nil {
		c = new(cell)
		s.cells[a] = c
	}
	reg := (*Region)(nil)
	for _, r := range s.Regions {
		if a >= r.base && a < r.end {
			reg = r
			s.touch(t, r, int((a-r.base)/r.size), t.site, k != ALoad)
		}
	}
	if ahead(t.vc, c.w) {
		s.race("plain write vs atomic access race", t.site, c.ws, t, int(c.w>>32), s.where(reg, a))
	}
	if k != ALoad {
		if ahead(t.vc, c.r) {
			s.race("plain read vs atomic write race", t.site, c.rs, t, int(c.r>>32), s.where(reg, a))
		}
		if q := aheadV(t.vc, c.rv); q >= 0 {
			s.race("plain read vs atomic write race", t.site, c.rs, t, q, s.where(reg, a))
		}
	}
	if k == ALoad {
		c.ar = setClock(c.ar, t.ID, t.vc[t.ID])
	} else {
		c.aw = setClock(c.aw, t.ID, t.vc[t.ID])
	}
	c.aws = t.site
	switch k {
	case ALoad:
		o.Acquire()
	case AStore:
		o.ReleaseStore()
	case ARMW:
		o.Acquire()
		o.Release()
	}
	s.syncPoint(t.site, 21)
}

// CASFailed counts.
func CASFailed() {
	if S != nil {
		S.St.CASFail++
	}
}

// WaitQ is a FIFO of waiting tasks, for building synchronization primitives.
type WaitQ struct{ q []*Ticket }

// Ticket is a place in a WaitQ.
type Ticket struct {
	t       *Task
	blocked bool
	woken   bool
}

// Enter takes a place in the queue; the task goes on running until Block.
func (w *WaitQ) Enter(on string) *Ticket {
	s := S
	if s == nil {
		panic("simrt: blocking outside a simulation: " + on)
	}
	k := &Ticket{t: s.cur}
	w.q = append(w.q, k)
	return k
}

// Block waits until the ticket is woken; it may have been already.
func (k *Ticket) Block(on string) {
	if !k.woken {
		k.blocked = true
		S.block(k.t, on)
	}
}

// Wait blocks the current task in the queue.
func (w *WaitQ) Wait(on string) { w.Enter(on).Block(on) }

// WakeOne wakes the first waiting task.
func (w *WaitQ) WakeOne() bool {
	if len(w.q) == 0 {
		return false
	}
	k := w.q[0]
	w.q = w.q[1:]
	k.woken = true
	if k.blocked {
		S.ready(k.t)
	}
	return true
}

// WakeAll wakes everyone.
func (w *WaitQ) WakeAll() {
	for w.WakeOne() {
	}
}

// Len is the number of waiting tasks.
func (w *WaitQ) Len() int { return len(w.q) }

// SyncPoint is a scheduling point for other primitives.
func SyncPoint(kind uint64) {
	if s := S; s != nil {
		s.syncPoint(s.cur.site, kind)
	}
}

// LockCount counts lock operations.
func LockCount() {
	if S != nil {
		S.St.Locks++
	}
}

// ---- channels ----

type chItem struct {
	v  any
	vc []uint32
}

type waiter struct {
	t    *Task
	v    any // value to send
	sel  *selWait
	idx  int
	send bool
}

type selWait struct {
	done bool
}

type chanState struct {
	cap    int
	buf    []chItem
	free   [][]uint32 // clocks of receives that freed slots
	sendq  []*waiter
	recvq  []*waiter
	closed bool
	clvc   []uint32
}

func (s *Sim) chanOf(p unsafe.Pointer, capacity int) *chanState {
	c := s.chans[p]
	if c == nil {
		c = &chanState{cap: capacity}
		s.chans[p] = c
		s.keep = append(s.keep, p)
	}
	return c
}

func chPtr[T any](ch chan T) unsafe.Pointer    { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func chPtrS[T any](ch chan<- T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func chPtrR[T any](ch <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

// MadeChan registers a channel.
func MadeChan[C ~chan T, T any](site uint32, ch C) C {
	s := S
	if s == nil {
		return ch
	}
	if c := s.cur.call; c != nil && site != 0 { // a timer's channel does not count
		s.St.Chans++
		c.Chans++
		if c.Query {
			s.Report("query-effect", "channel created by a query at "+siteName(site))
		}
	}
	s.chanOf(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch))
	return ch
}

func deq(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.sel != nil {
			if w.sel.done {
				continue
			}
			w.sel.done = true
		}
		return w
	}
	return nil
}

func peek(q *[]*waiter) bool {
	for len(*q) > 0 {
		if w := (*q)[0]; w.sel == nil || !w.sel.done {
			return true
		}
		*q = (*q)[1:]
	}
	return false
}

// rendezvous exchanges clocks of two tasks meeting on an unbuffered channel.
func rendezvous(a, b *Task) {
	a.vc = joinVC(a.vc, b.vc)
	b.vc = joinVC(b.vc, a.vc)
	a.vc[a.ID]++
	b.vc[b.ID]++
}

// trySend attempts a send now.
func (s *Sim) trySend(c *chanState, t *Task, v any) bool {
	if c.closed {
		panic("send on closed channel")
	}
	if w := deq(&c.recvq); w != nil {
		w.t.chVal, w.t.chOK, w.t.selIdx = v, true, w.idx
		if c.cap == 0 {
			rendezvous(t, w.t)
		} else {
			w.t.vc = joinVC(w.t.vc, t.vc)
			t.vc[t.ID]++
			if len(c.free) > 0 {
				t.vc = joinVC(t.vc, c.free[0])
				c.free = c.free[1:]
			}
			c.free = append(c.free, append([]uint32(nil), w.t.vc...))
			w.t.vc[w.t.ID]++
		}
		s.ready(w.t)
		return true
	}
	if len(c.buf) < c.cap {
		if len(c.free) > 0 && len(c.buf)+len(c.free) >= c.cap {
			t.vc = joinVC(t.vc, c.free[0])
			c.free = c.free[1:]
		}
		c.buf = append(c.buf, chItem{v, append([]uint32(nil), t.vc...)})
		t.vc[t.ID]++
		return true
	}
	return false
}

// tryRecv attempts a receive now.
func (s *Sim) tryRecv(c *chanState, t *Task) (v any, ok, done bool) {
	if len(c.buf) > 0 {
		it := c.buf[0]
		c.buf = c.buf[1:]
		t.vc = joinVC(t.vc, it.vc)
		c.free = append(c.free, append([]uint32(nil), t.vc...))
		t.vc[t.ID]++
		if w := deq(&c.sendq); w != nil {
			w.t.vc = joinVC(w.t.vc, c.free[0])
			c.free = c.free[1:]
			c.buf = append(c.buf, chItem{w.v, append([]uint32(nil), w.t.vc...)})
			w.t.vc[w.t.ID]++
			w.t.selIdx = w.idx
			s.ready(w.t)
		}
		return it.v, true, true
	}
	if w := deq(&c.sendq); w != nil {
		rendezvous(w.t, t)
		w.t.selIdx = w.idx
		s.ready(w.t)
		return w.v, true, true
	}
	if c.closed {
		t.vc = joinVC(t.vc, c.clvc)
		return nil, false, true
	}
	return nil, false, false
}

// Send returns the function that sends a value on ch.
func Send[T any](site uint32, ch chan<- T) func(T) {
	return func(v T) {
		s := S
		if s == nil {
			ch <- v
			return
		}
		s.SiteHit[site>>6] |= 1 << (site & 63)
		s.St.Sends++
		s.syncPoint(site, 30)
		t := s.cur
		if ch == nil {
			s.block(t, "send on nil channel")
		}
		c := s.chanOf(chPtrS(ch), cap(ch))
		if !s.trySend(c, t, v) {
			c.sendq = append(c.sendq, &waiter{t: t, v: v, send: true})
			s.block(t, "send")
			if t.selIdx == -2 {
				t.selIdx = 0
				panic("send on closed channel")
			}
		}
		s.syncPoint(site, 31)
	}
}

func conv[T any](v any) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

// Recv receives from ch.
func Recv[T any](site uint32, ch <-chan T) T {
	v, _ := Recv2(site, ch)
	return v
}

// Recv2 receives from ch with the ok flag.
func Recv2[T any](site uint32, ch <-chan T) (T, bool) {
	s := S
	if s == nil {
		v, ok := <-ch
		return v, ok
	}
	s.SiteHit[site>>6] |= 1 << (site & 63)
	s.St.Recvs++
	s.syncPoint(site, 32)
	t := s.cur
	if ch == nil {
		s.block(t, "receive from nil channel")
	}
	c := s.chanOf(chPtrR(ch), cap(ch))
	v, ok, done := s.tryRecv(c, t)
	if !done {
		c.recvq = append(c.recvq, &waiter{t: t})
		s.block(t, "receive")
		v, ok = t.chVal, t.chOK
		t.chVal = nil
	}
	s.syncPoint(site, 33)
	return conv[T](v), ok
}

// Close closes ch.
func Close[T any](site uint32, ch chan<- T) {
	s := S
	if s == nil {
		close(ch)
		return
	}
	s.syncPoint(site, 34)
	t := s.cur
	if ch == nil {
		panic("close of nil channel")
	}
	c := s.chanOf(chPtrS(ch), cap(ch))
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	c.clvc = append([]uint32(nil), t.vc...)
	t.vc[t.ID]++
	for w := deq(&c.recvq); w != nil; w = deq(&c.recvq) {
		w.t.chVal, w.t.chOK, w.t.selIdx = nil, false, w.idx
		w.t.vc = joinVC(w.t.vc, c.clvc)
		s.ready(w.t)
	}
	for w := deq(&c.sendq); w != nil; w = deq(&c.sendq) {
		w.t.selIdx = -2
		s.ready(w.t)
	}
	s.syncPoint(site, 35)
}

// ChLen is len(ch).
func ChLen[T any](ch <-chan T) int {
	if S == nil || ch == nil {
		return len(ch)
	}
	return len(S.chanOf(chPtrR(ch), cap(ch)).buf)
}

// ChCap is cap(ch).
func ChCap[T any](ch <-chan T) int { return cap(ch) }

// SelCase is one case of a select.
type SelCase struct {
	p    unsafe.Pointer
	cap  int
	send bool
	v    any
}

// Selected is the outcome of a select.
type Selected struct {
	Idx int
	v   any
	ok  bool
}

// CaseSend makes a send case.
func CaseSend[T any](ch chan<- T) func(T) SelCase {
	return func(v T) SelCase { return SelCase{chPtrS(ch), cap(ch), true, v} }
}

// CaseRecv makes a receive case.
func CaseRecv[T any](ch <-chan T) SelCase { return SelCase{chPtrR(ch), cap(ch), false, nil} }

// SelVal is the received value.
func SelVal[T any](sel Selected, _ <-chan T) T { return conv[T](sel.v) }

// SelVal2 is the received value and ok.
func SelVal2[T any](sel Selected, _ <-chan T) (T, bool) { return conv[T](sel.v), sel.ok }

// Select is the select statement. The first ready case in a seeded rotation is taken.
func Select(site uint32, hasDefault bool, cases ...SelCase) Selected {
	s := S
	if s == nil {
		panic("simrt: select outside a simulation")
	}
	s.syncPoint(site, 36)
	t := s.cur
	n := len(cases)
	start := 0
	if n > 1 {
		start = int((s.sig ^ s.step*0x9e3779b97f4a7c15) >> 33 % uint64(n))
	}
	for k := 0; k < n; k++ {
		i := (start + k) % n
		cs := cases[i]
		if cs.p == nil {
			continue
		}
		c := s.chanOf(cs.p, cs.cap)
		if cs.send {
			if c.closed || len(c.buf) < c.cap || peek(&c.recvq) {
				s.trySend(c, t, cs.v)
				s.syncPoint(site, 37)
				return Selected{Idx: i}
			}
		} else if v, ok, done := s.tryRecv(c, t); done {
			s.syncPoint(site, 37)
			return Selected{i, v, ok}
		}
	}
	if hasDefault {
		return Selected{Idx: -1}
	}
	sw := &selWait{}
	for i, cs := range cases {
		if cs.p == nil {
			continue
		}
		c := s.chanOf(cs.p, cs.cap)
		w := &waiter{t: t, v: cs.v, sel: sw, idx: i, send: cs.send}
		if cs.send {
			c.sendq = append(c.sendq, w)
		} else {
			c.recvq = append(c.recvq, w)
		}
	}
	s.block(t, "select")
	if t.selIdx == -2 {
		t.selIdx = 0
		panic("send on closed channel")
	}
	r := Selected{t.selIdx, t.chVal, t.chOK}
	t.chVal = nil
	s.syncPoint(site, 37)
	return r
}

// Gosched is runtime.Gosched.
func Gosched() {
	if s := S; s != nil {
		s.yielding = true
		s.syncPoint(s.cur.site, 38)
		return
	}
	runtime.Gosched()
}
