// Package ssync stands in for package sync under the simulator.
package ssync

import (
	"sync"

	"verifrt/simrt"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex is sync.Mutex.
type Mutex struct {
	held bool
	q    simrt.WaitQ
	o    simrt.SyncObj
}

func (m *Mutex) Lock() {
	simrt.LockCount()
	simrt.SyncPoint(40)
	for m.held {
		m.q.Wait("mutex")
	}
	m.held = true
	m.o.Acquire()
}

func (m *Mutex) TryLock() bool {
	simrt.SyncPoint(41)
	if m.held {
		return false
	}
	m.held = true
	m.o.Acquire()
	return true
}

func (m *Mutex) Unlock() {
	simrt.SyncPoint(42)
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.o.Release()
	m.held = false
	m.q.WakeOne()
	simrt.SyncPoint(43)
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	w       bool
	readers int
	waitW   int
	q       simrt.WaitQ
	ow, or  simrt.SyncObj
}

func (m *RWMutex) Lock() {
	simrt.LockCount()
	simrt.SyncPoint(44)
	m.waitW++
	for m.w || m.readers > 0 {
		m.q.Wait("rwmutex")
	}
	m.waitW--
	m.w = true
	m.ow.Acquire()
	m.or.Acquire()
}

func (m *RWMutex) TryLock() bool {
	simrt.SyncPoint(45)
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	m.ow.Acquire()
	m.or.Acquire()
	return true
}

func (m *RWMutex) Unlock() {
	simrt.SyncPoint(46)
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.ow.Release()
	m.w = false
	m.q.WakeAll()
	simrt.SyncPoint(47)
}

func (m *RWMutex) RLock() {
	simrt.LockCount()
	simrt.SyncPoint(48)
	for m.w || m.waitW > 0 {
		m.q.Wait("rwmutex")
	}
	m.readers++
	m.ow.Acquire()
}

func (m *RWMutex) TryRLock() bool {
	simrt.SyncPoint(49)
	if m.w || m.waitW > 0 {
		return false
	}
	m.readers++
	m.ow.Acquire()
	return true
}

func (m *RWMutex) RUnlock() {
	simrt.SyncPoint(50)
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.or.Release()
	m.readers--
	m.q.WakeAll()
	simrt.SyncPoint(51)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n int
	q simrt.WaitQ
	o simrt.SyncObj
}

func (w *WaitGroup) Add(d int) {
	simrt.SyncPoint(52)
	if d < 0 {
		w.o.Release()
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.q.WakeAll()
	}
	simrt.SyncPoint(53)
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	simrt.SyncPoint(54)
	for w.n > 0 {
		w.q.Wait("waitgroup")
	}
	w.o.Acquire()
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(0, func() {
		defer w.Done()
		f()
	})
}

// Once is sync.Once.
type Once struct {
	done bool
	m    Mutex
	o    simrt.SyncObj
}

func (o *Once) Do(f func()) {
	simrt.SyncPoint(55)
	if o.done {
		o.o.Acquire()
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			o.o.Release()
			o.done = true
		}()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues is sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

// Cond is sync.Cond.
type Cond struct {
	L Locker
	q simrt.WaitQ
	o simrt.SyncObj
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	k := c.q.Enter("cond") // before the lock is given up: no wake-up in between is lost
	c.L.Unlock()
	k.Block("cond")
	c.o.Acquire()
	c.L.Lock()
}

func (c *Cond) Signal() {
	simrt.SyncPoint(56)
	c.o.Release()
	c.q.WakeOne()
}

func (c *Cond) Broadcast() {
	simrt.SyncPoint(57)
	c.o.Release()
	c.q.WakeAll()
}

// Pool is sync.Pool. What the pool drops at random in reality is decided by parity here.
type Pool struct {
	New   func() any
	items []any
	o     simrt.SyncObj
	n     int
}

func (p *Pool) Get() any {
	simrt.SyncPoint(58)
	p.o.Acquire()
	if k := len(p.items); k > 0 {
		v := p.items[k-1]
		p.items = p.items[:k-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	simrt.SyncPoint(59)
	if v == nil {
		return
	}
	p.o.Release()
	if p.n++; p.n%8 != 0 {
		p.items = append(p.items, v)
	}
}

// Map is sync.Map.
type Map struct {
	m    map[any]any
	keys []any
	o    simrt.SyncObj
}

func (m *Map) at(k uint64) {
	simrt.SyncPoint(k)
	m.o.Acquire()
	m.o.Release()
}

func (m *Map) Load(k any) (any, bool) {
	m.at(60)
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) Store(k, v any) { m.Swap(k, v) }

func (m *Map) Swap(k, v any) (any, bool) {
	m.at(61)
	if m.m == nil {
		m.m = map[any]any{}
	}
	old, ok := m.m[k]
	if !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
	return old, ok
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.at(62)
	if old, ok := m.m[k]; ok {
		return old, true
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.keys = append(m.keys, k)
	m.m[k] = v
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.at(63)
	v, ok := m.m[k]
	if ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
	return v, ok
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.at(64)
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, o any) bool {
	m.at(65)
	if v, ok := m.m[k]; ok && v == o {
		m.LoadAndDelete(k)
		return true
	}
	return false
}

func (m *Map) Range(f func(k, v any) bool) {
	m.at(66)
	for _, k := range append([]any(nil), m.keys...) {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}

func (m *Map) Clear() {
	m.at(67)
	m.m, m.keys = nil, nil
}
