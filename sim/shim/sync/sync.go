// Package sync replaces the standard package in the simulated build: same semantics, every wait decided by the
// simulator's scheduler, and every release/acquire recorded as a happens-before edge.
package sync

import (
	"fmt"
	stdsync "sync"

	"verifsim/simrt"
)

type Locker = stdsync.Locker

// starvation bound of the standard mutex: a waiter that has waited this long gets the lock handed over.
const starve = 1_000_000

type waiter struct {
	since   int64
	granted bool
}

type Mutex struct {
	held bool
	q    []*waiter
	sv   simrt.SyncVar
}

func now() int64 {
	if simrt.S == nil {
		return 0
	}
	return simrt.S.Now()
}

func (m *Mutex) TryLock() bool {
	simrt.Yield()
	if m.held {
		return false
	}
	m.held = true
	m.sv.Acquire()
	return true
}

func (m *Mutex) Lock() {
	if simrt.Dying() {
		return
	}
	simrt.Yield()
	simrt.Hesitate()
	if !m.held {
		m.held = true
		m.sv.Acquire()
		simrt.Yield()
		return
	}
	w := &waiter{since: now()}
	m.q = append(m.q, w)
	defer func() { // the run may end while we wait
		if simrt.Dying() {
			m.drop(w)
		}
	}()
	simrt.Block("mutex", func() bool { return w.granted || (!m.held && len(m.q) > 0 && m.q[0] == w) })
	if simrt.Dying() {
		return
	}
	m.drop(w)
	m.held = true
	m.sv.Acquire()
	simrt.Yield()
}

func (m *Mutex) drop(w *waiter) {
	for i, x := range m.q {
		if x == w {
			m.q = append(m.q[:i:i], m.q[i+1:]...)
			return
		}
	}
}

func (m *Mutex) Unlock() {
	if simrt.Dying() {
		return
	}
	if !m.held {
		simrt.Fatal("sync: unlock of unlocked mutex")
	}
	m.sv.Release()
	if len(m.q) > 0 && now()-m.q[0].since >= starve {
		m.q[0].granted = true // hand over; held stays true
	} else {
		m.held = false
	}
	simrt.Yield()
	simrt.HesitateUnlock()
}

// RWMutex: a pending writer blocks new readers; readers that arrived meanwhile go before the next writer.
type RWMutex struct {
	w       Mutex
	readers int
	pending bool // a writer waits or holds
	writing bool
	rq      []*waiter
	sv, rsv simrt.SyncVar
}

func (rw *RWMutex) RLock() {
	if simrt.Dying() {
		return
	}
	simrt.Yield()
	if !rw.pending {
		rw.readers++
		rw.sv.Acquire()
		simrt.Yield()
		return
	}
	w := &waiter{}
	rw.rq = append(rw.rq, w)
	simrt.Block("rwmutex read", func() bool { return w.granted })
	rw.sv.Acquire()
	simrt.Yield()
}

func (rw *RWMutex) TryRLock() bool {
	simrt.Yield()
	if rw.pending {
		return false
	}
	rw.readers++
	rw.sv.Acquire()
	return true
}

func (rw *RWMutex) RUnlock() {
	if simrt.Dying() {
		return
	}
	if rw.readers == 0 {
		simrt.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	rw.rsv.Release()
	rw.readers--
	simrt.Yield()
}

func (rw *RWMutex) Lock() {
	if simrt.Dying() {
		return
	}
	rw.w.Lock()
	if simrt.Dying() {
		return
	}
	rw.pending = true
	if rw.readers > 0 {
		simrt.Block("rwmutex write", func() bool { return rw.readers == 0 })
		if simrt.Dying() {
			return
		}
	}
	rw.writing = true
	rw.sv.Acquire()
	rw.rsv.Acquire()
	simrt.Yield()
}

func (rw *RWMutex) TryLock() bool {
	if !rw.w.TryLock() {
		return false
	}
	if rw.readers > 0 {
		rw.w.Unlock()
		return false
	}
	rw.pending, rw.writing = true, true
	rw.sv.Acquire()
	rw.rsv.Acquire()
	return true
}

func (rw *RWMutex) Unlock() {
	if simrt.Dying() {
		return
	}
	if !rw.writing {
		simrt.Fatal("sync: Unlock of unlocked RWMutex")
	}
	rw.sv.Release()
	rw.writing, rw.pending = false, false
	for _, w := range rw.rq {
		w.granted = true
		rw.readers++
	}
	rw.rq = nil
	rw.w.Unlock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (rw *RWMutex) RLocker() Locker { return (*rlocker)(rw) }

type Once struct {
	m    Mutex
	done bool
	sv   simrt.SyncVar
}

func (o *Once) Do(f func()) {
	simrt.Yield()
	if o.done {
		o.sv.Acquire()
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.sv.Release(); o.done = true }()
		f()
	}
}

type WaitGroup struct {
	n  int
	sv simrt.SyncVar
}

func (wg *WaitGroup) Add(d int) {
	if simrt.Dying() {
		return
	}
	simrt.Yield()
	if d < 0 {
		wg.sv.Release()
	}
	wg.n += d
	if wg.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (wg *WaitGroup) Done() { wg.Add(-1) }
func (wg *WaitGroup) Wait() {
	simrt.Block("waitgroup", func() bool { return wg.n == 0 })
	wg.sv.Acquire()
}
func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	simrt.Go(func() { defer wg.Done(); f() })
}

type Cond struct {
	L  Locker
	q  []*waiter
	sv simrt.SyncVar
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	w := &waiter{}
	c.q = append(c.q, w)
	c.L.Unlock()
	simrt.Block("cond", func() bool { return w.granted })
	c.sv.Acquire()
	c.L.Lock()
}
func (c *Cond) Signal() {
	c.sv.Release()
	simrt.Yield()
	if len(c.q) > 0 {
		c.q[0].granted = true
		c.q = c.q[1:]
	}
}
func (c *Cond) Broadcast() {
	c.sv.Release()
	simrt.Yield()
	for _, w := range c.q {
		w.granted = true
	}
	c.q = nil
}

// Map keeps insertion order so that Range is deterministic.
type Map struct {
	keys []any
	m    map[any]any
	sv   simrt.SyncVar
}

func (m *Map) op() {
	simrt.Yield()
	m.sv.AcqRel()
	if m.m == nil {
		m.m = map[any]any{}
	}
}
func (m *Map) Load(k any) (any, bool) { m.op(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.op(); m.set(k, v) }
func (m *Map) set(k, v any) {
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.op()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.op()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}
func (m *Map) Delete(k any) { m.op(); m.del(k) }
func (m *Map) del(k any) {
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			return
		}
	}
}
func (m *Map) Swap(k, v any) (any, bool) {
	m.op()
	o, ok := m.m[k]
	m.set(k, v)
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.op()
	if x, ok := m.m[k]; !ok || x != o {
		return false
	}
	m.m[k] = n
	return true
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.op()
	if x, ok := m.m[k]; !ok || x != o {
		return false
	}
	m.del(k)
	return true
}
func (m *Map) Clear() { m.op(); m.m, m.keys = map[any]any{}, nil }
func (m *Map) Range(f func(k, v any) bool) {
	m.op()
	for _, k := range append([]any(nil), m.keys...) {
		v, ok := m.m[k]
		if ok && !f(k, v) {
			return
		}
	}
}

// Pool never loses objects.
type Pool struct {
	New   func() any
	items []any
	sv    simrt.SyncVar
}

func (p *Pool) Get() any {
	simrt.Yield()
	p.sv.AcqRel()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) { simrt.Yield(); p.sv.AcqRel(); p.items = append(p.items, x) }

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

var _ = fmt.Sprint
