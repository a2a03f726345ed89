// Package sync replaces the standard sync package in instrumented code: the
// same API, but every blocking point is visible to the simulator's scheduler.
package sync

import (
	"runtime"
	"sync"

	"verif.local/sim/simrt"
)

type Locker = sync.Locker

// Mutex blocks by parking the simulated thread.
type Mutex struct{ held bool }

func (m *Mutex) Lock() {
	if simrt.Me() == nil {
		m.held = true
		return
	}
	simrt.Yield()
	simrt.Wait(0, func() bool { return !m.held })
	m.held = true
}
func (m *Mutex) TryLock() bool {
	simrt.Yield()
	if m.held {
		return false
	}
	m.held = true
	return true
}
func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	simrt.Yield()
}

// RWMutex parks the simulated thread. As in the real one a waiting writer holds
// back later readers, and the readers it held back go before the next writer.
type RWMutex struct {
	ann  bool // a writer holds the lock or waits for readers to leave
	w    bool
	r    int
	wait []*bool // readers held back
}

func (m *RWMutex) Lock() {
	if simrt.Me() == nil {
		m.ann, m.w = true, true
		return
	}
	simrt.Yield()
	simrt.Wait(0, func() bool { return !m.ann })
	m.ann = true
	if m.r > 0 {
		simrt.Wait(0, func() bool { return m.r == 0 })
	}
	m.w = true
}
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w, m.ann = false, false
	for _, g := range m.wait {
		*g = true
		m.r++
	}
	m.wait = nil
	simrt.Yield()
}
func (m *RWMutex) RLock() {
	if simrt.Me() != nil {
		simrt.Yield()
		if m.ann {
			ok := false
			m.wait = append(m.wait, &ok)
			simrt.Wait(0, func() bool { return ok })
			return
		}
	}
	m.r++
}
func (m *RWMutex) RUnlock() {
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	simrt.Yield()
}
func (m *RWMutex) TryLock() bool {
	if m.ann || m.r > 0 {
		return false
	}
	m.ann, m.w = true, true
	return true
}
func (m *RWMutex) TryRLock() bool {
	if m.ann {
		return false
	}
	m.r++
	return true
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()            { r.m.RLock() }
func (r rlocker) Unlock()          { r.m.RUnlock() }
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// WaitGroup parks the waiter until the counter is zero.
type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	simrt.Yield()
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if simrt.Me() == nil { // not simulated
		for i := 0; w.n > 0 && i < 1e6; i++ {
			runtime.Gosched()
		}
		return
	}
	simrt.Yield()
	simrt.Wait(0, func() bool { return w.n == 0 })
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

// Once runs f once; concurrent callers wait for it.
type Once struct {
	done, running bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	if o.running {
		simrt.Wait(0, func() bool { return !o.running })
		return
	}
	o.running = true
	defer func() { o.running = false; o.done = true }()
	f()
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Pool is deterministic: last in, first out, and now and then it forgets an
// item, as garbage collection would.
type Pool struct {
	New   func() any
	items []any
	n     uint64
}

func (p *Pool) Get() any {
	simrt.Yield()
	p.n++
	if k := len(p.items); k > 0 {
		if simrt.Hash(p.n, uint64(k), 77)%16 == 0 {
			p.items = p.items[:k-1]
		} else {
			x := p.items[k-1]
			p.items = p.items[:k-1]
			return x
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.items = append(p.items, x)
	simrt.Yield()
}

// Cond parks the waiter until signalled.
type Cond struct {
	L       Locker
	tickets []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	t := new(bool)
	c.tickets = append(c.tickets, t)
	c.L.Unlock()
	simrt.Wait(0, func() bool { return *t })
	c.L.Lock()
}
func (c *Cond) Signal() {
	if len(c.tickets) > 0 {
		*c.tickets[0] = true
		c.tickets = c.tickets[1:]
	}
}
func (c *Cond) Broadcast() {
	for _, t := range c.tickets {
		*t = true
	}
	c.tickets = nil
}

// Map is a concurrent map; Range visits keys in the order of their insertion.
type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) Load(k any) (any, bool) {
	simrt.Yield()
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v any) { m.Swap(k, v) }
func (m *Map) Swap(k, v any) (any, bool) {
	simrt.Yield()
	old, ok := m.m[k]
	m.put(k, v)
	return old, ok
}
func (m *Map) put(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) drop(k any) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(append([]any{}, m.keys[:i]...), m.keys[i+1:]...)
			break
		}
	}
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	simrt.Yield()
	if old, ok := m.m[k]; ok {
		return old, true
	}
	m.put(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	simrt.Yield()
	v, ok := m.m[k]
	m.drop(k)
	return v, ok
}
func (m *Map) Delete(k any) {
	simrt.Yield()
	m.drop(k)
}
func (m *Map) CompareAndSwap(k, old, v any) bool {
	simrt.Yield()
	if x, ok := m.m[k]; ok && x == old {
		m.put(k, v)
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, old any) bool {
	simrt.Yield()
	if x, ok := m.m[k]; ok && x == old {
		m.drop(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	for _, k := range append([]any(nil), m.keys...) {
		simrt.Yield()
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}
func (m *Map) Clear() {
	simrt.Yield()
	m.m, m.keys = nil, nil
}
