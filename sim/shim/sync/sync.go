// Package sync replaces blocking synchronisation with simulated ones.
package sync

import (
	rsync "sync"
	"vsim/rt"
)

type Locker = rsync.Locker

func inert() bool { g := rt.Cur(); return g == nil || g.Dying() }

type Mutex struct{ held bool }

func (m *Mutex) Lock() {
	if inert() {
		return
	}
	rt.GateWhen("lock", func() bool { return !m.held })
	m.held = true
}
func (m *Mutex) TryLock() bool {
	if inert() {
		return true
	}
	if m.held {
		return false
	}
	m.held = true
	return true
}
func (m *Mutex) Unlock() {
	if inert() {
		return
	}
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	rt.Hot()
	rt.Gate("unlock")
}

type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock() {
	if inert() {
		return
	}
	rt.GateWhen("lock", func() bool { return !m.w && m.r == 0 })
	m.w = true
}
func (m *RWMutex) Unlock() {
	if inert() {
		return
	}
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	rt.Hot()
	rt.Gate("unlock")
}
func (m *RWMutex) RLock() {
	if inert() {
		return
	}
	rt.GateWhen("rlock", func() bool { return !m.w })
	m.r++
}
func (m *RWMutex) RUnlock() {
	if inert() {
		return
	}
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	rt.Hot()
	rt.Gate("runlock")
}
func (m *RWMutex) TryLock() bool {
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) TryRLock() bool {
	if m.w {
		return false
	}
	m.r++
	return true
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()            { r.m.RLock() }
func (r rlocker) Unlock()          { r.m.RUnlock() }
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	w.n += d
	if w.n < 0 && !inert() {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1); rt.Gate("wgdone") }
func (w *WaitGroup) Wait() {
	if inert() {
		return
	}
	rt.GateWhen("wgwait", func() bool { return w.n <= 0 })
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() {
		defer w.Done()
		f()
	})
}

type Cond struct {
	L    Locker
	next int
	wake int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	t := c.next
	c.next++
	c.L.Unlock()
	rt.GateWhen("cond", func() bool { return t < c.wake })
	c.L.Lock()
}
func (c *Cond) Signal() {
	if c.wake < c.next {
		c.wake++
	}
	rt.Gate("signal")
}
func (c *Cond) Broadcast() { c.wake = c.next; rt.Gate("broadcast") }

func OnceFunc(f func()) func() { var o Once; return func() { o.Do(f) } }

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Pool hands out what was put back last, which is when sharing shows.
type Pool struct {
	New func() any
	l   []any
}

func (p *Pool) Get() any {
	rt.Hot()
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		return x
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(x any) {
	if x != nil {
		p.l = append(p.l, x)
	}
	rt.Hot()
}

// Map keeps its keys in the order in which they came.
type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) Load(k any) (any, bool) { rt.Hot(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.Swap(k, v) }
func (m *Map) Swap(k, v any) (any, bool) {
	rt.Hot()
	o, ok := m.m[k]
	if m.m == nil {
		m.m = map[any]any{}
	}
	if !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
	return o, ok
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	rt.Hot()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.keys = append(m.keys, k)
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	rt.Hot()
	o, ok := m.m[k]
	if ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
	return o, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	rt.Hot()
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	rt.Hot()
	if v, ok := m.m[k]; ok && v == o {
		m.LoadAndDelete(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	for _, k := range append([]any(nil), m.keys...) {
		rt.Hot()
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}
func (m *Map) Clear() { rt.Hot(); m.m, m.keys = nil, nil }
