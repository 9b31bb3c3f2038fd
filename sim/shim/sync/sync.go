// Package sync stands in for the standard package; waiting goes through the simulated scheduler.
package sync

import (
	"sync"

	"verifsim/simrt"
)

type Locker = sync.Locker

type Mutex struct{ locked bool }

func (m *Mutex) Lock() {
	simrt.P()
	if m.locked {
		simrt.BlockUntil(func() bool { return !m.locked })
	}
	m.locked = true
}
func (m *Mutex) TryLock() bool {
	simrt.P()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}
func (m *Mutex) Unlock() {
	if !m.locked {
		if simrt.Unwinding() {
			return
		}
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	simrt.P()
}

type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock() {
	simrt.P()
	if m.w || m.r > 0 {
		simrt.BlockUntil(func() bool { return !m.w && m.r == 0 })
	}
	m.w = true
}
func (m *RWMutex) TryLock() bool {
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) Unlock() {
	if !m.w {
		if simrt.Unwinding() {
			return
		}
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	simrt.P()
}
func (m *RWMutex) RLock() {
	simrt.P()
	if m.w {
		simrt.BlockUntil(func() bool { return !m.w })
	}
	m.r++
}
func (m *RWMutex) TryRLock() bool {
	if m.w {
		return false
	}
	m.r++
	return true
}
func (m *RWMutex) RUnlock() {
	if m.r <= 0 {
		if simrt.Unwinding() {
			return
		}
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	simrt.P()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct{ n int }

func (g *WaitGroup) Add(d int) {
	g.n += d
	if g.n < 0 {
		if simrt.Unwinding() {
			return
		}
		panic("sync: negative WaitGroup counter")
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	simrt.P()
	if g.n > 0 {
		simrt.BlockUntil(func() bool { return g.n <= 0 })
	}
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	simrt.Go(func() {
		defer g.Done()
		f()
	})
}

type Once struct {
	done, busy bool
}

func (o *Once) Do(f func()) {
	simrt.P()
	if o.done {
		return
	}
	if o.busy {
		simrt.BlockUntil(func() bool { return o.done })
		return
	}
	o.busy = true
	defer func() { o.done = true }()
	f()
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

type Cond struct {
	L   Locker
	gen []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	woken := false
	c.gen = append(c.gen, &woken)
	c.L.Unlock()
	simrt.BlockUntil(func() bool { return woken })
	c.L.Lock()
}
func (c *Cond) Signal() {
	if len(c.gen) > 0 {
		*c.gen[0] = true
		c.gen = c.gen[1:]
	}
}
func (c *Cond) Broadcast() {
	for _, g := range c.gen {
		*g = true
	}
	c.gen = nil
}

type Pool struct {
	New  func() any
	free []any
}

func (p *Pool) Get() any {
	if n := len(p.free); n > 0 {
		x := p.free[n-1]
		p.free = p.free[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	if x != nil {
		p.free = append(p.free, x)
	}
}

// Map keeps insertion order, so that Range is repeatable.
type Map struct {
	m     map[any]any
	order []any
}

func (m *Map) Load(k any) (any, bool) { simrt.P(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any) {
	simrt.P()
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.order = append(m.order, k)
	}
	m.m[k] = v
}
func (m *Map) Swap(k, v any) (any, bool) { o, ok := m.Load(k); m.Store(k, v); return o, ok }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.Store(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	v, ok := m.m[k]
	if ok {
		delete(m.m, k)
		for i, x := range m.order {
			if x == k {
				m.order = append(m.order[:i:i], m.order[i+1:]...)
				break
			}
		}
	}
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	if v, ok := m.m[k]; ok && v == o {
		m.Delete(k)
		return true
	}
	return false
}
func (m *Map) Clear() { m.m, m.order = nil, nil }
func (m *Map) Range(f func(k, v any) bool) {
	for _, k := range append([]any(nil), m.order...) {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}
