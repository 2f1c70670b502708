// Package vsync is the controlled replacement of package sync.
package vsync

import (
	"sync"

	"github.com/ti-mo/comfo/zzverif/vrt"
)

type Locker = sync.Locker

// Pool replaces sync.Pool: what was put last is got first, nothing is ever dropped.
type Pool struct {
	m  vrt.Mu
	vs []any

	New func() any
}

func (p *Pool) Get() any {
	p.m.Lock()
	if n := len(p.vs); n > 0 {
		v := p.vs[n-1]
		p.vs = p.vs[:n-1]
		p.m.Unlock()
		return v
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	p.m.Lock()
	p.vs = append(p.vs, v)
	p.m.Unlock()
}

// Map replaces sync.Map. Range goes through the keys in the order they were added.
type Map struct {
	m    vrt.Mu
	v    map[any]any
	keys []any
}

func (m *Map) set(k, v any) {
	if m.v == nil {
		m.v = map[any]any{}
	}
	if _, ok := m.v[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.v[k] = v
}

func (m *Map) del(k any) {
	if _, ok := m.v[k]; !ok {
		return
	}
	delete(m.v, k)
	for i := range m.keys {
		if m.keys[i] == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			return
		}
	}
}

func (m *Map) Load(k any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	v, ok := m.v[k]
	return v, ok
}

func (m *Map) Store(k, v any) {
	m.m.Lock()
	defer m.m.Unlock()
	m.set(k, v)
}

func (m *Map) Clear() {
	m.m.Lock()
	defer m.m.Unlock()
	m.v, m.keys = nil, nil
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	if o, ok := m.v[k]; ok {
		return o, true
	}
	m.set(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	v, ok := m.v[k]
	m.del(k)
	return v, ok
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) Swap(k, v any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	o, ok := m.v[k]
	m.set(k, v)
	return o, ok
}

func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.m.Lock()
	defer m.m.Unlock()
	if v, ok := m.v[k]; !ok || v != o {
		return false
	}
	m.set(k, n)
	return true
}

func (m *Map) CompareAndDelete(k, o any) bool {
	m.m.Lock()
	defer m.m.Unlock()
	if v, ok := m.v[k]; !ok || v != o {
		return false
	}
	m.del(k)
	return true
}

func (m *Map) Range(f func(k, v any) bool) {
	m.m.Lock()
	ks := append([]any(nil), m.keys...)
	m.m.Unlock()
	for _, k := range ks {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}

// Mutex replaces sync.Mutex.
type Mutex struct{ m vrt.Mu }

func (m *Mutex) Lock()         { m.m.Lock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }
func (m *Mutex) TryLock() bool { return m.m.TryLock() }

// RWMutex replaces sync.RWMutex.
type RWMutex struct{ m vrt.RW }

func (m *RWMutex) Lock()          { m.m.Lock() }
func (m *RWMutex) Unlock()        { m.m.Unlock() }
func (m *RWMutex) RLock()         { m.m.RLock() }
func (m *RWMutex) RUnlock()       { m.m.RUnlock() }
func (m *RWMutex) TryLock() bool  { return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { return m.m.TryRLock() }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct{ w vrt.WG }

func (w *WaitGroup) Add(n int) { w.w.Add(n) }
func (w *WaitGroup) Done()     { w.w.Add(-1) }
func (w *WaitGroup) Wait()     { w.w.Wait() }
func (w *WaitGroup) Go(f func()) {
	w.w.Add(1)
	vrt.Go(func() {
		defer w.w.Add(-1)
		f()
	})
}

// Once replaces sync.Once.
type Once struct {
	m    vrt.Mu
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if o.done {
		return
	}
	defer func() { o.done = true }()
	f()
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

// Cond replaces sync.Cond.
type Cond struct {
	L Locker
	c vrt.CV
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait()        { c.c.Wait(c.L.Unlock, c.L.Lock) }
func (c *Cond) Signal()      { c.c.Signal() }
func (c *Cond) Broadcast()   { c.c.Broadcast() }
