package vrt

import (
	"fmt"
	"unsafe"
)

// Mu is the controlled core of a mutex.
type Mu struct {
	locked bool
	owner  string
	syncv  byte
}

//go:noinline
func (m *Mu) Lock() {
	if x == nil {
		if m.locked {
			panic("vrt: mutex is locked outside of an execution")
		}
		m.locked = true
		return
	}
	if x.killing {
		return
	}
	park(&op{label: "lock", ready: func() bool { return !m.locked }, commit: func() { m.locked = true }})
	raceAcquire(unsafe.Pointer(&m.syncv))
}

//go:noinline
func (m *Mu) TryLock() bool {
	if x == nil || x.killing {
		if m.locked {
			return false
		}
		m.locked = true
		return true
	}
	got := false
	park(&op{label: "trylock", commit: func() {
		if !m.locked {
			m.locked, got = true, true
		}
	}})
	if got {
		raceAcquire(unsafe.Pointer(&m.syncv))
	}
	return got
}

//go:noinline
func (m *Mu) Unlock() {
	if x == nil {
		m.locked = false
		return
	}
	if x.killing {
		return
	}
	raceRelease(unsafe.Pointer(&m.syncv))
	e := x
	park(&op{label: "unlock", commit: func() {
		if !m.locked {
			e.end(StPanic, "fatal error: sync: unlock of unlocked mutex")
			return
		}
		m.locked = false
	}})
}

// RW is the controlled core of a reader/writer mutex with Go's writer preference.
type RW struct {
	w       bool // a writer has announced itself (holds the writers' lock)
	active  bool // that writer is inside
	readers int
	waiting []*rwait
	wsync   byte
	rsync   byte
}

type rwait struct{ granted bool }

//go:noinline
func (m *RW) RLock() {
	if x == nil {
		m.readers++
		return
	}
	if x.killing {
		return
	}
	// Announcing and waiting are separate steps, as in sync.RWMutex.
	var wt *rwait
	park(&op{label: "rlock", commit: func() {
		if !m.w {
			m.readers++
			return
		}
		wt = &rwait{}
		m.waiting = append(m.waiting, wt)
	}})
	if wt != nil {
		park(&op{label: "rlock (waiting for writer)", ready: func() bool { return wt.granted }})
	}
	raceAcquire(unsafe.Pointer(&m.wsync))
}

//go:noinline
func (m *RW) TryRLock() bool {
	if x == nil || x.killing {
		return false
	}
	got := false
	park(&op{label: "tryrlock", commit: func() {
		if !m.w {
			m.readers++
			got = true
		}
	}})
	if got {
		raceAcquire(unsafe.Pointer(&m.wsync))
	}
	return got
}

//go:noinline
func (m *RW) RUnlock() {
	if x == nil {
		m.readers--
		return
	}
	if x.killing {
		return
	}
	raceReleaseMerge(unsafe.Pointer(&m.rsync))
	e := x
	park(&op{label: "runlock", commit: func() {
		if m.readers <= 0 {
			e.end(StPanic, "fatal error: sync: RUnlock of unlocked RWMutex")
			return
		}
		m.readers--
	}})
}

//go:noinline
func (m *RW) Lock() {
	if x == nil {
		m.w, m.active = true, true
		return
	}
	if x.killing {
		return
	}
	drained := false
	park(&op{label: "lock (rw)", ready: func() bool { return !m.w }, commit: func() {
		m.w = true
		if m.readers == 0 {
			m.active = true
			drained = true
		}
	}})
	if !drained {
		park(&op{label: "lock (rw, waiting for readers)", ready: func() bool { return m.readers == 0 }, commit: func() { m.active = true }})
	}
	raceAcquire(unsafe.Pointer(&m.wsync))
	raceAcquire(unsafe.Pointer(&m.rsync))
}

//go:noinline
func (m *RW) TryLock() bool {
	if x == nil || x.killing {
		return false
	}
	got := false
	park(&op{label: "trylock (rw)", commit: func() {
		if !m.w && m.readers == 0 {
			m.w, m.active, got = true, true, true
		}
	}})
	if got {
		raceAcquire(unsafe.Pointer(&m.wsync))
		raceAcquire(unsafe.Pointer(&m.rsync))
	}
	return got
}

//go:noinline
func (m *RW) Unlock() {
	if x == nil {
		m.w, m.active = false, false
		return
	}
	if x.killing {
		return
	}
	raceRelease(unsafe.Pointer(&m.wsync))
	e := x
	park(&op{label: "unlock (rw)", commit: func() {
		if !m.w || !m.active {
			e.end(StPanic, "fatal error: sync: Unlock of unlocked RWMutex")
			return
		}
		m.w, m.active = false, false
		for _, w := range m.waiting {
			w.granted = true
			m.readers++
		}
		m.waiting = nil
	}})
}

// WG is the controlled core of a WaitGroup.
type WG struct {
	n     int
	syncv byte
}

//go:noinline
func (w *WG) Add(d int) {
	if x == nil {
		w.n += d
		return
	}
	if x.killing {
		return
	}
	raceReleaseMerge(unsafe.Pointer(&w.syncv))
	bad := false
	park(&op{label: fmt.Sprintf("wg add %d", d), commit: func() {
		w.n += d
		bad = w.n < 0
	}})
	if bad {
		panic("sync: negative WaitGroup counter")
	}
}

//go:noinline
func (w *WG) Wait() {
	if x == nil || x.killing {
		return
	}
	park(&op{label: "wg wait", ready: func() bool { return w.n == 0 }})
	raceAcquire(unsafe.Pointer(&w.syncv))
}

// CV is the controlled core of a condition variable.
type CV struct {
	q []*cwait
}

type cwait struct{ sig bool }

//go:noinline
func (c *CV) Wait(unlock, lock func()) {
	if x == nil || x.killing {
		return
	}
	w := &cwait{}
	c.q = append(c.q, w)
	unlock()
	park(&op{label: "cond wait", ready: func() bool { return w.sig }})
	lock()
}

//go:noinline
func (c *CV) Signal() {
	if x == nil || x.killing {
		return
	}
	park(&op{label: "cond signal", commit: func() {
		if len(c.q) > 0 {
			c.q[0].sig = true
			c.q = c.q[1:]
		}
	}})
}

//go:noinline
func (c *CV) Broadcast() {
	if x == nil || x.killing {
		return
	}
	park(&op{label: "cond broadcast", commit: func() {
		for _, w := range c.q {
			w.sig = true
		}
		c.q = nil
	}})
}
