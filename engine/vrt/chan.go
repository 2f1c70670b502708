package vrt

import (
	"reflect"
	"sort"
	"unsafe"
)

// core is the untyped state of a channel.
type core struct {
	cap    int
	buf    []msg
	closed bool
	closev byte
	recvq  []*Case
	sendq  []*Case
	freed  []*op
	label  string
	native reflect.Value // channel of code that is not under control (receive only)
	// timer channels
	onRecv func()
}

type msg struct {
	v any
	o *op // sender, for the happens-before relation; nil for timers
}

// Case is one channel operation, alone or within a select.
type Case struct {
	c     *core
	send  bool
	val   any
	o     *op
	idx   int
	got   any
	ok    bool
	peer  *op
	panic string
}

// Chan is the controlled replacement of chan T.
type Chan[T any] struct{ c core }

// MakeChan replaces make(chan T, n).
func MakeChan[T any](n ...int) *Chan[T] {
	c := new(Chan[T])
	initChan(&c.c, n)
	return c
}

// MakeOf makes a channel of a type of its own.
func MakeOf[C ~*Chan[T], T any](n ...int) C { return C(MakeChan[T](n...)) }

// Plain returns a channel of a type of its own as a plain one.
func Plain[C ~*Chan[T], T any](c C) *Chan[T] { return (*Chan[T])(c) }

//go:noinline
func initChan(c *core, n []int) {
	if len(n) > 0 {
		c.cap = n[0]
		if c.cap < 0 {
			panic("makechan: size out of range")
		}
	}
}

// Native wraps a channel that belongs to code outside of control.
func Native[T any](ch <-chan T) *Chan[T] {
	if ch == nil {
		return nil
	}
	c := new(Chan[T])
	setNative(&c.c, reflect.ValueOf(ch))
	return c
}

//go:noinline
func setNative(c *core, v reflect.Value) { c.native = v }

func (c *Chan[T]) coreOf() *core {
	if c == nil {
		return nil
	}
	return &c.c
}

// Send replaces c <- v.
func (c *Chan[T]) Send(v T) { doSend(c.coreOf(), v) }

// Recv replaces <-c.
func (c *Chan[T]) Recv() T {
	v, _ := c.Recv2()
	return v
}

// Recv2 replaces v, ok := <-c.
func (c *Chan[T]) Recv2() (T, bool) {
	v, ok := doRecv(c.coreOf())
	if v == nil {
		var z T
		return z, ok
	}
	return v.(T), ok
}

// RecvInto receives into p and reports whether the channel is still open.
func (c *Chan[T]) RecvInto(p *T) bool {
	v, ok := c.Recv2()
	if ok {
		*p = v
	}
	return ok
}

// Close replaces close(c).
func (c *Chan[T]) Close() { doClose(c.coreOf()) }

// Len replaces len(c).
func (c *Chan[T]) Len() int { return doLen(c.coreOf()) }

// Cap replaces cap(c).
func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.c.cap
}

//go:noinline
func doLen(c *core) int {
	if c == nil {
		return 0
	}
	Point("len(chan)")
	return len(c.buf)
}

// RC is a receive case of a select with its result.
type RC[T any] struct {
	C  Case
	V  T
	OK bool
}

// SC is a send case of a select.
type SC struct{ C Case }

// SelCase is implemented by RC and SC.
type SelCase interface {
	caseOf() *Case
	finish()
}

func (r *RC[T]) caseOf() *Case { return &r.C }
func (s *SC) caseOf() *Case    { return &s.C }
func (s *SC) finish()          {}
func (r *RC[T]) finish() {
	if v := caseVal(&r.C); v != nil {
		r.V = v.(T)
	}
	r.OK = caseOK(&r.C)
}

//go:noinline
func caseVal(c *Case) any { return c.got }

//go:noinline
func caseOK(c *Case) bool { return c.ok }

//go:noinline
func setCase(k *Case, c *core, send bool, v any) { k.c, k.send, k.val = c, send, v }

// RecvCase builds a receive case.
func (c *Chan[T]) RecvCase() *RC[T] {
	r := new(RC[T])
	setCase(&r.C, c.coreOf(), false, nil)
	return r
}

// SendCase builds a send case.
func (c *Chan[T]) SendCase(v T) *SC {
	s := new(SC)
	setCase(&s.C, c.coreOf(), true, v)
	return s
}

// Select executes a select statement and returns the index of the chosen case, -1 for
// the default.
func Select(hasDefault bool, cases ...SelCase) int {
	i := doSelect(hasDefault, cases)
	if i >= 0 {
		cases[i].finish()
	}
	return i
}

//go:noinline
func doSelect(hasDefault bool, cases []SelCase) int {
	cs := make([]*Case, len(cases))
	for i, s := range cases {
		cs[i] = s.caseOf()
	}
	return runCases("select", hasDefault, cs)
}

// BlockForeverV replaces select {} (its result is never used).
//
//go:noinline
func BlockForeverV() any {
	runCases("select{}", false, []*Case{{}})
	return nil
}

//go:noinline
func doSend(c *core, v any) {
	k := &Case{c: c, send: true, val: v}
	runCases("send", false, []*Case{k})
}

//go:noinline
func doRecv(c *core) (any, bool) {
	k := &Case{c: c}
	runCases("receive", false, []*Case{k})
	return k.got, k.ok
}

//go:noinline
func doClose(c *core) {
	if c == nil {
		panic("close of nil channel")
	}
	if x == nil || x.killing {
		c.closed = true
		return
	}
	bad := false
	raceReleaseMerge(unsafe.Pointer(&c.closev))
	park(&op{label: "close", commit: func() {
		if c.closed {
			bad = true
			return
		}
		c.closed = true
	}})
	if bad {
		panic("close of closed channel")
	}
}

func runCases(label string, hasDefault bool, cs []*Case) int {
	if x == nil {
		// outside of an execution: only operations that need no partner
		for i, k := range cs {
			if k.c == nil {
				continue
			}
			if k.send && len(k.c.buf) < k.c.cap {
				k.c.buf = append(k.c.buf, msg{v: k.val})
				return i
			}
			if !k.send && len(k.c.buf) > 0 {
				k.got, k.ok = k.c.buf[0].v, true
				k.c.buf = k.c.buf[1:]
				return i
			}
			if !k.send && k.c.closed {
				return i
			}
		}
		if hasDefault {
			return -1
		}
		panic("vrt: blocking channel operation outside of a controlled execution")
	}
	if x.killing {
		return -1
	}
	o := &op{label: label, cases: cs, hasDef: hasDefault, chosen: -2}
	anySend := false
	for i, k := range cs {
		k.o, k.idx = o, i
		if k.c == nil {
			continue
		}
		if k.send {
			anySend = true
			k.c.sendq = append(k.c.sendq, k)
		} else {
			k.c.recvq = append(k.c.recvq, k)
		}
	}
	_ = anySend
	raceRelease(unsafe.Pointer(&o.syncv))
	park(o)
	if o.chosen >= 0 {
		k := cs[o.chosen]
		if k.panic != "" {
			panic(k.panic)
		}
		if k.peer != nil {
			raceAcquire(unsafe.Pointer(&k.peer.syncv))
		}
		if !k.send && !k.ok && k.c != nil {
			raceAcquire(unsafe.Pointer(&k.c.closev))
		}
	}
	return o.chosen
}

func (k *Case) waiting() bool {
	return k.o != nil && k.o.t != nil && k.o.t.op == k.o && !k.o.t.ready && k.o.chosen == -2
}

// partner finds a parked operation of another thread on the other end of k.
func (k *Case) partner() *Case {
	q := k.c.recvq
	if !k.send {
		q = k.c.sendq
	}
	for _, p := range q {
		if p.o.t != k.o.t && p.waiting() {
			return p
		}
	}
	return nil
}

func (k *Case) ready() bool {
	c := k.c
	if c == nil {
		return false
	}
	if c.native.IsValid() {
		if len(c.buf) > 0 {
			return true
		}
		v, ok := c.native.TryRecv()
		if ok {
			c.buf = append(c.buf, msg{v: v.Interface()})
			return true
		}
		if v.IsValid() { // closed
			c.closed = true
			return true
		}
		return c.closed
	}
	if k.send {
		return c.closed || len(c.buf) < c.cap || k.partner() != nil
	}
	return len(c.buf) > 0 || c.closed || k.partner() != nil
}

func (e *Exec) casesReady(o *op) bool {
	if o.hasDef {
		return true
	}
	for _, k := range o.cases {
		if k.ready() {
			return true
		}
	}
	return false
}

func (e *Exec) commitCases(o *op) {
	var rd [16]int
	n := 0
	for i, k := range o.cases {
		if n < len(rd) && k.ready() {
			rd[n] = i
			n++
		}
	}
	if n == 0 {
		o.chosen = -1
		o.unqueue()
		return
	}
	i := 0
	if n > 1 {
		i = e.choose(n, 1, 'c', "select")
		if i < 0 {
			return
		}
	}
	if e.opt.Fair && n > 1 {
		// by default the channel this select has not used for longest
		sort.SliceStable(rd[:n], func(i, j int) bool { return o.t.used[o.cases[rd[i]].c] < o.t.used[o.cases[rd[j]].c] })
	}
	o.complete(rd[i])
}

// noteUse remembers when a thread last used a channel, for fair selects.
func (k *Case) noteUse() {
	if e := x; e != nil && e.opt.Fair && k.o != nil && k.o.t != nil {
		if k.o.t.used == nil {
			k.o.t.used = map[*core]int{}
		}
		k.o.t.used[k.c] = e.opseq
	}
}

func (o *op) complete(i int) {
	k := o.cases[i]
	c := k.c
	o.chosen = i
	o.unqueue()
	k.noteUse()
	if k.send {
		if c.closed {
			k.panic = "send on closed channel"
			return
		}
		if len(c.buf) == 0 {
			if p := k.partner(); p != nil {
				p.got, p.ok, p.peer = k.val, true, o
				p.o.chosen = p.idx
				p.noteUse()
				k.peer = p.o
				p.o.unqueue()
				p.o.t.ready = true
				return
			}
		}
		if len(c.freed) > 0 {
			k.peer = c.freed[0]
			c.freed = c.freed[1:]
		}
		c.buf = append(c.buf, msg{v: k.val, o: o})
		return
	}
	if len(c.buf) > 0 {
		m := c.buf[0]
		c.buf = append([]msg(nil), c.buf[1:]...)
		k.got, k.ok, k.peer = m.v, true, m.o
		if c.onRecv != nil {
			c.onRecv()
		}
		if p := k.partner(); p != nil {
			p.peer = o
			p.o.chosen = p.idx
			p.noteUse()
			p.o.unqueue()
			p.o.t.ready = true
			c.buf = append(c.buf, msg{v: p.val, o: p.o})
		} else {
			c.freed = append(c.freed, o)
		}
		return
	}
	if p := k.partner(); p != nil && !c.closed {
		k.got, k.ok, k.peer = p.val, true, p.o
		p.peer = o
		p.o.chosen = p.idx
		p.noteUse()
		p.o.unqueue()
		p.o.t.ready = true
		return
	}
	// closed
	k.got, k.ok = nil, false
}

func (o *op) unqueue() {
	for _, k := range o.cases {
		if k.c == nil {
			continue
		}
		k.c.sendq = drop(k.c.sendq, o)
		k.c.recvq = drop(k.c.recvq, o)
	}
}

func drop(q []*Case, o *op) []*Case {
	n := 0
	for _, k := range q {
		if k.o != o {
			q[n] = k
			n++
		}
	}
	return q[:n]
}

// ---- timers ----

// Timer is the controlled core of time.Timer and time.Ticker.
type Timer struct {
	t *timer
	c *core
	f func()
	v func() any
}

// NewTimer arms a timer on channel c (may be nil, then f runs in a new thread) after ns.
func NewTimer[T any](c *Chan[T], ns, period int64, v func() any, f func()) *Timer {
	return newTimer(c.coreOf(), ns, period, v, f)
}

//go:noinline
func newTimer(c *core, ns, period int64, v func() any, f func()) *Timer {
	tm := &Timer{c: c, f: f, v: v}
	if c != nil && c.cap == 0 {
		c.cap = 1
	}
	tm.arm(ns, period)
	return tm
}

func (tm *Timer) arm(ns, period int64) {
	e := x
	if e == nil {
		// started while the package was initialised; that is done again when an
		// execution starts
		tm.t = &timer{}
		return
	}
	if ns < 0 {
		ns = 0
	}
	t := &timer{when: e.now + ns, period: period, seq: e.tseq, active: true}
	e.tseq++
	tm.t = t
	raceRelease(unsafe.Pointer(&t.syncv))
	t.fire = func() {
		if tm.f != nil {
			th := spawn("timer", tm.f)
			_ = th
			return
		}
		c := tm.c
		val := tm.v()
		if len(c.buf) >= c.cap {
			return // nobody listens: tick is dropped
		}
		c.buf = append(c.buf, msg{v: val})
	}
	e.timers = append(e.timers, t)
}

// Stop disarms the timer; it reports whether it was armed.
//
//go:noinline
func (tm *Timer) Stop() bool {
	if x == nil || x.killing {
		return false
	}
	was := false
	park(&op{label: "timer stop", commit: func() {
		was = tm.t.active
		tm.t.active = false
		if tm.c != nil && len(tm.c.buf) > 0 {
			tm.c.buf = nil
			was = true
		}
	}})
	return was
}

// Reset re-arms the timer.
//
//go:noinline
func (tm *Timer) Reset(ns, period int64) bool {
	was := tm.Stop()
	if x != nil && !x.killing {
		tm.arm(ns, period)
	}
	return was
}
