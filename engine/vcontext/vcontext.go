// Package vcontext is the controlled replacement of package context: deadlines run on
// virtual time, and waiting for a context is a controlled operation.
package vcontext

import (
	"context"
	"time"

	"github.com/ti-mo/comfo/zzverif/vrt"
	"github.com/ti-mo/comfo/zzverif/vsync"
	"github.com/ti-mo/comfo/zzverif/vtime"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

func Background() Context                   { return context.Background() }
func TODO() Context                         { return context.TODO() }
func WithValue(p Context, k, v any) Context { return context.WithValue(p, k, v) }

type key int

// ctx is a context that can be canceled.
type ctx struct {
	parent   Context
	deadline time.Time
	hasDl    bool

	m     vsync.Mutex
	err   error
	cause error
	kids  []*ctx
	after []*afterFunc

	done *vrt.Chan[struct{}] // for code under control
	raw  chan struct{}       // for all other code
}

type afterFunc struct {
	f    func()
	gone bool
}

func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.parent.Deadline()
}

func (c *ctx) Done() <-chan struct{} { return c.raw }

func (c *ctx) Err() error {
	c.m.Lock()
	defer c.m.Unlock()
	return c.err
}

func (c *ctx) Value(k any) any {
	if k == key(0) {
		return c
	}
	return c.parent.Value(k)
}

// of returns the nearest context of this package that p derives from, provided p ends
// when that one does.
func of(p Context) *ctx {
	c, _ := p.Value(key(0)).(*ctx)
	if c == nil || p.Done() != c.Done() {
		return nil
	}
	return c
}

// Done replaces p.Done() in code under control.
func Done(p Context) *vrt.Chan[struct{}] {
	if c := of(p); c != nil {
		return c.done
	}
	return vrt.Native(p.Done())
}

func (c *ctx) cancel(err, cause error) {
	if cause == nil {
		cause = err
	}
	c.m.Lock()
	if c.err != nil {
		c.m.Unlock()
		return
	}
	c.err, c.cause = err, cause
	kids, after := c.kids, c.after
	c.kids, c.after = nil, nil
	close(c.raw)
	c.done.Close()
	c.m.Unlock()
	for _, k := range kids {
		k.cancel(err, cause)
	}
	for _, a := range after {
		if !a.gone {
			vrt.Go(a.f)
		}
	}
}

func newCtx(p Context) *ctx {
	if p == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{parent: p, done: vrt.MakeChan[struct{}](), raw: make(chan struct{})}
	if q := of(p); q != nil {
		q.m.Lock()
		err, cause := q.err, q.cause
		if err == nil {
			q.kids = append(q.kids, c)
		}
		q.m.Unlock()
		if err != nil {
			c.cancel(err, cause)
		}
		return c
	}
	if p.Done() != nil {
		if p.Err() != nil {
			c.cancel(p.Err(), context.Cause(p))
			return c
		}
		ch := vrt.Native(p.Done())
		vrt.Go(func() {
			if vrt.Select(false, ch.RecvCase(), c.done.RecvCase()) == 0 {
				c.cancel(p.Err(), context.Cause(p))
			}
		})
	}
	return c
}

func WithCancel(p Context) (Context, CancelFunc) {
	c := newCtx(p)
	return c, func() { c.cancel(Canceled, nil) }
}

func WithCancelCause(p Context) (Context, CancelCauseFunc) {
	c := newCtx(p)
	return c, func(cause error) { c.cancel(Canceled, cause) }
}

func WithDeadline(p Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(p, d, nil)
}

func WithDeadlineCause(p Context, d time.Time, cause error) (Context, CancelFunc) {
	c := newCtx(p)
	if cur, ok := p.Deadline(); ok && cur.Before(d) {
		return c, func() { c.cancel(Canceled, nil) }
	}
	c.deadline, c.hasDl = d, true
	t := vtime.AfterFunc(vtime.Until(d), func() { c.cancel(DeadlineExceeded, cause) })
	return c, func() {
		t.Stop()
		c.cancel(Canceled, nil)
	}
}

func WithTimeout(p Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(p, vtime.Now().Add(d))
}

func WithTimeoutCause(p Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(p, vtime.Now().Add(d), cause)
}

func WithoutCancel(p Context) Context { return context.WithoutCancel(p) }

func Cause(p Context) error {
	if c := of(p); c != nil {
		c.m.Lock()
		defer c.m.Unlock()
		return c.cause
	}
	return context.Cause(p)
}

// AfterFunc runs f in a goroutine of its own once p is done.
func AfterFunc(p Context, f func()) (stop func() bool) {
	c := of(p)
	if c == nil {
		w := newCtx(p)
		c = w
	}
	a := &afterFunc{f: f}
	c.m.Lock()
	ended := c.err != nil
	if !ended {
		c.after = append(c.after, a)
	} else {
		a.gone = true
	}
	c.m.Unlock()
	if ended {
		vrt.Go(f)
	}
	return func() bool {
		c.m.Lock()
		defer c.m.Unlock()
		if a.gone || c.err != nil {
			return false
		}
		a.gone = true
		return true
	}
}
