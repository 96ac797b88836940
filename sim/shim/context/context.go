// Package context replaces the standard package in the simulated build: the interface and errors are the standard
// ones; cancellation and deadlines run on the simulator's clock and channels.
package context

import (
	"context"
	"errors"
	"fmt"
	"time"

	simtime "verifsim/shim/time"
	"verifsim/simrt"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

func Background() Context { return context.Background() }
func TODO() Context       { return context.TODO() }

type valueCtx struct {
	Context
	k, v any
}

func (c *valueCtx) Value(k any) any {
	if k == c.k {
		return c.v
	}
	return c.Context.Value(k)
}

func WithValue(p Context, k, v any) Context {
	if k == nil {
		panic("nil key")
	}
	return &valueCtx{p, k, v}
}

type withoutCancel struct{ p Context }

func (w withoutCancel) Deadline() (time.Time, bool) { return time.Time{}, false }
func (w withoutCancel) Done() <-chan struct{}       { return nil }
func (w withoutCancel) Err() error                  { return nil }
func (w withoutCancel) Value(k any) any {
	if k == &cancelKey {
		return nil
	}
	return w.p.Value(k)
}
func WithoutCancel(p Context) Context { return withoutCancel{p} }

var cancelKey int

type cancelCtx struct {
	parent   Context
	done     chan struct{}
	err      error
	cause    error
	children []*cancelCtx
	after    []func()
	deadline time.Time
	hasDL    bool
	sv       simrt.SyncVar
}

func (c *cancelCtx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *cancelCtx) Done() <-chan struct{} { return c.done }
func (c *cancelCtx) Err() error {
	simrt.Yield()
	if c.err != nil {
		c.sv.Acquire()
	}
	return c.err
}
func (c *cancelCtx) Value(k any) any {
	if k == &cancelKey {
		return c
	}
	return c.parent.Value(k)
}
func (c *cancelCtx) String() string { return fmt.Sprintf("%v.WithCancel", "ctx") }

func (c *cancelCtx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.sv.Release()
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	simrt.CloseRaw[struct{}](c.done)
	for _, ch := range c.children {
		ch.cancel(err, cause)
	}
	for _, f := range c.after {
		simrt.Go(f)
	}
	c.children, c.after = nil, nil
}

func newCancel(p Context) *cancelCtx {
	if p == nil {
		panic("cannot create context from nil parent")
	}
	c := &cancelCtx{parent: p, done: make(chan struct{})}
	if pc, ok := p.Value(&cancelKey).(*cancelCtx); ok {
		if pc.err != nil {
			c.cancel(pc.err, pc.cause)
		} else {
			pc.children = append(pc.children, c)
		}
	} else if d := p.Done(); d != nil { // foreign context
		simrt.Go(func() {
			if i, _, _ := simrt.Select(false, simrt.RecvCase(d), simrt.RecvCase[struct{}](c.done)); i == 0 {
				c.cancel(p.Err(), nil)
			}
		})
	}
	return c
}

func (c *cancelCtx) detach() {
	if pc, ok := c.parent.Value(&cancelKey).(*cancelCtx); ok {
		for i, x := range pc.children {
			if x == c {
				pc.children = append(pc.children[:i:i], pc.children[i+1:]...)
				return
			}
		}
	}
}

func WithCancel(p Context) (Context, CancelFunc) {
	c := newCancel(p)
	return c, func() {
		if simrt.Dying() {
			return
		}
		simrt.Yield()
		c.detach()
		c.cancel(Canceled, nil)
	}
}

func WithCancelCause(p Context) (Context, CancelCauseFunc) {
	c := newCancel(p)
	return c, func(e error) {
		if simrt.Dying() {
			return
		}
		simrt.Yield()
		c.detach()
		c.cancel(Canceled, e)
	}
}

func WithDeadline(p Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(p, d, nil)
}

func WithDeadlineCause(p Context, d time.Time, cause error) (Context, CancelFunc) {
	if cur, ok := p.Deadline(); ok && cur.Before(d) {
		return WithCancel(p)
	}
	c := newCancel(p)
	c.deadline, c.hasDL = d, true
	left := d.Sub(simtime.Now())
	if left <= 0 {
		c.cancel(DeadlineExceeded, cause)
	} else {
		simrt.S.After(simrt.S.Late(int64(left)), func() { c.detach(); c.cancel(DeadlineExceeded, cause) })
	}
	return c, func() {
		if simrt.Dying() {
			return
		}
		simrt.Yield()
		c.detach()
		c.cancel(Canceled, nil)
	}
}

func WithTimeout(p Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(p, simtime.Now().Add(d))
}
func WithTimeoutCause(p Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(p, simtime.Now().Add(d), cause)
}

func Cause(c Context) error {
	if cc, ok := c.Value(&cancelKey).(*cancelCtx); ok && cc.err != nil {
		return cc.cause
	}
	return c.Err()
}

func AfterFunc(p Context, f func()) func() bool {
	c := newCancel(p)
	f = simrt.Inherit(f)
	if c.err != nil {
		simrt.Go(f)
		return func() bool { return false }
	}
	c.after = append(c.after, f)
	return func() bool {
		was := c.after != nil
		c.after = nil
		c.detach()
		return was
	}
}

var _ = errors.New
