// Package sctx stands in for package context: the same API and error values,
// with cancellation and deadlines decided by the simulation.
package sctx

import (
	"context"
	"errors"
	"time"

	rt "verif.local/sim/simrt"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

// Background is context.Background.
func Background() Context { return context.Background() }

// TODO is context.TODO.
func TODO() Context { return context.TODO() }

// WithValue is context.WithValue.
func WithValue(parent Context, key, val any) Context { return context.WithValue(parent, key, val) }

type ckey struct{}

var cancelKey ckey

type cancelCtx struct {
	parent   Context
	done     chan struct{}
	err      error
	cause    error
	children []func(err, cause error)
	deadline time.Time
	hasDL    bool
	timer    *rt.Timer
	vc       rt.VC
}

func (c *cancelCtx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *cancelCtx) Done() <-chan struct{} { return c.done }
func (c *cancelCtx) Err() error {
	rt.Yield("ctx.Err")
	if c.err != nil {
		rt.Acquire(&c.vc)
	}
	return c.err
}
func (c *cancelCtx) Value(k any) any {
	if k == cancelKey {
		return c
	}
	return c.parent.Value(k)
}

func (c *cancelCtx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	rt.Release(&c.vc)
	if c.timer != nil {
		c.timer.Stop()
	}
	rt.CloseQuiet(c.done)
	for _, f := range c.children {
		f(err, cause)
	}
	c.children = nil
}

func newCancel(parent Context) *cancelCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cancelCtx{parent: parent, done: make(chan struct{})}
	propagate(parent, c.cancel)
	return c
}

// propagate arranges for f to be called when parent is cancelled.
func propagate(parent Context, f func(err, cause error)) {
	if p, ok := parent.Value(cancelKey).(*cancelCtx); ok && p.done == bidiDone(parent) {
		if p.err != nil {
			f(p.err, p.cause)
			return
		}
		p.children = append(p.children, f)
		return
	}
	d := parent.Done()
	if d == nil {
		return
	}
	if err := parent.Err(); err != nil {
		f(err, context.Cause(parent))
		return
	}
	rt.Go(func() {
		rt.Recv(d)
		f(parent.Err(), context.Cause(parent))
	})
}

func bidiDone(c Context) chan struct{} {
	for {
		if cc, ok := c.(*cancelCtx); ok {
			return cc.done
		}
		p, _ := c.Value(cancelKey).(*cancelCtx)
		if p == nil {
			return nil
		}
		if c.Done() == (<-chan struct{})(p.done) {
			return p.done
		}
		return nil
	}
}

// WithCancel is context.WithCancel.
func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCancel(parent)
	return c, func() { rt.Yield("cancel"); c.cancel(Canceled, nil) }
}

// WithCancelCause is context.WithCancelCause.
func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCancel(parent)
	return c, func(cause error) { rt.Yield("cancel"); c.cancel(Canceled, cause) }
}

// WithDeadline is context.WithDeadline.
func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

// WithDeadlineCause is context.WithDeadlineCause.
func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	c := newCancel(parent)
	if pd, ok := parent.Deadline(); !ok || d.Before(pd) {
		c.deadline, c.hasDL = d, true
		if c.err == nil {
			left := d.Sub(rt.Base().Add(rt.Now()))
			if left <= 0 {
				c.cancel(DeadlineExceeded, cause)
			} else {
				c.timer = rt.AddTimer(left, func() { c.cancel(DeadlineExceeded, cause) })
			}
		}
	}
	return c, func() { rt.Yield("cancel"); c.cancel(Canceled, nil) }
}

// WithTimeout is context.WithTimeout.
func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, rt.Base().Add(rt.Now()).Add(d))
}

// WithTimeoutCause is context.WithTimeoutCause.
func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, rt.Base().Add(rt.Now()).Add(d), cause)
}

// Cause is context.Cause.
func Cause(c Context) error {
	if p, ok := c.Value(cancelKey).(*cancelCtx); ok {
		return p.cause
	}
	return context.Cause(c)
}

type withoutCancel struct{ c Context }

func (withoutCancel) Deadline() (time.Time, bool) { return time.Time{}, false }
func (withoutCancel) Done() <-chan struct{}       { return nil }
func (withoutCancel) Err() error                  { return nil }
func (w withoutCancel) Value(k any) any {
	if k == cancelKey {
		return nil
	}
	return w.c.Value(k)
}

// WithoutCancel is context.WithoutCancel.
func WithoutCancel(parent Context) Context { return withoutCancel{parent} }

// AfterFunc is context.AfterFunc.
func AfterFunc(ctx Context, f func()) (stop func() bool) {
	ran, stopped := false, false
	propagate(ctx, func(error, error) {
		if stopped || ran {
			return
		}
		ran = true
		rt.SpawnAny("context.AfterFunc", f)
	})
	return func() bool {
		rt.Yield("AfterFunc stop")
		if ran || stopped {
			return false
		}
		stopped = true
		return true
	}
}

var _ = errors.New
