// Package context has the names of the standard package, under the scheduler.
package context

import (
	"context"
	"time"

	"verif/rt"
)

type Context interface {
	Deadline() (deadline time.Time, ok bool)
	Done() *rt.Chan[struct{}]
	Err() error
	Value(key any) any
}

type (
	CancelFunc      func()
	CancelCauseFunc func(cause error)
)

type empty struct{ name string }

func (empty) Deadline() (t time.Time, ok bool) { return }
func (empty) Done() *rt.Chan[struct{}]         { return nil }
func (empty) Err() error                       { return nil }
func (empty) Value(any) any                    { return nil }
func (e empty) String() string                 { return e.name }

func Background() Context { return empty{"context.Background"} }
func TODO() Context       { return empty{"context.TODO"} }

type ctx struct {
	Context
	c        *rt.Ctx
	deadline time.Time
}

type keyT struct{}

var self keyT

func (c *ctx) Done() *rt.Chan[struct{}] { return c.c.Done }
func (c *ctx) Err() error {
	err, _ := c.c.Err()
	return err
}
func (c *ctx) Deadline() (time.Time, bool) {
	if !c.deadline.IsZero() {
		return c.deadline, true
	}
	return c.Context.Deadline()
}
func (c *ctx) Value(k any) any {
	if k == self {
		return c
	}
	return c.Context.Value(k)
}

func derive(parent Context) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{Context: parent, c: rt.NewCtx()}
	done := parent.Done()
	if done == nil {
		return c
	}
	if p, ok := parent.Value(self).(*ctx); ok && p.c.Done == done {
		p.c.Adopt(c.c)
		return c
	}
	rt.Go(func() {
		a, b := rt.RecvCase(done), rt.RecvCase(c.c.Done)
		if rt.Select(false, a, b) == 0 {
			c.c.Cancel(parent.Err(), Cause(parent))
		}
	})
	return c
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := derive(parent)
	return c, func() { c.c.Cancel(context.Canceled, nil) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := derive(parent)
	return c, func(cause error) { c.c.Cancel(context.Canceled, cause) }
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	c := derive(parent)
	if cur, ok := parent.Deadline(); !ok || d.Before(cur) {
		c.deadline = d
		if left := d.Sub(rt.Now()); left <= 0 {
			c.c.Cancel(context.DeadlineExceeded, cause)
		} else {
			c.c.CancelAfter(left, context.DeadlineExceeded, cause)
		}
	}
	return c, func() { c.c.Cancel(context.Canceled, nil) }
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, rt.Now().Add(d))
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, rt.Now().Add(d), cause)
}

func Cause(c Context) error {
	if p, ok := c.Value(self).(*ctx); ok {
		_, cause := p.c.Err()
		return cause
	}
	return c.Err()
}

type value struct {
	Context
	k, v any
}

func (c value) Value(k any) any {
	if k == c.k {
		return c.v
	}
	return c.Context.Value(k)
}

func WithValue(parent Context, k, v any) Context { return value{parent, k, v} }

type detached struct{ Context }

func (detached) Deadline() (t time.Time, ok bool) { return }
func (detached) Done() *rt.Chan[struct{}]         { return nil }
func (detached) Err() error                       { return nil }
func (d detached) Value(k any) any {
	if k == self {
		return nil
	}
	return d.Context.Value(k)
}

func WithoutCancel(parent Context) Context { return detached{parent} }

func AfterFunc(parent Context, f func()) (stop func() bool) {
	if parent.Done() == nil {
		return func() bool { return true }
	}
	c := derive(parent)
	state := rt.MakeChan[struct{}](1)
	rt.Go(func() {
		rt.Recv(c.c.Done)
		if rt.Select(true, rt.SendCase(state)(struct{}{})) == 0 && parent.Err() != nil {
			f()
		}
	})
	return func() bool {
		won := rt.Select(true, rt.SendCase(state)(struct{}{})) == 0
		c.c.Cancel(context.Canceled, nil)
		return won
	}
}
