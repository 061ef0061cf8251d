// Package scontext replaces context in code under simulation.
package scontext

import (
	"context"
	"errors"
	"reflect"
	"time"

	"verif.local/sim/simrt"
	"verif.local/sim/ssync"
	"verif.local/sim/stime"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
	Background       = context.Background
	TODO             = context.TODO
)

type ctx struct {
	parent   Context
	done     chan struct{}
	mu       ssync.Mutex
	err      error
	cause    error
	kids     []*ctx
	deadline time.Time
	hasDl    bool
	timer    *stime.Timer
}

func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *ctx) Done() <-chan struct{} { return c.done }
func (c *ctx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}
func (c *ctx) Value(k any) any {
	if k == self {
		return c
	}
	return c.parent.Value(k)
}

type selfKey struct{ _ byte }

var self = &selfKey{}

func (c *ctx) cancel(err, cause error) {
	if cause == nil {
		cause = err
	}
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	c.err, c.cause = err, cause
	kids := c.kids
	c.kids = nil
	t := c.timer
	c.mu.Unlock()
	if t != nil {
		t.Stop()
	}
	simrt.S(c.done).Close()
	for _, k := range kids {
		k.cancel(err, cause)
	}
}

func newCtx(parent Context) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(self).(*ctx); ok {
		p.mu.Lock()
		err, cause := p.err, p.cause
		if err == nil {
			p.kids = append(p.kids, c)
		}
		p.mu.Unlock()
		if err != nil {
			c.cancel(err, cause)
		}
	}
	return c
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCtx(parent)
	return c, func() { c.cancel(Canceled, nil) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) { c.cancel(Canceled, cause) }
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	c := newCtx(parent)
	if p, ok := parent.Deadline(); ok && p.Before(d) {
		return c, func() { c.cancel(Canceled, nil) }
	}
	c.deadline, c.hasDl = d, true
	dur := stime.Until(d)
	if dur <= 0 {
		c.cancel(DeadlineExceeded, nil)
	} else if c.err == nil {
		c.timer = stime.AfterFunc(dur, func() { c.cancel(DeadlineExceeded, nil) })
	}
	return c, func() { c.cancel(Canceled, nil) }
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, stime.Now().Add(d))
}

func Cause(c Context) error {
	if p, ok := c.Value(self).(*ctx); ok {
		p.mu.Lock()
		defer p.mu.Unlock()
		return p.cause
	}
	return c.Err()
}

type valueCtx struct {
	Context
	k, v any
}

func (c *valueCtx) Value(k any) any {
	if c.k == k {
		return c.v
	}
	return c.Context.Value(k)
}

func WithValue(parent Context, k, v any) Context {
	if k == nil || !reflect.TypeOf(k).Comparable() {
		panic(errors.New("bad context key"))
	}
	return &valueCtx{parent, k, v}
}

type withoutCancel struct{ c Context }

func (withoutCancel) Deadline() (d time.Time, ok bool) { return }
func (withoutCancel) Done() <-chan struct{}            { return nil }
func (withoutCancel) Err() error                       { return nil }
func (w withoutCancel) Value(k any) any {
	if k == self {
		return nil
	}
	return w.c.Value(k)
}

func WithoutCancel(parent Context) Context { return withoutCancel{parent} }

func AfterFunc(c Context, f func()) (stop func() bool) {
	k := newCtx(c)
	ran := false
	stopped := false
	simrt.Go(func() {
		simrt.R(k.Done()).Recv2()
		if !stopped {
			ran = true
			f()
		}
	})
	return func() bool {
		if ran || stopped {
			return false
		}
		stopped = true
		k.cancel(Canceled, nil)
		return true
	}
}
