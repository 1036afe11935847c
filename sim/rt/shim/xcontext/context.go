// Package context is the simulated counterpart of the standard package.
package context

import (
	"context"
	"sync"

	"github.com/fredbi/go-typeset/zsim/shim/xtime"
	"github.com/fredbi/go-typeset/zsim/simrt"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

func Background() Context { return context.Background() }
func TODO() Context       { return context.TODO() }

// WithValue attaches a value.
func WithValue(parent Context, key, val any) Context { return context.WithValue(parent, key, val) }

type ownKey struct{}

// ctx can be cancelled.
type ctx struct {
	Context

	mu       sync.Mutex // never contended: orders memory for the race detector
	ch       chan struct{}
	err      error
	cause    error
	children map[*ctx]int
	born     int
	deadline time.Time
	limited  bool
	timer    *time.Timer
	up       *ctx
	do       func()
}

func (c *ctx) Deadline() (time.Time, bool) {
	if c.limited {
		return c.deadline, true
	}
	return c.Context.Deadline()
}

func (c *ctx) Done() <-chan struct{} { return c.ch }

func (c *ctx) Err() error {
	simrt.YH(-14)
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

func (c *ctx) Value(key any) any {
	if key == any(ownKey{}) {
		return c
	}
	return c.Context.Value(key)
}

func (c *ctx) cancel(err, cause error) {
	if cause == nil {
		cause = err
	}
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	c.err, c.cause = err, cause
	kids := make([]*ctx, 0, len(c.children))
	for n := 0; n < c.born; n++ { // in order of their creation
		for k, at := range c.children {
			if at == n {
				kids = append(kids, k)
			}
		}
	}
	c.children = nil
	t, do, up := c.timer, c.do, c.up
	c.mu.Unlock()
	if t != nil {
		t.Stop()
	}
	simrt.Close(c.ch)
	for _, k := range kids {
		k.cancel(err, cause)
	}
	if up != nil {
		up.mu.Lock()
		delete(up.children, c)
		up.mu.Unlock()
	}
	if do != nil {
		simrt.Go(do)
	}
}

func derive(parent Context, do func()) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{Context: parent, ch: make(chan struct{}), do: do}
	if up, ok := parent.Value(ownKey{}).(*ctx); ok && up != nil && (<-chan struct{})(up.ch) == parent.Done() {
		up.mu.Lock()
		err, cause := up.err, up.cause
		if err == nil {
			if up.children == nil {
				up.children = map[*ctx]int{}
			}
			up.children[c] = up.born
			up.born++
			c.up = up
		}
		up.mu.Unlock()
		if err != nil {
			c.cancel(err, cause)
		}
		return c
	}
	if parent.Done() != nil {
		simrt.Go(func() {
			a, b := simrt.RecvCase(parent.Done()), simrt.RecvCase(c.Done())
			if simrt.Select(false, a, b) == 0 {
				c.cancel(parent.Err(), Cause(parent))
			}
		})
	}
	return c
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := derive(parent, nil)
	return c, func() { c.cancel(Canceled, nil) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := derive(parent, nil)
	return c, func(cause error) { c.cancel(Canceled, cause) }
}

// Cause tells why c was cancelled.
func Cause(c Context) error {
	if own, ok := c.Value(ownKey{}).(*ctx); ok && own != nil {
		own.mu.Lock()
		defer own.mu.Unlock()
		return own.cause
	}
	return c.Err()
}

// AfterFunc runs f once parent is done.
func AfterFunc(parent Context, f func()) (stop func() bool) {
	c := derive(parent, f)
	return func() bool {
		c.mu.Lock()
		ran := c.err != nil
		c.do = nil
		c.mu.Unlock()
		c.cancel(Canceled, nil)
		return !ran
	}
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	return limited(parent, d, time.Until(d), cause)
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return limited(parent, time.Now().Add(d), d, nil)
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return limited(parent, time.Now().Add(d), d, cause)
}

func limited(parent Context, at time.Time, d time.Duration, cause error) (Context, CancelFunc) {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	if first, ok := parent.Deadline(); ok && first.Before(at) {
		return WithCancel(parent)
	}
	c := derive(parent, nil)
	c.deadline, c.limited = at, true
	if d <= 0 {
		c.cancel(DeadlineExceeded, cause)
	} else {
		c.mu.Lock()
		live := c.err == nil
		c.mu.Unlock()
		if live {
			t := time.AfterFunc(d, func() { c.cancel(DeadlineExceeded, cause) })
			c.mu.Lock()
			c.timer = t
			c.mu.Unlock()
		}
	}
	return c, func() { c.cancel(Canceled, nil) }
}

type free struct{ parent Context }

func (free) Deadline() (t time.Time, ok bool) { return }
func (free) Done() <-chan struct{}            { return nil }
func (free) Err() error                       { return nil }
func (f free) Value(key any) any {
	if key == any(ownKey{}) {
		return nil
	}
	return f.parent.Value(key)
}

// WithoutCancel is not cancelled with its parent.
func WithoutCancel(parent Context) Context { return free{parent} }
