// Package context is the simulated context.
package context

import (
	std "context"
	"errors"
	"time"

	"github.com/iomz/gosstrak/verif/simrt"
	xtime "github.com/iomz/gosstrak/verif/simrt/xtime"
)

type ctx struct {
	parent   Context
	done     chan struct{}
	err      error
	cause    error
	deadline time.Time
	hasDL    bool
	key, val any
	kids     []*ctx
	after    []func()
	isVal    bool
}

func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}

func (c *ctx) Done() <-chan struct{} {
	if c.isVal {
		return c.parent.Done()
	}
	return c.done
}

func (c *ctx) Err() error {
	if c.isVal {
		return c.parent.Err()
	}
	return c.err
}

func (c *ctx) Value(key any) any {
	if c.isVal && c.key == key {
		return c.val
	}
	return c.parent.Value(key)
}

func owner(p Context) *ctx {
	for {
		c, ok := p.(*ctx)
		if !ok {
			return nil
		}
		if !c.isVal {
			return c
		}
		p = c.parent
	}
}

func (c *ctx) stop(err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	simrt.CloseQuiet(c.done)
	for _, k := range c.kids {
		k.stop(err, cause)
	}
	for _, f := range c.after {
		f()
	}
}

func child(p Context) *ctx {
	if p == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{parent: p, done: make(chan struct{})}
	if o := owner(p); o != nil {
		if o.err != nil {
			c.stop(o.err, o.cause)
		} else {
			o.kids = append(o.kids, c)
		}
	}
	return c
}

func WithCancel(p Context) (Context, CancelFunc) {
	c := child(p)
	return c, func() { c.cancel(nil) }
}

func (c *ctx) cancel(cause error) {
	if !simrt.Alive() {
		return
	}
	c.stop(std.Canceled, cause)
	simrt.Enter("cancel")
}

func WithCancelCause(p Context) (Context, CancelCauseFunc) {
	c := child(p)
	return c, func(e error) { c.cancel(e) }
}

func WithDeadlineCause(p Context, d time.Time, cause error) (Context, CancelFunc) {
	c := child(p)
	if pd, ok := p.Deadline(); ok && pd.Before(d) {
		return c, func() { c.cancel(nil) }
	}
	c.deadline, c.hasDL = d, true
	left := simrt.MonoOf(d) - simrt.NowNS()
	if left <= 0 {
		c.stop(std.DeadlineExceeded, cause)
		return c, func() {}
	}
	off := simrt.After(left, func() { c.stop(std.DeadlineExceeded, cause) })
	return c, func() { off(); c.cancel(nil) }
}

func WithDeadline(p Context, d time.Time) (Context, CancelFunc) { return WithDeadlineCause(p, d, nil) }
func WithTimeout(p Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(p, xtime.Now().Add(d))
}
func WithTimeoutCause(p Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(p, xtime.Now().Add(d), cause)
}

func WithValue(p Context, key, val any) Context {
	return &ctx{parent: p, isVal: true, key: key, val: val}
}

func WithoutCancel(p Context) Context { return std.WithoutCancel(p) }

func AfterFunc(p Context, f func()) func() bool {
	o := owner(p)
	if o == nil {
		return func() bool { return true }
	}
	done := false
	proc := simrt.Cur()
	run := func() {
		if !done {
			done = true
			simrt.GoIn(proc, "ctx.AfterFunc", f)
		}
	}
	if o.err != nil {
		run()
	} else {
		o.after = append(o.after, run)
	}
	return func() bool { w := !done; done = true; return w }
}

func Cause(p Context) error {
	if o := owner(p); o != nil {
		return o.cause
	}
	return p.Err()
}

var _ = errors.New
