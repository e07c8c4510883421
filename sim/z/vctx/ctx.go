// Package vctx stands in for context under the simulator: cancellation and
// deadlines run on simulated channels and the virtual clock.
package vctx

import (
	"context"
	"time"

	"github.com/PatchLens/go-update-lens/zzverif/vsim"
)

type key int

const self key = 0

type cctx struct {
	context.Context
	done     chan struct{}
	err      error
	cause    error
	children map[*cctx]int
	seq      int
	deadline time.Time
	hasDL    bool
	stop     func() bool
	clk      vsim.Clock
}

func (c *cctx) Done() <-chan struct{} { return c.done }
func (c *cctx) Err() error            { vsim.Y(); vsim.Acquire(&c.clk); return c.err }
func (c *cctx) Value(k any) any {
	if k == self {
		return c
	}
	return c.Context.Value(k)
}
func (c *cctx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.Context.Deadline()
}

func (c *cctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	if vsim.W != nil {
		vsim.Release(&c.clk)
	}
	vsim.CloseQuiet(c.done)
	if c.stop != nil {
		c.stop()
	}
	kids := make([]*cctx, 0, len(c.children))
	for k := range c.children {
		kids = append(kids, k)
	}
	for i := range kids { // creation order
		for j := i + 1; j < len(kids); j++ {
			if c.children[kids[j]] < c.children[kids[i]] {
				kids[i], kids[j] = kids[j], kids[i]
			}
		}
	}
	c.children = nil
	for _, k := range kids {
		k.cancel(err, cause)
	}
}

func newCtx(parent context.Context) *cctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cctx{Context: parent, done: make(chan struct{})}
	if p, ok := parent.Value(self).(*cctx); ok {
		if p.err != nil {
			c.cancel(p.err, p.cause)
			return c
		}
		if p.children == nil {
			p.children = map[*cctx]int{}
		}
		p.seq++
		p.children[c] = p.seq
	} else if parent.Done() != nil {
		vsim.GoNamed("ctx", func() {
			if vsim.Select(false, vsim.RecvCase(parent.Done()), vsim.RecvCase[struct{}](c.done)) == 0 {
				c.cancel(parent.Err(), context.Cause(parent))
			}
		})
	}
	return c
}

func (c *cctx) detach() {
	if p, ok := c.Context.Value(self).(*cctx); ok {
		delete(p.children, c)
	}
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	return c, func() { vsim.Op("cancel"); c.cancel(context.Canceled, nil); c.detach() }
}

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) { vsim.Op("cancel"); c.cancel(context.Canceled, cause); c.detach() }
}

func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	if cur, ok := parent.Deadline(); !ok || d.Before(cur) {
		c.deadline, c.hasDL = d, true
		if c.err == nil {
			c.stop = vsim.After(d.Sub(vsim.Epoch.Add(vsim.Now())), func() { c.cancel(context.DeadlineExceeded, cause) })
		}
	}
	return c, func() { vsim.Op("cancel"); c.cancel(context.Canceled, nil); c.detach() }
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, vsim.Epoch.Add(vsim.Now()+d))
}

func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, vsim.Epoch.Add(vsim.Now()+d), cause)
}

func Cause(c context.Context) error {
	if x, ok := c.Value(self).(*cctx); ok {
		if x.err == nil {
			return nil
		}
		return x.cause
	}
	return context.Cause(c)
}

func AfterFunc(ctx context.Context, f func()) (stop func() bool) {
	stopped := make(chan struct{})
	done, ran := false, false
	vsim.GoNamed("ctx.afterfunc", func() {
		if vsim.Select(false, vsim.RecvCase(ctx.Done()), vsim.RecvCase[struct{}](stopped)) == 0 && !done {
			ran = true
			f()
		}
	})
	return func() bool {
		if done || ran {
			return false
		}
		done = true
		vsim.Close(stopped)
		return true
	}
}
