// Package verrgroup stands in for golang.org/x/sync/errgroup: the same code
// over simulated primitives.
package verrgroup

import (
	"context"
	"fmt"

	"github.com/PatchLens/go-update-lens/zzverif/vctx"
	"github.com/PatchLens/go-update-lens/zzverif/vsim"
	"github.com/PatchLens/go-update-lens/zzverif/vsync"
)

type token struct{}

type Group struct {
	cancel  func(error)
	wg      vsync.WaitGroup
	sem     chan token
	errOnce vsync.Once
	err     error
}

func (g *Group) done() {
	if g.sem != nil {
		vsim.Recv(g.sem)
	}
	g.wg.Done()
}

func WithContext(ctx context.Context) (*Group, context.Context) {
	ctx, cancel := vctx.WithCancelCause(ctx)
	return &Group{cancel: cancel}, ctx
}

func (g *Group) Wait() error {
	g.wg.Wait()
	if g.cancel != nil {
		g.cancel(g.err)
	}
	return g.err
}

func (g *Group) start(f func() error) {
	g.wg.Add(1)
	vsim.GoNamed("errgroup", func() {
		defer g.done()
		if err := f(); err != nil {
			g.errOnce.Do(func() {
				g.err = err
				if g.cancel != nil {
					g.cancel(g.err)
				}
			})
		}
	})
}

func (g *Group) Go(f func() error) {
	if g.sem != nil {
		vsim.Send(g.sem, token{})
	}
	g.start(f)
}

func (g *Group) TryGo(f func() error) bool {
	if g.sem != nil {
		if vsim.Select(true, vsim.SendCase(g.sem, token{})) < 0 {
			return false
		}
	}
	g.start(f)
	return true
}

func (g *Group) SetLimit(n int) {
	if n < 0 {
		g.sem = nil
		return
	}
	if active := len(g.sem); active != 0 {
		panic(fmt.Errorf("errgroup: modify limit while %v goroutines in the group are still active", active))
	}
	g.sem = make(chan token, n)
}
