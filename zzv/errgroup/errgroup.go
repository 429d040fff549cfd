// Package errgroup replaces golang.org/x/sync/errgroup under the controlled scheduler.
package errgroup

import (
	"context"

	"github.com/alexeykiselev/waves-fork-detector/zzv/vs"
)

type Group struct {
	cancel func(error)
	n      int
	err    error
	limit  int
}

func WithContext(ctx context.Context) (*Group, context.Context) {
	ctx, cancel := context.WithCancelCause(ctx)
	return &Group{cancel: cancel}, ctx
}

func (g *Group) SetLimit(n int) { g.limit = n }

func (g *Group) done(err error) {
	vs.Pt()
	if err != nil && g.err == nil {
		g.err = err
		if g.cancel != nil {
			g.cancel(err)
		}
	}
	g.n--
}

func (g *Group) Go(f func() error) {
	if g.limit > 0 {
		vs.WaitSync("errgroup.Go", func() bool { return g.n < g.limit })
	}
	g.n++
	vs.Go(func() {
		// As in the original, a panic is not turned into a normal end of the goroutine.
		g.done(f())
	})
}

func (g *Group) TryGo(f func() error) bool {
	if g.limit > 0 && g.n >= g.limit {
		return false
	}
	g.Go(f)
	return true
}

func (g *Group) Wait() error {
	vs.Pt()
	vs.WaitSync("errgroup.Wait", func() bool { return g.n == 0 })
	if g.cancel != nil {
		g.cancel(g.err)
	}
	return g.err
}
