package main

import (
	"fmt"
	"time"

	"github.com/alexeykiselev/waves-fork-detector/zzv/leveldb"
	"github.com/alexeykiselev/waves-fork-detector/zzv/vs"
)

// Check E05: storage failures under the running service.

// flaky lets up to n storage calls of the running service fail.
func (e *eEnv) flaky(n int) {
	x := e.x
	vs.W.Fault = func(op string) error {
		if n == 0 || e.asking || e.d.exited {
			return nil
		}
		kinds := 2 + b2i(op == "write")
		k := x.w.Choose(kinds, vs.KFault, 1)
		if k == 0 {
			return nil
		}
		n--
		e.failed = true
		if k == 2 {
			x.Op("storage failure after %q took effect", op)
			return leveldb.ErrAfterWrite(errDisk)
		}
		x.Op("storage failure at %q", op)
		return fmt.Errorf("%s: %w", op, errDisk)
	}
}

func init() {
	register(&Check{
		ID: "E05",
		Scenarios: func(th bool) []Scenario {
			opt := vs.Options{Bound: 1, FreeCost: -1, SelCost: -1}
			depth := 2 + b2i(th)
			run := func(name string, n, faults, from int, between func(x *X, e *eEnv) []func()) Scenario {
				o := opt
				o.Bound = faults
				return Scenario{Name: name, Opt: o, Run: func(x *X) {
					e := newE(x, x.Bool(), ver(1, 5, 0))
					e.nodes[0].chain = e.grow(nil, n, 1)
					e.nodes[1].chain = e.grow(e.nodes[0].chain[:min(n, 2)], 2, 2)
					e.begin()
					fs := between(x, e)
					for i, f := range fs {
						if i == from {
							e.flaky(faults)
						}
						f()
						for _, n := range e.nodes {
							n.longest = max(n.longest, len(n.chain))
						}
					}
					vs.W.Fault = nil
					x.Check(!e.d.exited, "the service ends with code %d and %q", e.d.code, e.d.stderr)
					// Every node announces its score again, with a new block if the length of its chain doesn't tell.
					for i, m := range e.nodes {
						for len(m.chain) < m.longest || e.tag > 0 && len(m.chain) == m.longest {
							e.extend(i)
						}
						if m.up() {
							e.tell(m)
							vs.Quiesce()
						}
					}
					e.finish(300)
				}}
			}
			load := func(x *X, e *eEnv) []func() {
				return []func(){func() { e.join(1) }, func() { e.tick(30) }}
			}
			return []Scenario{
				run("while loading", 9, 1, 0, load),
				run("while loading more than a batch", 104, 1, 0, load),
				run("twice", 2, 1+b2i(th), 0, load),
				run("events", 3, 1, depth-1, func(x *X, e *eEnv) []func() {
					e.join(1)
					e.tick(21)
					var fs []func()
					for i := 0; i < depth; i++ {
						fs = append(fs, []func(){
							func() { e.extend(0) }, func() { e.extend(1) }, func() { e.rollback(0, 2) }, func() { e.liquid(0) },
							func() { e.leave(0) }, func() { e.leave(1) }, func() { e.leave(1); e.join(1) }, func() { e.tick(12) },
							func() {
								e.d.n.links[0].recv(peersMsg("8.8.8.5:6868", "8.8.8.6:6868"))
								vs.Quiesce()
							},
							func() { vs.Advance(time.Duration(10-9*b2i(i == depth-1)) * time.Minute) },
						}[x.Choose(10)])
					}
					return append(fs, func() { e.tick(6) })
				}),
			}
		},
		Bounds: "the whole service with two serving nodes, one storage call failing (before or, for writes, after taking effect) at any position while connecting and loading chains of 9 or 104 blocks and during the last of every sequence of 2 (3) of 10 events and the next 6 seconds; thorough: two calls while loading 2 blocks; then 300 seconds to finish",
	})
}
