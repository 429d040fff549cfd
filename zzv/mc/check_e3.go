package main

import (
	"context"
	"fmt"
	"net/netip"
	"slices"
	"strings"
	"time"

	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/zzv/leveldb"
	"github.com/alexeykiselev/waves-fork-detector/zzv/vs"
)

// Check E03: nothing is left behind by what has ended.

// released checks that no snapshot or iterator is kept.
func released() {
	if n := leveldb.Held(); n > 0 {
		vs.FailNow("leak", fmt.Sprintf("%d snapshots and iterators of the databases are not released", n))
	}
}

// left makes snapshots, iterators and goroutines (more than keep, if that is not negative) that remain at the end the
// violations of a scenario of another check.
func left(id, name string, th bool, keep int) Scenario {
	for _, s := range checks[id].Scenarios(th) {
		if s.Name == name {
			run := s.Run
			s.Name, s.Only, s.Goals = id+": "+name, "leak", nil
			s.Run = func(x *X) {
				run(x)
				released()
				vs.Quiesce()
				if k := vs.Threads(); keep >= 0 && k > keep {
					vs.FailNow("leak", fmt.Sprintf("%d goroutines remain, %d expected: %s", k, keep, vs.Blocked()))
				}
			}
			return s
		}
	}
	panic("no scenario " + name)
}

// same checks that the service has the goroutines it had at the beginning.
func (d *daemon) same(n int, at string) {
	released()
	k, stuck := vs.Threads(), 0
	var s []string
	for _, t := range strings.Split(vs.Blocked(), "; ") {
		if strings.HasSuffix(t, ": send chan<- error") {
			stuck++
		}
		if !strings.Contains(at, t) {
			s = append(s, t)
		}
	}
	deaf := 0
	for _, l := range d.n.links {
		if l.stalled {
			deaf++
		}
	}
	// Each node that does not read may leave the goroutine that sends to it.
	if stuck > 0 && stuck <= deaf {
		d.x.Finding("sending-to-closed", "the goroutine that sends to a node that doesn't read is blocked after the end of the connection")
		k -= stuck
	}
	if k != n {
		vs.FailNow("leak", fmt.Sprintf("%d goroutines without any connection, %d at the beginning: %s", k, n, strings.Join(s, "; ")))
	}
}

func init() {
	register(&Check{
		ID: "E03",
		Scenarios: func(th bool) []Scenario {
			depth := 2
			if th {
				depth = 3
			}
			const dials = time.Minute
			targets := []string{"/api/peers/all", "/api/peers/friendly", "/api/connections", "/api/heads", "/api/leashes", "/api/status", "/api/forks", "/api/active-forks", "/api/fork/8.8.8.1", "/api/fork/8.8.8.7", "/api/fork/8.8.8.1/generators/3"}
			loading := Scenario{Name: "loading", Opt: seqOpt, Run: func(x *X) {
				e := newE(x, x.Bool(), ver(1, 5, 0))
				e.nodes[0].chain = e.grow(nil, 130, 1)
				e.nodes[1].chain = e.grow(e.nodes[0].chain[:5], 3, 2)
				away := true
				dial := e.d.n.dial
				e.d.n.dial = func(ctx context.Context, q dialing) (proto.Handshake, error) {
					if away {
						return proto.Handshake{}, errDial
					}
					return dial(ctx, q)
				}
				e.d.up(e.args...)
				e.tick(12)
				n, at := vs.Threads(), vs.Blocked()
				released()
				away = false
				events := []func(){
					func() { e.join(0) }, func() { e.join(1) }, func() { e.leave(0) }, func() { e.leave(1) },
					func() { e.extend(0) }, func() { e.liquid(0) }, func() { e.rollback(0, 2) },
					func() { e.hostile(x.Choose(3)) },
					func() { e.tick(7) }, func() { e.tick(40) },
					func() {
						for _, t := range targets {
							e.d.request(t)
						}
					},
				}
				e.join(0)
				for i := 0; i < depth; i++ {
					events[x.Choose(len(events))]()
					released()
				}
				away = true
				for i := 0; i < 2; i++ {
					for _, l := range e.d.n.links {
						l.fail(errDial)
					}
					vs.Quiesce()
					vs.Advance(dials)
				}
				e.d.same(n, at)
				e.d.stop()
			}}
			dialing := Scenario{Name: "dialing", Opt: seqOpt, Run: func(x *X) {
				o := [2]int{x.Choose(oHangs), x.Choose(oHangs)}
				away := true
				e := newD(x, func(a netip.Addr, n int) int {
					switch {
					case away:
						return oRefused
					case a == rA:
						return o[min(n, 1)]
					case a == rB:
						return (o[0] + o[1] + n) % oHangs
					}
					return oRefused
				}, "8.8.8.1:6868", "8.8.8.2:6868")
				vs.Advance(5 * time.Second)
				n, at := vs.Threads(), vs.Blocked()
				away = false
				vs.Advance(time.Duration(x.Choose(5)+1) * 10 * time.Second)
				hss := []proto.Handshake{
					hsOf("wavesW", ver(1, 5, 0), "c", 8, nil), hsOf("wavesT", ver(1, 5, 0), "c", 8, nil), hsOf("wavesW", ver(1, 5, 0), "c", 8, declAddr("127.0.0.1", 5)),
				}
				for i := 0; i < depth; i++ {
					e.d.n.shake = shakeWith(hss[x.Choose(len(hss))])
					e.d.arrive([]netip.Addr{rA, rC}[x.Choose(2)])
					vs.Quiesce()
					released()
				}
				away = true
				for i := 0; i < 2; i++ {
					vs.Advance(dials)
					for _, l := range e.d.n.links {
						l.fail(errDial)
					}
					vs.Quiesce()
				}
				e.d.same(n, at)
				e.d.stop()
			}}
			return slices.Concat([]Scenario{loading, dialing}, []Scenario{
				left("C11", "failing updates", th, 0), left("C11", "failing queries", th, 0), left("P07", "failing storage", th, 0), left("A02", "storage failures", th, 0),
				left("N01", "storage failures", th, -1), left("S03", "storage failures", th, 1), left("N05", "storage failures", th, -1),
			})
		},
		Bounds: "the whole service: every sequence of 2 (thorough 3) of 11 events around loading (connections, failures, blocks, nodes that don't read, waiting, requests) and every 2 (3) incoming connections after attempts with 5 outcomes each, then the failure of all connections and two minutes; the scenarios of C11, P07, A02, N01, S03 and N05 with one failing storage call at any position",
	})
}
