package main

import (
	"slices"
	"strings"

	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/zzv/vs"
)

// Check E02: data races of the running service.

// raced makes data races the violations of scenarios of other checks.
func raced(id string, bound int, scs []Scenario) []Scenario {
	for i := range scs {
		s := &scs[i]
		s.Name = id + s.Name
		s.Opt.Bound = min(s.Opt.Bound, bound)
		s.Opt.Races, s.Opt.Free, s.Only, s.Delays, s.Goals = true, true, "race", 0, nil
	}
	return slices.DeleteFunc(scs, func(s Scenario) bool { return strings.HasSuffix(s.Name, ", delays") })
}

func init() {
	register(&Check{
		ID: "E02",
		Scenarios: func(th bool) []Scenario {
			b := 1
			if th {
				b = 2
			}
			targets := []string{"/api/peers/all", "/api/peers/friendly", "/api/connections", "/api/heads", "/api/leashes", "/api/status", "/api/forks",
				"/api/forks?peers=8.8.8.1,8.8.8.2", "/api/active-forks", "/api/active-forks?peers=8.8.8.1", "/api/fork/8.8.8.1", "/api/fork/8.8.8.7",
				"/api/fork/8.8.8.1/generators/3", "/api/fork/8.8.8.1/generators/x"}
			all := func(e *eEnv) {
				for _, t := range targets {
					e.d.request(t)
				}
			}
			own := []Scenario{
				{Name: "requests at every second", Opt: seqOpt, Run: func(x *X) {
					e := newE(x, x.Bool(), ver(1, 5, 0))
					e.nodes[0].chain = e.grow(nil, 130, 1)
					e.nodes[1].chain = e.grow(e.nodes[0].chain[:5], 3, 2)
					e.d.up(e.args...)
					all(e)
					e.join(1)
					events := []func(){
						func() { e.extend(0) }, func() { e.extend(1) }, func() { e.liquid(0) }, func() { e.liquid(1) }, func() { e.rollback(1, 2) },
						func() { e.leave(1) }, func() { e.join(1) }, func() { e.leave(0) },
						func() { e.nodes[1].l.recv(frame(&proto.GetPeersMessage{})) },
						func() { e.nodes[1].l.recv(peersMsg("8.8.8.5:6868", "8.8.8.6:6868")) },
						func() { e.hostile(1) },
					}
					k := x.Choose(len(events))
					for i := 0; i < 80; i++ {
						e.tick(1)
						if i%4 == 1 {
							events[(k+i/4)%len(events)]()
						}
						all(e)
					}
					e.d.stop()
				}},
				{Name: "messages of every kind", Opt: seqOpt, Run: func(x *X) {
					e := newE(x, false, ver(1, 5, 0))
					e.d.up(e.args...)
					e.tick(11)
					e.join(1)
					e.hostile(0)
					id := proto.PeerMessageID(x.Choose(256))
					var p []byte
					if x.Bool() {
						p = []byte{1, 2}
					}
					for _, l := range e.d.n.links {
						l.recv(raw(id, p))
					}
					vs.Quiesce()
					all(e)
					e.tick(11)
					e.d.stop()
				}},
			}
			return slices.Concat(raced("", b, own), raced("N06: ", b, checks["N06"].Scenarios(th)),
				raced("N07: ", b, checks["N07"].Scenarios(th)), raced("E01: ", b, checks["E01"].Scenarios(th)))
		},
		Bounds: "every API request in every second of 80 with the loading of chains, announcements, disconnections, discoveries and a peer that doesn't read at 11 distances; messages of all 256 kinds on three connections; the scenarios of N06 (signals at every moment of 11 situations) and of E01 around simultaneous events with up to one (thorough two) preemptions or delays; every history of N07 (3 (4) of its events) and of E01 (2 (3) events); in each execution all pairs of accesses",
	})
}
