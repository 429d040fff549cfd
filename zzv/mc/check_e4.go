package main

import (
	"slices"
	"strings"
	"time"

	"github.com/alexeykiselev/waves-fork-detector/zzv/leveldb"
	"github.com/alexeykiselev/waves-fork-detector/zzv/vs"
)

// Check E04: the whole service is killed.

const killed = 137

// mortal lets the service be killed before any of the writes to its databases, at most n times.
func (e *eEnv) mortal(n int) {
	vs.W.Fault = func(op string) error {
		if op != "write" || n == 0 || e.d.exited || vs.W.Exited {
			return nil
		}
		if e.x.Bool() {
			n--
			e.x.Op("killed")
			e.dead = true
			vs.OSExit(killed)
		}
		return nil
	}
}

// kill ends the service at once.
func (e *eEnv) kill() {
	if e.dead {
		return
	}
	e.x.Op("killed at the end")
	e.dead = true
	vs.Go(func() { vs.OSExit(killed) })
	vs.Quiesce()
}

// do runs events until the service is killed.
func (e *eEnv) do(fs ...func()) {
	for _, f := range fs {
		if e.dead {
			return
		}
		f()
		if !e.dead {
			e.observe()
		}
	}
}

// observe keeps what the service shows.
func (e *eEnv) observe() {
	var ls []struct {
		ID    string   `json:"block_id"`
		Peers []string `json:"peers"`
	}
	var ps []struct {
		Address string `json:"address"`
	}
	e.d.api().get("/api/leashes", &ls)
	e.d.api().get("/api/peers/all", &ps)
	e.leashes, e.known, e.all = map[string]string{}, nil, nil
	for _, l := range ls {
		for _, p := range l.Peers {
			e.leashes[p] = l.ID
		}
	}
	for _, p := range ps {
		a, _, _ := strings.Cut(p.Address, ":")
		e.known, e.all = append(e.known, a), append(e.all, p.Address)
	}
}

// begin starts the service, that may be killed.
func (e *eEnv) begin() {
	e.d.start(e.args...)
	vs.Quiesce()
	e.x.Check(!e.d.exited || e.dead, "the service ends at once with code %d and %q", e.d.code, e.d.stderr)
	if !e.dead {
		e.x.Check(e.d.handler != nil, "the service doesn't serve HTTP requests")
		e.observe()
		for _, a := range strings.Split(strings.TrimPrefix(e.args[2], "-peers="), ",") {
			a, _, _ = strings.Cut(a, ":")
			e.x.Check(slices.Contains(e.known, a), "the given peer %s is not known, but %v", a, e.known)
		}
	}
}

// again starts the service after it was killed; the last writes of both databases may be lost.
func (e *eEnv) again(lost int) {
	e.x.Check(e.d.exited && e.d.code == killed, "the service ended with code %d and %q", e.d.code, e.d.stderr)
	n := 0
	bl, ps := e.d.stores()
	for _, s := range []*leveldb.Store{bl, ps} {
		if s != nil {
			k := 0
			if lost > 0 {
				k = e.x.Choose(min(lost, s.Writes()) + 1)
			}
			n += k
			s.Cut(s.Writes() - k)
		}
	}
	if n > 0 {
		e.x.Op("%d writes are lost", n)
	}
	for _, n := range e.nodes {
		n.l = nil
	}
	e.dead = false
	e.d.open, e.d.stderr = nil, ""
	e.d.errs.Reset()
	vs.W.Exited = false
	e.d.hooks()
	e.hooks()
	leashes, known := e.leashes, e.known
	e.begin()
	if n > 0 || e.dead {
		return
	}
	for _, a := range known {
		e.x.Check(slices.Contains(e.known, a), "the record of %s is lost", a)
	}
	at := func(n *eNode, id string) int {
		return slices.IndexFunc(n.chain, func(w wire) bool { return w.b.BlockID().String() == id })
	}
	for _, n := range e.nodes {
		a := n.a.String()
		before, ok := leashes[a]
		after, still := e.leashes[a]
		e.x.Check(!ok || still, "the leash of %s is lost", a)
		if i := at(n, before); i >= 0 {
			e.x.Check(at(n, after) >= i, "the leash of %s was at block %d before and is now at %d (%s)", a, i, at(n, after), after)
		}
	}
}

func init() {
	register(&Check{
		ID: "E04",
		Scenarios: func(th bool) []Scenario {
			start := func(x *X, n int) *eEnv {
				e := newE(x, x.Bool(), ver(1, 5, 0))
				e.nodes[0].chain = e.grow(nil, n, 1)
				e.nodes[1].chain = e.grow(e.nodes[0].chain[:min(n, 2)], 2, 2)
				return e
			}
			run := func(name string, n, kills, lost int, between func(x *X, e *eEnv) []func()) Scenario {
				return Scenario{Name: name, Opt: seqOpt, Run: func(x *X) {
					e := start(x, n)
					e.mortal(kills)
					e.begin()
					e.do(between(x, e)...)
					e.kill()
					loss := lost
					for i := 0; e.dead; i++ {
						e.again(loss)
						if kills > 1 && !e.dead {
							e.do(func() { e.join(1) }, func() { e.tick(20) })
						}
						loss = 0
						x.Check(i < kills+1, "kills")
					}
					vs.W.Fault = nil
					for i, m := range e.nodes {
						for len(m.chain) <= m.longest {
							e.extend(i)
						}
					}
					e.finish(300)
				}}
			}
			load := func(x *X, e *eEnv) []func() {
				return []func(){func() { e.join(1) }, func() { e.tick(40) }}
			}
			long := 60
			if th {
				long = 130
			}
			depth := 2 + b2i(th)
			return []Scenario{
				run("while loading", long, 1, 0, load),
				run("power loss while loading", 4+4*b2i(th), 1, 3+b2i(th), load),
				run("killed twice", 3+2*b2i(th), 2, 0, load),
				run("events", 3, 1, 0, func(x *X, e *eEnv) []func() {
					fs := []func(){func() { e.join(1) }, func() { e.tick(11) }}
					for i := 0; i < depth; i++ {
						fs = append(fs, []func(){
							func() { e.extend(0) }, func() { e.extend(1) }, func() { e.rollback(0, 2) }, func() { e.liquid(0) },
							func() { e.leave(0) }, func() { e.leave(1) }, func() { e.join(1) }, func() { e.tick(12) },
							func() {
								e.d.n.links[0].recv(peersMsg("8.8.8.5:6868", "8.8.8.6:6868"))
								vs.Quiesce()
							},
						}[x.Choose(9)])
					}
					for i, f := range fs {
						fs[i] = func() {
							f()
							for _, n := range e.nodes {
								n.longest = max(n.longest, len(n.chain))
							}
						}
					}
					return append(fs, func() { e.tick(6) })
				}),
				{Name: "dialing", Opt: seqOpt, Run: func(x *X) {
					e := start(x, 1)
					e.args[2] = "-peers=8.8.8.1:6868,8.8.8.3:6868"
					events := []func(){
						func() { e.tick(11) }, func() { e.join(1) }, func() { e.leave(0) }, func() { e.leave(1) },
						func() {
							for _, l := range e.d.linksOf(rA) {
								l.recv(peersMsg("8.8.8.5:6868"))
							}
							vs.Quiesce()
						},
						func() { vs.Advance(9*time.Minute + 55*time.Second) },
					}
					fs := []func(){events[x.Choose(2)]}
					for i := 0; i < depth; i++ {
						fs = append(fs, events[x.Choose(len(events))])
					}
					e.mortal(1)
					e.begin()
					e.do(fs...)
					e.kill()
					for i := 2; e.dead; i = 0 {
						e.again(i)
					}
					vs.W.Fault = nil
					vs.Advance(11 * time.Minute)
					at := e.d.dialed(0)
					for _, a := range e.all {
						x.Check(slices.Contains(at, a) || strings.HasSuffix(a, ":0"), "%s is not dialed within 11 minutes after the start, but %v", a, at)
					}
					x.State(H(dbHash(e.d.db + "/peers")))
					e.d.stop()
				}},
			}
		},
		Bounds: "the whole service with two serving nodes, killed before every write to its databases and at the end: while starting and loading chains of 60 (thorough 130) blocks; while loading 4 (8) blocks with every loss of up to 3 (4) last writes of each database; twice, the second time while it starts again and continues; during every sequence of 2 (3) of 9 events, and of 3 (4) of 6 events around dialing with up to 2 lost writes of each database; then a new start with 300 seconds to finish (40 s to load)",
	})
}
