package main

import (
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/zzv/vs"
)

// Checks S01, S02, S03 and S06: the synchronization monitor of syncref.go over exhaustively explored histories.

// sop is one event of the environment.
type sop struct {
	name string
	do   func(e *sEnv)
}

func sBlock(p int, b *proto.Block) sop {
	return sop{"block", func(e *sEnv) { e.block(e.ps[p], b) }}
}

// sReceived is a block on its whole way: it is recorded for its sender first and then passed on.
func sReceived(p int, b *proto.Block) sop {
	return sop{"received", func(e *sEnv) { e.received(e.ps[p], b) }}
}

// sKnown makes a block known by another source.
func sKnown(b *proto.Block) sop {
	return sop{"known", func(e *sEnv) {
		e.x.Op("block %s stored for another peer", blkName(b.BlockID()))
		e.store(b, nil)
	}}
}

func sReply(p int, ids ...proto.BlockID) sop {
	return sop{"ids", func(e *sEnv) { e.reply(e.ps[p], ids...) }}
}

func sAdv(s int) sop { return sop{"adv", func(e *sEnv) { e.adv(s) }} }

func sScore(p int, from proto.BlockID, n int) sop {
	return sop{"score", func(e *sEnv) { e.setScore(e.ps[p], e.scoreAfter(from, n)) }}
}

func sPlug(p int) sop {
	return sop{"plug", func(e *sEnv) {
		if e.ps[p].connected {
			e.disconnect(e.ps[p])
		} else {
			e.x.Op("connect %d", p+1)
			e.connect(e.ps[p])
			e.relag()
		}
	}}
}

// sRun explores every sequence of events.
func sRun(x *X, d int, e *sEnv, ops []sop, end func(e *sEnv)) {
	vs.SetPoints(false)
	e.start()
	e.relag()
	for i := 0; i < d; i++ {
		if x.Seen(e.hash(), d-i) {
			return
		}
		ops[x.Choose(len(ops))].do(e)
	}
	if x.Seen(e.hash(), 0) {
		return
	}
	end(e)
}

// syncWorld is a chain of the genesis and c blocks with a known side branch of two blocks on the first one, and a
// remote continuation of r blocks.
type syncWorld struct {
	c, f, r, u []*proto.Block
}

func mkSyncWorld(c, r int, dig bool) syncWorld {
	w := syncWorld{c: seg(gen1ID, 2, c, dig)}
	w.f = seg(w.c[0].BlockID(), 200, 2, dig)
	w.r = seg(w.c[c-1].BlockID(), 300, r, dig)
	w.u = seg(idN(900, dig), 400, 2, dig) // parent unknown
	return w
}

func (w syncWorld) put(e *sEnv) {
	for _, b := range w.c {
		e.store(b, nil)
	}
	for _, b := range w.f {
		e.store(b, nil)
	}
}

func (w syncWorld) tip() proto.BlockID { return w.c[len(w.c)-1].BlockID() }

func turnFirst(n, i int) string {
	return fmt.Sprintf("of %d silent peers number %d is asked first", n, i+1)
}

func turnThen(n, i, j int) string {
	return fmt.Sprintf("of %d silent peers number %d is asked after number %d was asked first", n, j+1, i+1)
}

var turnGoals = func() []Goal {
	var o []Goal
	for n := 2; n < 4; n++ {
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if i != j {
					o = append(o, Goal{turnFirst(n, i), turnThen(n, i, j)})
				}
			}
		}
	}
	return o
}()

func init() {
	register(&Check{
		ID: "S01",
		Scenarios: func(th bool) []Scenario {
			d := 4
			if th {
				d = 6
			}
			return []Scenario{
				{Name: "who is asked and for what", Run: func(x *X) {
					vs.SetPoints(false)
					e := newSync(x, "/s")
					dig := x.Bool()
					lens := []int{1, 2, 98, 99, 100, 130, 250}
					n := lens[x.Choose(len(lens))]
					w := mkSyncWorld(n, 1, dig)
					w.put(e)
					vers := []proto.Version{ver(1, 1, 0), ver(1, 1, 9), ver(1, 2, 0), ver(1, 5, 3)}
					if dig {
						vers = vers[2:]
					}
					p := e.peer(vers[x.Choose(len(vers))])
					switch x.Choose(4) {
					case 0:
					case 1:
						e.leashTo(p, w.tip())
					case 2:
						e.leashTo(p, w.c[n/2].BlockID())
					case 3:
						e.leashTo(p, w.f[1].BlockID())
					}
					switch x.Choose(5) {
					case 0: // no score
					case 1:
						e.setScore(p, new(big.Int))
					case 2:
						e.setScore(p, e.leashScore(p))
					case 3:
						e.setScore(p, new(big.Int).Add(e.leashScore(p), big.NewInt(1)))
					case 4:
						e.setScore(p, new(big.Int).Lsh(big.NewInt(1), 200))
					}
					if x.Bool() {
						e.disconnect(p)
					}
					e.start()
					e.adv(6)
					x.State(e.hash())
					want := 0
					if e.lagging(p) {
						want = 1
					}
					x.Check(e.total == want, "%d requests for identifiers after 6 s, expected %d", e.total, want)
				}},
				{Name: "several peers", Run: func(x *X) {
					vs.SetPoints(false)
					e := newSync(x, "/s")
					w := mkSyncWorld(3, 1, false)
					w.put(e)
					for i := 0; i < 3; i++ {
						p := e.peer([]proto.Version{ver(1, 5, 0), ver(1, 1, 0), ver(1, 4, 0)}[i])
						e.leashTo(p, w.c[i].BlockID())
						switch x.Choose(5) {
						case 0:
						case 1:
							e.setScore(p, e.leashScore(p))
						case 2:
							e.setScore(p, e.scoreAfter(w.tip(), 1))
						case 3:
							e.setScore(p, e.scoreAfter(w.tip(), 3))
							e.disconnect(p)
						case 4:
							e.setScore(p, e.scoreAfter(gen1ID, 0))
						}
					}
					e.start()
					e.adv(6)
					want := 0
					for _, p := range e.ps {
						if e.lagging(p) {
							want = 1
						}
					}
					x.Check(e.total == want, "%d requests for identifiers after 6 s, expected %d", e.total, want)
					x.State(e.hash())
					e.adv(40)
				}},
				{Name: "every reply", Run: func(x *X) {
					vs.SetPoints(false)
					e := newSync(x, "/s")
					dig := x.Bool()
					w := mkSyncWorld(3, 3, dig)
					w.put(e)
					p := e.peer(ver(1, 5, 0))
					q := e.peer(ver(1, 5, 0))
					e.leashTo(q, w.f[1].BlockID())
					switch x.Choose(4) {
					case 0:
					case 1:
						e.leashTo(p, w.c[1].BlockID())
					case 2:
						e.leashTo(p, w.tip())
					case 3:
						e.leashTo(p, w.f[1].BlockID())
					}
					e.setScore(p, e.scoreAfter(w.tip(), 10))
					e.start()
					e.adv(5)
					al := []proto.BlockID{w.r[0].BlockID(), w.r[1].BlockID(), w.r[2].BlockID(), w.tip(), w.c[1].BlockID(), w.f[1].BlockID(), gen1ID, w.u[1].BlockID()}
					k := 4
					if th {
						k = 5
					}
					var l []proto.BlockID
					for i := x.Choose(k + 1); i > 0; i-- {
						l = append(l, al[x.Choose(len(al))])
					}
					e.reply(p, l...)
					x.State(e.hash())
				}},
				{Name: "long replies", Run: func(x *X) {
					vs.SetPoints(false)
					e := newSync(x, "/s")
					dig := x.Bool()
					n := []int{1, 99, 120}[x.Choose(3)]
					w := mkSyncWorld(n, 120, dig)
					w.put(e)
					p := e.peer(ver(1, 5, 0))
					e.leashTo(p, w.c[n-1-x.Choose(min(n, 3))].BlockID())
					e.setScore(p, e.scoreAfter(w.tip(), 120))
					e.start()
					e.adv(5)
					k := []int{0, 1, 50, 99, 100, 101}[x.Choose(6)]
					k = min(k, n)
					r := []int{0, 1, 2, 99, 100, 101, 120}[x.Choose(7)]
					l := append(append([]proto.BlockID{}, idsOf(w.c[n-k:])...), idsOf(w.r[:r])...)
					e.reply(p, l...)
					x.State(e.hash())
					// The blocks arrive.
					if e.phase == 2 {
						for _, b := range w.r[:r] {
							e.block(p, b)
						}
					}
					e.adv(6)
				}},
				{Name: "changes while nothing is synchronized", Run: func(x *X) {
					w := mkSyncWorld(3, 2, false)
					e := newSync(x, "/s")
					w.put(e)
					p, q := e.peer(ver(1, 5, 0)), e.peer(ver(1, 1, 0))
					e.leashTo(p, w.c[0].BlockID())
					e.leashTo(q, w.f[0].BlockID())
					sRun(x, d, e, []sop{
						sScore(0, w.tip(), 1), sScore(0, gen1ID, 1), sScore(1, w.tip(), 0), sScore(1, w.tip(), 3), sPlug(0), sPlug(1),
						{"p announces", func(e *sEnv) { e.x.Op("block of 1 stored"); e.store(w.c[2], e.ps[0]) }},
						{"p announces", func(e *sEnv) { e.x.Op("block r1 of 1 stored"); e.store(w.r[0], e.ps[0]) }},
						{"q announces", func(e *sEnv) { e.x.Op("block r1 of 2 stored"); e.store(w.r[0], e.ps[1]) }},
						sAdv(1), sAdv(2), sAdv(5), sReply(0, w.tip(), w.r[0].BlockID()), sReply(1, w.tip(), w.r[0].BlockID()),
					}, func(e *sEnv) { e.adv(6) })
				}},
			}
		},
		Bounds: "7 chain lengths around the batch of 100, 4 leash positions, 4 versions, 5 kinds of score, connected or not; every combination of 5 situations of 3 peers with every random choice of the peer; every reply of up to 4 (thorough 5) of 8 identifiers at 4 leash positions and both identifier kinds; replies of up to 220 identifiers; every history of up to 4 (6) of 14 events (scores, connections, announcements, time, replies)",
	})

	register(&Check{
		ID: "S02",
		Scenarios: func(th bool) []Scenario {
			d := 7
			if th {
				d = 9
			}
			mk := func(name string, n int, extra int, dig, real bool, d int) Scenario {
				return Scenario{Name: name, Run: func(x *X) {
					w := mkSyncWorld(2, n+1, dig)
					e := newSync(x, "/s")
					w.put(e)
					p, q := e.peer(ver(1, 5, 0)), e.peer(ver(1, 5, 0))
					_ = q
					e.leashTo(p, w.c[0].BlockID())
					e.setScore(p, e.scoreAfter(w.tip(), n+extra))
					var ops []sop
					for _, b := range w.r {
						if real {
							ops = append(ops, sReceived(0, b))
						} else {
							ops = append(ops, sBlock(0, b))
						}
					}
					ops = append(ops, sKnown(w.r[0]))
					if n > 1 {
						ops = append(ops, sKnown(w.r[1]))
					}
					lastN := w.r[n-1]
					ops = append(ops, sBlock(0, w.u[0]), sBlock(0, nil), sBlock(0, w.c[1]), sBlock(1, w.r[0]), sBlock(1, lastN), sReply(1, w.r[0].BlockID()),
						sReply(0, w.r[0].BlockID()), sReply(0, append([]proto.BlockID{w.tip()}, idsOf(w.r)...)...), sReply(0), sAdv(1),
						sop{"score", func(e *sEnv) { e.setScore(e.ps[0], e.scoreAfter(w.tip(), n+1+extra)) }})
					vs.SetPoints(false)
					e.start()
					e.adv(5)
					e.reply(p, append([]proto.BlockID{w.tip()}, idsOf(w.r[:n])...)...)
					x.Check(e.phase == 2 || e.total > 1, "no session")
					for i := 0; i < d; i++ {
						if x.Seen(e.hash(), d-i) {
							return
						}
						ops[x.Choose(len(ops))].do(e)
					}
					if x.Seen(e.hash(), 0) {
						return
					}
					e.adv(45)
				}}
			}
			perm := func(name string, n int) Scenario {
				return Scenario{Name: name, Run: func(x *X) {
					// Every order of arrival, in two rounds.
					vs.SetPoints(false)
					w := mkSyncWorld(2, 2*n, x.Bool())
					e := newSync(x, "/s")
					w.put(e)
					p := e.peer(ver(1, 5, 0))
					e.setScore(p, e.scoreAfter(w.tip(), 2*n))
					e.start()
					e.adv(5)
					for r := 0; r < 2; r++ {
						part := w.r[r*n : (r+1)*n]
						l := idsOf(part)
						if x.Bool() {
							l = append([]proto.BlockID{part[0].Parent}, l...)
						}
						e.reply(p, l...)
						left := append([]*proto.Block{}, part...)
						for len(left) > 0 {
							i := x.Choose(len(left))
							e.block(p, left[i])
							left = append(left[:i:i], left[i+1:]...)
						}
					}
					x.Check(e.m.leashOf(p.a) == w.r[2*n-1].BlockID(), "harness")
					x.State(e.hash())
					e.adv(8)
				}}
			}
			return []Scenario{
				mk("three blocks, more to come", 3, 2, false, false, d),
				mk("three blocks, then up to date", 3, 0, true, false, d),
				mk("three recorded blocks, more to come", 3, 2, true, true, d),
				mk("three recorded blocks, then up to date", 3, 0, false, true, d),
				mk("one block", 1, 1, false, false, d-1),
				mk("five blocks, more to come", 5, 1, true, false, d),
				perm("every order of four blocks, twice", 4),
				{Name: "repeated identifiers", Run: func(x *X) {
					vs.SetPoints(false)
					w := mkSyncWorld(2, 3, x.Bool())
					e := newSync(x, "/s")
					w.put(e)
					p := e.peer(ver(1, 5, 0))
					e.setScore(p, e.scoreAfter(w.tip(), 3))
					e.start()
					e.adv(5)
					l := []proto.BlockID{w.tip()}
					used := 0
					for k := 2 + x.Choose(3); k > 0; k-- {
						i := x.Choose(min(used+1, 3))
						used = max(used, i+1)
						l = append(l, w.r[i].BlockID())
					}
					e.reply(p, l...)
					left := append([]*proto.Block{}, w.r[:used]...)
					if x.Bool() {
						left = append(left, left...)
					}
					for len(left) > 0 {
						i := x.Choose(min(len(left), 3))
						e.block(p, left[i])
						left = append(left[:i:i], left[i+1:]...)
					}
					x.State(e.hash())
					e.adv(45)
				}},
				{Name: "lag that does not change", Run: func(x *X) {
					// The peer repeats known identifiers.
					w := mkSyncWorld(3, 1, false)
					e := newSync(x, "/s")
					w.put(e)
					p := e.peer(ver(1, 5, 0))
					e.leashTo(p, w.c[0].BlockID())
					e.setScore(p, e.scoreAfter(w.tip(), 1))
					sRun(x, d-1, e, []sop{sReply(0, w.c[0].BlockID()), sReply(0, w.c[1].BlockID()), sReply(0, w.tip()), sReply(0, w.tip(), w.r[0].BlockID()), sBlock(0, w.r[0]), sAdv(5), sAdv(1), sAdv(37), sScore(0, w.tip(), 2)}, func(e *sEnv) { e.adv(10) })
				}},
			}
		},
		Bounds: "every history of up to 7 (thorough 9) events after a request of 1, 3 or 5 blocks (any requested block, repeated, unlinked, known and missing blocks, other peers' blocks and identifiers, late identifiers, time, a new score); every order of arrival of 4 blocks in two rounds; every list of up to 4 of 3 identifiers with repeats and every order of arrival; every history of up to 6 (8) events with a peer that repeats known identifiers",
	})

	register(&Check{
		ID: "S03",
		Scenarios: func(th bool) []Scenario {
			d := 5
			if th {
				d = 7
			}
			fd := 1
			if th {
				fd = 2
			}
			return []Scenario{
				{Name: "hostile and silent peers", Run: func(x *X) {
					w := mkSyncWorld(2, 3, false)
					e := newSync(x, "/s")
					w.put(e)
					p, q := e.peer(ver(1, 5, 0)), e.peer(ver(1, 1, 0))
					e.leashTo(q, w.f[0].BlockID())
					e.setScore(p, e.scoreAfter(w.tip(), 3))
					e.setScore(q, e.scoreAfter(w.tip(), 3))
					r := idsOf(w.r)
					sRun(x, d, e, []sop{
						sAdv(5), sAdv(29), sAdv(37),
						sReply(0, append([]proto.BlockID{w.tip()}, r[:2]...)...), sReply(0, w.u[0].BlockID()), sReply(0, r[0], w.u[1].BlockID()), sReply(0, w.tip()), sReply(0, r[1], r[0]),
						sReply(1, r[0]),
						sReceived(0, w.r[0]), sBlock(0, w.r[1]), sBlock(0, w.u[0]), sBlock(0, w.u[1]), sBlock(1, w.r[0]),
						sPlug(0), sPlug(1), sKnown(w.r[0]),
					}, func(e *sEnv) { e.adv(60) })
				}},
				{Name: "one peer, deeper", Run: func(x *X) {
					w := mkSyncWorld(2, 2, true)
					e := newSync(x, "/s")
					w.put(e)
					p := e.peer(ver(1, 5, 0))
					e.setScore(p, e.scoreAfter(w.tip(), 3))
					r := idsOf(w.r)
					sRun(x, d+1, e, []sop{
						sAdv(5), sAdv(30), sAdv(37), sReply(0, w.tip(), r[0], r[1]), sReply(0, w.u[0].BlockID()), sReply(0, w.tip()), sReply(0, r[0], r[0]),
						sReceived(0, w.r[0]), sReceived(0, w.r[1]), sBlock(0, w.u[0]), sPlug(0), sKnown(w.r[0]),
					}, func(e *sEnv) { e.adv(60) })
				}},
				{Name: "silent peers leave the others their turn", Goals: turnGoals, Run: func(x *X) {
					vs.SetPoints(false)
					w := mkSyncWorld(2, 3, false)
					e := newSync(x, "/s")
					w.put(e)
					n := 2 + x.Choose(2)
					for i := 0; i < n; i++ {
						e.setScore(e.peer(ver(1, 5, 0)), e.scoreAfter(w.tip(), 1+i))
					}
					e.start()
					rounds := 4
					if th {
						rounds = 6
					}
					first := -1
					for i := 0; i < rounds; i++ {
						if x.Seen(H(e.hash(), first), rounds-i) {
							return
						}
						for j := 0; e.phase != 1 && j < 12; j++ {
							e.adv(1)
						}
						x.Check(e.phase == 1, "no request")
						if first < 0 {
							first = e.cur
							x.Reach(turnFirst(n, first))
						} else if e.cur != first {
							x.Reach(turnThen(n, first, e.cur))
						}
						e.adv(31)
					}
				}},
				{Name: "storage failures", Opt: vs.Options{Bound: fd}, Run: func(x *X) {
					vs.SetPoints(false)
					w := mkSyncWorld(2, 2, false)
					e := newSync(x, "/s")
					w.put(e)
					p, q := e.peer(ver(1, 5, 0)), e.peer(ver(1, 1, 0))
					e.leashTo(p, w.c[0].BlockID())
					e.setScore(p, e.scoreAfter(w.tip(), 3))
					if x.Bool() {
						e.setScore(q, e.scoreAfter(w.tip(), 3))
					}
					r := idsOf(w.r)
					e.quiet = true
					sc := x.Choose(5)
					n := 0
					vs.W.Fault = func(op string) error {
						if n >= fd {
							return nil
						}
						if x.w.Choose(2, vs.KFault, 1) == 1 {
							n++
							x.Op("storage failure at %q", op)
							return fmt.Errorf("%s: %w", op, errDisk)
						}
						return nil
					}
					e.start()
					wait := func(s int) {
						for i := 0; i < s; i++ {
							vs.Advance(time.Second)
							x.Check(vs.W.Now.Sub(e.lastReq) <= 45*time.Second, "no request for identifiers for %s although a connected peer is lagging", vs.W.Now.Sub(e.lastReq))
						}
					}
					wait(6)
					useful := func() { e.lastReq = vs.W.Now }
					ask := p
					if e.cur >= 0 {
						ask = e.ps[e.cur]
					}
					switch sc {
					case 0: // silence
					case 1:
						e.reply(ask, w.tip(), r[0], r[1])
						useful()
					case 2:
						e.reply(ask, w.tip(), r[0], r[1])
						e.block(ask, w.r[0])
						useful()
					case 3:
						e.reply(ask, w.tip(), r[0], r[1])
						e.block(ask, w.r[1])
						e.block(ask, w.r[0])
						useful()
						wait(2)
						e.reply(ask, w.tip())
						useful()
					case 4:
						e.reply(ask, w.tip())
						useful()
					}
					wait(50)
					vs.W.Fault = nil
					x.State(H(e.total, n, sc))
					wait(60)
				}},
			}
		},
		Bounds: "every history of up to 5 (thorough 7) of 18 events with two lagging peers and every random choice among them, and up to 6 (8) of 11 events with one, each followed by 60 s of silence; 5 courses of a session with a storage failure at any 1 (2) calls",
	})

	register(&Check{
		ID: "S06",
		Scenarios: func(th bool) []Scenario {
			return []Scenario{
				{Name: "partial rounds", Run: func(x *X) {
					// Up to three rounds of which any part arrives.
					vs.SetPoints(false)
					w := mkSyncWorld(2, 8, x.Bool())
					e := newSync(x, "/s")
					w.put(e)
					p := e.peer(ver(1, 5, 0))
					switch x.Choose(3) {
					case 0:
					case 1:
						e.leashTo(p, w.f[1].BlockID())
					case 2:
						e.leashTo(p, w.tip())
					}
					e.setScore(p, e.scoreAfter(w.tip(), 20))
					e.start()
					n := 2
					if th {
						n = 3
					}
					for r := 0; r < n; r++ {
						for i := 0; e.phase != 1 && i < 12; i++ {
							e.adv(1)
						}
						x.Check(e.phase == 1, "no request")
						if x.Seen(e.hash(), n-r) {
							return
						}
						// The part of the remote chain that is offered.
						from := 0
						for from < len(w.r) && e.m.blocks[w.r[from].BlockID()] != nil {
							from++
						}
						k := min(4, len(w.r)-from)
						if k == 0 {
							return
						}
						part := w.r[from : from+k]
						switch x.Choose(3) {
						case 0:
							e.reply(p, append([]proto.BlockID{part[0].Parent}, idsOf(part)...)...)
						case 1:
							e.reply(p, idsOf(part)...)
						case 2: // silence
							e.adv(37)
							continue
						}
						mask := x.Choose(1 << k)
						rev := x.Bool()
						for i := 0; i < k; i++ {
							j := i
							if rev {
								j = k - 1 - i
							}
							if mask>>j&1 == 1 {
								e.block(p, part[j])
							}
						}
						if x.Bool() {
							e.block(p, w.u[0])
						}
						x.State(e.hash())
						if e.phase == 2 {
							e.adv(37)
						}
					}
					e.adv(45)
				}},
				{Name: "ends after reordering peers' leash", Run: func(x *X) {
					// Announcements of the same peer are stored while its session runs.
					w := mkSyncWorld(2, 4, false)
					e := newSync(x, "/s")
					w.put(e)
					p := e.peer(ver(1, 5, 0))
					e.leashTo(p, w.f[1].BlockID())
					e.setScore(p, e.scoreAfter(w.tip(), 20))
					r := idsOf(w.r)
					ann := func(b *proto.Block) sop {
						return sop{"announce", func(e *sEnv) {
							e.x.Op("block %s of 1 stored", blkName(b.BlockID()))
							e.store(b, e.ps[0])
						}}
					}
					d := 6
					if th {
						d = 8
					}
					sRun(x, d, e, []sop{sAdv(5), sAdv(37), sReply(0, w.tip(), r[0], r[1], r[2]), sReply(0, r[0], r[1]), sReply(0, w.f[1].BlockID()),
						sBlock(0, w.r[0]), sBlock(0, w.r[1]), sBlock(0, w.r[2]), ann(w.c[1]), ann(w.r[0]), ann(w.r[1]), sKnown(w.r[0]), sKnown(w.r[1]), sReceived(0, w.r[2])}, func(e *sEnv) { e.adv(45) })
				}},
				{Name: "blocks that can't be stored", Run: func(x *X) {
					// Lists in which unlinked blocks stand between the others, any part arrives.
					vs.SetPoints(false)
					n := 1
					if th {
						n = 2
					}
					w := mkSyncWorld(2, 3, n == 1 && x.Bool())
					e := newSync(x, "/s")
					w.put(e)
					p := e.peer(ver(1, 5, 0))
					e.leashTo(p, w.c[0].BlockID())
					e.setScore(p, e.scoreAfter(w.tip(), 20))
					e.start()
					for r := 0; r < n; r++ {
						for i := 0; e.phase != 1 && i < 12; i++ {
							e.adv(1)
						}
						x.Check(e.phase == 1, "no request")
						pool := []*proto.Block{w.u[0], w.u[1], w.r[0], w.r[1], w.r[2]}
						var list []*proto.Block
						for k := 4 - n; len(list) < k; {
							i := x.Choose(len(pool))
							list = append(list, pool[i])
							pool = append(pool[:i:i], pool[i+1:]...)
						}
						e.reply(p, idsOf(list)...)
						mask := x.Choose(1 << len(list))
						for i, b := range list {
							if mask>>i&1 == 1 {
								e.block(p, b)
							}
						}
						x.State(e.hash())
						e.adv(37)
					}
					e.adv(45)
				}},
				{Name: "ten failures", Run: func(x *X) {
					vs.SetPoints(false)
					w := mkSyncWorld(4, 30, false)
					e := newSync(x, "/s")
					w.put(e)
					p, q := e.peer(ver(1, 5, 0)), e.peer(ver(1, 5, 0))
					e.leashTo(p, w.f[1].BlockID())
					e.leashTo(q, w.tip())
					e.setScore(p, e.scoreAfter(w.tip(), 40))
					e.start()
					// A success, of either kind, or a partial failure may come after any number of failures.
					at := x.Choose(13)
					kind := x.Choose(5)
					next := 0
					for i := 0; i < 24; i++ {
						for j := 0; e.phase != 1 && j < 12; j++ {
							e.adv(1)
						}
						x.Check(e.phase == 1, "no request")
						if i == at {
							switch kind {
							case 0: // all known
								e.reply(p, w.f[1].BlockID())
								continue
							case 1:
								e.reply(p, w.c[0].BlockID(), w.f[1].BlockID())
								continue
							case 2: // a block
								e.reply(p, w.tip(), w.r[next].BlockID())
								e.block(p, w.r[next])
								next++
								continue
							case 3: // a part
								e.reply(p, w.tip(), w.r[next].BlockID(), w.r[next+1].BlockID())
								e.block(p, w.r[next])
								next++
							case 4: // a part, the rest is announced later
								e.reply(p, w.tip(), w.r[next].BlockID(), w.r[next+1].BlockID())
								e.block(p, w.r[next])
								e.adv(31)
								for j := 0; e.phase != 1 && j < 12; j++ {
									e.adv(1)
								}
								e.store(w.r[next+1], p)
								next += 2
								continue
							}
						}
						x.State(e.hash())
						e.adv(31)
					}
				}},
				{Name: "failures of two peers", Opt: vs.Options{RandCost: 1, Bound: 2}, Run: func(x *X) {
					vs.SetPoints(false)
					w := mkSyncWorld(4, 3, false)
					e := newSync(x, "/s")
					w.put(e)
					p, q, o := e.peer(ver(1, 5, 0)), e.peer(ver(1, 5, 0)), e.peer(ver(1, 5, 0))
					e.leashTo(p, w.f[1].BlockID())
					e.leashTo(q, w.f[0].BlockID())
					e.leashTo(o, w.tip())
					e.setScore(p, e.scoreAfter(w.tip(), 40))
					e.setScore(q, e.scoreAfter(w.tip(), 40))
					e.start()
					lim := 13
					if x.Bool() {
						// Only the second peer is left after some rounds.
						lim = 5
					}
					for i := 0; i < 26; i++ {
						for j := 0; e.phase != 1 && j < 12; j++ {
							e.adv(1)
						}
						if i == lim {
							e.disconnect(p)
						}
						x.State(e.hash())
						e.adv(31)
					}
				}},
			}
		},
		Bounds: "every part of rounds of 4 blocks arriving in either order, in up to 2 (thorough 3) successive rounds, from 3 leash positions; every history of up to 6 (8) of 11 events with announcements of the same peer in between; lists of 3 (thorough twice 2) of 5 blocks, two of them unlinked, of which any part arrives; 24 successive failures with a success or partial failure of 5 kinds at any of 13 positions; 26 failures over two peers with up to 2 deviating random choices",
	})
	_ = strings.Join
}
