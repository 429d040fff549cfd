package main

import (
	"strings"

	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/zzv/vs"
)

// Checks S04 and S05: non-interference and recovery.

// twin is a pair of identical systems of which only the second one is disturbed.
type twin struct {
	x       *X
	a, b    *sEnv
	ta, tb  []smsg
	noise   int
	lagging bool
}

func (t *twin) both(f func(e *sEnv)) { f(t.a); f(t.b) }

func (t *twin) adv(s int) {
	t.a.adv(s) // the clock is common
	if !t.over() {
		t.cmp()
	}
}

// over reports whether the next session may be with another peer, freely chosen in each copy.
func (t *twin) over() bool { return t.lagging && strings.ContainsAny(t.a.phases, "fi") }

func (t *twin) cmp() {
	x := t.x
	for i := 0; i < len(t.ta) || i < len(t.tb); i++ {
		switch {
		case i >= len(t.tb):
			x.Fail("the request %s is missing when other peers' messages come in between", t.ta[i])
		case i >= len(t.ta):
			x.Fail("the request %s is sent only when other peers' messages come in between", t.tb[i])
		}
		m, n := t.ta[i], t.tb[i]
		x.Check(m.at == n.at && m.p == n.p && m.kind == n.kind && sameIDs(m.ids, n.ids), "other peers' messages change the request %s to %s", m, n)
	}
	t.ta, t.tb = nil, nil
	for i, p := range t.a.ps {
		l1, err1 := t.a.l.Leash(p.a)
		l2, err2 := t.b.l.Leash(p.a)
		x.Check(err1 == nil && err2 == nil, "Leash: %v %v", err1, err2)
		x.Check(l1 == l2, "other peers' messages change the leash of peer %d from %s to %s", i+1, blkName(l1), blkName(l2))
	}
	x.Check(dbHash("/s1/blocks") == dbHash("/s2/blocks"), "other peers' messages change the stored blocks")
}

func newTwin(x *X, setup func(e *sEnv)) *twin {
	t := &twin{x: x}
	vs.SetPoints(false)
	for i, d := range []string{"/s1", "/s2"} {
		e := newSync(x, d)
		setup(e)
		if i == 0 {
			t.a = e
			e.onReq = func(m smsg) { t.ta = append(t.ta, m) }
		} else {
			t.b = e
			e.mon = false
			e.onReq = func(m smsg) { t.tb = append(t.tb, m) }
		}
	}
	t.a.start()
	t.b.start()
	return t
}

func (t *twin) hash() uint64 { return H(t.a.hash(), t.b.hash()) }

// honest is a peer that follows the protocol.
type honest struct {
	p     *sPeer
	chain []proto.BlockID
	at    map[proto.BlockID]int
	bs    map[proto.BlockID]*proto.Block
}

func mkHonest(p *sPeer, chain ...[]*proto.Block) *honest {
	h := &honest{p: p, at: map[proto.BlockID]int{gen1ID: 0}, chain: []proto.BlockID{gen1ID}, bs: map[proto.BlockID]*proto.Block{}}
	for _, s := range chain {
		for _, b := range s {
			h.at[b.BlockID()] = len(h.chain)
			h.chain = append(h.chain, b.BlockID())
			h.bs[b.BlockID()] = b
		}
	}
	return h
}

// answer is the reply to a request for identifiers; ok is false if the request has no block of the chain.
func (h *honest) answer(ids []proto.BlockID, common bool) (o []proto.BlockID, ok bool) {
	for _, id := range ids {
		k, in := h.at[id]
		if !in {
			continue
		}
		if !common {
			k++
		}
		return h.chain[k:min(len(h.chain), k+101)], true
	}
	return nil, false
}

func (h *honest) tip() proto.BlockID { return h.chain[len(h.chain)-1] }

func init() {
	register(&Check{
		ID: "S04",
		Scenarios: func(th bool) []Scenario {
			d := 6
			if th {
				d = 8
			}
			mk := func(name string, dig bool, n, d int, lagging bool) Scenario {
				return Scenario{Name: name, Run: func(x *X) {
					w := mkSyncWorld(2, n+1, dig)
					t := newTwin(x, func(e *sEnv) {
						w.put(e)
						p, q := e.peer(ver(1, 5, 0)), e.peer(ver(1, 5, 0))
						e.leashTo(p, w.c[0].BlockID())
						e.leashTo(q, w.f[0].BlockID())
						e.setScore(p, e.scoreAfter(w.tip(), n+1))
					})
					t.adv(5)
					x.Check(t.a.phase == 1, "no session")
					if lagging {
						t.lagging = true
						t.both(func(e *sEnv) { e.setScore(e.ps[1], e.scoreAfter(w.tip(), n+3)) })
					}
					r := idsOf(w.r)
					ops := []sop{
						sReply(0, append([]proto.BlockID{w.tip()}, r[:n]...)...), sReply(0, w.tip()), sReply(0),
						sBlock(0, w.r[0]), sBlock(0, w.r[n-1]), sBlock(0, w.u[0]),
					}
					noise := []sop{
						sReply(1, append([]proto.BlockID{w.tip()}, r...)...), sReply(1, w.tip()), sReply(1, w.u[0].BlockID()), sReply(1),
						sBlock(1, w.r[0]), sBlock(1, w.r[n-1]), sBlock(1, w.u[0]), sBlock(1, w.c[1]), sBlock(1, nil),
					}
					adv := []int{1, 5, 29}
					for i := 0; i < d; i++ {
						if x.Seen(H(t.hash(), t.noise), d-i) {
							return
						}
						k := len(ops) + len(adv)
						if t.noise < 3 {
							k += len(noise)
							if t.a.phase == 0 {
								k += len(ops)
							}
						}
						c := x.Choose(k)
						switch {
						case c < len(ops):
							t.both(ops[c].do)
						case c < len(ops)+len(adv):
							t.adv(adv[c-len(ops)])
						case c < len(ops)+len(adv)+len(noise):
							t.noise++
							x.Op("noise")
							noise[c-len(ops)-len(adv)].do(t.b)
						default:
							t.noise++
							x.Op("late reply")
							ops[c-len(ops)-len(adv)-len(noise)].do(t.b)
						}
						if t.over() {
							return
						}
						t.cmp()
					}
					if x.Seen(t.hash(), 0) {
						return
					}
					if lagging {
						return
					}
					t.adv(45)
				}}
			}
			return []Scenario{
				mk("three blocks", false, 3, d, false),
				mk("one block", true, 1, d, false),
				mk("another lagging peer", false, 2, d, true),
			}
		},
		Bounds: "two copies of the system run side by side, the second one with up to 3 additional messages of 9 kinds of another peer (or of 6 kinds of the synchronized peer itself while no synchronization runs) anywhere in every history of up to 6 (thorough 8) events of 9 kinds, with the other peer lagging or not, then 45 s of silence",
	})

	register(&Check{
		ID: "S05",
		Scenarios: func(th bool) []Scenario {
			return []Scenario{
				{Name: "one honest peer", Run: func(x *X) {
					vs.SetPoints(false)
					e := newSync(x, "/s")
					dig := x.Bool()
					lens := []int{1, 3, 98, 99, 100, 101, 102, 199, 203}
					if th {
						lens = append(lens, 2, 198, 200, 201, 305)
					}
					n := lens[x.Choose(len(lens))]
					r := seg(gen1ID, 2, n, dig)
					// What is stored already: a prefix, and a fork that leaves the chain somewhere.
					var k int
					switch x.Choose(5) {
					case 1:
						k = 1
					case 2:
						k = n / 2
					case 3:
						k = n - 1
					case 4:
						k = n
					}
					for _, b := range r[:k] {
						e.store(b, nil)
					}
					var f []*proto.Block
					fl := []int{0, 1, 99}[x.Choose(3)]
					if fl > 0 {
						from := gen1ID
						if k > 0 && x.Bool() {
							from = r[k-1].BlockID()
						}
						f = seg(from, 1000, fl, dig)
						for _, b := range f {
							e.store(b, nil)
						}
					}
					v := ver(1, 5, 0)
					if !dig && x.Bool() {
						v = ver(1, 1, 0)
					}
					p := e.peer(v)
					switch x.Choose(4) {
					case 0:
					case 1:
						if k > 0 {
							e.leashTo(p, r[k-1].BlockID())
						}
					case 2:
						if k > 1 {
							e.leashTo(p, r[k/2].BlockID())
						}
					case 3:
						if fl > 0 {
							e.leashTo(p, f[fl-1].BlockID())
						}
					}
					h := mkHonest(p, r)
					e.setScore(p, e.scoreAfter(gen1ID, n))
					if !e.lagging(p) {
						return
					}
					recover1(x, e, []*honest{h}, x.Bool(), x.Choose(6), 4+n/100)
				}},
				{Name: "far behind on a fork", Run: func(x *X) {
					// The fork of the leash is longer than a request: only the restart finds the common block.
					vs.SetPoints(false)
					e := newSync(x, "/s")
					r := seg(gen1ID, 2, 12, false)
					k := 3 + x.Choose(4)
					for _, b := range r[:k] {
						e.store(b, nil)
					}
					long := x.Bool()
					f := seg(r[1].BlockID(), 1000, 105, false)
					for _, b := range f {
						e.store(b, nil)
					}
					if long {
						for _, b := range seg(r[0].BlockID(), 2000, 108, false) {
							e.store(b, nil)
						}
					} else {
						for _, b := range seg(r[k-1].BlockID(), 2000, 108, false) {
							e.store(b, nil)
						}
					}
					p := e.peer(ver(1, 5, 0))
					e.leashTo(p, f[104].BlockID())
					all := r
					s := e.scoreAfter(gen1ID, 12)
					if s.Cmp(e.leashScore(p)) <= 0 {
						// A chain with more score than the fork.
						all = append(append([]*proto.Block{}, r...), seg(r[11].BlockID(), 3000, 100, false)...)
						s = e.scoreAfter(gen1ID, 112)
					}
					h := mkHonest(p, all)
					e.setScore(p, s)
					recover1(x, e, []*honest{h}, x.Bool(), []int{0, 1, 4, 5}[x.Choose(4)], 16)
				}},
				{Name: "several honest peers", Opt: vs.Options{RandCost: 1, Bound: 4}, Run: func(x *X) {
					vs.SetPoints(false)
					e := newSync(x, "/s")
					c := seg(gen1ID, 2, 4, false)
					chs := [][]*proto.Block{
						seg(c[3].BlockID(), 100, 3, false),
						seg(c[1].BlockID(), 200, 103, false),
						seg(c[3].BlockID(), 100, 1, false),
					}
					for _, b := range c[:x.Choose(4)] {
						e.store(b, nil)
					}
					var hs []*honest
					np := 2 + x.Choose(2)
					for i, ch := range chs[:np] {
						p := e.peer([]proto.Version{ver(1, 5, 0), ver(1, 1, 0), ver(1, 4, 0)}[i])
						pre := c
						if i == 1 {
							pre = c[:2]
						}
						h := mkHonest(p, pre, ch)
						hs = append(hs, h)
						e.setScore(p, e.scoreAfter(gen1ID, len(h.chain)-1))
					}
					recover1(x, e, hs, x.Bool(), []int{0, 1, 5}[x.Choose(3)], 4)
				}},
				{Name: "the chain grows meanwhile", Run: func(x *X) {
					vs.SetPoints(false)
					e := newSync(x, "/s")
					r := seg(gen1ID, 2, 120, true)
					p := e.peer(ver(1, 5, 0))
					h := mkHonest(p, r[:99+x.Choose(3)])
					e.setScore(p, e.scoreAfter(gen1ID, len(h.chain)-1))
					at := x.Choose(5)
					by := 1 + x.Choose(2)*18
					step := 0
					grow := func() {
						if step++; step == at {
							for i := 0; i < by; i++ {
								b := r[len(h.chain)-1]
								h.at[b.BlockID()] = len(h.chain)
								h.chain = append(h.chain, b.BlockID())
								h.bs[b.BlockID()] = b
							}
							e.setScore(p, e.scoreAfter(gen1ID, len(h.chain)-1))
						}
					}
					recoverWith(x, e, []*honest{h}, x.Bool(), []int{0, 4}[x.Choose(2)], 6, grow)
				}},
			}
		},
		Bounds: "chains of 9 (thorough 14) lengths around 1 to 3 batches with 5 stored prefixes, competing forks of 0, 1 and 99 blocks at 2 places, 4 leash positions, both identifier kinds and protocols, replies with and without the common block, blocks in order, reversed, slow or with one round lost; leashes 105 blocks away from the common block; 2 to 3 lagging peers with up to 4 deviating random choices; growth of the chain at any of 4 steps",
	})
}

func recover1(x *X, e *sEnv, hs []*honest, common bool, mode, rounds int) {
	recoverWith(x, e, hs, common, mode, rounds, func() {})
}

// recoverWith lets honest peers answer until nobody is asked any more. Modes: 0 blocks in order, 1 reversed,
// 2 slowly, 3 the first reply is lost, 4 blocks recorded for the peer before they are passed on, 5 in addition every
// other block becomes known from another source first.
func recoverWith(x *X, e *sEnv, hs []*honest, common bool, mode, rounds int, step func()) {
	e.start()
	limit := rounds*len(hs) + 12
	lost := mode == 3
	var last smsg
	e.onReq = func(m smsg) {
		if m.kind != "block?" {
			last = m
		}
	}
	for n := 0; ; n++ {
		for i := 0; e.phase != 1 && i < 12; i++ {
			e.adv(1)
		}
		if e.phase != 1 {
			break
		}
		x.Check(n < limit, "%d rounds are not enough", n)
		h := hs[e.cur]
		step()
		if mode == 2 {
			e.adv(20)
		}
		ids, ok := h.answer(last.ids, common)
		if lost || !ok {
			lost = false
			e.adv(37)
			continue
		}
		if len(ids) == 0 {
			// Nothing follows the common block: the peer has nothing to say.
			ids = []proto.BlockID{h.tip()}
		}
		e.reply(h.p, ids...)
		step()
		if e.phase != 2 {
			continue
		}
		req := append([]proto.BlockID{}, e.req...)
		for i := range req {
			j := i
			if mode == 1 {
				j = len(req) - 1 - i
			}
			if mode == 2 && i == len(req)/2 {
				e.adv(20)
			}
			b := h.bs[req[j]]
			if mode == 5 && i%2 == 0 {
				e.store(b, nil)
			}
			if mode >= 4 {
				e.received(h.p, b)
			} else {
				e.block(h.p, b)
			}
		}
		step()
	}
	x.State(e.hash())
	for _, h := range hs {
		got, err := e.l.Leash(h.p.a)
		x.Check(err == nil && got == h.tip(), "the leash of honest peer %d is %s, its chain ends with %s (%v)", h.p.n, blkName(got), blkName(h.tip()), err)
		for _, id := range h.chain {
			ok, err := e.l.HasBlock(id)
			x.Check(err == nil && ok, "block %s of honest peer %d is not stored: %v", blkName(id), h.p.n, err)
		}
	}
	t := e.total
	e.adv(60)
	x.Check(e.total == t, "%d requests although nobody is lagging", e.total-t)
}
