package main

import (
	"fmt"
	"math"
	"net/netip"

	"github.com/wavesplatform/gowaves/pkg/proto"
)

// Checks C01-C05: what is stored about blocks, heads and leashes.

var (
	pA  = ip("10.0.0.1")
	pB  = ip("10.0.0.2")
	pC  = ip("1.0.0.10")
	p6  = ip("2001:db8::a00:1")
	p6b = ip("a00:1::")
)

var btSet = []uint64{100, 0, 1, 2, 3, math.MaxInt64, 153722867}
var tsSet = []uint64{1460678400001, 0, 1, 253370764799999, 1 << 40}

// attr gives deterministic varied attributes of block n.
func attr(n int, parent proto.BlockID, dig bool) blk {
	return blk{n: n, parent: parent, dig: dig, bt: []uint64{100, 50, 100, 70, 1, 0}[n%6], ts: 1460678400000 + uint64(n*60_000), gen: n % 3}
}

func (e *cEnv) pick() proto.BlockID { return e.r.order[e.x.Choose(len(e.r.order))] }

func (e *cEnv) hasGrown(ref proto.BlockID) bool { return !e.r.blocks[ref].root }

func init() {
	register(&Check{
		ID: "C01",
		Scenarios: func(th bool) []Scenario {
			var s []Scenario
			s = append(s, Scenario{Name: "attributes", Run: func(x *X) {
				e := newChain(x, pA)
				d := 2
				for i := 0; i < d; i++ {
					b := blk{n: 10 + i, parent: e.pick(), dig: x.Bool(), bt: btSet[x.Choose(len(btSet))], ts: tsSet[x.Choose(len(tsSet))], gen: x.Choose(2)}
					e.put(b.proto(), pA)
					if e.fresh() {
						e.cmpBlocks()
					}
				}
				e.reopen()
				e.cmpBlocks()
			}})
			depth := 5
			if th {
				depth = 6
			}
			s = append(s, Scenario{Name: "trees", Run: func(x *X) {
				e := newChain(x, pA, pB)
				for i := 0; i < depth; i++ {
					b := attr(10+i, e.pick(), x.Bool())
					e.put(b.proto(), []netip.Addr{pA, pB}[i%2])
					if e.fresh() {
						e.cmpBlocks()
						e.cmpLeashes()
						x.State(e.hash())
					}
				}
				e.reopen()
				e.cmpBlocks()
			}})
			md := 4
			if th {
				md = 5
			}
			s = append(s, Scenario{Name: "trees with micro-blocks, repeats and restarts", Run: func(x *X) {
				e := newChain(x, pA, pB)
				for i := 0; i < md; i++ {
					ref := e.pick()
					n := 3
					if e.hasGrown(ref) {
						n = 5
					}
					switch x.Choose(n) {
					case 0:
						e.put(attr(10+i, ref, i%2 == 0).proto(), pA)
					case 1:
						e.put(attr(10+i, ref, i%2 == 1).proto(), pB)
					case 2:
						e.reopen()
						e.put(attr(10+i, ref, i%2 == 1).proto(), pB)
					case 3:
						e.micro(ref, idN(10+i, i%2 == 0), pA)
					case 4:
						e.micro(ref, idN(10+i, i%2 == 1), pB)
						e.micro(ref, idN(10+i, i%2 == 1), pA)
					}
					if e.fresh() {
						e.cmpBlocks()
						x.State(e.hash())
					}
				}
			}})
			ln := 300
			if th {
				ln = 1100
			}
			s = append(s, Scenario{Name: "long chains", Run: func(x *X) {
				e := newChain(x, pA, pB)
				kind := x.Choose(3)
				re := x.Choose(3)
				at := []int{2, 127, 255}[x.Choose(3)]
				tip := gen1ID
				var forkAt proto.BlockID
				for i := 0; i < ln; i++ {
					b := attr(1000+i, tip, kind == 1 || kind == 2 && i%2 == 0)
					e.put(b.proto(), pA)
					tip = b.id()
					if i == at {
						forkAt = tip
					}
					if re == 1 && i == 254 {
						e.reopen()
					}
				}
				for i := 0; i < 5; i++ {
					b := attr(5000+i, forkAt, kind == 1)
					e.put(b.proto(), pB)
					forkAt = b.id()
				}
				if re == 2 {
					e.reopen()
				}
				e.cmpBlocks()
				e.cmpLeashes()
				x.State(e.hash())
			}})
			s = append(s, Scenario{Name: "extreme scores", Run: func(x *X) {
				e := newChain(x, pA)
				tip := gen1ID
				for i := 0; i < 5; i++ {
					b := blk{n: 10 + i, parent: tip, dig: i%2 == 0, bt: btSet[x.Choose(4)], ts: uint64(i), gen: i}
					e.put(b.proto(), pA)
					tip = b.id()
				}
				e.cmpBlocks()
				e.cmpLeashes()
			}})
			return s
		},
		Bounds: "every tree shape and insertion order of 5 (thorough 6) blocks with every combination of identifier kinds; every combination of 7 base targets x 5 timestamps x 2 kinds x 2 generators for 2 blocks at every position; every history of 4 (5) blocks/micro-blocks/repeats/restarts; chains of 300 (1100) blocks with a fork before 3, 128 or 256; one chain of 66,000 blocks with children at 30 heights",
	})

	register(&Check{
		ID: "C02",
		Scenarios: func(th bool) []Scenario {
			d, pd := 3, 5
			if th {
				d, pd = 4, 7
			}
			mk := func(name string, depth int, prune, sig bool) Scenario {
				return Scenario{Name: name, Run: func(x *X) {
					u := smallUniverse(x, sig)
					for i := 0; i < depth; i++ {
						u.step(func(e *cEnv) {})
						if !prune {
							x.State(u.hash())
						} else if x.Seen(u.hash(), depth-i-1) {
							return
						}
					}
				}}
			}
			return []Scenario{
				mk("all histories", d, false, false), mk("all histories of reachable states", pd, true, false),
				mk("mirror identifiers", d-1, false, true), mk("mirror identifiers, states", pd, true, true),
				{Name: "long orphans", Run: func(x *X) {
					// Orphans and repeats at every position of a longer chain.
					e := newChain(x, pA, pB)
					tip := gen1ID
					at := x.Choose(12)
					kind := x.Bool()
					for i := 0; i < 12; i++ {
						b := attr(10+i, tip, kind)
						if i == at {
							e.put(attr(60, b.id(), !kind).proto(), pB) // child before its parent
							e.micro(b.id(), idN(61, kind), pB)
							e.put(b.proto(), pA)
							e.cmpAll()
							e.put(attr(60, b.id(), !kind).proto(), pB)
							e.put(b.proto(), pB)
							e.micro(b.id(), idN(61, kind), pB)
							e.micro(b.id(), idN(61, kind), pA)
							e.micro(e.r.order[1], b.id(), pB)
							e.cmpAll()
						}
						e.put(b.proto(), pA)
						tip = b.id()
					}
					e.cmpAll()
				}},
			}
		},
		Bounds: "every sequence of 3 (thorough 4) announcements out of 22 (11 blocks and micro-blocks: in-order, forked, orphaned, repeated under another parent; 2 peers), complete state compared after every step; every history of 5 (7) steps up to identical complete states",
	})

	register(&Check{
		ID: "C03",
		Scenarios: func(th bool) []Scenario {
			d := 5
			if th {
				d = 6
			}
			return []Scenario{
				{Name: "growth", Run: func(x *X) {
					e := newChain(x, pA, pB)
					for i := 0; i < d; i++ {
						ref := e.pick()
						if e.hasGrown(ref) && x.Bool() {
							e.micro(ref, idN(10+i, i%2 == 0), pA)
						} else {
							e.put(attr(10+i, ref, i%2 == 1).proto(), pB)
						}
						if e.fresh() {
							e.cmpBlocks()
							e.cmpHeads()
							for _, id := range e.r.order {
								e.cmpLast(id, 20)
							}
							x.State(e.hash())
						}
					}
				}},
				{Name: "genesis", Run: func(x *X) {
					e := newChain(x, pA, pB)
					if x.Bool() {
						e.put(attr(10, gen1ID, true).proto(), pB)
					}
					e.micro(gen1ID, idN(20, x.Bool()), pA)
					e.cmpAll()
					e.put(attr(11, gen1ID, true).proto(), pA)
					e.micro(idN(11, true), idN(21, true), pA)
					e.micro(gen1ID, idN(21, true), pB) // already known: only the leash moves
					e.cmpAll()
				}},
				{Name: "chains of micro-blocks", Run: func(x *X) {
					e := newChain(x, pA, pB)
					tip := gen1ID
					kind := x.Bool()
					keyEvery := []int{1, 2, 3, 7, 20, 41}[x.Choose(6)]
					for i := 0; i < 40; i++ {
						if i%keyEvery == 0 {
							b := attr(10+i, tip, kind)
							e.put(b.proto(), pA)
							tip = b.id()
						} else {
							e.micro(tip, idN(10+i, kind), pA)
							tip = idN(10+i, kind)
						}
					}
					e.cmpBlocks()
					e.cmpHeads()
					at := e.r.order[x.Choose(len(e.r.order))]
					if e.hasGrown(at) {
						e.micro(at, idN(60, !kind), pB)
						at = idN(60, !kind)
					}
					e.put(attr(61, at, kind).proto(), pB)
					e.cmpBlocks()
					e.cmpHeads()
					e.cmpForks(nil)
					e.cmpLast(idN(61, kind), 100)
				}},
			}
		},
		Bounds: "every sequence of 5 (thorough 6) insertions of blocks and micro-blocks with every choice of reference; chains of 40 with a key block every 1, 2, 3, 7, 20 or 41 and an extension at every position",
	})

	register(&Check{
		ID: "C04",
		Scenarios: func(th bool) []Scenario {
			type family struct {
				name string
				ps   []netip.Addr
			}
			fams := []family{
				{"IPv4", []netip.Addr{pA, pB, pC}},
				{"mixed", []netip.Addr{pA, p6, p6b}},
				{"edges", []netip.Addr{ip("0.0.0.0"), ip("255.255.255.255"), ip("::ffff:0:0:1")}},
				{"similar", []netip.Addr{ip("10.0.0.1"), ip("::a00:1"), ip("::ffff:10.0.0.1")}},
			}
			d, pd := 3, 6
			if th {
				d, pd = 4, 9
			}
			var s []Scenario
			for _, f := range fams {
				for _, prune := range []bool{false, true} {
					depth := d
					nm := "all histories, " + f.name
					if prune {
						depth = pd
						nm = "all states, " + f.name
					}
					f, prune := f, prune
					s = append(s, Scenario{Name: nm, Run: func(x *X) {
						e := newChain(x, f.ps...)
						e.cmpLeashes()
						b2, b3, b4 := attr(2, gen1ID, true), attr(3, idN(2, true), false), attr(4, gen1ID, true)
						m5 := idN(5, true)
						for i := 0; i < depth; i++ {
							p := f.ps[x.Choose(len(f.ps))]
							known := e.r.order
							switch c := x.Choose(5 + len(known)); c {
							case 0:
								e.put(b2.proto(), p)
							case 1:
								e.put(b3.proto(), p)
							case 2:
								e.put(b4.proto(), p)
							case 3:
								e.micro(b2.id(), m5, p)
							case 4:
								e.reopen()
							default:
								e.move(known[c-5], p)
							}
							if e.fresh() {
								e.cmpLeashes()
							}
							if prune {
								if x.Seen(e.hash(), depth-i-1) {
									return
								}
							} else {
								x.State(e.hash())
							}
						}
					}})
				}
			}
			s = append(s, Scenario{Name: "many peers", Run: func(x *X) {
				var ps []netip.Addr
				for i := 0; i < 300; i++ {
					ps = append(ps, netip.AddrFrom4([4]byte{byte(i >> 8), byte(i), byte(i), 0}))
				}
				e := newChain(x, ps...)
				off := x.Choose(3)
				tip := gen1ID
				for i, p := range ps {
					b := attr(1000+i, tip, i%2 == 0)
					e.put(b.proto(), p)
					if i%3 == off {
						tip = b.id()
					}
				}
				e.cmpLeashes()
				for i := range ps {
					if i%7 == off {
						e.move(e.r.order[(i*31)%len(e.r.order)], ps[i])
					}
				}
				e.cmpLeashes()
				e.reopen()
				e.cmpLeashes()
			}})
			return s
		},
		Bounds: "every sequence of 3 (thorough 4) announcements/moves by 3 peers, every history of 6 (9) steps up to identical complete states, for 4 address families (IPv4, IPv6 sharing bytes, extreme and v4-mapped addresses); 300 peers",
		Assume: []string{"leashes are moved only to stored blocks", "the all-ones IPv6 address is not a peer"},
	})

	register(&Check{
		ID: "C05",
		Scenarios: func(th bool) []Scenario {
			d, dd := 5, 6
			if th {
				d, dd = 6, 7
			}
			return []Scenario{
				{Name: "growth with leashes", Run: func(x *X) { headsRun(x, d, true) }},
				{Name: "growth", Run: func(x *X) { headsRun(x, dd, false) }},
				{Name: "repeats and orphans", Run: func(x *X) {
					u := smallUniverse(x, false)
					u.full = false
					depth := d + 1
					for i := 0; i < depth; i++ {
						u.step(func(e *cEnv) { e.cmpHeads() })
						if x.Seen(u.hash(), depth-i-1) {
							return
						}
					}
				}},
				{Name: "many heads", Run: func(x *X) {
					e := newChain(x, pA, pB)
					base := gen1ID
					if x.Bool() {
						b := attr(900, gen1ID, true)
						e.put(b.proto(), pB)
						base = b.id()
					}
					n := []int{254, 255, 256, 257, 300}[x.Choose(5)]
					for i := 0; i < n; i++ {
						e.put(attr(1000+i, base, i%2 == 0).proto(), pA)
					}
					e.cmpHeads()
					k := []int{0, 1, 127, 253}[x.Choose(4)]
					e.put(attr(2000, idN(1000+k, k%2 == 0), true).proto(), pB)
					e.micro(idN(1000+k+1, k%2 == 1), idN(2001, true), pB)
					e.cmpHeads()
					e.reopen()
					e.put(attr(2002, base, true).proto(), pB)
					e.cmpHeads()
				}},
			}
		},
		Bounds: "every insertion sequence of 5 (thorough 6) blocks/micro-blocks with every choice of reference and peer, 6 (7) with fixed peers; every history of 6 (7) announcements incl. repeats and orphans up to identical states; 254 to 300 siblings; 66,000 siblings",
	})
}

func headsRun(x *X, depth int, peers bool) {
	e := newChain(x, pA, pB)
	e.cmpHeads()
	for i := 0; i < depth; i++ {
		ref := e.pick()
		p := pA
		if peers && x.Bool() {
			p = pB
		}
		if e.hasGrown(ref) && x.Bool() {
			e.micro(ref, idN(10+i, i%2 == 0), p)
		} else {
			e.put(attr(10+i, ref, i%2 == 1).proto(), p)
		}
		if e.fresh() {
			e.cmpHeads()
			x.State(e.hash())
		}
	}
}

// universe is a fixed set of announcements, valid and invalid.
type universe struct {
	*cEnv
	blocks []*proto.Block
	micros [][2]proto.BlockID
	full   bool
	ps     []netip.Addr
}

func smallUniverse(x *X, sig bool) *universe {
	e := newChain(x, pA, pB, pC)
	d := !sig
	u := &universe{cEnv: e, full: true, ps: []netip.Addr{pA, pB}}
	b2 := attr(2, gen1ID, d)
	b3 := attr(3, b2.id(), !d)
	b4 := attr(4, b2.id(), d)
	b5 := attr(5, b3.id(), d)
	orphan := attr(9, idN(99, d), d)
	m20, m21, m22 := idN(20, d), idN(21, !d), idN(22, d)
	b6 := attr(6, m20, !d)
	alt3 := attr(3, gen1ID, !d) // same identifier, other parent: first one wins
	u.blocks = []*proto.Block{b2.proto(), b3.proto(), b4.proto(), b5.proto(), b6.proto(), orphan.proto(), alt3.proto()}
	u.micros = [][2]proto.BlockID{{b2.id(), m20}, {m20, m21}, {b3.id(), m22}, {idN(98, d), idN(23, d)}}
	e.univ = append(e.univ, b2.id(), b3.id(), b4.id(), b5.id(), b6.id(), orphan.id(), m20, m21, m22, idN(23, d), idN(98, d), idN(99, d))
	return u
}

func (u *universe) step(also func(e *cEnv)) {
	c := u.x.Choose((len(u.blocks) + len(u.micros)) * len(u.ps))
	p := u.ps[c%len(u.ps)]
	c /= len(u.ps)
	if c < len(u.blocks) {
		u.put(u.blocks[c], p)
	} else {
		m := u.micros[c-len(u.blocks)]
		u.micro(m[0], m[1], p)
	}
	if u.fresh() {
		if u.full {
			u.cmpAll()
		}
		also(u.cEnv)
	}
}

var _ = fmt.Sprint
