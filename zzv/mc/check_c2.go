package main

import (
	"math"
	"net/netip"

	"github.com/wavesplatform/gowaves/pkg/proto"
)

// Checks C06-C09: ancestors, forks, statistics, listings.

// grow builds one tree of n insertions; profile 0 gives all blocks the same weight.
func (e *cEnv) grow(n int, micro bool, profile int, p netip.Addr) {
	for i := 0; i < n; i++ {
		ref := e.pick()
		if micro && e.hasGrown(ref) && e.x.Bool() {
			e.micro(ref, idN(10+i, i%2 == 0), p)
			continue
		}
		b := attr(10+i, ref, i%2 == 1)
		if profile == 0 {
			b.bt = 1000
		}
		e.put(b.proto(), p)
	}
}

// assign enumerates all assignments of the peers to stored blocks.
func (e *cEnv) assign(ps []netip.Addr, f func()) {
	if len(ps) == 0 {
		f()
		return
	}
	for _, id := range e.r.order {
		e.move(id, ps[0])
		e.assign(ps[1:], f)
	}
}

func init() {
	register(&Check{
		ID: "C06",
		Scenarios: func(th bool) []Scenario {
			maxD, maxL, gd := 16, 80, 4
			if th {
				maxD, maxL, gd = 70, 130, 5
			}
			long := func(name string, maxD, maxL int, variants bool) Scenario {
				return Scenario{Name: name, Run: func(x *X) {
					e := newChain(x, pA, pB)
					d := x.Choose(maxD + 1)
					heavyA := x.Bool()
					bMicro, aMicro, bTip := false, false, false
					if variants {
						bMicro, aMicro, bTip = x.Bool(), x.Bool(), x.Bool()
					}
					if d == 0 {
						bMicro = false
					}
					i := x.Choose(maxL + 1)
					stem := []proto.BlockID{gen1ID}
					for k := 1; k <= d; k++ {
						b := blk{n: 100 + k, parent: stem[k-1], dig: k%2 == 0, bt: 1000, ts: 1, gen: 1}
						e.put(b.proto(), pB)
						stem = append(stem, b.id())
					}
					branch := func(n0 int, from proto.BlockID, n int, bt uint64, tipMicro bool) []proto.BlockID {
						out := []proto.BlockID{from}
						for k := 1; k <= n; k++ {
							b := blk{n: n0 + k, parent: out[k-1], dig: k%3 == 0, bt: bt, ts: 1, gen: 1}
							e.put(b.proto(), pB)
							out = append(out, b.id())
						}
						if tipMicro && n > 0 {
							m := idN(n0+500, true)
							e.micro(out[n], m, pB)
							out = append(out, m)
						}
						return out
					}
					ba, bb := uint64(1), uint64(100000)
					if !heavyA {
						ba, bb = bb, ba
					}
					a := branch(1000, stem[d], i, ba, aMicro)
					from := stem[d]
					if bMicro {
						from = idN(99, true)
						e.micro(stem[d], from, pB)
					}
					b := branch(2000, from, maxL, bb, bTip)
					e.move(a[len(a)-1], pA)
					for _, q := range append(append([]proto.BlockID{}, b...), stem...) {
						e.move(q, pB)
						e.cmpLCB()
					}
					x.State(e.hash())
				}}
			}
			s := []Scenario{long("branches", maxD, maxL, false), long("branches with micro-blocks", maxD/2, maxL/2, true)}
			s = append(s, Scenario{Name: "very long branches", Run: func(x *X) {
				ls := []int{0, 1, 2, 127, 128, 129, 130, 255, 256, 257, 258, 511, 512, 513, 514, 600}
				ds := []int{0, 1, 126, 254}
				if th {
					ls = append(ls, 1022, 1023, 1024, 1025, 1026, 1100)
					ds = append(ds, 2, 3, 62, 63, 64, 125, 127, 253, 255, 510)
				}
				e := newChain(x, pA, pB)
				line := func(n0 int, from proto.BlockID, n int, bt uint64) []proto.BlockID {
					out := []proto.BlockID{from}
					for k := 1; k <= n; k++ {
						b := blk{n: n0 + k, parent: out[k-1], dig: k%3 == 0, bt: bt, ts: 1, gen: 1}
						e.put(b.proto(), pB)
						out = append(out, b.id())
					}
					return out
				}
				d, heavyA := ds[x.Choose(len(ds))], x.Bool()
				ba, bb := uint64(1), uint64(100000)
				if !heavyA {
					ba, bb = bb, ba
				}
				i := ls[x.Choose(len(ls))]
				stem := line(100, gen1ID, d, 1000)
				a := line(10000, stem[d], i, ba)
				b := line(20000, stem[d], ls[len(ls)-1], bb)
				e.move(a[i], pA)
				for _, q := range append(b, stem...) {
					e.move(q, pB)
					e.cmpLCB()
				}
				x.State(e.hash())
			}})
			s = append(s, Scenario{Name: "trees", Run: func(x *X) {
				e := newChain(x, pA, pB, pC, p6)
				e.cmpLCB()
				e.grow(gd, true, x.Choose(2), pA)
				three := x.Bool()
				ps := []netip.Addr{pA, pB}
				if three {
					ps = append(ps, pC)
				}
				e.assign(ps, func() { e.cmpLCB() })
				x.State(e.hash())
			}})
			s = append(s, interleaved(th, func(e *cEnv) { e.cmpLCB() }))
			s = append(s, Scenario{Name: "deep comb", Run: func(x *X) {
				// A main chain with a short side branch at every height.
				e := newChain(x, pA, pB)
				n := 64
				if th {
					n = 260
				}
				tips := []proto.BlockID{gen1ID}
				tip := gen1ID
				for k := 0; k < n; k++ {
					b := blk{n: 1000 + k, parent: tip, dig: k%2 == 0, bt: 1000, ts: 1, gen: 1}
					e.put(b.proto(), pA)
					s := blk{n: 2000 + k, parent: tip, dig: k%2 == 1, bt: 1000, ts: 1, gen: 1}
					e.put(s.proto(), pB)
					tip = b.id()
					tips = append(tips, tip, s.id())
				}
				at := x.Choose(len(tips))
				e.move(tips[at], pB)
				for _, t := range tips {
					e.move(t, pA)
					e.cmpLCB()
				}
			}})
			return s
		},
		Bounds: "all pairs of branch lengths up to 80 (thorough 130) at every branching depth up to 16 (70), of 0 to 600 (1100) blocks with one of 16 (22) lengths around powers of two, with either branch the longest one, also with micro-blocks at the branching point and at the tips; every pair of positions in a comb of 64 (260) side branches; every tree of 4 (5) insertions with every assignment of 2 and 3 leashes; one chain of 66,000 blocks with a branch at 14 heights",
	})

	register(&Check{
		ID: "C07",
		Scenarios: func(th bool) []Scenario {
			gd := 4
			if th {
				gd = 5
			}
			filters := func(e *cEnv, ps []netip.Addr) {
				e.cmpForks(nil)
				e.cmpForks(map[netip.Addr]bool{})
				for m := 1; m < 1<<len(ps); m++ {
					sel := map[netip.Addr]bool{}
					for i, p := range ps {
						if m&(1<<i) != 0 {
							sel[p] = true
						}
					}
					e.cmpForks(sel)
				}
				for _, p := range ps {
					if _, ok := e.r.leash[p]; ok {
						e.cmpPeerFork(p)
					}
				}
			}
			return []Scenario{
				{Name: "trees", Run: func(x *X) {
					e := newChain(x, pA, pB, p6)
					e.cmpForks(nil)
					e.cmpForks(map[netip.Addr]bool{pA: true})
					n := x.Choose(gd) + 1
					e.grow(n, true, x.Choose(2), pA)
					ps := []netip.Addr{pA}
					if x.Bool() {
						ps = append(ps, pB)
					}
					if x.Bool() {
						ps = append(ps, p6)
					}
					e.assign(ps, func() { filters(e, []netip.Addr{pA, pB, p6}) })
					x.State(e.hash())
				}},
				interleaved(th, func(e *cEnv) { filters(e, []netip.Addr{pA, pB}) }),
				{Name: "four peers", Run: func(x *X) {
					e := newChain(x, pA, pB, pC, p6)
					n := 3
					if th {
						n = 4
					}
					e.grow(n, false, x.Choose(2), pA)
					e.assign([]netip.Addr{pA, pB, pC, p6}, func() { filters(e, []netip.Addr{pA, pB, pC, p6}) })
				}},
				{Name: "long forks", Run: func(x *X) {
					e := newChain(x, pA, pB, pC)
					tip := gen1ID
					var main []proto.BlockID
					main = append(main, tip)
					for i := 0; i < 40; i++ {
						b := blk{n: 100 + i, parent: tip, dig: i%2 == 0, bt: 1000, ts: uint64(i), gen: i % 4}
						e.put(b.proto(), pA)
						tip = b.id()
						main = append(main, tip)
					}
					at := x.Choose(len(main))
					l := []int{1, 2, 5, 6, 17, 40}[x.Choose(6)]
					bt := []uint64{1000, 1, math.MaxInt64}[x.Choose(3)]
					side := main[at]
					var sides []proto.BlockID
					for i := 0; i < l; i++ {
						b := blk{n: 200 + i, parent: side, dig: i%2 == 1, bt: bt, ts: uint64(i), gen: i % 3}
						e.put(b.proto(), pB)
						side = b.id()
						sides = append(sides, side)
					}
					filters(e, []netip.Addr{pA, pB, pC})
					for _, s := range sides {
						e.move(s, pC)
						filters(e, []netip.Addr{pA, pB, pC})
					}
					for _, m := range main {
						e.move(m, pC)
						filters(e, []netip.Addr{pA, pB, pC})
					}
				}},
				{Name: "many peers", Run: func(x *X) {
					e := newChain(x)
					k := []int{1, 3, 50}[x.Choose(3)]
					for i := 0; i < k; i++ {
						e.put(blk{n: 100 + i, parent: gen1ID, dig: i%2 == 0, bt: uint64(1000 - i%7), ts: 5, gen: i}.proto(), pA)
					}
					sel := map[netip.Addr]bool{}
					for i := 0; i < 260; i++ {
						p := netip.AddrFrom4([4]byte{20, 0, byte(i >> 8), byte(i)})
						e.move(e.r.order[i%len(e.r.order)], p)
						if i%3 == 0 {
							sel[p] = true
						}
					}
					e.cmpForks(nil)
					e.cmpForks(sel)
				}},
			}
		},
		Bounds: "every tree of up to 4 (thorough 5) blocks/micro-blocks with equal and unequal weights, every assignment of 1-3 peers (4 peers for 3 (4) blocks) and every filter; a fork of 6 lengths and 3 weights at each of 41 heights; 260 peers on 2 to 51 blocks; one chain of 66,000 blocks with a branch at 14 heights",
		Assume: []string{"among leashed blocks tied in score and number of peers any may count as the longest"},
	})

	register(&Check{
		ID: "C08",
		Scenarios: func(th bool) []Scenario {
			gd := 4
			if th {
				gd = 6
			}
			return []Scenario{
				{Name: "statistics", Run: func(x *X) {
					ps := []netip.Addr{pA, pB, pC, p6}
					e := newChain(x, ps...)
					e.cmpStats()
					tip := gen1ID
					main := []proto.BlockID{tip}
					nmain := 12 + x.Choose(2)*30
					for i := 0; i < nmain; i++ {
						b := blk{n: 100 + i, parent: tip, dig: i%2 == 0, bt: 1, ts: uint64(i), gen: i % 4}
						e.put(b.proto(), pA)
						tip = b.id()
						main = append(main, tip)
					}
					at := []int{0, 1, 4}[x.Choose(3)]
					side := func(n0, l int, p netip.Addr) {
						f := main[at]
						e.move(f, p)
						for i := 0; i < l; i++ {
							b := blk{n: n0 + i, parent: f, dig: i%2 == 1, bt: 1000, ts: uint64(i), gen: i % 3}
							e.put(b.proto(), p)
							f = b.id()
						}
					}
					l1 := x.Choose(9)
					if x.Bool() {
						side(200, l1, pB)
					}
					l2 := x.Choose(9)
					side(300, l2, pC)
					if l2 > 0 && x.Bool() {
						e.micro(e.r.leash[pC], idN(399, true), p6)
					}
					e.cmpStats()
					e.move(main[x.Choose(len(main))], pA)
					e.cmpStats()
					x.State(e.hash())
				}},
				{Name: "trees", Run: func(x *X) {
					e := newChain(x, pA, pB)
					e.grow(gd, true, x.Choose(2), pA)
					for _, id := range e.r.order {
						for n := 0; n <= gd+3; n++ {
							e.cmpGenerators(id, n)
						}
						e.cmpGenerators(id, math.MaxInt)
						e.cmpGenerators(id, math.MaxInt32)
					}
					e.assign([]netip.Addr{pA, pB}, func() { e.cmpStats() })
					x.State(e.hash())
				}},
				interleaved(th, func(e *cEnv) {
					e.cmpStats()
					for _, id := range e.r.order {
						e.cmpGenerators(id, 2)
						e.cmpGenerators(id, 10)
					}
				}),
				{Name: "long tallies", Run: func(x *X) {
					e := newChain(x, pA)
					tip := gen1ID
					n := 130
					if th {
						n = 1030
					}
					per := []int{1, 2, 3, 7, 50}[x.Choose(5)]
					for i := 0; i < n; i++ {
						b := blk{n: 1000 + i, parent: tip, dig: i%2 == 0, bt: 1000, ts: 1, gen: i % per}
						if i%11 == 5 {
							e.micro(tip, idN(1000+i, i%2 == 0), pA)
						} else {
							e.put(b.proto(), pA)
						}
						tip = b.id()
					}
					for c := 0; c <= n+4; c++ {
						e.cmpGenerators(tip, c)
					}
					for _, c := range []int{math.MaxInt, math.MaxInt32, math.MaxUint32, 1 << 40} {
						e.cmpGenerators(tip, c)
					}
				}},
			}
		},
		Bounds: "two or three forks of every length from 0 to 8 at 3 positions of chains of 12 and 42 blocks with the longest head at every position; every tree of 4 (thorough 6) insertions with every leash pair, every start block and count 0 to height+3 and extreme counts; chains of 130 (1030) blocks with every count; one chain of 66,000 blocks with about 30 start blocks and counts",
	})

	register(&Check{
		ID: "C09",
		Scenarios: func(th bool) []Scenario {
			gd := 5
			if th {
				gd = 6
			}
			return []Scenario{
				{Name: "trees", Run: func(x *X) {
					e := newChain(x, pA)
					for i := 0; i < gd; i++ {
						e.grow1(i)
						if e.fresh() {
							for _, id := range e.r.order {
								for n := 1; n <= gd+2; n++ {
									e.cmpLast(id, n)
								}
							}
							e.cmpLast(idN(99, true), 5)
							x.State(e.hash())
						}
					}
				}},
				interleaved(th, func(e *cEnv) {
					for _, id := range e.r.order {
						e.cmpLast(id, 2)
						e.cmpLast(id, 10)
					}
				}),
				{Name: "long chains", Run: func(x *X) {
					e := newChain(x, pA)
					n := []int{98, 99, 100, 101, 130, 255, 256, 300}[x.Choose(8)]
					micro := x.Choose(3)
					interleave := x.Bool()
					tip, other := gen1ID, gen1ID
					for i := 0; i < n; i++ {
						if i > 0 && (micro == 1 && i%10 == 3 || micro == 2 && i%2 == 1) {
							e.micro(tip, idN(1000+i, i%2 == 0), pA)
							tip = idN(1000+i, i%2 == 0)
						} else {
							b := blk{n: 1000 + i, parent: tip, dig: i%2 == 0, bt: 1000, ts: 1, gen: 1}
							e.put(b.proto(), pA)
							tip = b.id()
						}
						if interleave {
							b := blk{n: 3000 + i, parent: other, dig: i%2 == 1, bt: 1000, ts: 1, gen: 1}
							e.put(b.proto(), pB)
							other = b.id()
						}
					}
					for _, c := range []int{1, 2, 97, 98, 99, 100, 101, 102, 103, n - 1, n, n + 1, n + 2} {
						e.cmpLast(tip, c)
						if interleave {
							e.cmpLast(other, c)
						}
					}
					for i, id := range e.r.order {
						if i%3 == 0 {
							e.cmpLast(id, 100)
						}
					}
					x.State(e.hash())
				}},
			}
		},
		Bounds: "every tree of 5 (thorough 6) insertions of blocks and micro-blocks, every start block and count; chains of 98 to 300 blocks with counts around 100 and the chain length, with and without micro-blocks and an interleaved second branch; one chain of 66,000 blocks with about 30 start blocks",
	})
}

// interleaved queries after every step of every history, so that nothing remembered from earlier answers survives.
func interleaved(th bool, q func(e *cEnv)) Scenario {
	return Scenario{Name: "queries between updates", Run: func(x *X) {
		e := newChain(x, pA, pB)
		d := 4
		if th {
			d = 5
		}
		q(e)
		for i := 0; i < d; i++ {
			p := []netip.Addr{pA, pB}[x.Choose(2)]
			c := x.Choose(2 * len(e.r.order))
			ref := e.r.order[c/2]
			if c%2 == 0 {
				if e.hasGrown(ref) && i%2 == 1 {
					e.micro(ref, idN(10+i, i%2 == 0), p)
				} else {
					e.put(attr(10+i, ref, i%2 == 1).proto(), p)
				}
			} else {
				e.move(ref, p)
			}
			q(e)
		}
		x.State(e.hash())
	}}
}

func (e *cEnv) grow1(i int) {
	ref := e.pick()
	if e.hasGrown(ref) && e.x.Bool() {
		e.micro(ref, idN(10+i, i%2 == 0), pA)
		return
	}
	e.put(attr(10+i, ref, i%2 == 1).proto(), pA)
}
