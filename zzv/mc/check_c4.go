package main

import (
	"fmt"
	"net/netip"
	"sort"
	"strings"

	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/chains"
	"github.com/alexeykiselev/waves-fork-detector/zzv/vs"
)

// Check C12: concurrency of the chain state.

func linChain(x *X, inst string, micro bool) linObj {
	l, err := chains.NewLinkage("/"+inst, scheme, gen1)
	x.Check(err == nil, "NewLinkage: %v", err)
	b2 := attr(2, gen1ID, true)
	b3, b4, b5 := attr(3, b2.id(), false), attr(4, b2.id(), true), attr(5, gen1ID, false)
	b7 := attr(7, b3.id(), true)
	m6 := idN(6, true)
	es := func(e error) string {
		if e == nil {
			return "ok"
		}
		return "error: " + e.Error()
	}
	x.Check(l.PutBlock(b2.proto(), pA) == nil, "set-up")
	var ops []lop
	add := func(n string, f func() string) { ops = append(ops, lop{n, f}) }
	put := func(b blk, p netip.Addr) {
		pb := b.proto()
		add(fmt.Sprintf("PutBlock(b%d, %s)", b.n, p), func() string { return es(l.PutBlock(pb, p)) })
	}
	put(b3, pA)                                                     // 0
	put(b3, pB)                                                     // 1
	put(b4, pB)                                                     // 2
	put(b5, pA)                                                     // 3
	put(b7, pB)                                                     // 4
	add("PutMicroBlock(m6 on b2, "+pA.String()+")", func() string { // 5
		return es(l.PutMicroBlock(&proto.MicroBlockInv{PublicKey: pkN(0), TotalBlockID: m6, Reference: b2.id()}, pA))
	})
	add("MoveLeash(genesis, "+pA.String()+")", func() string { return es(l.MoveLeash(gen1ID, pA)) }) // 6
	add("Forks", func() string { fs, err := l.Forks(nil); return forkNames(fs) + es(err) })          // 7
	add("Heads", func() string { hs, err := l.Heads(); return headList(hs).String() + es(err) })
	add("ActiveHeads", func() string { hs, err := l.ActiveHeads(); return headList(hs).String() + es(err) })
	add("Leashes", func() string { ls, err := l.Leashes(); return leashNames(ls) + es(err) }) // 10
	add("LCB", func() string { id, err := l.LCB(pA); return blkName(id).String() + es(err) })
	add("Fork", func() string { f, err := l.Fork(pA); return forkNames([]chains.Fork{f}) + es(err) })
	add("Stats", func() string { s, err := l.Stats(); return fmt.Sprint(s) + es(err) })
	add("LogInitialStats", func() string { l.LogInitialStats(); return "ok" })
	add("LastIDs(b3)", func() string { ids, err := l.LastIDs(b3.id(), 5); return fmt.Sprint(names(ids)) + es(err) }) // 15
	add("Block(b3)", func() string {
		b, err := l.Block(b3.id())
		return fmt.Sprint(b.Height, b.Score, blkName(b.Parent)) + es(err)
	})
	add("LeashScore", func() string { s, err := l.LeashScore(pA); return fmt.Sprint(s) + es(err) })
	add("ForkGenerators(b3)", func() string {
		g, err := l.ForkGenerators(b3.id(), 5)
		var s []string
		for _, x := range g {
			s = append(s, fmt.Sprint(x.Generator, x.Blocks))
		}
		sort.Strings(s)
		return strings.Join(s, ",") + es(err)
	})
	add("Leash", func() string { id, err := l.Leash(pA); return blkName(id).String() + es(err) })
	add("HasLeash", func() string { ok, err := l.HasLeash(pB); return fmt.Sprint(ok) + es(err) })
	add("HasBlock(b3)", func() string { ok, err := l.HasBlock(b3.id()); return fmt.Sprint(ok) + es(err) }) // 21
	ids := []proto.BlockID{gen1ID, b2.id(), b3.id(), b4.id(), b5.id(), m6, b7.id()}
	return linObj{ops, func() string { return dumpChain(l, ids, []netip.Addr{pA, pB}) }}
}

// linForks is a chain state with three branches and three leashed peers, without ties.
func linForks(x *X, inst string) linObj {
	l, err := chains.NewLinkage("/"+inst, scheme, gen1)
	x.Check(err == nil, "NewLinkage: %v", err)
	mk := func(n int, parent proto.BlockID, bt uint64) blk {
		return blk{n: n, parent: parent, dig: n%2 == 0, bt: bt, ts: 1460678400000 + uint64(n*60_000), gen: n % 3}
	}
	b2 := mk(2, gen1ID, 100)
	b3, b4, b5 := mk(3, b2.id(), 200), mk(4, b2.id(), 90), mk(5, gen1ID, 10)
	b8, b9 := mk(8, b3.id(), 5), mk(9, b5.id(), 300)
	m6 := idN(6, true)
	es := func(e error) string {
		if e == nil {
			return "ok"
		}
		return "error: " + e.Error()
	}
	for _, s := range []struct {
		b blk
		p netip.Addr
	}{{b2, pA}, {b3, pC}, {b4, pB}, {b5, pA}} {
		x.Check(l.PutBlock(s.b.proto(), s.p) == nil, "set-up")
	}
	var ops []lop
	add := func(n string, f func() string) { ops = append(ops, lop{n, f}) }
	put := func(b blk, p netip.Addr) {
		pb := b.proto()
		add(fmt.Sprintf("PutBlock(b%d, %s)", b.n, p), func() string { return es(l.PutBlock(pb, p)) })
	}
	move := func(b blk, p netip.Addr) {
		add(fmt.Sprintf("MoveLeash(b%d, %s)", b.n, p), func() string { return es(l.MoveLeash(b.id(), p)) })
	}
	move(b3, pA) // 0
	move(b4, pA)
	move(b2, pB)
	put(b5, pB)
	put(b8, pB)
	put(b9, pA)
	add("PutMicroBlock(m6 on b5, "+pC.String()+")", func() string { // 6
		return es(l.PutMicroBlock(&proto.MicroBlockInv{PublicKey: pkN(0), TotalBlockID: m6, Reference: b5.id()}, pC))
	})
	for _, p := range []netip.Addr{pA, pB} { // 7
		add("LCB("+p.String()+")", func() string { id, err := l.LCB(p); return blkName(id).String() + es(err) })
		add("Fork("+p.String()+")", func() string { f, err := l.Fork(p); return forkNames([]chains.Fork{f}) + es(err) })
		add("LeashScore("+p.String()+")", func() string { s, err := l.LeashScore(p); return fmt.Sprint(s) + es(err) })
	}
	add("Forks", func() string { fs, err := l.Forks(nil); return forkNames(fs) + es(err) }) // 13
	add("Forks of two", func() string {
		fs, err := l.Forks(chains.LookupPeers{pA: {}, pB: {}})
		return forkNames(fs) + es(err)
	})
	add("ActiveHeads", func() string { hs, err := l.ActiveHeads(); return headList(hs).String() + es(err) })
	add("Stats", func() string { s, err := l.Stats(); return fmt.Sprint(s) + es(err) })
	add("Leashes", func() string { ls, err := l.Leashes(); return leashNames(ls) + es(err) }) // 17
	ids := []proto.BlockID{gen1ID, b2.id(), b3.id(), b4.id(), b5.id(), m6, b8.id(), b9.id()}
	return linObj{ops, func() string { return dumpChain(l, ids, []netip.Addr{pA, pB, pC}) }}
}

func init() {
	register(&Check{
		ID: "C12",
		Scenarios: func(th bool) []Scenario {
			const nw, no = 7, 22
			b, t := 1, 0
			if th {
				b, t = 2, 1
			}
			var ww [][][]int
			for i := 0; i < nw; i++ {
				for j := i; j < nw; j++ {
					ww = append(ww, [][]int{{i}, {j}})
				}
			}
			var wr [][][]int
			for i := 0; i < nw; i++ {
				for j := nw; j < no; j++ {
					wr = append(wr, [][]int{{i}, {j}})
				}
			}
			var rr [][][]int
			for i := nw; i < no; i++ {
				for j := i; j < no; j++ {
					rr = append(rr, [][]int{{i}, {j}})
				}
			}
			multi := [][][]int{{{0, 4}, {1, 2}}, {{0, 10}, {6, 7}}, {{0, 6}, {3, 10}}, {{5, 7}, {0, 8}}, {{3, 12}, {2, 11}}, {{0, 19}, {6, 19}}, {{14, 7}, {0, 2}}}
			three := [][][]int{{{0}, {1}, {4}}, {{0}, {2}, {3}}, {{0}, {6}, {7}}, {{5}, {0}, {8}}, {{0}, {14}, {2}}, {{3}, {12}, {6}}, {{1}, {10}, {13}}, {{0}, {14}, {14}}}
			mk := func(name string, menu [][][]int, opt vs.Options) Scenario {
				opt.Races = true
				return Scenario{Name: name, Opt: opt, Run: func(x *X) {
					m := menu[x.Choose(len(menu))]
					linearizable(x, "", m, func(inst string) linObj { return linChain(x, inst, true) })
				}}
			}
			var fr, ff [][][]int
			for i := 0; i < 18; i++ {
				for j := max(7, i); j < 18; j++ {
					if i < 7 {
						fr = append(fr, [][]int{{i}, {j}})
					} else {
						ff = append(ff, [][]int{{i}, {j}})
					}
				}
			}
			mkf := func(name string, menu [][][]int, opt vs.Options) Scenario {
				opt.Races = true
				return Scenario{Name: name, Opt: opt, Run: func(x *X) {
					linearizable(x, "forks", menu[x.Choose(len(menu))], func(inst string) linObj { return linForks(x, inst) })
				}}
			}
			return []Scenario{
				mkf("two queries over three branches", ff, vs.Options{Bound: 1 + t, FreeCost: 1}),
				mk("two queries", rr, vs.Options{Bound: 1 + t, FreeCost: 1}),
				mkf("update and query over three branches", fr, vs.Options{Bound: 2 + b, FreeCost: 1}),
				mk("two updates", ww, vs.Options{Bound: 2 + b, FreeCost: 1}),
				mk("update and query", wr, vs.Options{Bound: 2 + b, FreeCost: 1}),
				mk("two updates, statement level", ww, vs.Options{Fine: true, Bound: 1 + b, FreeCost: 1}),
				mk("update and query, statement level", wr, vs.Options{Fine: true, Bound: 1 + b, FreeCost: 1}),
				mk("two goroutines with two calls", multi, vs.Options{Bound: 2 + b, FreeCost: 1}),
				mk("three goroutines", three, vs.Options{Bound: 2 + t, FreeCost: 0}),
			}
		},
		Bounds: "every pair of 7 updates, 7 updates with each of 11 queries over three branches, and every update with each of 15 queries, every pair of the queries (up to 1 preemption, thorough 2), 7 pairs of two-call goroutines and 8 triples; all schedules with up to 3 (thorough 4) preemptions at lock and storage operations (triples 2 (3)) and up to 2 (3) at any statement; on each of them no two goroutines access the same memory without synchronization",
	})
}
