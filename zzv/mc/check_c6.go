package main

import (
	"net/netip"

	"github.com/alexeykiselev/waves-fork-detector/zzv/leveldb"
	"github.com/alexeykiselev/waves-fork-detector/zzv/vs"
	"github.com/wavesplatform/gowaves/pkg/proto"
)

// Chains higher than 2^16 blocks, the numbers that don't fit in two bytes.
const tallHeight = 66_000

// tallMarks are the numbers of blocks around the powers of two.
func tallMarks() []int {
	l := []int{0, 3}
	for p := 8; p < tallHeight; p *= 2 {
		l = append(l, p-2, p-1, p, p+1)
	}
	return append(l, 10_000, 50_001, tallHeight-2, tallHeight-1, tallHeight)
}

// tall builds one chain above the genesis block.
func tall(e *cEnv) []proto.BlockID {
	line := []proto.BlockID{gen1ID}
	for k := 1; k <= tallHeight; k++ {
		b := blk{n: 5_000_000 + k, parent: line[k-1], dig: k%3 == 0, bt: uint64(1000 + k), ts: uint64(k), gen: k % 3}
		e.put(b.proto(), pA)
		line = append(line, b.id())
		if k%1000 == 0 {
			leveldb.Lookup(storePath()).Forget()
		}
	}
	return line
}

func init() {
	add := func(id, name string, ps []netip.Addr, f func(e *cEnv)) {
		ck := checks[id]
		scs := ck.Scenarios
		ck.Scenarios = func(th bool) []Scenario {
			return append(scs(th), Scenario{Name: name, Long: true, Opt: vs.Options{MaxSteps: 1 << 40}, Run: func(x *X) { f(newChain(x, ps...)) }})
		}
	}
	add("C01", "tall chain", []netip.Addr{pA}, func(e *cEnv) {
		line := tall(e)
		e.reopen()
		for _, m := range tallMarks() {
			e.put(attr(6_000_000+m, line[m], m%2 == 0).proto(), pA)
		}
		e.cmpBlocks()
	})
	add("C05", "as many heads as two bytes can't count", []netip.Addr{pA}, func(e *cEnv) {
		for k := 1; k <= tallHeight; k++ {
			e.put(blk{n: 5_000_000 + k, parent: gen1ID, dig: k%3 == 0, bt: 77, ts: 1, gen: k % 3}.proto(), pA)
			if k%1000 == 0 {
				leveldb.Lookup(storePath()).Forget()
			}
			if k > tallHeight-3 || k&(k-1) == 0 {
				e.cmpHeads()
			}
		}
		e.reopen()
		for i, k := range tallMarks() {
			if k > 0 && k < tallHeight {
				e.put(attr(6_000_000+i, idN(5_000_000+k, k%3 == 0), true).proto(), pB)
				e.micro(idN(5_000_000+k+1, (k+1)%3 == 0), idN(6_100_000+i, false), pB)
			}
		}
		e.cmpHeads()
	})
	branches := func(e *cEnv, f func()) {
		line := tall(e)
		for i, m := range []int{0, 3, 255, 256, 4095, 4096, 32_767, 32_768, 50_001, 65_534, 65_535, 65_536, tallHeight - 1, tallHeight} {
			b := attr(6_000_000+i, line[m], i%2 == 0)
			e.put(b.proto(), pB)
			if i%3 == 0 {
				e.micro(b.id(), idN(6_100_000+i, true), pB)
			}
			f()
			e.move(line[m], pB)
			f()
		}
	}
	add("C06", "tall chain", []netip.Addr{pA, pB}, func(e *cEnv) { branches(e, e.cmpLCB) })
	add("C07", "tall chain", []netip.Addr{pA, pB}, func(e *cEnv) {
		branches(e, func() {
			e.cmpForks(nil)
			e.cmpPeerFork(pB)
			e.cmpStats()
		})
	})
	add("C08", "tall chain", []netip.Addr{pA}, func(e *cEnv) {
		line := tall(e)
		for _, n := range tallMarks() {
			e.cmpGenerators(line[tallHeight], n)
			e.cmpGenerators(line[n], 70_000)
		}
	})
	add("C09", "tall chain", []netip.Addr{pA}, func(e *cEnv) {
		line := tall(e)
		for _, n := range tallMarks() {
			e.cmpLast(line[n], 100)
		}
		e.cmpLast(line[tallHeight], tallHeight)
		e.cmpLast(line[tallHeight], tallHeight+1)
		e.cmpLast(line[tallHeight], tallHeight+2)
	})
}
