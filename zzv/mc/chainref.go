package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
	"net/netip"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/alexeykiselev/waves-fork-detector/chains"
	"github.com/alexeykiselev/waves-fork-detector/zzv/leveldb"
	"github.com/wavesplatform/gowaves/pkg/crypto"
	"github.com/wavesplatform/gowaves/pkg/proto"
)

// ---- deterministic test data ----

const scheme = proto.Scheme('W')

var digCache = map[int]crypto.Digest{}

func digN(n int) crypto.Digest {
	if d, ok := digCache[n]; ok {
		return d
	}
	d := mkDig(n)
	digCache[n] = d
	return d
}

func mkDig(n int) crypto.Digest {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], uint64(n))
	return crypto.MustFastHash(append([]byte("blk"), b[:]...))
}

func sigN(n int) crypto.Signature {
	var s crypto.Signature
	d := digN(n)
	copy(s[:32], d[:])
	d = digN(n + 1_000_000)
	copy(s[32:], d[:])
	return s
}

func idN(n int, dig bool) proto.BlockID {
	if dig {
		return proto.NewBlockIDFromDigest(digN(n))
	}
	return proto.NewBlockIDFromSignature(sigN(n))
}

var pkCache = map[int]crypto.PublicKey{}

func pkN(n int) crypto.PublicKey {
	if p, ok := pkCache[n]; ok {
		return p
	}
	_, pk, err := crypto.GenerateKeyPair([]byte{byte(n), byte(n >> 8), 'g'})
	if err != nil {
		panic(err)
	}
	pkCache[n] = pk
	return pk
}

var addrCache = map[crypto.PublicKey]proto.WavesAddress{}

func addrOf(pk crypto.PublicKey) proto.WavesAddress {
	if a, ok := addrCache[pk]; ok {
		return a
	}
	a := mkAddr(pk)
	addrCache[pk] = a
	return a
}

func mkAddr(pk crypto.PublicKey) proto.WavesAddress {
	a, err := proto.NewAddressFromPublicKey(scheme, pk)
	if err != nil {
		panic(err)
	}
	return a
}

// blk describes a block of the universe.
type blk struct {
	n      int
	parent proto.BlockID
	dig    bool
	bt     uint64
	ts     uint64
	gen    int
}

func (b blk) id() proto.BlockID { return idN(b.n, b.dig) }

func (b blk) proto() *proto.Block {
	p := &proto.Block{}
	p.Version = 3
	p.BlockSignature = sigN(b.n)
	p.ID = idN(b.n, b.dig)
	if b.dig {
		p.Version = 5
	}
	p.Timestamp = b.ts
	p.Parent = b.parent
	p.BaseTarget = b.bt
	p.GeneratorPublicKey = pkN(b.gen)
	return p
}

func genesisBlock() proto.Block {
	return *blk{n: 1, bt: 153722867, ts: 1460678400000, gen: 0}.proto()
}

var (
	gen1   = genesisBlock()
	gen1ID = gen1.BlockID()
)

func ip(s string) netip.Addr { return netip.MustParseAddr(s) }

// ---- reference model ----

type rBlock struct {
	id, parent proto.BlockID
	height     uint32
	score      *big.Int
	ts         int64
	gen        proto.WavesAddress
	on         proto.BlockID // the block this one was built directly upon
	root       bool
}

type refChain struct {
	blocks map[proto.BlockID]*rBlock
	order  []proto.BlockID
	heads  map[proto.BlockID]uint64
	headN  uint64
	leash  map[netip.Addr]proto.BlockID
}

var two64 = new(big.Int).Lsh(big.NewInt(1), 64)

func blockScore(bt uint64) *big.Int {
	if bt == 0 {
		return new(big.Int)
	}
	return new(big.Int).Quo(two64, new(big.Int).SetUint64(bt))
}

func newRef(g *proto.Block) *refChain {
	r := &refChain{blocks: map[proto.BlockID]*rBlock{}, heads: map[proto.BlockID]uint64{}, leash: map[netip.Addr]proto.BlockID{}}
	id := g.BlockID()
	r.blocks[id] = &rBlock{id: id, height: 1, score: blockScore(g.BaseTarget), ts: int64(g.Timestamp), gen: addrOf(g.GeneratorPublicKey), root: true}
	r.order = append(r.order, id)
	r.heads[id] = 1
	r.headN = 1
	return r
}

func (r *refChain) clone() *refChain {
	c := &refChain{blocks: map[proto.BlockID]*rBlock{}, heads: map[proto.BlockID]uint64{}, leash: map[netip.Addr]proto.BlockID{}, headN: r.headN}
	for k, v := range r.blocks {
		c.blocks[k] = v
	}
	c.order = append(c.order, r.order...)
	for k, v := range r.heads {
		c.heads[k] = v
	}
	for k, v := range r.leash {
		c.leash[k] = v
	}
	return c
}

func (r *refChain) link(on, id proto.BlockID) {
	if n, ok := r.heads[on]; ok {
		delete(r.heads, on)
		r.heads[id] = n
	} else {
		r.headN++
		r.heads[id] = r.headN
	}
	r.order = append(r.order, id)
}

func (r *refChain) put(b *proto.Block, a netip.Addr) error {
	id := b.BlockID()
	if _, ok := r.blocks[id]; !ok {
		p, ok := r.blocks[b.Parent]
		if !ok {
			return chains.ErrParentNotFound
		}
		r.blocks[id] = &rBlock{id: id, parent: b.Parent, height: p.height + 1, score: new(big.Int).Add(p.score, blockScore(b.BaseTarget)),
			ts: int64(b.Timestamp), gen: addrOf(b.GeneratorPublicKey), on: b.Parent}
		r.link(b.Parent, id)
	}
	r.leash[a] = id
	return nil
}

var errAny = errors.New("some error")

func (r *refChain) putMicro(ref, total proto.BlockID, a netip.Addr) error {
	if _, ok := r.blocks[total]; !ok {
		p, ok := r.blocks[ref]
		if !ok {
			return chains.ErrRefNotFound
		}
		if p.root {
			return errAny
		}
		r.blocks[total] = &rBlock{id: total, parent: p.parent, height: p.height, score: p.score, ts: p.ts, gen: p.gen, on: ref}
		r.link(ref, total)
	}
	r.leash[a] = total
	return nil
}

func (r *refChain) leashOf(a netip.Addr) proto.BlockID {
	if id, ok := r.leash[a]; ok {
		return id
	}
	return r.order[0]
}

// chain lists the ancestors of id, itself first.
func (r *refChain) chain(id proto.BlockID) []proto.BlockID {
	var out []proto.BlockID
	for {
		b := r.blocks[id]
		out = append(out, id)
		if b.root {
			return out
		}
		id = b.parent
	}
}

func (r *refChain) lca(a, b proto.BlockID) proto.BlockID {
	m := map[proto.BlockID]bool{}
	for _, x := range r.chain(a) {
		m[x] = true
	}
	for _, x := range r.chain(b) {
		if m[x] {
			return x
		}
	}
	panic("no common ancestor")
}

type rFork struct {
	head  proto.BlockID
	peers []netip.Addr
	score *big.Int
}

// forksOf groups the leashes of the selected peers (nil: all).
func (r *refChain) forksOf(sel map[netip.Addr]bool) []rFork {
	m := map[proto.BlockID][]netip.Addr{}
	for a, id := range r.leash {
		if sel == nil || sel[a] {
			m[id] = append(m[id], a)
		}
	}
	var fs []rFork
	for id, ps := range m {
		sort.Slice(ps, func(i, j int) bool { return ps[i].Less(ps[j]) })
		fs = append(fs, rFork{id, ps, r.blocks[id].score})
	}
	sort.Slice(fs, func(i, j int) bool {
		if c := fs[i].score.Cmp(fs[j].score); c != 0 {
			return c > 0
		}
		if len(fs[i].peers) != len(fs[j].peers) {
			return len(fs[i].peers) > len(fs[j].peers)
		}
		return bytes.Compare(fs[i].head.Bytes(), fs[j].head.Bytes()) < 0
	})
	return fs
}

// longest lists the forks that are tied for the first place.
func longestOf(fs []rFork) []proto.BlockID {
	var out []proto.BlockID
	for _, f := range fs {
		if f.score.Cmp(fs[0].score) == 0 && len(f.peers) == len(fs[0].peers) {
			out = append(out, f.head)
		}
	}
	return out
}

func (r *refChain) headList() []chains.Head {
	var hs []chains.Head
	for id, n := range r.heads {
		hs = append(hs, chains.Head{ID: n, BlockID: id})
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].ID < hs[j].ID })
	return hs
}

// ---- environment ----

const chainDB = "/vs"

type cEnv struct {
	x     *X
	l     *chains.Linkage
	r     *refChain
	peers []netip.Addr
	univ  []proto.BlockID // identifiers that may occur
}

func storePath() string { return chainDB + "/blocks" }

func newChain(x *X, peers ...netip.Addr) *cEnv {
	e := &cEnv{x: x, peers: peers, univ: []proto.BlockID{gen1ID}}
	e.open()
	e.r = newRef(&gen1)
	return e
}

func (e *cEnv) open() {
	l, err := chains.NewLinkage(chainDB, scheme, gen1)
	if err != nil {
		e.x.Fail("opening the chain storage failed: %v", err)
	}
	e.l = l
}

func (e *cEnv) reopen() {
	e.x.Op("reopen")
	e.l.Close()
	e.open()
}

func (e *cEnv) fresh() bool { return e.x.noPrune || len(e.x.w.Trace) >= e.x.prefix }

// blkName prints a block identifier; the text is only made when it is needed.
type blkName proto.BlockID

var nameCache map[proto.BlockID]string

func (n blkName) String() string {
	id := proto.BlockID(n)
	if id == (proto.BlockID{}) {
		return "none"
	}
	if nameCache == nil {
		nameCache = map[proto.BlockID]string{}
		for i := 0; i < 8000; i++ {
			if i == 400 {
				i = 1000
			}
			for _, d := range []bool{true, false} {
				if k := idN(i, d); nameCache[k] == "" {
					nameCache[k] = fmt.Sprintf("b%d", i)
				}
			}
		}
		nameCache[idN(1, true)], nameCache[idN(1, false)] = "genesis", "genesis"
	}
	if s, ok := nameCache[id]; ok {
		return s
	}
	return id.ShortString()
}

func (e *cEnv) name(id proto.BlockID) blkName { return blkName(id) }

func (e *cEnv) put(b *proto.Block, a netip.Addr) {
	if e.x.w.Verbose {
		e.x.Op("put block %s (parent %s, v%d, base target %d, ts %d) by %s", e.name(b.BlockID()), e.name(b.Parent), b.Version, b.BaseTarget, b.Timestamp, a)
	} else {
		e.x.ops++
	}
	err := e.l.PutBlock(b, a)
	want := e.r.put(b, a)
	e.errs("PutBlock", err, want)
}

func (e *cEnv) micro(ref, total proto.BlockID, a netip.Addr) {
	if e.x.w.Verbose {
		e.x.Op("put micro-block %s (reference %s) by %s", e.name(total), e.name(ref), a)
	} else {
		e.x.ops++
	}
	err := e.l.PutMicroBlock(&proto.MicroBlockInv{PublicKey: pkN(0), TotalBlockID: total, Reference: ref}, a)
	want := e.r.putMicro(ref, total, a)
	e.errs("PutMicroBlock", err, want)
}

func (e *cEnv) move(id proto.BlockID, a netip.Addr) {
	if e.x.w.Verbose {
		e.x.Op("move leash of %s to %s", a, e.name(id))
	} else {
		e.x.ops++
	}
	if err := e.l.MoveLeash(id, a); err != nil {
		e.x.Fail("MoveLeash: %v", err)
	}
	e.r.leash[a] = id
}

func (e *cEnv) errs(op string, got, want error) {
	switch {
	case want == nil && got != nil:
		e.x.Fail("%s failed: %v", op, got)
	case want != nil && got == nil:
		e.x.Fail("%s succeeded, expected: %v", op, want)
	case want != nil && want != errAny && !errors.Is(got, want):
		e.x.Fail("%s failed with %v, expected: %v", op, got, want)
	}
}

// ---- comparisons ----

func (e *cEnv) cmpBlock(id proto.BlockID) {
	rb, known := e.r.blocks[id]
	ok, err := e.l.HasBlock(id)
	e.x.Check(err == nil, "HasBlock(%s): %v", e.name(id), err)
	e.x.Check(ok == known, "HasBlock(%s) = %v, expected %v", e.name(id), ok, known)
	b, err := e.l.Block(id)
	if !known {
		e.x.Check(err != nil, "Block(%s) returned an unknown block", e.name(id))
		return
	}
	e.x.Check(err == nil, "Block(%s): %v", e.name(id), err)
	e.x.Check(b.ID == id, "Block(%s) reports identifier %s", e.name(id), e.name(b.ID))
	e.x.Check(b.Parent == rb.parent, "Block(%s) reports parent %s, expected %s", e.name(id), e.name(b.Parent), e.name(rb.parent))
	e.x.Check(b.Height == rb.height, "Block(%s) reports height %d, expected %d", e.name(id), b.Height, rb.height)
	e.x.Check(b.Score != nil && b.Score.Cmp(rb.score) == 0, "Block(%s) reports score %v, expected %v", e.name(id), b.Score, rb.score)
	e.x.Check(b.Timestamp == rb.ts, "Block(%s) reports timestamp %d, expected %d", e.name(id), b.Timestamp, rb.ts)
	e.x.Check(b.Generator == rb.gen, "Block(%s) reports generator %s, expected %s", e.name(id), b.Generator, rb.gen)
}

func (e *cEnv) cmpBlocks() {
	for _, id := range e.r.order {
		e.cmpBlock(id)
	}
	for _, id := range e.univ {
		if _, ok := e.r.blocks[id]; !ok {
			e.cmpBlock(id)
		}
	}
}

func (e *cEnv) cmpHeads() {
	hs, err := e.l.Heads()
	e.x.Check(err == nil, "Heads: %v", err)
	want := e.r.headList()
	got := append([]chains.Head{}, hs...)
	sort.Slice(got, func(i, j int) bool { return got[i].ID < got[j].ID })
	e.x.Check(len(got) == len(want) && (len(got) == 0 || reflect.DeepEqual(got, want)), "heads are %s, expected %s", e.headStr(got), e.headStr(want))
	ah, err := e.l.ActiveHeads()
	e.x.Check(err == nil, "ActiveHeads: %v", err)
	var wa []chains.Head
	for _, h := range hs {
		for _, id := range e.r.leash {
			if id == h.BlockID {
				wa = append(wa, h)
				break
			}
		}
	}
	e.x.Check(len(ah) == len(wa) && (len(ah) == 0 || reflect.DeepEqual(ah, wa)), "active heads are %s, expected %s", e.headStr(ah), e.headStr(wa))
}

type headList []chains.Head

func (h headList) String() string {
	var s []string
	for _, x := range h {
		s = append(s, fmt.Sprintf("%d:%s", x.ID, blkName(x.BlockID)))
	}
	return "[" + strings.Join(s, " ") + "]"
}

func (e *cEnv) headStr(h []chains.Head) headList { return h }

func (e *cEnv) cmpLeashes() {
	ls, err := e.l.Leashes()
	e.x.Check(err == nil, "Leashes: %v", err)
	seen := map[netip.Addr]bool{}
	for _, l := range ls {
		e.x.Check(!seen[l.Addr], "leash of %s listed twice", l.Addr)
		seen[l.Addr] = true
		id, ok := e.r.leash[l.Addr]
		e.x.Check(ok, "unexpected leash of %s in the list", l.Addr)
		e.x.Check(id == l.BlockID, "listed leash of %s is %s, expected %s", l.Addr, e.name(l.BlockID), e.name(id))
	}
	e.x.Check(len(ls) == len(e.r.leash), "%d leashes listed, expected %d", len(ls), len(e.r.leash))
	for _, a := range e.peers {
		id, err := e.l.Leash(a)
		e.x.Check(err == nil, "Leash(%s): %v", a, err)
		want := e.r.leashOf(a)
		e.x.Check(id == want, "Leash(%s) = %s, expected %s", a, e.name(id), e.name(want))
		has, err := e.l.HasLeash(a)
		_, wh := e.r.leash[a]
		e.x.Check(err == nil && has == wh, "HasLeash(%s) = %v %v, expected %v", a, has, err, wh)
		sc, err := e.l.LeashScore(a)
		e.x.Check(err == nil, "LeashScore(%s): %v", a, err)
		e.x.Check(sc != nil && sc.Cmp(e.r.blocks[want].score) == 0, "LeashScore(%s) = %v, expected %v", a, sc, e.r.blocks[want].score)
	}
}

func (e *cEnv) cmpLCB() {
	long := longestOf(e.r.forksOf(nil))
	for _, a := range e.peers {
		got, err := e.l.LCB(a)
		e.x.Check(err == nil, "LCB(%s): %v", a, err)
		lsh, ok := e.r.leash[a]
		if !ok {
			e.x.Check(got == gen1ID, "LCB of unleashed %s = %s, expected genesis", a, e.name(got))
			continue
		}
		good := false
		for _, h := range long {
			if e.r.lca(h, lsh) == got {
				good = true
			}
		}
		e.x.Check(good, "LCB(%s) = %s: not the deepest common block of its leash %s and the longest chain %s", a, e.name(got), e.name(lsh), e.name(long[0]))
	}
}

func (e *cEnv) cmpFork(where string, f chains.Fork, rf rFork, longest bool, lcas []proto.BlockID) {
	b := e.r.blocks[rf.head]
	n := e.name(rf.head)
	e.x.Check(f.HeadBlock == rf.head, "%s: head block is %s, expected %s", where, e.name(f.HeadBlock), n)
	e.x.Check(f.HeadHeight == b.height, "%s: height of %s is %d, expected %d", where, n, f.HeadHeight, b.height)
	e.x.Check(f.HeadGenerator == b.gen, "%s: generator of %s", where, n)
	e.x.Check(f.HeadTimestamp.Equal(time.UnixMilli(b.ts)), "%s: timestamp of %s is %v", where, n, f.HeadTimestamp)
	e.x.Check(f.Score != nil && f.Score.Cmp(b.score) == 0, "%s: score of %s is %v, expected %v", where, n, f.Score, b.score)
	e.x.Check(f.PeersCount == len(rf.peers), "%s: peers count of %s is %d, expected %d", where, n, f.PeersCount, len(rf.peers))
	ps := append([]netip.Addr{}, f.Peers...)
	sort.Slice(ps, func(i, j int) bool { return ps[i].Less(ps[j]) })
	e.x.Check(reflect.DeepEqual(ps, rf.peers), "%s: peers of %s are %v, expected %v", where, n, ps, rf.peers)
	good := false
	for _, c := range lcas {
		if f.LastCommonBlock == c && f.Length == int(b.height)-int(e.r.blocks[c].height) {
			good = true
		}
	}
	e.x.Check(good, "%s: last common block of %s is %s and length %d, expected %s and %d", where, n, e.name(f.LastCommonBlock), f.Length,
		e.name(lcas[0]), int(b.height)-int(e.r.blocks[lcas[0]].height))
	e.x.Check(f.Longest == longest, "%s: longest flag of %s is %v", where, n, f.Longest)
}

// cmpForks checks the forks report for a selection (nil: everything).
func (e *cEnv) cmpForks(sel map[netip.Addr]bool) []chains.Fork {
	var lp chains.LookupPeers
	if sel != nil {
		lp = chains.LookupPeers{}
		for a := range sel {
			lp[a] = struct{}{}
		}
	}
	if len(sel) == 0 {
		sel = nil
	}
	fs, err := e.l.Forks(lp)
	e.x.Check(err == nil, "Forks: %v", err)
	e.checkForks("forks", fs, sel)
	return fs
}

func (e *cEnv) checkForks(where string, fs []chains.Fork, sel map[netip.Addr]bool) {
	want := e.r.forksOf(sel)
	e.x.Check(len(fs) == len(want), "%s: %d entries, expected %d", where, len(fs), len(want))
	byID := map[proto.BlockID]rFork{}
	for _, f := range want {
		byID[f.head] = f
	}
	for i, f := range fs {
		rf, ok := byID[f.HeadBlock]
		e.x.Check(ok, "%s: unexpected or repeated entry %s", where, e.name(f.HeadBlock))
		delete(byID, f.HeadBlock)
		e.cmpFork(where, f, rf, i == 0, []proto.BlockID{e.r.lca(fs[0].HeadBlock, f.HeadBlock)})
		if i > 0 {
			c := fs[i-1].Score.Cmp(f.Score)
			e.x.Check(c > 0 || c == 0 && len(fs[i-1].Peers) >= len(f.Peers), "%s: entries %d and %d are out of order", where, i-1, i)
		}
	}
}

// cmpPeerFork checks the fork of a single leashed peer.
func (e *cEnv) cmpPeerFork(a netip.Addr) {
	f, err := e.l.Fork(a)
	e.x.Check(err == nil, "Fork(%s): %v", a, err)
	e.checkPeerFork("fork", f, a)
}

func (e *cEnv) checkPeerFork(where string, f chains.Fork, a netip.Addr) {
	fs := e.r.forksOf(nil)
	long := longestOf(fs)
	for _, rf := range fs {
		if rf.head != e.r.leash[a] {
			continue
		}
		var lcas []proto.BlockID
		self := false
		for _, h := range long {
			if h == rf.head {
				self = true
			}
		}
		for _, h := range long {
			if h != rf.head || len(long) == 1 || f.Longest {
				lcas = append(lcas, e.r.lca(h, rf.head))
			}
		}
		if self && len(long) == 1 {
			e.cmpFork(where, f, rf, true, []proto.BlockID{rf.head})
			return
		}
		if !self {
			e.cmpFork(where, f, rf, false, lcas)
			return
		}
		// Tied for the longest: either form.
		if f.Longest {
			e.cmpFork(where, f, rf, true, []proto.BlockID{rf.head})
		} else {
			e.cmpFork(where, f, rf, false, lcas)
		}
		return
	}
	panic("peer without a leash")
}

func (e *cEnv) cmpStats() {
	st, err := e.l.Stats()
	e.x.Check(err == nil, "Stats: %v", err)
	e.checkStats("statistics", st.Short, st.Long)
}

func (e *cEnv) checkStats(where string, short, long int) {
	fs := e.r.forksOf(nil)
	if len(fs) == 0 {
		e.x.Check(short == 0 && long == 0, "%s: short %d, long %d, expected none", where, short, long)
		return
	}
	type sl struct{ s, l int }
	var opts []sl
	for _, h := range longestOf(fs) {
		var c sl
		for _, f := range fs {
			n := int(e.r.blocks[f.head].height) - int(e.r.blocks[e.r.lca(h, f.head)].height)
			if n > 5 {
				c.l++
			} else {
				c.s++
			}
		}
		if c.s == short && c.l == long {
			return
		}
		opts = append(opts, c)
	}
	e.x.Fail("%s: short %d, long %d, expected %v", where, short, long, opts)
}

func (e *cEnv) cmpGenerators(id proto.BlockID, n int) {
	gs, err := e.l.ForkGenerators(id, n)
	e.x.Check(err == nil, "ForkGenerators(%s, %d): %v", e.name(id), n, err)
	e.checkGenerators("generators", gs, id, n)
}

func (e *cEnv) checkGenerators(where string, gs []chains.GeneratorStats, id proto.BlockID, n int) {
	want := map[proto.WavesAddress]int{}
	for i, b := range e.r.chain(id) {
		if i >= n {
			break
		}
		want[e.r.blocks[b].gen]++
	}
	got := map[proto.WavesAddress]int{}
	for i, g := range gs {
		_, dup := got[g.Generator]
		e.x.Check(!dup, "%s: generator listed twice", where)
		got[g.Generator] = g.Blocks
		e.x.Check(i == 0 || gs[i-1].Blocks >= g.Blocks, "%s: not sorted by number of blocks", where)
	}
	e.x.Check(reflect.DeepEqual(got, want), "%s of %s for %d blocks: %v, expected %v", where, e.name(id), n, got, want)
}

func (e *cEnv) cmpLast(id proto.BlockID, n int) {
	ids, err := e.l.LastIDs(id, n)
	if _, ok := e.r.blocks[id]; !ok {
		e.x.Check(err != nil, "LastIDs of the unknown block %s succeeded", e.name(id))
		return
	}
	e.x.Check(err == nil, "LastIDs(%s, %d): %v", e.name(id), n, err)
	want := e.r.chain(id)
	if len(want) > n {
		want = want[:n]
	}
	same := len(ids) == len(want)
	for i := range want {
		if same && ids[i] != want[i] {
			same = false
		}
	}
	if !same {
		var g, w []string
		for _, i := range ids {
			g = append(g, e.name(i).String())
		}
		for _, i := range want {
			w = append(w, e.name(i).String())
		}
		e.x.Fail("LastIDs(%s, %d) = %v, expected %v", e.name(id), n, g, w)
	}
}

// cmpAll compares the complete observable state.
func (e *cEnv) cmpAll() {
	e.cmpBlocks()
	e.cmpHeads()
	e.cmpLeashes()
	e.cmpForks(nil)
	e.cmpLCB()
	e.cmpStats()
	for a := range e.r.leash {
		e.cmpPeerFork(a)
	}
	for _, id := range e.r.order {
		e.cmpLast(id, 3)
		e.cmpLast(id, 100)
		e.cmpGenerators(id, 2)
		e.cmpGenerators(id, 100)
	}
}

func (e *cEnv) hash() uint64 { return worldHash([]string{storePath()}, e.l) }

func chainStore() *leveldb.Store { return leveldb.Lookup(storePath()) }
