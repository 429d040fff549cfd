package main

import (
	"context"
	"fmt"
	"math/big"
	"net/netip"
	"strings"
	"time"

	"github.com/wavesplatform/gowaves/pkg/crypto"
	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/chains"
	"github.com/alexeykiselev/waves-fork-detector/loading"
	"github.com/alexeykiselev/waves-fork-detector/peers"
	"github.com/alexeykiselev/waves-fork-detector/zzv/vs"
)

// Synchronization: a real loader over a real chain and a real registry, driven by scripted peers and watched by a
// monitor written from the properties S01-S03 and S06.

const (
	syncEvery  = 5 * time.Second
	giveUpFrom = 30 * time.Second
	giveUpTo   = 36 * time.Second
	batch      = 100
	restartAt  = 10
)

// smsg is one message the loader sent.
type smsg struct {
	at   time.Duration
	p    int
	kind string
	ids  []proto.BlockID
}

func (m smsg) String() string {
	return fmt.Sprintf("%s to peer %d: %s %v", m.at, m.p, m.kind, lazyIDs(m.ids))
}

type sPeer struct {
	a         netip.Addr
	f         *fpeer
	ver       proto.Version
	connected bool
	score     *big.Int // last broadcast score, nil if unknown
	n         int
}

type sEnv struct {
	x    *X
	dir  string
	l    *chains.Linkage
	m    *refChain
	reg  *peers.Registry
	ld   *loading.Loader
	ids  chan loading.IDsPackage
	bl   chan loading.BlockPackage
	stop context.CancelFunc
	ps   []*sPeer
	t0   time.Time
	out  []smsg // not yet examined

	mon     bool
	quiet   bool // no comparisons (fault injection)
	cur     int
	phase   int // 0 no session, 1 waiting for identifiers, 2 waiting for blocks
	req     []proto.BlockID
	got     map[proto.BlockID]*proto.Block
	broken  bool // a block of the round cannot be stored
	ts      time.Time
	idle    time.Time // no session since (at the latest)
	lag     time.Time // some connected peer has been lagging since
	fails   map[int]int
	diff    *big.Int // lag at the previous completed round of the session (or its start)
	rounds  int      // completed rounds of the session
	cont    int      // what must happen at this instant: 0 nothing, 1 continue, 2 do not continue, 3 either
	phases  string
	total   int
	lastReq time.Time
	onReq   func(m smsg)
}

func newSync(x *X, dir string) *sEnv {
	e := &sEnv{x: x, dir: dir, ids: make(chan loading.IDsPackage), bl: make(chan loading.BlockPackage), cur: -1, fails: map[int]int{}, mon: true, t0: vs.W.Now}
	l, err := chains.NewLinkage(dir, scheme, gen1)
	x.Check(err == nil, "NewLinkage: %v", err)
	e.l = l
	e.m = newRef(&gen1)
	r, err := peers.NewRegistry(scheme, proto.TCPAddr{}, []proto.Version{ver(1, 5, 0), ver(1, 4, 0), ver(1, 2, 0), ver(1, 1, 0)}, dir)
	x.Check(err == nil, "NewRegistry: %v", err)
	e.reg = r
	return e
}

// start runs the loader.
func (e *sEnv) start() {
	e.ld = loading.NewLoader(e.reg, e.l, e.ids, e.bl)
	ctx, cancel := context.WithCancel(context.Background())
	e.stop = cancel
	e.idle, e.lag, e.lastReq = vs.W.Now, vs.W.Now, vs.W.Now
	e.ld.Run(ctx)
	vs.Quiesce()
}

func (e *sEnv) peer(v proto.Version) *sPeer {
	n := len(e.ps) + 1
	p := &sPeer{a: netip.AddrFrom4([4]byte{8, 8, 4, byte(n)}), ver: v, n: n}
	e.ps = append(e.ps, p)
	e.connect(p)
	return p
}

func (e *sEnv) connect(p *sPeer) {
	for i := 0; i < 6; i++ {
		v, err := e.reg.SuggestVersion(p.a)
		e.x.Check(err == nil, "SuggestVersion: %v", err)
		if v.Major() == p.ver.Major() && v.Minor() == p.ver.Minor() {
			break
		}
	}
	p.f = &fpeer{addr: netip.AddrPortFrom(p.a, 6868), hs: hsOf(goodApp, p.ver, fmt.Sprintf("p%d", p.n), 1, nil)}
	n := p.n
	p.f.onSend = func(m proto.Message) { e.sent(n, m) }
	err := e.reg.RegisterPeer(p.a, p.f, p.f.hs)
	e.x.Check(err == nil && p.f.closed == 0, "RegisterPeer: %v", err)
	p.connected = true
}

func (e *sEnv) disconnect(p *sPeer) {
	e.x.Op("disconnect %d", p.n)
	e.x.Check(e.reg.UnregisterPeer(p.a) == nil, "UnregisterPeer")
	p.connected = false
	e.relag()
}

func (e *sEnv) setScore(p *sPeer, s *big.Int) {
	e.x.Op("score of %d is %s", p.n, s)
	e.x.Check(e.reg.UpdatePeerScore(p.a, s) == nil, "UpdatePeerScore")
	p.score = s
	e.relag()
}

func (e *sEnv) leashScore(p *sPeer) *big.Int { return e.m.blocks[e.m.leashOf(p.a)].score }

func (e *sEnv) lagging(p *sPeer) bool {
	return p.connected && p.score != nil && p.score.Cmp(e.leashScore(p)) > 0
}

// relag updates the time since when somebody is lagging.
func (e *sEnv) relag() {
	for _, p := range e.ps {
		if e.lagging(p) {
			return
		}
	}
	e.lag = vs.W.Now
}

// store puts a block as if it had been received and accepted earlier.
func (e *sEnv) store(b *proto.Block, p *sPeer) {
	a := netip.AddrFrom4([4]byte{9, 9, 9, 9})
	if p != nil {
		a = p.a
	}
	err := e.l.PutBlock(b, a)
	w := e.m.put(b, a)
	e.x.Check((err == nil) == (w == nil), "PutBlock: %v", err)
	if p != nil {
		e.relag()
	}
}

func (e *sEnv) leashTo(p *sPeer, id proto.BlockID) {
	e.x.Check(e.l.MoveLeash(id, p.a) == nil, "MoveLeash")
	e.m.leash[p.a] = id
	e.relag()
}

func sigIDs(s []crypto.Signature) []proto.BlockID {
	var o []proto.BlockID
	for _, g := range s {
		o = append(o, proto.NewBlockIDFromSignature(g))
	}
	return o
}

// sent is called by the loader's goroutine for every message.
func (e *sEnv) sent(n int, m proto.Message) {
	s := smsg{at: vs.W.Now.Sub(e.t0), p: n}
	switch v := m.(type) {
	case *proto.GetBlockIdsMessage:
		s.kind, s.ids = "ids?", v.Blocks
	case *proto.GetSignaturesMessage:
		s.kind, s.ids = "signatures?", sigIDs(v.Signatures)
	case *proto.GetBlockMessage:
		s.kind, s.ids = "block?", []proto.BlockID{v.BlockID}
	default:
		s.kind = fmt.Sprintf("%T", m)
	}
	if e.x.w.Verbose {
		vs.Logf("%s", s)
	}
	if e.mon && s.kind != "block?" {
		e.asked(s)
	} else {
		e.out = append(e.out, s)
	}
	if e.onReq != nil {
		e.onReq(s)
	}
}

func (e *sEnv) elapsed() time.Duration { return vs.W.Now.Sub(e.ts) }

// asked judges a request for identifiers at the moment it is made.
func (e *sEnv) asked(s smsg) {
	x := e.x
	p := e.ps[s.p-1]
	switch s.kind {
	case "ids?":
		x.Check(p.ver.Cmp(ver(1, 2, 0)) >= 0, "block identifiers asked from a peer of version %s", p.ver)
	case "signatures?":
		x.Check(p.ver.Cmp(ver(1, 2, 0)) < 0, "signatures asked from a peer of version %s", p.ver)
	default:
		x.Fail("unexpected message %s", s.kind)
	}
	e.total++
	e.lastReq = vs.W.Now
	if e.quiet {
		return
	}
	if e.cont != 0 {
		// The round has just been completed.
		x.Check(e.cont != 2, "peer %d is asked again at once although its lag did not change", s.p)
		x.Check(s.p == e.cur+1, "the session continues with another peer")
		x.Check(p.score != nil && p.score.Cmp(e.leashScore(p)) > 0, "peer %d is asked though it is not lagging", s.p)
		e.cont = 0
	} else {
		if e.phase != 0 {
			x.Check(e.elapsed() > giveUpFrom || e.broken, "peer %d is asked while peer %d is being synchronized for %s", s.p, e.cur+1, e.elapsed())
			e.gaveUp()
		}
		x.Check(p.connected, "peer %d is asked while not connected", s.p)
		x.Check(e.lagging(p), "peer %d is asked though it is not lagging", s.p)
		e.rounds = 0
		e.diff = new(big.Int).Sub(p.score, e.leashScore(p))
	}
	var from []proto.BlockID
	from = []proto.BlockID{e.m.leashOf(p.a)}
	if e.fails[s.p] >= restartAt {
		from = nil
		lsh, ok := e.m.leash[p.a]
		if !ok {
			from = []proto.BlockID{gen1ID}
		} else {
			for _, h := range longestOf(e.m.forksOf(nil)) {
				from = append(from, e.m.lca(h, lsh))
			}
		}
		e.fails[s.p] = 0
	}
	good := false
	for _, id := range from {
		w := e.m.chain(id)
		if len(w) > batch {
			w = w[:batch]
		}
		if sameIDs(s.ids, w) {
			good = true
		}
	}
	x.Check(good, "peer %d is asked with %v, expected the list from %v", s.p, lazyIDs(s.ids), lazyIDs(from))
	e.cur, e.phase, e.ts, e.req, e.got, e.broken = s.p-1, 1, vs.W.Now, nil, nil, false
	e.phases += fmt.Sprintf("a%d", s.p)
}

func sameIDs(a, b []proto.BlockID) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// gaveUp accounts for a session that timed out.
func (e *sEnv) gaveUp() {
	p := e.ps[e.cur]
	if e.phase == 2 {
		for _, id := range e.req {
			b := e.got[id]
			if b == nil || e.m.put(b, p.a) != nil {
				break
			}
		}
	}
	e.fails[p.n]++
	e.phases += "f"
	e.phase, e.cur, e.req, e.got, e.broken = 0, -1, nil, nil, false
	e.idle = vs.W.Now
	e.cmp()
	e.relag()
}

// cmp compares the chain and the leashes with the model.
func (e *sEnv) cmp() {
	x := e.x
	if soft == 0 && e.quiet {
		return
	}
	for _, p := range e.ps {
		got, err := e.l.Leash(p.a)
		x.Check(err == nil, "Leash: %v", err)
		x.Check(got == e.m.leashOf(p.a), "leash of peer %d is %s, expected %s", p.n, blkName(got), blkName(e.m.leashOf(p.a)))
	}
	st, err := e.l.Heads()
	x.Check(err == nil, "Heads: %v", err)
	same := len(st) == len(e.m.heads)
	for _, h := range st {
		_, ok := e.m.heads[h.BlockID]
		same = same && ok
	}
	if !same {
		var hn, wn []proto.BlockID
		for _, h := range st {
			hn = append(hn, h.BlockID)
		}
		for id := range e.m.heads {
			wn = append(wn, id)
		}
		x.Fail("chain heads are %v, expected %v", lazyIDs(hn), lazyIDs(wn))
	}
}

// settle checks what must hold at a quiet moment.
func (e *sEnv) settle() {
	if !e.mon || e.quiet {
		return
	}
	x := e.x
	if e.cont == 1 {
		x.Fail("the round of peer %d is complete and it is still lagging by a different amount, but the next round does not start", e.cur+1)
	}
	if e.cont != 0 {
		e.phase, e.cur, e.cont = 0, -1, 0
		e.idle = vs.W.Now
		e.phases += "i"
	}
	for _, m := range e.out {
		x.Fail("unexpected request %s", m)
	}
	if e.phase != 0 && e.elapsed() > giveUpTo {
		e.gaveUp()
		// At the latest then; the next request follows within one interval.
		e.idle = e.ts.Add(giveUpTo)
	}
	if !e.ambiguous() {
		e.cmp()
	}
	if e.phase == 0 {
		since := e.idle
		if e.lag.After(since) {
			since = e.lag
		}
		x.Check(vs.W.Now.Sub(since) <= syncEvery, "no synchronization for %s although a connected peer is lagging", vs.W.Now.Sub(since))
	}
}

// ambiguous reports whether the session may or may not have been given up already.
func (e *sEnv) ambiguous() bool {
	return e.phase != 0 && (e.elapsed() > giveUpFrom || e.broken)
}

// adv moves time second by second; it does not stop while the end of a session is uncertain.
func (e *sEnv) adv(s int) {
	e.x.Op("%d s pass", s)
	for i := 0; i < s || e.mon && !e.quiet && e.ambiguous(); i++ {
		e.relag()
		vs.Advance(time.Second)
		e.relag()
		e.settle()
		if i > s+60 {
			e.x.Fail("the session of peer %d never ends", e.cur+1)
		}
	}
}

// reply delivers identifiers of peer p.
func (e *sEnv) reply(p *sPeer, ids ...proto.BlockID) {
	e.x.Op("identifiers %v from %d", lazyIDs(ids), p.n)
	var want []proto.BlockID
	act := e.mon && !e.quiet && e.phase == 1 && e.cur == p.n-1 && len(ids) > 0
	if act {
		k := 0
		for k < len(ids) && e.m.blocks[ids[k]] != nil {
			k++
		}
		if k > 0 {
			e.m.leash[p.a] = ids[k-1]
		}
		want = ids[k:]
		if k < len(ids) {
			e.phase, e.req, e.got, e.ts = 2, append([]proto.BlockID{}, want...), map[proto.BlockID]*proto.Block{}, vs.W.Now
			e.phases += fmt.Sprintf("b%d", len(want))
		} else {
			e.complete(p)
		}
	}
	e.out = nil
	vs.SendC(e.ids)(loading.IDsPackage{Peer: p.a, IDs: ids})
	vs.Quiesce()
	if !e.mon || e.quiet {
		return
	}
	var got []proto.BlockID
	for _, m := range e.out {
		e.x.Check(m.p == p.n, "unexpected request %s", m)
		got = append(got, m.ids...)
	}
	e.out = nil
	e.x.Check(sameIDs(got, want), "after the identifiers %v of peer %d the requested blocks are %v, expected %v", lazyIDs(ids), p.n, lazyIDs(got), lazyIDs(want))
	e.relag()
	e.settle()
}

// complete says what has to happen at the end of a round.
func (e *sEnv) complete(p *sPeer) {
	e.fails[p.n] = 0
	e.phases += "c"
	ls := e.leashScore(p)
	if p.score == nil || p.score.Cmp(ls) <= 0 {
		e.cont = 2
		return
	}
	d := new(big.Int).Sub(p.score, ls)
	switch {
	case d.Cmp(e.diff) != 0:
		e.cont = 1
	case e.rounds == 0:
		e.cont = 3
	default:
		e.cont = 2
	}
	if !p.connected {
		e.cont = 3
	}
	e.rounds++
	e.diff = d
}

// block delivers a block of peer p.
func (e *sEnv) block(p *sPeer, b *proto.Block) {
	if b == nil {
		e.x.Op("no block from %d", p.n)
	} else {
		e.x.Op("block %s from %d", blkName(b.BlockID()), p.n)
	}
	if e.mon && !e.quiet && b != nil && e.phase == 2 && e.cur == p.n-1 && !e.broken {
		id := b.BlockID()
		for _, r := range e.req {
			if r == id {
				if e.got[id] == nil {
					e.got[id] = b
				}
			}
		}
		all := true
		for _, r := range e.req {
			all = all && e.got[r] != nil
		}
		if all {
			ok := true
			for _, r := range e.req {
				if e.m.put(e.got[r], p.a) != nil {
					ok = false
					break
				}
			}
			if ok {
				e.complete(p)
			} else {
				e.broken = true
			}
		}
	}
	e.out = nil
	vs.SendC(e.bl)(loading.BlockPackage{Peer: p.a, Block: b})
	vs.Quiesce()
	e.relag()
	e.settle()
}

// received delivers a block of peer p the way a received message does: it is recorded for the peer first.
func (e *sEnv) received(p *sPeer, b *proto.Block) {
	e.x.Op("block %s of %d recorded", blkName(b.BlockID()), p.n)
	e.store(b, p)
	e.block(p, b)
}

func (e *sEnv) hash() uint64 {
	var sb strings.Builder
	fmt.Fprint(&sb, e.cur, e.phase, e.since(e.ts), e.since(e.idle), e.since(e.lag), e.fails, e.diff, e.rounds, e.broken)
	for _, id := range e.req {
		sb.WriteString(blkName(id).String())
		fmt.Fprint(&sb, e.got[id] != nil)
	}
	for _, p := range e.ps {
		fmt.Fprint(&sb, p.connected, p.score)
	}
	return H(dbHash(e.dir+"/blocks", e.dir+"/peers"), deepHash(e.ld, sb.String()), fmt.Sprint(vs.Deadlines()))
}

func (e *sEnv) since(t time.Time) time.Duration { return vs.W.Now.Sub(t) }

// seg makes n blocks on top of a parent, numbered from first.
func seg(parent proto.BlockID, first, n int, dig bool) []*proto.Block {
	var o []*proto.Block
	for i := 0; i < n; i++ {
		b := blk{n: first + i, parent: parent, dig: dig, bt: 100, ts: uint64(1460678400000 + first + i), gen: i % 2}.proto()
		o = append(o, b)
		parent = b.BlockID()
	}
	return o
}

func idsOf(bs []*proto.Block) []proto.BlockID {
	var o []proto.BlockID
	for _, b := range bs {
		o = append(o, b.BlockID())
	}
	return o
}

// scoreAfter is the score of a chain that continues a stored block by n such blocks.
func (e *sEnv) scoreAfter(from proto.BlockID, n int) *big.Int {
	s := new(big.Int).Set(e.m.blocks[from].score)
	for i := 0; i < n; i++ {
		s.Add(s, blockScore(100))
	}
	return s
}

// lazyIDs prints identifiers when needed.
type lazyIDs []proto.BlockID

func (l lazyIDs) String() string { return fmt.Sprint(names(l)) }
