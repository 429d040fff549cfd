package main

import (
	"context"
	"io"
	"math/big"
	"net/netip"
	"time"

	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/zzv/vs"
)

// Check E01: the whole service with nodes that serve their chains.

// eNode is an honest node.
type eNode struct {
	a       netip.Addr
	chain   []wire
	l       *link
	told    *big.Int // the score it has told
	longest int
}

type eEnv struct {
	x     *X
	d     *daemon
	args  []string
	nodes []*eNode
	pb    bool
	vers  proto.Version
	tag   int

	params map[proto.BlockID]wblk

	dead    bool              // the service is killed
	asking  bool              // the API is read, without storage failures
	failed  bool              // a storage call has failed
	leashes map[string]string // shown last
	known   []string
	all     []string // with ports
}

var claims = []string{"silent", "with unknown blocks", "with nothing new", "that disconnects when asked"}

var claimGoals = func() (gs []Goal) {
	for _, s := range []string{"the chain of the other node is loaded although one claims a great score, ", "the chain of the other node is loaded after the one that claims a great score was asked, "} {
		for _, c := range claims {
			gs = append(gs, Goal{Then: s + c})
		}
	}
	return
}()

var e1Blocks = map[wblk]wire{}

func (e *eEnv) block(k wblk) wire {
	w, ok := e1Blocks[k]
	if !ok {
		w = mkWire(k)
		e1Blocks[k] = w
	}
	e.params[w.b.BlockID()] = k
	return w
}

// grow makes n more blocks on the chain.
func (e *eEnv) grow(ws []wire, n, tag int) []wire {
	out := append([]wire{}, ws...)
	for i := 0; i < n; i++ {
		p, ts := mainGenesis.BlockID(), mainGenesis.Timestamp
		if len(out) > 0 {
			b := out[len(out)-1].b
			p, ts = b.BlockID(), b.Timestamp
		}
		k := wblk{n: tag*1000 + len(out), parent: p, ver: 3, bt: 1000, ts: ts + 60000 + uint64(tag), gen: tag % 3, pb: e.pb}
		if e.pb {
			k.ver = 5
		}
		out = append(out, e.block(k))
	}
	return out
}

func (e *eEnv) score(ws []wire) *big.Int {
	s := blockScore(mainGenesis.BaseTarget)
	for _, w := range ws {
		s = new(big.Int).Add(s, blockScore(w.b.BaseTarget))
	}
	return s
}

// tell announces the score of the node.
func (e *eEnv) tell(n *eNode) {
	n.l.recv(scoreMsg(e.score(n.chain)))
}

func (n *eNode) up() bool { return n.l != nil && n.l.closed == 0 && n.l.ctx.Err() == nil && !n.l.told }

func (e *eEnv) linked(l *link) {
	for _, n := range e.nodes {
		if n.a == l.addr.Addr() {
			n.l = l
			serveNode(l, func() []wire { return n.chain })
			vs.Go(func() { e.tell(n) })
		}
	}
}

func (e *eEnv) hs(a netip.Addr) proto.Handshake {
	return hsOf("wavesW", e.vers, "n"+a.String(), 3, declAddr(a.String(), 6868))
}

func (e *eEnv) hooks() {
	e.d.n.onLink = e.linked
	e.d.n.dial = func(ctx context.Context, q dialing) (proto.Handshake, error) {
		if a := q.to.Addr(); a == rA {
			return e.hs(a), nil
		}
		return proto.Handshake{}, errDial
	}
}

func newE(x *X, pb bool, vers proto.Version) *eEnv {
	d := newDaemon(x)
	e := &eEnv{x: x, d: d, pb: pb, vers: vers, params: map[proto.BlockID]wblk{}}
	e.args = []string{"-db=" + d.db, "-declared-address=8.8.8.9:6868", "-peers=8.8.8.1:6868", "-versions=" + vers.String()}
	e.nodes = []*eNode{{a: rA}, {a: rB}}
	e.hooks()
	return e
}

// join lets node i connect, if it is not connected.
func (e *eEnv) join(i int) {
	n := e.nodes[i]
	if n.up() {
		return
	}
	e.d.n.shake = shakeWith(e.hs(n.a))
	e.d.arrive(n.a)
	vs.Quiesce()
	e.x.Check(n.up() || e.dead || e.failed && vs.W.Fault != nil, "the connection of %s is refused", n.a)
}

// extend appends a block to the chain of a node, that announces it.
func (e *eEnv) extend(i int) {
	n := e.nodes[i]
	e.tag++
	n.chain = e.grow(n.chain, 1, 10+e.tag)
	e.x.Op("%s has a new block, %d in all", n.a, len(n.chain))
	e.announce(n)
}

func (e *eEnv) announce(n *eNode) {
	if n.up() {
		n.l.recv(n.chain[len(n.chain)-1].m)
		e.tell(n)
		vs.Quiesce()
	}
}

// liquid adds a micro-block to the last block of a node, that announces it.
func (e *eEnv) liquid(i int) {
	n := e.nodes[i]
	l := len(n.chain)
	if l == 0 {
		return
	}
	ref := n.chain[l-1].b.BlockID()
	e.tag++
	k := e.params[ref]
	k.n, k.liquid = (10+e.tag)*1000+l, 10+e.tag
	m := e.block(k)
	n.chain = append(append([]wire{}, n.chain[:l-1]...), m)
	e.x.Op("%s has a new micro-block on the block %d", n.a, l)
	if n.up() {
		n.l.recv(invMsg(ref, m.b.BlockID(), k.gen))
		vs.Quiesce()
	}
}

// rollback replaces the last blocks of the chain of a node by more of them.
func (e *eEnv) rollback(i, k int) {
	n := e.nodes[i]
	e.tag++
	if k > len(n.chain) {
		k = len(n.chain)
	}
	n.chain = e.grow(n.chain[:len(n.chain)-k], k+1, 10+e.tag)
	e.x.Op("%s replaces %d blocks, %d in all", n.a, k, len(n.chain))
	e.announce(n)
}

// hostile lets a node connect that does not read, has a great score and sends a lot.
func (e *eEnv) hostile(k int) {
	e.d.n.shake = shakeWith(e.hs(rC))
	n := len(e.d.n.links)
	e.d.arrive(rC)
	vs.Quiesce()
	e.x.Check(len(e.d.n.links) == n+1, "no connection")
	l := e.d.n.links[n]
	l.stalled = true
	e.x.Op("a node that does not read, %d", k)
	l.recv(scoreMsg(new(big.Int).Lsh(big.NewInt(1), 100)))
	vs.Quiesce()
	for i := 0; i < []int{0, 199, 600}[k]; i++ {
		l.recv(frame(&proto.GetPeersMessage{}))
		if i%150 == 0 {
			vs.Quiesce()
		}
	}
	if k == 1 {
		ids := []proto.BlockID{mainGenesis.BlockID()}
		for i := 0; i < 100; i++ {
			ids = append(ids, idN(5000+i, e.pb))
		}
		for i := 0; i < 10; i++ {
			vs.Advance(time.Second)
			l.recv(idsMsg(ids...))
			vs.Quiesce()
		}
	}
	e.tick(1)
}

func (e *eEnv) leave(i int) {
	n := e.nodes[i]
	if n.up() {
		e.x.Op("%s disconnects", n.a)
		n.l.fail(io.EOF)
		vs.Quiesce()
	}
}

func (e *eEnv) restart() {
	e.d.stop()
	for _, n := range e.nodes {
		n.l = nil
	}
	e.d.restart(e.args...)
	e.hooks()
}

func (e *eEnv) tick(secs int) {
	for s := 0; s < secs && !e.dead; s++ {
		vs.Advance(time.Second)
		e.x.Check(!e.d.exited || e.dead, "the service ends with code %d and %q", e.d.code, e.d.stderr)
	}
}

// settled reports whether the service knows the chain of every node.
func (e *eEnv) settled() bool {
	var ls []struct {
		ID    string   `json:"block_id"`
		Peers []string `json:"peers"`
	}
	e.d.api().get("/api/leashes", &ls)
	at := map[string]string{}
	for _, l := range ls {
		for _, p := range l.Peers {
			at[p] = l.ID
		}
	}
	for _, n := range e.nodes {
		if len(n.chain) > 0 && at[n.a.String()] != n.chain[len(n.chain)-1].b.BlockID().String() {
			return false
		}
	}
	return true
}

// finish waits until the nodes are connected and their chains are loaded, and compares the reports.
func (e *eEnv) finish(within int) {
	x := e.x
	for i := range e.nodes {
		e.join(i)
	}
	t := 0
	for ; t < within && !e.settled(); t += 5 {
		e.tick(5)
	}
	r := newRef(&mainGenesis)
	for _, n := range e.nodes {
		for _, w := range n.chain {
			x.Check(r.put(w.b, n.a) == nil, "reference")
		}
	}
	x.Check(e.settled(), "the chains of connected nodes are not known %d s after the last event", within)
	ce := &cEnv{x: x, r: r, peers: []netip.Addr{rA, rB}}
	m := newRegRef(rS, []proto.Version{e.vers})
	for _, n := range e.nodes {
		m.conns[n.a] = n.l.fpeer
	}
	a := &aEnv{x: x, h: e.d.handler, ce: ce, re: &rEnv{x: x, m: m}}
	a.leashes()
	a.forks("/api/forks", nil)
	a.activeForks("/api/active-forks", nil)
	for _, n := range e.nodes {
		a.fork(n.a, 1, 10)
	}
	// Nothing more is loaded.
	q := 0
	count := func() int {
		k := 0
		for _, l := range e.d.n.links {
			for _, m := range l.got {
				switch m.(type) {
				case *proto.GetBlockIdsMessage, *proto.GetSignaturesMessage, *proto.GetBlockMessage:
					k++
				}
			}
		}
		return k
	}
	e.tick(30 + 60*b2i(e.failed)) // A failed round may go on until its timeout.
	q = count()
	e.tick(40)
	x.Check(count() == q, "blocks are requested although all chains are known")
	x.State(H(dbHash(e.d.db + "/blocks")))
	e.d.stop()
}

func init() {
	register(&Check{
		ID: "E01",
		Scenarios: func(th bool) []Scenario {
			depth := 2
			if th {
				depth = 3
			}
			events := []func(e *eEnv){
				func(e *eEnv) { e.tick(3) },
				func(e *eEnv) { e.tick(12) },
				func(e *eEnv) { e.extend(0) },
				func(e *eEnv) { e.extend(1) },
				func(e *eEnv) { e.rollback(0, 2) },
				func(e *eEnv) { e.rollback(1, 1) },
				func(e *eEnv) { e.leave(0) },
				func(e *eEnv) { e.leave(1) },
				func(e *eEnv) { e.join(1) },
				func(e *eEnv) { e.restart() },
				func(e *eEnv) { e.hostile(0) },
				func(e *eEnv) { e.hostile(1) },
				func(e *eEnv) { e.hostile(2) },
			}
			start := func(x *X, longest int) *eEnv {
				pb := x.Bool()
				v := ver(1, 5, 0)
				if !pb && x.Bool() {
					v = ver(1, 1, 0)
				}
				e := newE(x, pb, v)
				if longest == 0 {
					e.nodes[0].chain = e.grow(nil, 1+x.Choose(2), 1)
					e.nodes[1].chain = e.grow(e.nodes[0].chain, 2, 2)
					return e
				}
				e.nodes[0].chain = e.grow(nil, []int{0, 3}[x.Choose(2)], 1)
				e.nodes[1].chain = e.grow(e.nodes[0].chain, x.Choose(3), 2)
				e.nodes[0].chain = e.grow(e.nodes[0].chain, []int{1, 4, longest}[x.Choose(3)], 3)
				x.Op("chains of %d and %d blocks", len(e.nodes[0].chain), len(e.nodes[1].chain))
				return e
			}
			return []Scenario{
				{Name: "histories", Opt: seqOpt, Run: func(x *X) {
					e := start(x, 130)
					e.d.up(e.args...)
					if x.Bool() {
						e.join(1)
					}
					e.tick(11)
					for i := 0; i < depth; i++ {
						events[x.Choose(len(events))](e)
					}
					e.finish(300)
				}},
				{Name: "liquid blocks", Opt: seqOpt, Run: func(x *X) {
					e := start(x, 0)
					e.d.up(e.args...)
					e.join(1)
					e.tick(11)
					liquid := []func(e *eEnv){
						func(e *eEnv) { e.tick(12) },
						func(e *eEnv) { e.extend(0) },
						func(e *eEnv) { e.extend(1) },
						func(e *eEnv) { e.liquid(0) },
						func(e *eEnv) { e.liquid(1) },
						func(e *eEnv) { e.rollback(0, 1) },
						func(e *eEnv) { e.leave(1) },
						func(e *eEnv) { e.join(1) },
						func(e *eEnv) { // the block of the other node, without its micro-blocks
							e.nodes[1].chain = e.nodes[0].chain
							x.Op("%s takes the chain of %s", rB, rA)
							e.announce(e.nodes[1])
						},
						func(e *eEnv) { e.restart() },
					}
					for i := 0; i < depth+1; i++ {
						liquid[x.Choose(len(liquid))](e)
						for _, n := range e.nodes {
							n.longest = max(n.longest, len(n.chain))
						}
					}
					// A chain is loaded if its score is greater than the one of the known chain.
					for i := range e.nodes {
						for n := e.nodes[i]; len(n.chain) <= n.longest; {
							e.extend(i)
						}
					}
					e.finish(300)
				}},
				{Name: "nodes that claim a great score stay", Goals: claimGoals, Opt: seqOpt, Run: func(x *X) {
					e := newE(x, x.Bool(), ver(1, 5, 0))
					e.nodes = e.nodes[:1]
					e.nodes[0].chain = e.grow(nil, 1+x.Choose(2)*2, 1)
					k, at, before := x.Choose(len(claims)), []netip.Addr{rC, netip.MustParseAddr("1.2.3.4")}[x.Choose(2)], x.Bool()
					e.d.up(e.args...)
					if !before {
						e.tick(11)
					}
					hs := e.hs(at)
					hs.NodeName = at.String() // sorted before or after the other one
					e.d.n.shake = shakeWith(hs)
					e.d.arrive(at)
					vs.Quiesce()
					l := e.d.n.links[len(e.d.n.links)-1]
					x.Check(l.addr.Addr() == at, "connection")
					asked := 0
					l.onGot = func(m proto.Message) {
						switch m.(type) {
						case *proto.GetBlockIdsMessage, *proto.GetSignaturesMessage:
							asked++
							switch k {
							case 1:
								l.recv(idsMsg(idN(5001, e.pb), idN(5002, e.pb)))
							case 2:
								l.recv(idsMsg(mainGenesis.BlockID()))
							case 3:
								l.fail(io.EOF)
							}
						}
					}
					l.recv(scoreMsg(new(big.Int).Lsh(big.NewInt(1), 100)))
					vs.Quiesce()
					x.Op("a node that claims a great score, %s, before %v", claims[k], before)
					for t := 0; t < 110+60*b2i(th) && !e.settled(); t++ {
						e.tick(1)
					}
					if e.settled() {
						x.Reach(claimGoals[k].Then)
					}
					if asked > 0 && e.settled() {
						x.Reach(claimGoals[len(claims)+k].Then)
					}
					x.State(H(dbHash(e.d.db+"/blocks"), asked))
					e.d.stop()
				}},
				{Name: "interleaved", Opt: vs.Options{Bound: 1 + b2i(th), FreeCost: 1, SelCost: 1}, Run: func(x *X) {
					e := newE(x, x.Bool(), ver(1, 5, 0))
					e.nodes[0].chain = e.grow(nil, 3, 1)
					e.nodes[1].chain = e.grow(e.nodes[0].chain[:1], 2, 2)
					e.d.up(e.args...)
					e.join(1)
					k := x.Choose(4)
					e.tick(13)
					begin := vs.W.Now
					n := 0
					vs.SetPoints(true)
					for i := range e.nodes {
						vs.Go(func() {
							defer func() { n++ }()
							vs.WaitFor("the round", func() bool { return vs.W.Now.Sub(begin) >= 2*time.Second })
							switch {
							case k == 0 || k == 1 && i == 0:
								w := e.nodes[i]
								e.tag++
								w.chain = e.grow(w.chain, 1, 10+i)
								if w.up() {
									w.l.recv(w.chain[len(w.chain)-1].m)
									e.tell(w)
								}
							case k == 2 && i == 0:
								w := e.nodes[i]
								w.chain = e.grow(w.chain[:1], 3, 10)
								if w.up() {
									w.l.recv(w.chain[len(w.chain)-1].m)
									e.tell(w)
								}
							case k == 3:
								if w := e.nodes[i]; w.up() {
									w.l.fail(io.EOF)
								}
							}
						})
					}
					vs.Advance(3 * time.Second)
					vs.Quiesce()
					vs.SetPoints(false)
					vs.WaitFor("nodes", func() bool { return n == 2 })
					e.finish(300)
				}},
			}
		},
		Bounds: "the whole service with two serving nodes (chains of 1 to 135 blocks, identifiers of both kinds), every sequence of 2 (thorough 3) of 13 events (3 or 12 seconds, extension, reorganization of 1 or 2 blocks, disconnection, joining, restart, and nodes that do not read, claim a great score and send up to 600 requests or 1000 unknown identifiers); every sequence of 3 (4) of 10 events with micro-blocks, key blocks on them, without them, and reorganizations; a node that claims a great score and stays, with 4 behaviours and every random choice; every interleaving with 1 (2) deviations of simultaneous announcements or disconnections of both nodes with a synchronization round; 300 seconds to finish",
	})
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
