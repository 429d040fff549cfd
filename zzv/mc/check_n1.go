package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
	"net/netip"
	"strings"
	"time"

	"github.com/wavesplatform/gowaves/pkg/crypto"
	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/zzv/vs"
)

// Checks N01 and N02: the dispatcher.

// wireWorld is a set of real blocks on the genesis.
type wireWorld struct {
	a, b, c wire // a chain
	d       wire // sibling of a, in the other encoding
	u       wire // parent unknown
	v       wire // child of u
}

var theWire *wireWorld

func mkWires() *wireWorld {
	if theWire != nil {
		return theWire
	}
	w := &wireWorld{}
	w.a = mkWire(wblk{n: 20, parent: gen1ID, ver: 3, bt: 100, ts: 1460678500000})
	w.b = mkWire(wblk{n: 21, parent: w.a.b.BlockID(), ver: 5, bt: 90, ts: 1460678600000, gen: 1, pb: true})
	w.c = mkWire(wblk{n: 22, parent: w.b.b.BlockID(), ver: 5, bt: 80, ts: 1460678700000, pb: true})
	w.d = mkWire(wblk{n: 23, parent: gen1ID, ver: 5, bt: 110, ts: 1460678510000, gen: 1, pb: true})
	w.u = mkWire(wblk{n: 24, parent: idN(77, false), ver: 4, bt: 100, ts: 1460678510000})
	w.v = mkWire(wblk{n: 25, parent: w.u.b.BlockID(), ver: 3, bt: 100, ts: 1460678520000, pb: true})
	theWire = w
	return w
}

type nmsg struct {
	name string
	b    []byte
}

func sigsMsg(ids ...int) []byte {
	m := &proto.SignaturesMessage{}
	for _, i := range ids {
		m.Signatures = append(m.Signatures, sigN(i))
	}
	return frame(m)
}

func idsMsg(ids ...proto.BlockID) []byte { return frame(&proto.BlockIdsMessage{Blocks: ids}) }

func cnt(n uint32, rest ...byte) []byte {
	return append(binary.BigEndian.AppendUint32(nil, n), rest...)
}

// seqOpt explores sequences of events without interleavings.
var seqOpt = vs.Options{FreeCost: -1, SelCost: -1}

// goodMsgs is at least one message of every kind the service acts upon.
func goodMsgs() []nmsg {
	w := mkWires()
	return []nmsg{
		{"block a", w.a.m}, {"block b", w.b.m}, {"block d", w.d.m}, {"block u", w.u.m},
		{"micro a+", invMsg(w.a.b.BlockID(), idN(31, false), 1)}, {"micro d+", invMsg(w.d.b.BlockID(), idN(34, true), 1)},
		{"micro ?", invMsg(idN(99, true), idN(32, true), 1)},
		{"score 5", scoreMsg(big.NewInt(5))}, {"score 2^100", scoreMsg(new(big.Int).Lsh(big.NewInt(1), 100))},
		{"peers", peersMsg("8.8.8.3:6868", "8.8.8.1:1")},
		{"get peers", frame(&proto.GetPeersMessage{})},
		{"signatures", sigsMsg(1, 20, 40)},
		{"ids", idsMsg(gen1ID, w.b.b.BlockID(), idN(40, false))},
	}
}

// oddMsgs are malformed, truncated, empty and unexpected ones.
func oddMsgs() []nmsg {
	w := mkWires()
	cut := func(m []byte, n int) []byte { return raw(proto.PeerMessageID(m[8]), m[17:17+n]) }
	huge := make([]byte, 300)
	huge[0] = 1
	l := []nmsg{
		{"block empty", raw(proto.ContentIDBlock, nil)},
		{"block 1 byte", raw(proto.ContentIDBlock, []byte{3})},
		{"block cut", cut(w.a.m, 80)}, {"block without signature", cut(w.a.m, len(w.a.m)-17-60)},
		{"block version 5 in binary", raw(proto.ContentIDBlock, append([]byte{5}, w.a.m[18:]...))},
		{"block zeros", raw(proto.ContentIDBlock, make([]byte, 300))},
		{"pb block empty", raw(proto.ContentIDPBBlock, nil)}, {"pb block garbage", raw(proto.ContentIDPBBlock, []byte{255, 1, 2})},
		{"pb block no header", raw(proto.ContentIDPBBlock, []byte{0x12, 0})},
		{"pb block cut", cut(w.b.m, 40)},
		{"pb block empty header", raw(proto.ContentIDPBBlock, []byte{0x0a, 0})},
		{"micro empty", raw(proto.ContentIDInvMicroblock, nil)}, {"micro 10 bytes", raw(proto.ContentIDInvMicroblock, make([]byte, 10))},
		{"micro zeros", raw(proto.ContentIDInvMicroblock, make([]byte, proto.MicroBlockInvSizeSig))},
		{"micro cut", cut(invMsg(w.a.b.BlockID(), idN(33, false), 1), 100)},
		{"score empty", raw(proto.ContentIDScore, nil)}, {"score zero", raw(proto.ContentIDScore, []byte{0})},
		{"score 300 bytes", raw(proto.ContentIDScore, huge)},
		{"peers empty", raw(proto.ContentIDPeers, cnt(0))}, {"peers nothing", raw(proto.ContentIDPeers, nil)},
		{"peers overlong", raw(proto.ContentIDPeers, cnt(5, 8, 8, 8, 3, 0, 0, 26, 212))},
		{"peers odd", peersMsg("0.0.0.0:0", "127.0.0.1:6868", "8.8.8.3:0", "255.255.255.255:65535", "8.8.8.9:6868")},
		{"get peers with payload", raw(proto.ContentIDGetPeers, []byte{1, 2, 3})},
		{"signatures empty", raw(proto.ContentIDSignatures, cnt(0))}, {"signatures nothing", raw(proto.ContentIDSignatures, nil)},
		{"signatures overlong", raw(proto.ContentIDSignatures, cnt(9, 1, 2))},
		{"ids empty", raw(proto.ContentIDBlockIDs, cnt(0))}, {"ids overlong", raw(proto.ContentIDBlockIDs, cnt(3, 32))},
		{"ids bad length", raw(proto.ContentIDBlockIDs, cnt(1, 5, 1, 2, 3, 4, 5))},
		{"unknown kind", raw(proto.PeerMessageID(200), []byte{1})}, {"unknown kind 0", raw(proto.PeerMessageID(0), nil)},
		{"bad magic", []byte{0, 0, 0, 9, 1, 2, 3, 4, 1, 0, 0, 0, 0}}, {"short", []byte{0, 0, 0}},
	}
	for _, k := range []proto.PeerMessageID{proto.ContentIDTransaction, proto.ContentIDMicroblock, proto.ContentIDPBTransaction, proto.ContentIDPBMicroBlock,
		proto.ContentIDGetBlock, proto.ContentIDGetSignatures, proto.ContentIDGetBlockIDs, proto.ContentIDCheckpoint, proto.ContentIDMicroblockRequest,
		proto.ContentIDGetBlockSnapshot, proto.ContentIDBlockSnapshot, proto.ContentIDMicroBlockSnapshot, proto.ContentIDMicroBlockSnapshotRequest} {
		l = append(l, nmsg{fmt.Sprintf("unused kind %d", k), raw(k, []byte{0, 1, 2, 3})})
	}
	return l
}

// directMsgs are decoded messages that arrive at the dispatcher as such.
func directMsgs() []proto.Message {
	return []proto.Message{
		&proto.GetPeersMessage{}, &proto.PeersMessage{}, &proto.PeersMessage{Peers: []proto.PeerInfo{{}, {Port: 5}}}, &proto.SignaturesMessage{}, &proto.BlockMessage{}, &proto.ScoreMessage{},
		&proto.MicroBlockInvMessage{}, &proto.PBBlockMessage{}, &proto.BlockIdsMessage{}, &proto.TransactionMessage{}, &proto.GetBlockMessage{},
		&proto.GetBlockIdsMessage{}, &proto.GetSignaturesMessage{}, &proto.MicroBlockMessage{}, &proto.CheckPointMessage{}, &proto.PBTransactionMessage{},
		&proto.SignaturesMessage{Signatures: []crypto.Signature{{}}}, &proto.BlockIdsMessage{Blocks: []proto.BlockID{{}}}, nil,
	}
}

// deliver lets one message arrive on a connection and applies its expected effect to the model.
func (e *nEnv) deliver(l *link, m nmsg) {
	x := e.x
	x.Op("%s: %s", l.addr, m.name)
	alive := !l.told && l.ctx.Err() == nil
	n := len(l.got)
	var others int
	for _, o := range e.n.links {
		others += len(o.got)
	}
	r := l.read
	l.recv(m.b)
	vs.Quiesce()
	ans := false
	if alive {
		if l.read > r {
			ans = e.expect(l, m.b)
		} else if l.told {
			e.broken(l)
		}
		x.Check(!l.told || l.closed > 0, "the connection is not closed after a failure")
	}
	for _, o := range e.n.links {
		others -= len(o.got)
	}
	switch {
	case ans:
		x.Check(others == -1, "%d messages are sent in response", -others)
		e.replied(l, n)
	default:
		x.Check(others == 0, "%d unexpected messages are sent in response", -others)
	}
}

func (e *nEnv) hs(name string, v proto.Version) proto.Handshake {
	return hsOf(goodApp, v, name, 9, nil)
}

func init() {
	rD, rE := ip("8.8.8.4"), ip("8.8.8.5")
	start := func(x *X) *nEnv {
		vs.SetPoints(false)
		e := newNet(x, "/n", "8.8.8.9:6868", nVers, rA, rB, rC, rD, rS)
		e.dispatch(true)
		return e
	}
	register(&Check{
		ID: "N01",
		Scenarios: func(th bool) []Scenario {
			d := 3
			if th {
				d = 4
			}
			good, odd := goodMsgs(), oddMsgs()
			return []Scenario{
				{Name: "every kind of message", Opt: seqOpt, Run: func(x *X) {
					e := start(x)
					a := e.join(rA, hsOf(goodApp, ver(1, 5, 0), "a", 1, declAddr("8.8.8.1", 6868)))
					b := e.join(rB, e.hs("b", ver(1, 4, 0)))
					ls := []*link{a, b}
					for i := 0; i < d; i++ {
						if x.Seen(e.hash(), d-i) {
							return
						}
						// The last one is always valid.
						k := x.Choose(len(good) + len(odd))
						l := ls[x.Choose(2)]
						if k < len(good) {
							e.deliver(l, good[k])
						} else {
							e.deliver(l, odd[k-len(good)])
						}
						if e.fresh() {
							e.cmp()
						}
					}
					// The next valid messages take their normal effect.
					for _, m := range good {
						e.deliver(b, m)
					}
					e.cmp()
				}},
				{Name: "decoded messages", Opt: seqOpt, Run: func(x *X) {
					e := start(x)
					a := e.join(rA, e.hs("a", ver(1, 5, 0)))
					b := e.join(rB, e.hs("b", ver(1, 4, 0)))
					dm := directMsgs()
					for i := 0; i < 2; i++ {
						k := x.Choose(len(dm))
						x.Op("decoded message %T", dm[k])
						vs.SendC(e.parent.MessageCh)(pm(a, dm[k]))
						vs.Quiesce()
					}
					n := 0
					for _, g := range e.ids {
						if len(g.ids) == 0 {
							continue
						}
						n++
						e.wids = append(e.wids, idsGot{rA, g.ids})
						x.Check(g.p == rA && len(g.ids) == 1, "wrong identifiers are passed on")
					}
					x.Check(len(e.bls) == 0, "an empty block is passed on")
					x.State(e.hash())
					for _, m := range good {
						e.deliver(b, m)
					}
					// Scores of the first peer are not specified for an empty message.
					e.deliver(a, nmsg{"score 5", scoreMsg(big.NewInt(5))})
					e.cmp()
				}},
				{Name: "connections and messages", Opt: seqOpt, Run: func(x *X) {
					e := start(x)
					dd := d
					hss := []proto.Handshake{e.hs("a", ver(1, 5, 0)), hsOf("wavesX", ver(1, 5, 0), "x", 1, nil), hsOf("", ver(1, 5, 0), "", 1, nil),
						hsOf(goodApp, ver(9, 9, 9), "x", 1, nil), hsOf(goodApp, ver(1, 4, 3), "\xff", 1, nil), hsOf(goodApp, ver(1, 4, 3), "n", 1, declAddr("127.0.0.1", 1))}
					ms := []nmsg{good[0], good[4], good[7], good[9], good[10], good[12], odd[0], odd[9], odd[2]}
					var ls []*link
					for i := 0; i < dd+1; i++ {
						if x.Seen(e.hash(), dd-i) {
							return
						}
						n := len(hss) + 3
						if len(ls) > 0 {
							n += len(ms) + 2
						}
						k := x.Choose(n)
						switch {
						case k < len(hss):
							if l := e.join(rA, hss[k]); l != nil {
								ls = append(ls, l)
							}
						case k == len(hss):
							if l := e.join(rB, hss[0]); l != nil {
								ls = append(ls, l)
							}
						case k == len(hss)+1:
							if l := e.join(rS, hss[0]); l != nil {
								ls = append(ls, l)
							}
						case k == len(hss)+2:
							if l := e.join(rD, hss[0]); l != nil {
								ls = append(ls, l)
							}
						case k == len(hss)+3 || k == len(hss)+5:
							// The newest connection fails, and closing it possibly fails as well.
							l := ls[len(ls)-1]
							l.badEnd = k == len(hss)+5
							x.Op("%s fails (%v)", l.addr, l.badEnd)
							live := l.ctx.Err() == nil
							l.fail(errors.New("reset"))
							vs.Quiesce()
							x.Check(l.closed > 0, "a failed connection is not closed")
							if live {
								e.broken(l)
							}
						case k == len(hss)+4:
							// An error report of an unusual kind.
							x.Op("unknown notification")
							vs.SendC(e.parent.InfoCh)(im(ls[0], nil))
							vs.Quiesce()
						default:
							e.deliver(ls[len(ls)-1], ms[k-len(hss)-6])
						}
						if e.fresh() {
							e.cmp()
						}
					}
					l := e.join(rE, e.hs("e", ver(1, 5, 0)))
					x.Check(l != nil && l.closed == 0, "a new connection is not accepted")
					for _, m := range good {
						e.deliver(l, m)
					}
					e.cmp()
				}},
				{Name: "a node that does not read", Opt: seqOpt, Run: func(x *X) {
					e := start(x)
					a := e.join(rA, e.hs("a", ver(1, 5, 0)))
					b := e.join(rB, e.hs("b", ver(1, 4, 0)))
					a.stalled = true
					ms := []nmsg{good[10], good[0], good[9], good[12]}
					for i := 0; i < d-1; i++ {
						// Many messages at once or one by one.
						k, n, calm := x.Choose(len(ms)), []int{190, 400}[x.Choose(2)], x.Bool()
						x.Op("%d times %s, %v", n, ms[k].name, calm)
						for j := 0; j < n; j++ {
							a.recv(ms[k].b)
							if calm {
								vs.Quiesce()
							}
						}
						if x.Bool() {
							vs.Advance(20 * time.Second)
						}
						vs.Quiesce()
					}
					x.Check(a.told == (a.closed > 0), "the connection of a node that does not read is not closed")
					x.State(H(len(a.wait), a.told, dbHash("/n/blocks", "/n/peers")))
					n := len(e.bls) + len(e.ids)
					b.recv(good[1].b)
					b.recv(good[7].b)
					b.recv(good[11].b)
					b.recv(good[10].b)
					vs.Quiesce()
					x.Check(len(e.bls)+len(e.ids) == n+2, "messages of another peer are not passed on: %s", vs.Blocked())
					n = 0
					for _, m := range b.got {
						if _, ok := m.(*proto.PeersMessage); ok {
							n++
						}
					}
					x.Check(n == 1, "a request for peers of another peer is not answered")
					l := e.join(rE, e.hs("e", ver(1, 5, 0)))
					x.Check(l != nil && l.closed == 0, "a new connection is not accepted")
				}},
				{Name: "storage failures", Opt: vs.Options{Bound: 1, FreeCost: -1, SelCost: -1}, Run: func(x *X) {
					e := start(x)
					a := e.join(rA, e.hs("a", ver(1, 5, 0)))
					b := e.join(rB, e.hs("b", ver(1, 4, 0)))
					all := append(append([]nmsg{}, good...), nmsg{"connect", nil}, nmsg{"fail", nil})
					k := x.Choose(len(all))
					n := 0
					vs.W.Fault = func(op string) error {
						if n < 1 && x.w.Choose(2, vs.KFault, 1) == 1 {
							n++
							x.Op("storage failure at %q", op)
							return errDisk
						}
						return nil
					}
					switch all[k].name {
					case "connect":
						e.port++
						c := &fconn{remote: "8.8.8.4:5"}
						e.n.shake = shakeWith(e.hs("d", ver(1, 5, 0)))
						vs.Go(func() { _ = e.cm.Accept(e.ctx, c) })
						vs.Quiesce()
						vs.W.Fault = nil
						last := e.n.links[len(e.n.links)-1]
						cs, _ := e.re.r.Connections()
						listed := false
						for _, p := range cs {
							listed = listed || p.AddressPort.Addr() == rD
						}
						if n > 0 && !listed {
							x.Check(c.closed > 0, "a connection refused because of a storage error is not closed")
						} else if listed {
							x.Check(c.closed == 0 && last.addr.Addr() == rD, "the connection of an admitted peer is closed")
						}
					case "fail":
						a.fail(errors.New("reset"))
						vs.Quiesce()
						x.Check(a.closed > 0, "a failed connection is not closed")
					default:
						a.recv(all[k].b)
						vs.Quiesce()
					}
					vs.W.Fault = nil
					x.State(H(n, k, dbHash("/n/blocks", "/n/peers")))
					// Everything sent by the other peer takes its normal effect.
					w := mkWires()
					ids, bls := len(e.ids), len(e.bls)
					l := e.join(rE, e.hs("e", ver(1, 5, 0)))
					x.Check(l != nil && l.closed == 0, "a new connection is not accepted")
					for _, m := range good {
						l.recv(m.b)
						b.recv(m.b)
						vs.Quiesce()
					}
					x.Check(len(e.ids) == ids+4 && len(e.bls) == bls+8, "messages after a storage failure are not passed on")
					for _, p := range []netip.Addr{rB, rE} {
						r, err := e.re.r.Peer(p)
						x.Check(err == nil && r.Score != nil && r.Score.Cmp(new(big.Int).Lsh(big.NewInt(1), 100)) == 0, "the score after a storage failure is not recorded")
						lsh, err := e.ce.l.Leash(p)
						x.Check(err == nil && lsh == idN(34, true), "the leash of %s after a storage failure is %s (a %s b %s d %s u %s micro %s)", p, blkName(lsh), blkName(w.a.b.BlockID()), blkName(w.b.b.BlockID()), blkName(w.d.b.BlockID()), blkName(w.u.b.BlockID()), blkName(idN(34, true)))
					}
					_, err := e.re.r.Peer(rC)
					x.Check(err == nil, "addresses after a storage failure are not recorded")
					for _, id := range []proto.BlockID{w.a.b.BlockID(), w.b.b.BlockID(), w.d.b.BlockID(), idN(31, false), idN(34, true)} {
						ok, err := e.ce.l.HasBlock(id)
						x.Check(ok && err == nil, "a block received after a storage failure is not stored")
					}
					m, ok := l.got[len(l.got)-1].(*proto.PeersMessage)
					x.Check(ok && len(m.Peers) >= 2, "a request for peers after a storage failure is not answered")
				}},
			}
		},
		Bounds: "every sequence of up to 3 (thorough 4) out of 58 well-formed, malformed, truncated, empty and unused messages on two connections; every pair of 19 decoded messages; every history of up to 4 (5) of 20 events (connections with 6 handshakes and 4 addresses, failures, messages); one storage failure at any call of any of 14 events; each followed by valid messages of every kind",
	})

	register(&Check{
		ID: "N02",
		Scenarios: func(th bool) []Scenario {
			w := mkWires()
			d := 5
			if th {
				d = 6
			}
			blocks := []nmsg{{"a", w.a.m}, {"b", w.b.m}, {"c", w.c.m}, {"d", w.d.m}, {"u", w.u.m}, {"v", w.v.m}}
			lists := []nmsg{{"ids", idsMsg(idN(41, true), idN(42, true), gen1ID)}, {"sigs", sigsMsg(41, 42, 1)}, {"ids2", idsMsg(idN(43, false))}, {"sigs2", sigsMsg(43)}}
			all := append(append([]nmsg{}, blocks...), lists...)
			return []Scenario{
				{Name: "one by one", Opt: seqOpt, Run: func(x *X) {
					e := start(x)
					ls := []*link{e.join(rA, e.hs("a", ver(1, 5, 0))), e.join(rB, e.hs("b", ver(1, 4, 0)))}
					for i := 0; i < d-1; i++ {
						if x.Seen(H(e.hash(), fmt.Sprint(len(e.ids), len(e.bls))), d-i) {
							return
						}
						e.deliver(ls[x.Choose(2)], all[x.Choose(len(all))])
						if e.fresh() {
							e.cmp()
						}
					}
				}},
				{Name: "queued while synchronization is busy", Opt: seqOpt, Run: func(x *X) {
					e := start(x)
					ls := []*link{e.join(rA, e.hs("a", ver(1, 5, 0))), e.join(rB, e.hs("b", ver(1, 4, 0)))}
					e.hold = true
					vs.Quiesce()
					msgs := []nmsg{blocks[0], blocks[1], blocks[4], lists[0], lists[1], {"score", scoreMsg(big.NewInt(7))}}
					for i := 0; i < d; i++ {
						l, m := ls[x.Choose(2)], msgs[x.Choose(len(msgs))]
						x.Op("%s: %s", l.addr, m.name)
						l.recv(m.b)
						// The queue of one connection is emptied before another one is used.
						vs.Quiesce()
						e.expect(l, m.b)
					}
					e.hold = false
					vs.Quiesce()
					e.cmp()
					x.State(e.hash())
				}},
				{Name: "many messages at once", Opt: seqOpt, Run: func(x *X) {
					e := start(x)
					l := e.join(rA, e.hs("a", ver(1, 5, 0)))
					e.hold = x.Bool()
					vs.Quiesce()
					parent := gen1ID
					k := []int{3, 50, 150}[x.Choose(3)]
					for i := 0; i < k; i++ {
						v := proto.BlockVersion(3)
						if i >= k/2 {
							v = 5
						}
						b := mkWire(wblk{n: 1000 + i, parent: parent, ver: v, bt: 100, ts: 1460678500000 + uint64(i), pb: v == 5})
						parent = b.b.BlockID()
						l.recv(b.m)
						vs.Quiesce()
						e.expect(l, b.m)
					}
					e.hold = false
					vs.Quiesce()
					e.cmp()
					x.State(e.hash())
				}},
				{Name: "interleaved", Opt: vs.Options{Bound: 2, FreeCost: 1, SelCost: 1}, Delays: 1, Run: func(x *X) {
					e := start(x)
					ls := []*link{e.join(rA, e.hs("a", ver(1, 5, 0))), e.join(rB, e.hs("b", ver(1, 4, 0)))}
					vs.SetPoints(true)
					seqs := [][2][]nmsg{
						{{blocks[0], blocks[1]}, {blocks[3], lists[0]}},
						{{blocks[0], lists[0], lists[2]}, {blocks[0], lists[1]}},
						{{blocks[4], blocks[0]}, {blocks[5], blocks[3]}},
					}
					s := seqs[x.Choose(len(seqs))]
					n := 0
					for i := range ls {
						i := i
						vs.Go(func() {
							for _, m := range s[i] {
								ls[i].recv(m.b)
							}
							n++
						})
					}
					vs.WaitFor("senders", func() bool { return n == 2 })
					vs.SetPoints(false)
					vs.Quiesce()
					// For every peer, the sequence is the one sent.
					for i, l := range ls {
						for _, m := range s[i] {
							e.expect(l, m.b)
						}
					}
					for _, l := range ls {
						a := l.addr.Addr()
						check := func(what string, got, want []string) {
							x.Check(strings.Join(got, " ") == strings.Join(want, " "), "%s of %s passed on: %v, expected %v", what, a, got, want)
						}
						var g, w []string
						for _, q := range e.bls {
							if q.p == a {
								g = append(g, q.b.BlockID().ShortString())
							}
						}
						for _, q := range e.wbls {
							if q.p == a {
								w = append(w, q.b.BlockID().ShortString())
							}
						}
						check("blocks", g, w)
						g, w = nil, nil
						for _, q := range e.ids {
							if q.p == a {
								g = append(g, fmt.Sprint(lazyIDs(q.ids)))
							}
						}
						for _, q := range e.wids {
							if q.p == a {
								w = append(w, fmt.Sprint(lazyIDs(q.ids)))
							}
						}
						check("identifiers", g, w)
					}
					x.Check(len(e.bls) == len(e.wbls) && len(e.ids) == len(e.wids), "wrong number of messages passed on")
					for id := range e.ce.r.blocks {
						ok, err := e.ce.l.HasBlock(id)
						x.Check(ok && err == nil, "a received block is not stored")
					}
					x.State(e.hash())
				}},
			}
		},
		Bounds: "every sequence of up to 4 (thorough 5) of 10 messages (blocks of both encodings with known and unknown parents, identifier lists of both kinds) of two peers; every sequence of 5 (6) of 6 messages queued while synchronization is busy; up to 150 queued blocks; every interleaving with up to 2 deviations of 3 pairs of message sequences of two connections",
	})
}
