package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/netip"
	"sort"
	"strings"
	"time"

	"github.com/wavesplatform/gowaves/pkg/p2p/conn"
	"github.com/wavesplatform/gowaves/pkg/p2p/incoming"
	"github.com/wavesplatform/gowaves/pkg/p2p/outgoing"
	"github.com/wavesplatform/gowaves/pkg/p2p/peer"
	"github.com/wavesplatform/gowaves/pkg/proto"

	root "github.com/alexeykiselev/waves-fork-detector"
	"github.com/alexeykiselev/waves-fork-detector/chains"
	"github.com/alexeykiselev/waves-fork-detector/loading"
	"github.com/alexeykiselev/waves-fork-detector/peers"
	"github.com/alexeykiselev/waves-fork-detector/zzv/vs"
)

// The network: connections behave as gowaves' peer.Handle and conn do, with the bytes of every message passing
// the service's own filter and gowaves' decoder.

type link struct {
	*fpeer
	in     bool
	ver    proto.Version // sent in our handshake
	ctx    context.Context
	cancel context.CancelFunc
	skip   conn.SkipFilter
	reader *vs.Aside // the goroutine that reads the connection
	parent peer.Parent
	from   chan []byte
	errc   chan error
	told   bool // an error has been reported
	over   bool
	read   int // messages that were not dropped by the filter
	lost   int // messages dropped because a queue was full
	got    []proto.Message
	onGot  func(m proto.Message)
	// A node that does not read: messages stay in the queue of the connection.
	stalled bool
	wait    []proto.Message
}

const (
	sendQueue    = 200
	writeTimeout = 15 * time.Second
)

func newLink(ctx context.Context, parent peer.Parent, skip conn.SkipFilter, ap netip.AddrPort, hs proto.Handshake, in bool) *link {
	l := &link{in: in, parent: parent, skip: skip, from: make(chan []byte, 200), errc: make(chan error, 10)}
	made := &vs.Mark{}
	made.Set()
	l.reader = vs.NewAside("connection reader", made)
	l.ctx, l.cancel = context.WithCancel(ctx)
	d := peer.Outgoing
	if in {
		d = peer.Incoming
	}
	l.fpeer = &fpeer{addr: ap, hs: hs, dir: d}
	l.fpeer.onStop = l.cancel
	l.fpeer.onSend = func(m proto.Message) {
		b, err := m.MarshalBinary()
		if err != nil {
			return // gowaves logs it
		}
		r, err := proto.UnmarshalMessage(b)
		if err != nil {
			vs.FailNow("violation", fmt.Sprintf("an undecodable message is sent: %v", err))
		}
		switch {
		case !l.stalled && l.ctx.Err() == nil:
			l.arrived(r)
		case len(l.wait) < sendQueue:
			l.wait = append(l.wait, r)
			if len(l.wait) == 1 {
				vs.Go(func() {
					vs.Sleep(writeTimeout)
					if l.stalled {
						l.fail(errors.New("write timeout"))
					}
				})
			}
		default:
			// The sender waits for a place in the queue of errors, that is emptied until the connection is closed.
			vs.SendC(l.errc)(errors.New("remote channel overflow"))
		}
	}
	return l
}

func (l *link) arrived(m proto.Message) {
	l.got = append(l.got, m)
	if l.onGot != nil {
		l.onGot(m)
	}
}

// run is peer.Handle.
func (l *link) run() error {
	defer func() {
		l.over = true
		l.fpeer.Close()
	}()
	vs.SendC(l.parent.InfoCh)(peer.InfoMessage{Peer: l.fpeer, Value: &peer.Connected{Peer: l.fpeer}})
	for {
		c0, c1, c2 := vs.CaseRecv(l.ctx.Done()), vs.CaseRecv(l.from), vs.CaseRecv(l.errc)
		switch vs.Select(false, c0, c1, c2) {
		case 0:
			return nil
		case 1:
			if !l.told {
				m, err := proto.UnmarshalMessage(c1.Val())
				if err != nil {
					l.tell(err)
					continue
				}
				if vs.Select(true, vs.CaseSend(l.parent.MessageCh)(peer.ProtoMessage{ID: l.fpeer, Message: m})) != 0 {
					l.lost++
				}
			}
		case 2:
			if !l.told {
				l.tell(c2.Val())
			}
		default:
			return nil
		}
	}
}

func (l *link) tell(err error) {
	vs.SendC(l.parent.InfoCh)(peer.InfoMessage{Peer: l.fpeer, Value: &peer.InternalErr{Err: err}})
	l.told = true
}

// recv is the arrival of one message's bytes.
func (l *link) recv(b []byte) {
	var h proto.Header
	if _, err := h.ReadFrom(bytes.NewReader(b)); err != nil {
		l.fail(err)
		return
	}
	drop := false
	l.reader.Do(func() { drop = l.skip != nil && l.skip(h) })
	if drop {
		return
	}
	l.read++
	vs.Select(true, vs.CaseSend(l.from)(b))
}

// fail breaks the connection.
func (l *link) fail(err error) {
	if l.ctx.Err() != nil {
		return
	}
	vs.Select(true, vs.CaseSend(l.errc)(err))
}

// fconn is an accepted connection before the handshake.
type fconn struct {
	remote fAddr
	closed int
}

type fAddr string

func (a fAddr) Network() string { return "tcp" }
func (a fAddr) String() string  { return string(a) }

func (c *fconn) Read([]byte) (int, error)         { return 0, io.EOF }
func (c *fconn) Write(b []byte) (int, error)      { return len(b), nil }
func (c *fconn) Close() error                     { c.closed++; return nil }
func (c *fconn) LocalAddr() net.Addr              { return fAddr("1.1.1.1:1") }
func (c *fconn) RemoteAddr() net.Addr             { return c.remote }
func (c *fconn) SetDeadline(time.Time) error      { return nil }
func (c *fconn) SetReadDeadline(time.Time) error  { return nil }
func (c *fconn) SetWriteDeadline(time.Time) error { return nil }

// flisten is a listening socket.
type flisten struct {
	ch     chan net.Conn
	stop   chan struct{}
	closed int
	errs   int // errors Accept still has to report
}

func newListen() *flisten { return &flisten{ch: make(chan net.Conn, 100), stop: make(chan struct{})} }

func (l *flisten) Accept() (net.Conn, error) {
	if l.errs > 0 {
		l.errs--
		vs.Pt()
		return nil, errors.New("accept: too many open files")
	}
	c := vs.CaseRecv(l.ch)
	if vs.Select(false, vs.CaseRecv(l.stop), c) == 1 {
		return c.Val(), nil
	}
	return nil, net.ErrClosed
}

func (l *flisten) Close() error {
	l.closed++
	if l.closed > 1 {
		return net.ErrClosed
	}
	vs.Close(l.stop)
	return nil
}

func (l *flisten) Addr() net.Addr { return fAddr("0.0.0.0:6868") }

// dialing is one outgoing attempt.
type dialing struct {
	at  time.Time
	to  netip.AddrPort
	p   outgoing.EstablishParams
	ver proto.Version
}

// shaking is one served incoming connection.
type shaking struct {
	p incoming.PeerParams
}

var errDial = errors.New("connection refused")

// network is the other side of the hooks.
type network struct {
	x     *X
	dials []dialing
	inc   []shaking
	links []*link
	// dial decides an attempt: an error, or the handshake of the answering node. It may block.
	dial func(ctx context.Context, d dialing) (proto.Handshake, error)
	// shake gives the handshake of an incoming connection.
	shake  func(ctx context.Context, c net.Conn) (proto.Handshake, error)
	onLink func(l *link)
	inHook int
}

func newNetwork(x *X) *network {
	n := &network{x: x}
	n.dial = func(context.Context, dialing) (proto.Handshake, error) { return proto.Handshake{}, errDial }
	n.shake = func(context.Context, net.Conn) (proto.Handshake, error) { return proto.Handshake{}, io.EOF }
	vs.H.Establish = func(ctx context.Context, p outgoing.EstablishParams, v proto.Version) error {
		n.inHook++
		defer func() { n.inHook-- }()
		ap, err := netip.ParseAddrPort(p.Address.String())
		x.Check(err == nil, "dialing the address %q", p.Address.String())
		d := dialing{at: vs.W.Now, to: netip.AddrPortFrom(ap.Addr().Unmap(), ap.Port()), p: p, ver: v}
		x.Op("dial %s with %s", d.to, v)
		n.dials = append(n.dials, d)
		hs, err := n.dial(ctx, d)
		if err != nil {
			return err
		}
		if ctx.Err() != nil {
			return ctx.Err()
		}
		l := newLink(ctx, p.Parent, p.Skip, d.to, hs, false)
		l.ver = v
		n.add(l)
		return l.run()
	}
	vs.H.Incoming = func(ctx context.Context, p incoming.PeerParams) error {
		n.inHook++
		defer func() { n.inHook-- }()
		x.Op("serve %s with %s", p.Conn.RemoteAddr(), p.Version)
		n.inc = append(n.inc, shaking{p})
		hs, err := n.shake(ctx, p.Conn)
		if err != nil {
			p.Conn.Close()
			return err
		}
		if ctx.Err() != nil {
			p.Conn.Close()
			return ctx.Err()
		}
		l := newLink(ctx, p.Parent, p.Skip, netip.MustParseAddrPort(p.Conn.RemoteAddr().String()), hs, true)
		l.ver = p.Version
		stop := l.fpeer.onStop
		l.fpeer.onStop = func() { p.Conn.Close(); stop() }
		n.add(l)
		return l.run()
	}
	return n
}

func (n *network) add(l *link) {
	n.links = append(n.links, l)
	if n.onLink != nil {
		n.onLink(l)
	}
}

// ---- messages ----

func frame(m proto.Message) []byte {
	b, err := m.MarshalBinary()
	if err != nil {
		panic(err)
	}
	return b
}

// raw is a message of any kind with any payload.
func raw(id proto.PeerMessageID, payload []byte) []byte {
	n := 17
	if len(payload) == 0 {
		n = 13
	}
	b := make([]byte, n, n+len(payload))
	binary.BigEndian.PutUint32(b[0:], uint32(n-4+len(payload)))
	binary.BigEndian.PutUint32(b[4:], 0x12345678)
	b[8] = byte(id)
	binary.BigEndian.PutUint32(b[9:], uint32(len(payload)))
	if len(payload) > 0 {
		copy(b[13:17], []byte{1, 2, 3, 4})
	}
	return append(b, payload...)
}

// wire is a real block and its encodings.
type wire struct {
	b  *proto.Block
	m  []byte // complete message
	pb bool
}

type wblk struct {
	n      int
	parent proto.BlockID
	ver    proto.BlockVersion
	bt, ts uint64
	gen    int
	pb     bool // in the protobuf encoding
	liquid int  // distinguishes blocks with the same header fields
}

func mkWire(w wblk) wire {
	o := &proto.Block{}
	o.Version = w.ver
	o.Timestamp = w.ts
	o.Parent = w.parent
	o.BaseTarget = w.bt
	o.GenSignature = make([]byte, 32)
	if w.ver >= 5 {
		o.GenSignature = make([]byte, 96)
	}
	o.GeneratorPublicKey = pkN(w.gen)
	o.BlockSignature = sigN(w.n)
	if w.liquid > 0 {
		o.TransactionsRoot = make([]byte, 32)
		o.TransactionsRoot[0] = byte(w.liquid)
	}
	o.RewardVote = -1
	o.ConsensusBlockLength = 40
	if w.ver < 3 {
		o.TransactionBlockLength = 1
	} else {
		o.TransactionBlockLength = 4
	}
	if w.pb {
		d, err := o.MarshalToProtobuf(scheme)
		if err != nil {
			panic(err)
		}
		r := &proto.Block{}
		if err := r.UnmarshalFromProtobuf(d); err != nil {
			panic(err)
		}
		return wire{r, frame(&proto.PBBlockMessage{PBBlockBytes: d}), true}
	}
	d, err := o.MarshalBinary(scheme)
	if err != nil {
		panic(err)
	}
	r := &proto.Block{}
	if err := r.UnmarshalBinary(d, scheme); err != nil {
		panic(err)
	}
	return wire{r, frame(&proto.BlockMessage{BlockBytes: d}), false}
}

func invMsg(ref, total proto.BlockID, gen int) []byte {
	b, err := (&proto.MicroBlockInv{PublicKey: pkN(gen), TotalBlockID: total, Reference: ref, Signature: sigN(7)}).MarshalBinary()
	if err != nil {
		panic(err)
	}
	return frame(&proto.MicroBlockInvMessage{Body: b})
}

func peersMsg(l ...string) []byte {
	m := &proto.PeersMessage{}
	for _, s := range l {
		ap := netip.MustParseAddrPort(s)
		m.Peers = append(m.Peers, proto.PeerInfo{Addr: net.IP(ap.Addr().AsSlice()), Port: ap.Port()})
	}
	return frame(m)
}

func scoreMsg(s *big.Int) []byte { return frame(&proto.ScoreMessage{Score: s.Bytes()}) }

// ---- a dispatcher with its surroundings ----

type idsGot struct {
	p   netip.Addr
	ids []proto.BlockID
}

type blkGot struct {
	p netip.Addr
	b *proto.Block
}

type nEnv struct {
	x        *X
	dir      string
	declared string
	re       *rEnv
	ce       *cEnv
	parent   peer.Parent
	d        *root.Distributor
	cm       *root.ConnectionManager
	n        *network
	stop     context.CancelFunc
	ctx      context.Context
	ids      []idsGot
	bls      []blkGot
	wids     []idsGot
	wbls     []blkGot
	skip     conn.SkipFilter
	hold     bool // the consumer pauses
	done     bool // the consumer is to end
	port     int
}

var nVers = []proto.Version{ver(1, 5, 0), ver(1, 4, 0)}

func newNet(x *X, dir, declared string, vers []proto.Version, probe ...netip.Addr) *nEnv {
	return newNetOf(x, scheme, dir, declared, vers, probe...)
}

func newNetOf(x *X, scheme byte, dir, declared string, vers []proto.Version, probe ...netip.Addr) *nEnv {
	e := &nEnv{x: x, dir: dir, declared: declared, n: newNetwork(x)}
	l, err := chains.NewLinkage(dir, scheme, gen1)
	x.Check(err == nil, "NewLinkage: %v", err)
	e.ce = &cEnv{x: x, l: l, r: newRef(&gen1), univ: []proto.BlockID{gen1ID}}
	d := proto.TCPAddr{}
	var da netip.Addr
	if declared != "" {
		ap := netip.MustParseAddrPort(declared)
		d = proto.TCPAddr(*net.TCPAddrFromAddrPort(ap))
		da = ap.Addr()
	}
	r, err := peers.NewRegistry(scheme, d, append([]proto.Version{}, vers...), dir)
	x.Check(err == nil, "NewRegistry: %v", err)
	e.re = &rEnv{x: x, r: r, m: newRegRef(da, vers), declared: declared, vers: vers, probe: probe}
	e.re.m.scheme = scheme
	e.parent = peer.NewParent(true)
	e.cm = root.NewConnectionManager(scheme, "forkdetector", 77, d, r, e.parent)
	e.ctx, e.stop = context.WithCancel(context.Background())
	return e
}

// dispatch runs the dispatcher, and a consumer of what it passes on unless there is a loader.
func (e *nEnv) dispatch(consume bool) {
	e.d = root.NewDistributor(scheme, e.ce.l, e.re.r, e.parent)
	e.d.Run(e.ctx)
	if consume {
		e.consume(e.d.IDsCh(), e.d.BlockCh())
	}
}

func (e *nEnv) consume(ic <-chan loading.IDsPackage, bc <-chan loading.BlockPackage) {
	vs.Go(func() {
		for {
			if e.hold {
				vs.WaitFor("consumer", func() bool { return !e.hold || e.done })
			}
			c0, c1, c2 := vs.CaseRecv(ic), vs.CaseRecv(bc), vs.CaseRecv(e.ctx.Done())
			switch vs.Select(false, c0, c1, c2) {
			case 0:
				if v, ok := c0.Val2(); ok {
					e.ids = append(e.ids, idsGot{v.Peer, v.IDs})
					continue
				}
				return
			case 1:
				if v, ok := c1.Val2(); ok {
					e.bls = append(e.bls, blkGot{v.Peer, v.Block})
					continue
				}
				return
			default:
				return
			}
		}
	})
}

// join lets a node connect to us; it gives no link if the connection is not served.
func (e *nEnv) join(a netip.Addr, hs proto.Handshake) *link {
	l := e.connect(a, hs)
	if l != nil {
		e.connected(l)
	}
	return l
}

// connect is join without the expected effect.
func (e *nEnv) connect(a netip.Addr, hs proto.Handshake) *link {
	e.x.Op("%s connects", a)
	e.port++
	c := &fconn{remote: fAddr(netip.AddrPortFrom(a, uint16(40000+e.port)).String())}
	e.n.shake = func(context.Context, net.Conn) (proto.Handshake, error) { return hs, nil }
	e.re.m.suggest(a)
	k := len(e.n.links)
	vs.Go(func() { _ = e.cm.Accept(e.ctx, c) })
	vs.Quiesce()
	if len(e.n.links) == k {
		e.x.Check(c.closed > 0, "a connection that is not served is not closed")
		return nil
	}
	l := e.n.links[k]
	e.re.fakes = append(e.re.fakes, l.fpeer)
	return l
}

// connected is the expected effect of a completed handshake.
func (e *nEnv) connected(l *link) bool { return e.re.m.register(l.addr.Addr(), l.fpeer) }

// broken is the expected effect of a failed connection.
func (e *nEnv) broken(l *link) { e.re.m.broken(l.addr.Addr(), l.fpeer) }

// expect applies the expected effect of one message to the model; answer is set when the sender gets a reply.
func (e *nEnv) expect(l *link, b []byte) (answer bool) {
	m, err := proto.UnmarshalMessage(b)
	if err != nil {
		e.broken(l)
		return
	}
	a := l.addr.Addr()
	switch v := m.(type) {
	case *proto.GetPeersMessage:
		return true
	case *proto.PeersMessage:
		var as []*net.TCPAddr
		for _, p := range v.Peers {
			as = append(as, &net.TCPAddr{IP: p.Addr, Port: int(p.Port)})
		}
		e.re.m.appendAddrs(as)
	case *proto.ScoreMessage:
		e.re.m.score(a, new(big.Int).SetBytes(v.Score).String())
	case *proto.SignaturesMessage:
		if len(v.Signatures) > 0 {
			e.wids = append(e.wids, idsGot{a, sigIDs(v.Signatures)})
		}
	case *proto.BlockIdsMessage:
		if len(v.Blocks) > 0 {
			e.wids = append(e.wids, idsGot{a, v.Blocks})
		}
	case *proto.BlockMessage:
		bl := &proto.Block{}
		if bl.UnmarshalBinary(v.BlockBytes, scheme) == nil {
			e.expBlock(a, bl)
		}
	case *proto.PBBlockMessage:
		bl := &proto.Block{}
		if bl.UnmarshalFromProtobuf(v.PBBlockBytes) == nil {
			e.expBlock(a, bl)
		}
	case *proto.MicroBlockInvMessage:
		inv := &proto.MicroBlockInv{}
		if inv.UnmarshalBinary(v.Body) == nil {
			_ = e.ce.r.putMicro(inv.Reference, inv.TotalBlockID, a)
		}
	}
	return
}

func (e *nEnv) expBlock(a netip.Addr, b *proto.Block) {
	_ = e.ce.r.put(b, a)
	e.wbls = append(e.wbls, blkGot{a, b})
}

// passed compares what was passed to synchronization.
func (e *nEnv) passed() {
	x := e.x
	var got []idsGot
	for _, g := range e.ids {
		if len(g.ids) > 0 {
			got = append(got, g)
		}
	}
	for i := 0; i < len(got) || i < len(e.wids); i++ {
		switch {
		case i >= len(got):
			x.Fail("the identifiers %v of %s are not passed on", lazyIDs(e.wids[i].ids), e.wids[i].p)
		case i >= len(e.wids):
			x.Fail("identifiers %v of %s are passed on unexpectedly", lazyIDs(got[i].ids), got[i].p)
		}
		x.Check(got[i].p == e.wids[i].p && sameIDs(got[i].ids, e.wids[i].ids), "identifiers %v of %s are passed on, expected %v of %s",
			lazyIDs(got[i].ids), got[i].p, lazyIDs(e.wids[i].ids), e.wids[i].p)
	}
	for i := 0; i < len(e.bls) || i < len(e.wbls); i++ {
		switch {
		case i >= len(e.bls):
			x.Fail("block %s of %s is not passed on", blkName(e.wbls[i].b.BlockID()), e.wbls[i].p)
		case i >= len(e.wbls):
			x.Fail("block %s of %s is passed on unexpectedly", blkName(e.bls[i].b.BlockID()), e.bls[i].p)
		}
		g, w := e.bls[i], e.wbls[i]
		x.Check(g.b != nil, "an empty block of %s is passed on", g.p)
		x.Check(g.p == w.p && g.b.BlockID() == w.b.BlockID() && g.b.Parent == w.b.Parent && g.b.BaseTarget == w.b.BaseTarget && g.b.Timestamp == w.b.Timestamp,
			"block %s of %s is passed on, expected %s of %s", blkName(g.b.BlockID()), g.p, blkName(w.b.BlockID()), w.p)
	}
}

// cmp compares the complete state with the model.
func (e *nEnv) cmp() {
	e.passed()
	e.re.cmp()
	e.ce.peers = nil
	for a := range e.re.m.recs {
		e.ce.peers = append(e.ce.peers, a)
	}
	sort.Slice(e.ce.peers, func(i, j int) bool { return e.ce.peers[i].Less(e.ce.peers[j]) })
	e.ce.cmpBlocks()
	e.ce.cmpHeads()
	e.ce.cmpLeashes()
}

// replied checks the answer to a request for peers.
func (e *nEnv) replied(l *link, n int) {
	x := e.x
	x.Check(len(l.got) == n+1, "%d answers to a request for peers", len(l.got)-n)
	m, ok := l.got[n].(*proto.PeersMessage)
	x.Check(ok, "a request for peers is answered by %T", l.got[n])
	want := map[string]bool{}
	for a, p := range e.re.m.recs {
		if p.state == peers.PeerConnected {
			want[netip.AddrPortFrom(a, p.port).String()] = true
		}
	}
	for _, p := range m.Peers {
		k := p.String()
		x.Check(want[k], "the answer to a request for peers contains %s", k)
		delete(want, k)
	}
	x.Check(len(want) == 0, "the answer to a request for peers does not contain %v", want)
}

func (e *nEnv) hash() uint64 {
	var sb strings.Builder
	for _, l := range e.n.links {
		fmt.Fprint(&sb, l.addr, l.over, l.closed > 0, l.told, len(l.from))
	}
	return worldHash([]string{e.dir + "/blocks", e.dir + "/peers"}, e.re.r, e.ce.l, e.d, sb.String(), e.re.hash())
}

func (e *nEnv) fresh() bool { return e.x.noPrune || len(e.x.w.Trace) >= e.x.prefix }

func pm(l *link, m proto.Message) peer.ProtoMessage {
	return peer.ProtoMessage{ID: l.fpeer, Message: m}
}

func im(l *link, v peer.InfoMessageValue) peer.InfoMessage {
	return peer.InfoMessage{Peer: l.fpeer, Value: v}
}

func shakeWith(hs proto.Handshake) func(context.Context, net.Conn) (proto.Handshake, error) {
	return func(context.Context, net.Conn) (proto.Handshake, error) { return hs, nil }
}
