package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/netip"
	"sort"
	"time"

	"github.com/wavesplatform/gowaves/pkg/p2p/conn"
	"github.com/wavesplatform/gowaves/pkg/p2p/peer"
	"github.com/wavesplatform/gowaves/pkg/proto"

	root "github.com/alexeykiselev/waves-fork-detector"
	"github.com/alexeykiselev/waves-fork-detector/zzv/vs"
)

// Checks N03, N04 and N05: connections.

// usedKinds are the kinds of messages the service acts upon; unusedKinds are the known others.
var usedKinds = map[proto.PeerMessageID]bool{
	proto.ContentIDGetPeers: true, proto.ContentIDPeers: true, proto.ContentIDSignatures: true, proto.ContentIDBlock: true,
	proto.ContentIDScore: true, proto.ContentIDInvMicroblock: true, proto.ContentIDPBBlock: true, proto.ContentIDBlockIDs: true,
}

var unusedKinds = map[proto.PeerMessageID]bool{
	proto.ContentIDGetSignatures: true, proto.ContentIDGetBlock: true, proto.ContentIDTransaction: true, proto.ContentIDCheckpoint: true,
	proto.ContentIDMicroblockRequest: true, proto.ContentIDMicroblock: true, proto.ContentIDPBMicroBlock: true, proto.ContentIDPBTransaction: true,
	proto.ContentIDGetBlockIDs: true, proto.ContentIDGetBlockSnapshot: true, proto.ContentIDMicroBlockSnapshotRequest: true,
	proto.ContentIDBlockSnapshot: true, proto.ContentIDMicroBlockSnapshot: true,
}

// filtered checks the filter's decision on one header.
func filtered(x *X, what string, skip conn.SkipFilter, id int, n uint32) {
	k := proto.PeerMessageID(id)
	got := skip(proto.Header{ContentID: k, PayloadLength: n})
	switch {
	case usedKinds[k] && n == 0 && k != proto.ContentIDGetPeers:
		// Malformed.
	case usedKinds[k]:
		x.Check(!got, "%s: a message of kind %d with %d bytes is dropped", what, id, n)
	case unusedKinds[k]:
		x.Check(got, "%s: a message of kind %d with %d bytes is let through", what, id, n)
	}
}

// shakeNone refuses every handshake.
func shakeNone(context.Context, net.Conn) (proto.Handshake, error) { return proto.Handshake{}, io.EOF }

func (e *nEnv) presented(scheme byte, what, network, name string, nonce uint64, decl proto.TCPAddr, p peer.Parent, v proto.Version, wname string, wnonce uint32, want proto.Version) {
	x := e.x
	x.Check(network == "waves"+string(rune(scheme)), "%s: network %q is presented", what, network)
	x.Check(name == wname, "%s: name %q is presented", what, name)
	x.Check(nonce == uint64(wnonce), "%s: nonce %d is presented, expected %d", what, nonce, wnonce)
	if e.declared == "" {
		x.Check(decl.Empty() && decl.Port == 0, "%s: address %s is presented", what, decl.String())
	} else {
		x.Check(decl.String() == e.declared, "%s: address %s is presented, expected %s", what, decl.String(), e.declared)
	}
	x.Check(p == e.parent, "%s: wrong queues", what)
	x.Check(v == want, "%s: version %s is presented, expected %s", what, v, want)
}

func ap(s string) netip.AddrPort { return netip.MustParseAddrPort(s) }

func tcp(s string) proto.TCPAddr { return proto.TCPAddr(*net.TCPAddrFromAddrPort(ap(s))) }

func init() {
	register(&Check{
		ID: "N03",
		Scenarios: func(th bool) []Scenario {
			d := 4
			if th {
				d = 6
			}
			return []Scenario{
				{Name: "filter", Opt: seqOpt, Run: func(x *X) {
					vs.SetPoints(false)
					e := newNet(x, "/n", "8.8.8.9:6868", nVers)
					e.dispatch(true)
					e.join(rA, hsOf(goodApp, ver(1, 5, 0), "a", 1, nil))
					e.join(rB, hsOf(goodApp, ver(1, 5, 0), "a", 1, nil))
					vs.Go(func() { _ = e.cm.Connect(e.ctx, tcp("8.8.8.3:6868")) })
					e.n.dial = func(context.Context, dialing) (proto.Handshake, error) {
						return hsOf(goodApp, ver(1, 4, 0), "c", 1, nil), nil
					}
					vs.Quiesce()
					x.Check(len(e.n.links) == 3, "connections are not made")
					// The second header must not depend on the first one, nor on the connection it arrived on.
					l1, l2 := e.n.links[x.Choose(3)], e.n.links[x.Choose(3)]
					first := x.Choose(256)
					for _, n := range []uint32{0, 1, 100, 1 << 20, 1<<32 - 1} {
						for id := 0; id < 256; id++ {
							filtered(x, "first", l1.skip, first, n)
							filtered(x, fmt.Sprintf("after kind %d", first), l2.skip, id, n)
							x.ops += 2
						}
					}
					x.State(H(first, l1.in, l2.in))
				}},
				{Name: "presented", Opt: seqOpt, Run: func(x *X) {
					vs.SetPoints(false)
					scheme := []byte{'W', 'T', 'S'}[x.Choose(3)]
					declared := []string{"", "8.8.8.9:6868"}[x.Choose(2)]
					vers := [][]proto.Version{{ver(1, 5, 0)}, {ver(1, 4, 0), ver(1, 5, 0)}, {ver(1, 4, 3), ver(1, 5, 7), ver(1, 3, 2)}}[x.Choose(3)]
					e := newNetOf(x, scheme, "/n", declared, vers)
					name, nonce := "name \u00e9", []uint32{0, 77, 1<<32 - 1}[x.Choose(3)]
					decl := proto.TCPAddr{}
					if declared != "" {
						decl = tcp(declared)
					}
					e.cm = root.NewConnectionManager(scheme, name, nonce, decl, e.re.r, e.parent)
					e.dispatch(true)
					as := []netip.Addr{rA, rB}
					for i := 0; i < d; i++ {
						if x.Seen(H(e.hash(), declared, nonce, scheme, len(vers)), d-i) {
							return
						}
						a, k := as[x.Choose(2)], x.Choose(6)
						hs := hsOf("waves"+string(rune(scheme)), ver(1, 4, 0), "n", 5, nil)
						if k%3 == 2 {
							hs.Version = ver(1, 5, 1)
						}
						want, ok := e.re.m.suggest(a)
						n := len(e.n.links)
						if k < 3 {
							x.Op("%s connects, %d", a, k)
							e.n.shake = shakeNone
							if k > 0 {
								e.n.shake = shakeWith(hs)
							}
							e.port++
							c := &fconn{remote: fAddr(netip.AddrPortFrom(a, uint16(40000+e.port)).String())}
							m := len(e.n.inc)
							vs.Go(func() { _ = e.cm.Accept(e.ctx, c) })
							vs.Quiesce()
							x.Check((len(e.n.inc) > m) == ok, "incoming connection served: %v, expected %v", len(e.n.inc) > m, ok)
							if !ok {
								continue
							}
							p := e.n.inc[m].p
							x.Check(p.Conn == net.Conn(c), "a wrong connection is served")
							e.presented(scheme, "incoming", p.WavesNetwork, p.NodeName, p.NodeNonce, p.DeclAddr, p.Parent, p.Version, name, nonce, want)
							for id := 0; id < 256; id++ {
								filtered(x, "incoming", p.Skip, id, 5)
							}
						} else {
							x.Op("dial %s, %d", a, k)
							e.n.dial = func(context.Context, dialing) (proto.Handshake, error) {
								if k == 3 {
									return proto.Handshake{}, errDial
								}
								return hs, nil
							}
							m := len(e.n.dials)
							vs.Go(func() { _ = e.cm.Connect(e.ctx, proto.TCPAddr(*net.TCPAddrFromAddrPort(netip.AddrPortFrom(a, 6868)))) })
							vs.Quiesce()
							x.Check((len(e.n.dials) > m) == ok, "outgoing connection attempted: %v, expected %v", len(e.n.dials) > m, ok)
							if !ok {
								continue
							}
							p := e.n.dials[m].p
							x.Check(e.n.dials[m].to == netip.AddrPortFrom(a, 6868), "%s is dialed", e.n.dials[m].to)
							e.presented(scheme, "outgoing", p.WavesNetwork, p.NodeName, p.NodeNonce, p.DeclAddr, p.Parent, e.n.dials[m].ver, name, nonce, want)
							for id := 0; id < 256; id++ {
								filtered(x, "outgoing", p.Skip, id, 5)
							}
						}
						if len(e.n.links) > n {
							l := e.n.links[n]
							e.connected(l)
							l.fail(io.EOF)
							vs.Quiesce()
							e.broken(l)
						}
					}
				}},
			}
		},
		Bounds: "every pair of 256 message kinds with 5 lengths on every pair of 3 connections; every sequence of 4 (thorough 6) of 12 connection events (2 addresses, both directions, failing and completed handshakes of 2 versions) under 54 configurations",
	})

	remotes := []string{"", "x", "8.8.8.1", "8.8.8.1:99999", ":5", "8.8.8.1:5", "8.8.8.2:0", "8.8.8.4:65535", "[2001:db8::1]:5", "[::ffff:8.8.8.5]:5"}
	register(&Check{
		ID: "N04",
		Scenarios: func(th bool) []Scenario {
			d := 3
			if th {
				d = 4
			}
			// setup makes 8.8.8.2 hostile and runs the listener.
			setup := func(x *X) (*nEnv, *flisten) {
				vs.SetPoints(false)
				e := newNet(x, "/n", "8.8.8.9:6868", nVers)
				e.dispatch(true)
				l := e.join(rB, hsOf("wavesX", ver(1, 5, 0), "b", 1, nil))
				x.Check(l != nil && l.closed > 0, "the connection of a refused peer is not closed")
				fl := newListen()
				vs.H.Listen = func(_ context.Context, _, a string) (net.Listener, error) {
					x.Check(a == "0.0.0.0:6868", "listening on %s", a)
					return fl, nil
				}
				root.NewListener(tcp("0.0.0.0:6868"), tcp("8.8.8.9:6868"), e.cm).Run(e.ctx)
				vs.Quiesce()
				return e, fl
			}
			// judge tells whether one arrived connection was treated properly.
			judge := func(e *nEnv, c *fconn, inc int, faulty bool) {
				x := e.x
				served := len(e.n.inc) > inc
				ap, err := netip.ParseAddrPort(string(c.remote))
				switch {
				case err != nil || ap.Addr() == rB || faulty:
					x.Check(!served, "a connection from %q is served", c.remote)
					x.Check(c.closed > 0, "an unserved connection from %q is not closed", c.remote)
				case ap.Addr().Is4():
					x.Check(served && e.n.inc[inc].p.Conn == net.Conn(c), "a connection from %q is not served", c.remote)
				default:
					x.Check(served || c.closed > 0, "an unserved connection from %q is not closed", c.remote)
				}
			}
			return []Scenario{
				{Name: "arrivals", Opt: seqOpt, Run: func(x *X) {
					e, fl := setup(x)
					e.n.shake = shakeWith(hsOf(goodApp, ver(1, 5, 0), "a", 1, nil))
					for i := 0; i < d+2; i++ {
						if x.Seen(e.hash(), d+2-i) {
							return
						}
						k := x.Choose(len(remotes) + 1)
						if k == len(remotes) {
							x.Op("accept fails")
							fl.errs = 1
							k = x.Choose(len(remotes))
						}
						x.Op("connection from %q", remotes[k])
						c := &fconn{remote: fAddr(remotes[k])}
						n := len(e.n.inc)
						vs.SendC(fl.ch)(c)
						vs.Quiesce()
						judge(e, c, n, false)
						cs, err := e.re.r.Connections()
						x.Check(err == nil, "Connections: %v", err)
						listed := map[netip.Addr]bool{}
						for _, p := range cs {
							listed[p.AddressPort.Addr()] = true
						}
						for _, l := range e.n.links {
							if l.closed == 0 {
								x.Check(listed[l.addr.Addr()], "the connection of %s is neither admitted nor closed", l.addr)
							}
						}
						if a, err := netip.ParseAddrPort(remotes[k]); err == nil && a.Addr().Is4() && a.Addr() != rB {
							x.Check(listed[a.Addr()] && c.closed == 0, "%s is not admitted", a)
						}
					}
				}},
				{Name: "registry failures", Opt: vs.Options{Bound: 1, FreeCost: -1, SelCost: -1}, Run: func(x *X) {
					e, fl := setup(x)
					e.join(rA, hsOf(goodApp, ver(1, 5, 0), "a", 1, nil))
					l := e.join(rC, hsOf(goodApp, ver(1, 5, 0), "c", 1, nil))
					l.fail(io.EOF)
					vs.Quiesce()
					k := x.Choose(len(remotes) + 1)
					r := "8.8.8.3:77"
					if k > 0 {
						r = remotes[k-1]
					}
					e.n.shake = shakeWith(hsOf(goodApp, ver(1, []uint32{5, 1}[x.Choose(2)], 0), "a", 1, nil))
					early, late := false, false
					n := len(e.n.inc)
					vs.W.Fault = func(op string) error {
						if !early && !late && x.w.Choose(2, vs.KFault, 1) == 1 {
							early, late = len(e.n.inc) == n, len(e.n.inc) > n
							x.Op("storage failure at %q", op)
							return errDisk
						}
						return nil
					}
					out := x.Bool()
					x.Op("connection %q outgoing %v", r, out)
					c := &fconn{remote: fAddr(r)}
					m := len(e.n.links)
					if !out {
						vs.SendC(fl.ch)(c)
					} else {
						a, err := netip.ParseAddrPort(r)
						if err != nil {
							return
						}
						e.n.dial = func(context.Context, dialing) (proto.Handshake, error) { return e.n.shake(e.ctx, nil) }
						vs.Go(func() { _ = e.cm.Connect(e.ctx, proto.TCPAddr(*net.TCPAddrFromAddrPort(a))) })
					}
					vs.Quiesce()
					vs.W.Fault = nil
					if !out {
						judge(e, c, n, early)
					}
					cs, err := e.re.r.Connections()
					x.Check(err == nil, "Connections: %v", err)
					listed := map[netip.Addr]bool{}
					for _, p := range cs {
						listed[p.AddressPort.Addr()] = true
					}
					for i, l := range e.n.links {
						if i >= m && listed[l.addr.Addr()] != (l.closed == 0) && l.addr.Addr() != rA {
							x.Fail("connection of %s is closed: %v, admitted: %v", l.addr, l.closed > 0, listed[l.addr.Addr()])
						}
					}
					x.State(H(k, out, early, late, dbHash("/n/peers")))
				}},
				{Name: "attempts", Opt: seqOpt, Run: func(x *X) {
					e, _ := setup(x)
					as := []proto.TCPAddr{{}, {Port: 5}, {IP: net.IP{1, 2, 3}, Port: 5}, {IP: net.ParseIP("8.8.8.1"), Port: 70000}, {IP: net.ParseIP("8.8.8.1"), Port: -1},
						tcp("8.8.8.2:6868"), tcp("8.8.8.1:6868"), tcp("8.8.8.3:0")}
					hss := []proto.Handshake{hsOf(goodApp, ver(1, 5, 0), "a", 1, nil), hsOf("wavesX", ver(1, 5, 0), "a", 1, nil), hsOf(goodApp, ver(9, 5, 0), "a", 1, nil)}
					for i := 0; i < d; i++ {
						if x.Seen(e.hash(), d-i) {
							return
						}
						k, h := x.Choose(len(as)), x.Choose(len(hss)+1)
						e.n.dial = func(context.Context, dialing) (proto.Handshake, error) {
							if h == len(hss) {
								return proto.Handshake{}, errDial
							}
							return hss[h], nil
						}
						x.Op("attempt %s, handshake %d", as[k].String(), h)
						n := len(e.n.dials)
						var err error
						ended := false
						vs.Go(func() { err = e.cm.Connect(e.ctx, as[k]); ended = true })
						vs.Quiesce()
						a, perr := netip.ParseAddrPort(as[k].String())
						bad := perr != nil
						if !bad {
							_, ok := e.re.m.suggest(a.Addr())
							bad = !ok
						}
						if bad {
							x.Check(len(e.n.dials) == n, "the address %q is dialed", as[k].String())
							x.Check(ended && err != nil, "an impossible attempt reports no error")
							continue
						}
						x.Check(len(e.n.dials) == n+1 && e.n.dials[n].to == a, "the address %q is not dialed", as[k].String())
						if h == len(hss) {
							x.Check(ended && err != nil, "a failed attempt reports no error")
							continue
						}
						l := e.n.links[len(e.n.links)-1]
						ok := e.connected(l)
						x.Check((l.closed == 0) == ok, "admitted %v, closed %d times", ok, l.closed)
						if ok && x.Bool() {
							l.fail(io.EOF)
							vs.Quiesce()
							x.Check(l.closed > 0, "a failed connection is not closed")
							e.broken(l)
						}
					}
				}},
				{Name: "admission", Opt: seqOpt, Run: func(x *X) {
					vs.SetPoints(false)
					e := newNet(x, "/n", "8.8.8.9:6868", nVers)
					e.dispatch(true)
					hss := []proto.Handshake{hsOf(goodApp, ver(1, 5, 0), "a", 1, nil), hsOf(goodApp, ver(1, 3, 9), "a", 1, nil), hsOf(goodApp, ver(1, 6, 0), "a", 2, declAddr("8.8.8.1", 6868)),
						hsOf("wavesX", ver(1, 5, 0), "a", 1, nil), hsOf("", ver(1, 5, 0), "a", 1, nil), hsOf(goodApp, ver(2, 5, 0), "a", 1, nil),
						hsOf(goodApp, ver(1, 5, 0), "a", 1, declAddr("127.0.0.1", 6868)), hsOf(goodApp, ver(1, 5, 0), "a\xff", 1, nil), hsOf(goodApp, ver(1, 5, 0), "a", 1, declAddr("2001:db8::1", 6868))}
					as := []netip.Addr{rA, rB, rS}
					dd := d
					if !th {
						dd = 3
					}
					for i := 0; i < dd; i++ {
						if x.Seen(e.hash(), dd-i) {
							return
						}
						k := x.Choose(len(hss) + 1)
						if k == len(hss) {
							if len(e.n.links) == 0 {
								continue
							}
							l := e.n.links[len(e.n.links)-1]
							if len(e.n.links) > 1 && e.n.links[len(e.n.links)-2].ctx.Err() == nil && x.Bool() {
								l = e.n.links[len(e.n.links)-2]
							}
							if l.ctx.Err() == nil {
								x.Op("%s fails", l.addr)
								l.fail(io.EOF)
								vs.Quiesce()
								x.Check(l.closed > 0, "a failed connection is not closed")
								e.broken(l)
								l.told = true
							}
						} else {
							a := as[x.Choose(len(as))]
							before := map[*link]bool{}
							for _, l := range e.n.links {
								before[l] = l.closed > 0
							}
							_, ok := e.re.m.clone().suggest(a)
							e.joined(a, hss[k], ok)
							for l, c := range before {
								x.Check(c == (l.closed > 0), "the connection %s of an admitted peer is closed", l.addr)
							}
						}
						if e.fresh() {
							e.re.cmp()
						}
					}
				}},
				{Name: "two at once", Opt: vs.Options{Bound: 2, FreeCost: 1, SelCost: 1}, Delays: 1, Run: func(x *X) {
					vs.SetPoints(false)
					e := newNet(x, "/n", "8.8.8.9:6868", nVers)
					e.dispatch(true)
					hss := []proto.Handshake{hsOf(goodApp, ver(1, 5, 0), "a", 1, nil), hsOf("wavesX", ver(1, 5, 0), "x", 1, nil), hsOf(goodApp, ver(7, 5, 0), "y", 1, nil), hsOf(goodApp, ver(1, 5, 0), "z", 1, declAddr("127.0.0.1", 5))}
					h := [2]int{x.Choose(len(hss)), x.Choose(len(hss))}
					same := x.Bool()
					vs.SetPoints(true)
					n := 0
					cs := make([]*fconn, 2)
					for i := range cs {
						r := "8.8.8.1:500"
						if i == 1 && !same {
							r = "8.8.8.2:500"
						}
						cs[i] = &fconn{remote: fAddr(r + fmt.Sprint(i))}
					}
					e.n.shake = func(_ context.Context, c net.Conn) (proto.Handshake, error) {
						if c == net.Conn(cs[0]) {
							return hss[h[0]], nil
						}
						return hss[h[1]], nil
					}
					for i := range cs {
						i := i
						vs.Go(func() { n++; _ = e.cm.Accept(e.ctx, cs[i]) })
					}
					vs.WaitFor("connections", func() bool { return n == 2 })
					vs.Quiesce()
					vs.SetPoints(false)
					vs.Quiesce()
					conns, err := e.re.r.Connections()
					x.Check(err == nil, "Connections: %v", err)
					listed := map[netip.Addr]bool{}
					for _, p := range conns {
						listed[p.AddressPort.Addr()] = true
					}
					open := map[netip.Addr]int{}
					for i, c := range cs {
						a := netip.MustParseAddrPort(string(c.remote)).Addr()
						if c.closed == 0 {
							x.Check(h[i] == 0, "the connection of a refused peer is not closed")
							open[a]++
						}
						if c.closed > 0 && h[i] == 0 {
							x.Check(same && h[1-i] != 0, "the connection of an acceptable peer is closed")
						}
					}
					for _, a := range []netip.Addr{rA, rB} {
						x.Check(listed[a] == (open[a] > 0), "%s is listed: %v, has %d open connections", a, listed[a], open[a])
					}
					x.State(H(h[0], h[1], same, fmt.Sprint(open)))
				}},
			}
		},
		Bounds: "every sequence of 5 (thorough 6) arrivals from 10 remote addresses with failing accepts; one storage failure at any call of any of 11 arrivals or attempts; every sequence of 3 (4) attempts to 8 addresses with 4 outcomes; every sequence of 3 (4) events of 3 addresses with 9 handshakes; two simultaneous connections with 4 handshakes each under every interleaving with up to 2 deviations",
	})

	register(&Check{
		ID: "N05",
		Scenarios: func(th bool) []Scenario {
			// world starts a registry with addresses, a dispatcher and the dialing component.
			world := func(x *X, addrs ...string) *nEnv {
				vs.SetPoints(false)
				e := newNet(x, "/n", "8.8.8.9:6868", nVers)
				var l []*net.TCPAddr
				for _, a := range addrs {
					l = append(l, net.TCPAddrFromAddrPort(ap(a)))
				}
				e.re.appendAddrs(l...)
				e.dispatch(true)
				root.NewRespawn(e.re.r, e.cm).Run(e.ctx)
				return e
			}
			const step = 5
			// run compares the dials with the model during the given number of seconds.
			run := func(e *nEnv, secs int, plan func(a netip.Addr, n int) int, late func(t int)) {
				x := e.x
				type event struct {
					t  int
					do func()
				}
				var evs []event
				cnt := map[netip.Addr]int{}
				t := 0
				e.n.dial = func(ctx context.Context, d dialing) (proto.Handshake, error) {
					a := d.to.Addr()
					n := cnt[a]
					cnt[a]++
					hs := hsOf(goodApp, d.ver, "n"+a.String(), 3, declAddr(a.String(), int(d.to.Port())))
					up := func(after int, hs proto.Handshake) {
						t0 := t
						k := len(e.n.links)
						evs = append(evs, event{t0 + after, func() {
							var l *link
							for _, o := range e.n.links[min(k, len(e.n.links)):] {
								if o.addr == d.to {
									l = o
								}
							}
							x.Check(l != nil, "the connection to %s is lost", d.to)
							e.re.fakes = append(e.re.fakes, l.fpeer)
							ok := e.connected(l)
							x.Check(ok == (l.closed == 0), "connection to %s: admitted %v, closed %d times", d.to, ok, l.closed)
						}})
					}
					switch k := plan(a, n); k {
					case 0: // refused at once
						evs = append(evs, event{t, func() { e.re.m.failed(a) }})
						return proto.Handshake{}, errDial
					case 1: // times out
						evs = append(evs, event{t + 5, func() { e.re.m.failed(a) }})
						vs.Sleep(5 * time.Second)
						return proto.Handshake{}, errDial
					case 2: // never answers
						vs.Recv(ctx.Done())
						return proto.Handshake{}, ctx.Err()
					case 3: // connects
						up(0, hs)
						return hs, nil
					case 4: // connects and fails 15 seconds later
						up(0, hs)
						k := len(e.n.links)
						evs = append(evs, event{t + 15, func() { e.broken(e.n.links[k]) }})
						vs.Go(func() {
							vs.Sleep(15 * time.Second)
							for _, l := range e.n.links[k:] {
								if l.addr == d.to {
									l.fail(io.EOF)
								}
							}
						})
						return hs, nil
					case 5: // a slow handshake that fails
						evs = append(evs, event{t + 35, func() { e.re.m.failed(a) }})
						vs.Sleep(35 * time.Second)
						return proto.Handshake{}, io.EOF
					case 6: // a node of another network
						hs.AppName = "wavesX"
						up(0, hs)
						return hs, nil
					}
					return proto.Handshake{}, errors.New("unexpected plan")
				}
				for t = step; t <= secs; t += step {
					n := len(e.n.dials)
					x.Op("%d s", t)
					vs.Advance(step * time.Second)
					var want []string
					if t%10 == 0 {
						for _, a := range e.re.m.take() {
							v, ok := e.re.m.suggest(a.Addr())
							x.Check(ok, "a hostile address is eligible")
							want = append(want, a.String()+" "+v.String())
						}
					}
					var got []string
					for _, d := range e.n.dials[n:] {
						got = append(got, d.to.String()+" "+d.ver.String())
					}
					sort.Strings(got)
					sort.Strings(want)
					x.Check(fmt.Sprint(got) == fmt.Sprint(append([]string(nil), want...)), "after %d s %v are dialed, expected %v", t, got, want)
					for i := 0; i < len(evs); {
						if evs[i].t > t {
							i++
							continue
						}
						x.Check(evs[i].t == t, "missed event")
						f := evs[i].do
						evs = append(evs[:i:i], evs[i+1:]...)
						f()
					}
					if late != nil {
						late(t)
					}
				}
				e.re.cmp()
				x.State(e.hash())
			}
			return []Scenario{
				{Name: "attempts", Opt: seqOpt, Run: func(x *X) {
					e := world(x, "8.8.8.1:6868", "8.8.8.2:1")
					secs := 660
					if th {
						secs = 1290
					}
					run(e, secs, func(netip.Addr, int) int { return x.Choose(7) }, nil)
				}},
				{Name: "many attempts", Opt: seqOpt, Run: func(x *X) {
					e := world(x, "8.8.8.1:6868", "8.8.8.2:1", "8.8.8.3:6868")
					p := map[netip.Addr][2]int{}
					for _, a := range []netip.Addr{rA, rB, rC} {
						if a == rC && !th {
							k := x.Choose(7)
							p[a] = [2]int{k, k}
							continue
						}
						p[a] = [2]int{x.Choose(7), x.Choose(7)}
					}
					secs := 2000
					if th {
						secs = 4000
					}
					run(e, secs, func(a netip.Addr, n int) int { return p[a][n%2] }, nil)
				}},
				{Name: "new addresses", Opt: seqOpt, Run: func(x *X) {
					e := world(x, "8.8.8.1:6868")
					at := []int{5, 15, 20, 605}[x.Choose(4)]
					pl := [3]int{x.Choose(7), x.Choose(7), x.Choose(7)}
					in := x.Choose(5)
					run(e, 700, func(a netip.Addr, n int) int {
						switch a {
						case rA:
							return pl[0]
						case rB:
							return pl[1]
						}
						return pl[2]
					}, func(t int) {
						if t != at {
							return
						}
						switch in {
						case 0:
							e.re.appendAddrs(tcpAddr("8.8.8.2", 6868))
						case 1: // learnt from a peer
							l := e.join(rC, hsOf(goodApp, ver(1, 5, 0), "c", 1, nil))
							m := peersMsg("8.8.8.2:6868", "8.8.8.1:1", "8.8.8.9:6868", "127.0.0.1:5", "8.8.8.5:0")
							l.recv(m)
							vs.Quiesce()
							e.expect(l, m)
						case 2: // declared by an incoming connection that fails
							l := e.join(rB, hsOf(goodApp, ver(1, 5, 0), "c", 1, declAddr("8.8.8.2", 7)))
							l.fail(io.EOF)
							vs.Quiesce()
							e.broken(l)
						case 4: // the dialed peer connects to us
							e.join(rA, hsOf(goodApp, ver(1, 5, 0), "a", 1, declAddr("8.8.8.1", 6868)))
						case 3: // an incoming connection of a dialed peer
							l := e.join(rC, hsOf(goodApp, ver(1, 5, 0), "c", 1, declAddr("8.8.8.3", 7)))
							_ = l
							e.re.appendAddrs(tcpAddr("8.8.8.3", 8), tcpAddr("8.8.8.2", 8))
						}
					})
				}},
				{Name: "many addresses", Opt: seqOpt, Run: func(x *X) {
					k := []int{0, 1, 20, 300}[x.Choose(4)]
					var as []string
					for i := 0; i < k; i++ {
						as = append(as, fmt.Sprintf("9.9.%d.%d:6868", i/200, i%200+1))
					}
					e := world(x, as...)
					o := x.Choose(7)
					run(e, 640, func(a netip.Addr, n int) int {
						if a.As4()[3]%2 == 0 {
							return 2
						}
						return o
					}, nil)
				}},
				{Name: "storage failures", Opt: vs.Options{Bound: 1, FreeCost: -1, SelCost: -1}, Run: func(x *X) {
					e := world(x, "8.8.8.1:6868", "8.8.8.2:1")
					n, start := 0, vs.W.Now
					vs.W.Fault = func(op string) error {
						if n < 1 && vs.W.Now.Sub(start) < 640*time.Second && x.w.Choose(2, vs.KFault, 1) == 1 {
							n++
							x.Op("storage failure at %q", op)
							return errDisk
						}
						return nil
					}
					pl := x.Choose(5)
					e.n.dial = func(ctx context.Context, d dialing) (proto.Handshake, error) {
						hs := hsOf(goodApp, d.ver, "n", 3, declAddr(d.to.Addr().String(), int(d.to.Port())))
						switch pl {
						case 0:
							return hs, errDial
						case 1:
							vs.Sleep(5 * time.Second)
							return hs, errDial
						case 2:
							vs.Sleep(35 * time.Second)
							return hs, errDial
						case 3:
							hs.Version = ver(1, 5, 0)
						}
						k := len(e.n.links)
						vs.Go(func() {
							vs.Sleep(15 * time.Second)
							for _, l := range e.n.links[k:] {
								if l.addr == d.to && l.ctx.Err() == nil {
									l.fail(io.EOF)
								}
							}
						})
						return hs, nil
					}
					for n == 0 && vs.W.Now.Sub(start) < 640*time.Second {
						vs.Advance(10 * time.Second)
					}
					vs.W.Fault = nil
					// The attempt during which the failure occurred may have been lost.
					vs.Advance(1300 * time.Second)
					for _, a := range []netip.Addr{rA, rB} {
						var last time.Time
						for _, d := range e.n.dials {
							if d.to.Addr() == a {
								last = d.at
							}
						}
						// The attempt takes at most 35 s, the delay is 600 s, rounds are 10 s apart.
						x.Check(vs.W.Now.Sub(last) <= 650*time.Second, "%s is not dialed any more after a storage failure", a)
					}
					cs, err := e.re.r.Connections()
					x.Check(err == nil, "Connections: %v", err)
					for _, p := range cs {
						live := false
						for _, l := range e.n.links {
							live = live || l.addr == p.AddressPort && l.closed == 0
						}
						x.Check(live, "%s is listed as connected but has no connection", p.AddressPort)
					}
					x.State(H(pl, n, dbHash("/n/peers")))
				}},
				{Name: "interleaved", Opt: vs.Options{Bound: 2, FreeCost: 1, SelCost: 1}, Delays: 1, Run: func(x *X) {
					e := world(x, "8.8.8.1:6868", "8.8.8.2:1")
					pl := [2]int{x.Choose(4), x.Choose(4)}
					e.n.dial = func(ctx context.Context, d dialing) (proto.Handshake, error) {
						k := pl[0]
						if d.to.Addr() == rB {
							k = pl[1]
						}
						hs := hsOf(goodApp, d.ver, "n", 3, declAddr(d.to.Addr().String(), int(d.to.Port())))
						switch k {
						case 0:
							return hs, errDial
						case 1:
							vs.Sleep(10 * time.Second) // just when the next round starts
							return hs, errDial
						case 2:
							vs.Recv(ctx.Done())
							return hs, ctx.Err()
						}
						return hs, nil
					}
					vs.Advance(9 * time.Second)
					vs.SetPoints(true)
					vs.Advance(12 * time.Second)
					vs.SetPoints(false)
					vs.Advance(580 * time.Second)
					x.Check(len(e.n.dials) == 2, "%d attempts in the first 10 minutes", len(e.n.dials))
					vs.Advance(30 * time.Second)
					n := 2
					for _, k := range pl {
						if k < 2 {
							n++
						}
					}
					x.Check(len(e.n.dials) == n, "%d attempts, expected %d", len(e.n.dials), n)
					x.State(H(pl[0], pl[1], dbHash("/n/peers")))
				}},
			}
		},
		Bounds: "two addresses with 7 outcomes of every attempt for 11 (thorough 21) minutes; three addresses with alternating outcomes for 33 (thorough 66) minutes; addresses appearing at 4 moments in 4 ways with 7 outcomes each; up to 300 addresses; one storage failure at any call within 11 minutes of dialing with 5 outcomes; every interleaving with up to 2 deviations of the first two rounds",
	})

}

// joined lets a node connect and compares whether it was served and admitted.
func (e *nEnv) joined(a netip.Addr, hs proto.Handshake, served bool) {
	x := e.x
	n := len(e.n.links)
	l := e.connect(a, hs)
	x.Check((len(e.n.links) > n) == served, "connection of %s served: %v, expected %v", a, len(e.n.links) > n, served)
	if l == nil {
		return
	}
	ok := e.connected(l)
	x.Check(ok == (l.closed == 0), "connection of %s: acceptable %v, closed %d times", a, ok, l.closed)
}
