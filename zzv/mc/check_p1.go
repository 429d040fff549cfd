package main

import (
	"fmt"
	"net"
	"net/netip"

	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/peers"
)

// Checks P01-P06: the peer registry against its model.

var regVers = []proto.Version{ver(1, 4, 0), ver(1, 5, 0), ver(1, 3, 0)}

const selfAP = "8.8.8.9:6868"

// rop is one registry call.
type rop struct {
	name string
	do   func(e *rEnv)
}

// ropsReg explores every sequence of the operations up to depth, comparing after each.
func ropsReg(name string, d int, mk func(x *X) *rEnv, ops []rop) Scenario {
	return Scenario{Name: name, Run: func(x *X) {
		e := mk(x)
		for i := 0; i < d; i++ {
			if x.Seen(e.hash(), d-i) {
				return
			}
			o := ops[x.Choose(len(ops))]
			o.do(e)
			if e.fresh() {
				e.cmp()
			}
		}
		if x.Seen(e.hash(), 0) {
			return
		}
		e.settle()
	}}
}

func opSuggest(a netip.Addr) rop { return rop{"suggest", func(e *rEnv) { e.suggest(a) }} }
func opUnreg(a netip.Addr) rop   { return rop{"unregister", func(e *rEnv) { e.unregister(a) }} }
func opHostile(a netip.Addr) rop { return rop{"hostile", func(e *rEnv) { e.hostile(a) }} }
func opScore(a netip.Addr, s string) rop {
	return rop{"score", func(e *rEnv) { e.score(a, s) }}
}
func opTake() rop         { return rop{"take", func(e *rEnv) { e.take() }} }
func opAdvance(s int) rop { return rop{"advance", func(e *rEnv) { e.advance(s) }} }
func opReopen() rop       { return rop{"reopen", func(e *rEnv) { e.reopen() }} }
func opAppend(l ...*net.TCPAddr) rop {
	return rop{"append", func(e *rEnv) { e.appendAddrs(l...) }}
}

// opConnect is a connection attempt as the service makes it: a version is suggested, then the handshake is judged.
func opConnect(a netip.Addr, delta int, app, name string, port int) rop {
	return rop{"connect", func(e *rEnv) {
		v, ok := e.suggest(a)
		if !ok {
			v = ver(1, 5, 0)
		}
		e.judge(a, delta, app, name, port, v)
	}}
}

// opHandshake judges a handshake against whatever is recorded (the address must be recorded).
func opHandshake(a netip.Addr, delta int, app, name string, port int) rop {
	return rop{"handshake", func(e *rEnv) {
		p, ok := e.m.recs[a]
		v := p.ver
		if !ok || v == ver(0, 0, 0) && p.state == peers.PeerUnknown {
			v, _ = e.suggest(a)
		}
		e.judge(a, delta, app, name, port, v)
	}}
}

func (e *rEnv) judge(a netip.Addr, delta int, app, name string, port int, v proto.Version) {
	v = ver(v.Major(), uint32(max(0, int(v.Minor())+delta)), v.Patch())
	var d *proto.HandshakeTCPAddr
	if port > 0 {
		d = declAddr(a.String(), port)
	}
	e.register(a, hsOf(app, v, name, uint64(a.As4()[3])*10+uint64(len(name)), d))
}

func init() {
	register(&Check{
		ID: "P01",
		Scenarios: func(th bool) []Scenario {
			v4in6 := netip.AddrFrom16(rA.As16())
			addrs := []netip.Addr{rA, rS, ip("127.0.0.1"), v4in6, ip("2001:db8::1"), {}}
			apps := []string{goodApp, "wavesX", "", string(rune(scheme)), goodApp + "x", "waves", "wavesw", "WavesW"}
			names := []string{"node", "", "b\xffd", "Ünï"}
			type vd struct{ maj, min, patch int }
			vds := []vd{{0, 0, 0}, {0, 0, 7}, {0, 1, 0}, {0, -1, 0}, {0, 2, 0}, {0, -2, 0}, {1, 0, 0}, {-1, 0, 0}, {0, 1, 3}, {1, 1, 0}}
			decls := []*proto.HandshakeTCPAddr{nil, declAddr("8.8.8.1", 6863), declAddr("8.8.8.1", 0), declAddr("8.8.8.1", 70000), declAddr("8.8.8.1", 65535),
				declAddr("8.8.8.2", 6863), declAddr("127.0.0.1", 6863), declAddr("127.9.9.9", 6863), declAddr("2001:db8::1", 6863), declAddr("::1", 6863), declAddr("0.0.0.0", 6863), declAddr("8.8.8.9", 6868),
				{IP: net.IP{8, 8, 8, 1}, Port: 6863}, {IP: net.IP{1, 2, 3}, Port: 1}}
			setups := []func(e *rEnv, a netip.Addr){
				func(e *rEnv, a netip.Addr) { e.suggest(a) },
				func(e *rEnv, a netip.Addr) { e.suggest(a); e.suggest(a); e.suggest(a) },
				func(e *rEnv, a netip.Addr) {
					e.appendAddrs(net.TCPAddrFromAddrPort(netip.AddrPortFrom(a, 6863)))
					e.take()
					e.suggest(a)
				},
				func(e *rEnv, a netip.Addr) { e.suggest(a); e.hostile(a) },
				func(e *rEnv, a netip.Addr) {
					v, _ := e.suggest(a)
					e.register(a, hsOf(goodApp, v, "old", 5, declAddr(a.String(), 6000)))
				},
				func(e *rEnv, a netip.Addr) {
					v, _ := e.suggest(a)
					e.register(a, hsOf(goodApp, v, "old", 5, declAddr(a.String(), 6000)))
					e.unregister(a)
					e.advance(redial)
					e.take()
				},
				func(e *rEnv, a netip.Addr) {
					v, _ := e.suggest(a)
					e.register(a, hsOf("wavesX", v, "bad", 5, nil))
				},
				func(e *rEnv, a netip.Addr) {
					v, _ := e.suggest(a)
					e.register(a, hsOf(goodApp, ver(v.Major(), v.Minor()+1, 2), "newer", 5, nil))
					e.score(a, "77")
					e.unregister(a)
				},
			}
			again := func(e *rEnv, a netip.Addr) {
				if e.fresh() {
					e.cmp()
				}
				e.x.State(e.hash())
			}
			run := func(x *X, e *rEnv, a netip.Addr, app, name string, d vd, decl *proto.HandshakeTCPAddr) {
				v := ver(1, 5, 0)
				if p, ok := e.m.recs[a]; ok {
					v = p.ver
				}
				hv := ver(uint32(int(v.Major())+d.maj), uint32(int(v.Minor())+d.min), uint32(d.patch))
				e.register(a, hsOf(app, hv, name, 1<<63+9, decl))
				again(e, a)
			}
			usable := func(a netip.Addr) bool { return a.Is4() }
			return []Scenario{
				{Name: "one handshake in every situation", Run: func(x *X) {
					e := newReg(x, selfAP, regVers, rA, rB)
					a := addrs[x.Choose(len(addrs))]
					s := setups[x.Choose(len(setups))]
					if usable(a) && a != rS {
						s(e, a)
					}
					run(x, e, a, apps[x.Choose(len(apps))], names[x.Choose(len(names))], vds[x.Choose(len(vds))], decls[x.Choose(len(decls))])
					if x.Choose(2) == 1 {
						e.reopen()
						e.cmp()
					}
				}},
				{Name: "two handshakes", Run: func(x *X) {
					e := newReg(x, selfAP, regVers, rA, rB)
					setups[x.Choose(3)](e, rA)
					k := len(decls)
					for i := 0; i < 2; i++ {
						run(x, e, rA, apps[x.Choose(2)], names[x.Choose(3)], vds[x.Choose(8)], decls[x.Choose(k)])
						k = 7
					}
				}},
				{Name: "no declared address of our own", Run: func(x *X) {
					e := newReg(x, "", regVers, rA, rB)
					e.badEnd = x.Bool()
					a := []netip.Addr{rA, rS, {}}[x.Choose(3)]
					if usable(a) {
						setups[x.Choose(len(setups))](e, a)
					}
					run(x, e, a, apps[x.Choose(2)], names[x.Choose(3)], vds[x.Choose(len(vds))], decls[x.Choose(len(decls))])
				}},
				{Name: "version extremes", Run: func(x *X) {
					// The recorded version comes from an earlier admission.
					e := newReg(x, selfAP, []proto.Version{ver(0, 0, 0), ver(0, 1, 0), ver(1, 0, 0)}, rA)
					for i := x.Choose(4); i >= 0; i-- {
						e.suggest(rA)
					}
					vals := []uint32{0, 1, 2, 3, 7, 65535, 65537, 1 << 31, 1<<32 - 2}
					for i := 0; i < 2; i++ {
						e.register(rA, hsOf(goodApp, ver(vals[x.Choose(3)], vals[x.Choose(len(vals))], vals[x.Choose(2)*8]), "n", 1, nil))
						e.cmp()
					}
				}},
			}
		},
		Bounds: "every handshake built from 6 addresses, 8 recorded situations, 8 application names, 4 node names, 10 versions and 14 declared addresses; every pair of successive handshakes over 2 application names, 3 names, 8 versions and 14 and 7 declared addresses after 3 situations; closing of connections reporting an error or not",
		Assume: []string{"a version is suggested for an address before its handshake is judged, as the connection manager does"},
	})

	register(&Check{
		ID: "P02",
		Scenarios: func(th bool) []Scenario {
			d := 7
			if th {
				d = 9
			}
			ops := []rop{
				opHostile(rA),
				opConnect(rA, 0, goodApp, "good", 6863),
				opHandshake(rA, 2, goodApp, "bad", 6863),
				opHandshake(rA, 0, "wavesX", "bad", 6863),
				opHandshake(rA, 0, goodApp, "good", 6863),
				opUnreg(rA), opScore(rA, "100000000000000000000000"),
				opAppend(tcpAddr("8.8.8.1", 7000), tcpAddr("8.8.8.2", 7000)),
				opSuggest(rA), opTake(), opAdvance(redial), opReopen(),
				opConnect(rB, 0, goodApp, "other", 6864),
			}
			return []Scenario{ropsReg("every sequence", d, func(x *X) *rEnv { return newReg(x, selfAP, regVers, rA, rB) }, ops),
				ropsReg("after being marked", d, func(x *X) *rEnv {
					e := newReg(x, selfAP, regVers, rA, rB)
					switch x.Choose(4) {
					case 0:
						e.hostile(rA)
					case 1:
						v, _ := e.suggest(rA)
						e.register(rA, hsOf(goodApp, v, "good", 1, declAddr("8.8.8.1", 6863)))
						e.hostile(rA)
					case 2:
						v, _ := e.suggest(rA)
						e.register(rA, hsOf(goodApp, v, "good", 1, declAddr("8.8.8.1", 6863)))
						e.register(rA, hsOf("wavesX", v, "good", 1, declAddr("8.8.8.1", 6863)))
					case 3:
						e.appendAddrs(tcpAddr("8.8.8.1", 6863))
						v, _ := e.suggest(rA)
						e.register(rA, hsOf(goodApp, ver(v.Major()+1, 0, 0), "bad", 1, nil))
					}
					return e
				}, ops)}
		},
		Bounds: "every sequence of up to 7 (thorough 9) of 13 calls on 2 addresses, from an empty registry and from 4 ways of becoming hostile; afterwards everything is read and dial candidates are drawn now, just before and at the end of the delay",
	})

	register(&Check{
		ID: "P03",
		Scenarios: func(th bool) []Scenario {
			d := 6
			if th {
				d = 8
			}
			ops := []rop{
				opAppend(tcpAddr("8.8.8.1", 6863), tcpAddr("8.8.8.2", 6864)),
				opAppend(tcpAddr("8.8.8.3", 6865), tcpAddr("8.8.8.9", 6868)),
				opTake(),
				opSuggest(rA), opSuggest(rB),
				opHandshake(rA, 0, goodApp, "alpha", 6863),
				opHandshake(rA, 0, goodApp, "b\xffd", 6863),
				opHandshake(rB, 0, goodApp, "beta", 6870),
				opHandshake(rB, 0, goodApp, "beta", 0),
				opUnreg(rA), opUnreg(rB), opHostile(rB), opUnreg(rC),
				opAdvance(1), opAdvance(redial - 1),
				opReopen(),
			}
			return []Scenario{
				ropsReg("every sequence", d, func(x *X) *rEnv { return newReg(x, selfAP, regVers, rA, rB, rC, rS) }, ops),
				ropsReg("addresses already known", d, func(x *X) *rEnv {
					e := newReg(x, selfAP, regVers, rA, rB, rC, rS)
					e.appendAddrs(tcpAddr("8.8.8.1", 6863), tcpAddr("8.8.8.2", 6864))
					v, _ := e.suggest(rC)
					e.register(rC, hsOf(goodApp, v, "gamma", 3, declAddr("8.8.8.3", 1)))
					e.unregister(rC)
					return e
				}, ops),
				ropsReg("our own address recorded before it was declared", d-1, func(x *X) *rEnv {
					e := newReg(x, "", regVers, rA, rS)
					e.appendAddrs(tcpAddr("8.8.8.9", 6868), tcpAddr("8.8.8.1", 6863))
					e.declared = selfAP
					e.m.declared = rS
					e.reopen()
					return e
				}, ops[2:]),
			}
		},
		Bounds: "every sequence of up to 6 (thorough 8) of 16 calls on 3 addresses with time steps of 1 s and 599 s, from three initial registries; afterwards candidates are drawn now, just before and at the end of the delay",
	})

	register(&Check{
		ID: "P04",
		Scenarios: func(th bool) []Scenario {
			d := 6
			if th {
				d = 8
			}
			ops := []rop{
				opConnect(rA, 0, goodApp, "beta", 6863), opConnect(rA, 1, goodApp, "Alpha", 0), opHandshake(rA, 0, goodApp, "x\xff", 1), opHandshake(rA, 0, "wavesX", "no", 1),
				opConnect(rB, 0, goodApp, "alpha", 6864), opConnect(rB, 0, goodApp, "BETA", 6864),
				opConnect(rC, 0, goodApp, "Zeta", 6864), opConnect(rC, 0, goodApp, "aardvark", 0),
				opUnreg(rA), opUnreg(rB), opUnreg(rC), opScore(rA, "12345678901234567890123"), opScore(rB, "5"), opHostile(rA),
				opReopen(),
			}
			return []Scenario{ropsReg("every sequence", d, func(x *X) *rEnv { return newReg(x, selfAP, regVers, rA, rB, rC) }, ops),
				ropsReg("three connected peers", d-1, func(x *X) *rEnv {
					e := newReg(x, selfAP, regVers, rA, rB, rC)
					ops[0].do(e)
					ops[4].do(e)
					ops[6].do(e)
					return e
				}, ops)}
		},
		Bounds: "every sequence of up to 6 (thorough 8) of 15 calls on 3 addresses; after each call all listings are read, a message is sent through every listed peer and one is broadcast",
	})

	register(&Check{
		ID: "P05",
		Scenarios: func(th bool) []Scenario {
			d := 7
			if th {
				d = 9
			}
			cfgs := [][]proto.Version{
				{ver(1, 4, 0), ver(1, 5, 0), ver(1, 3, 0)},
				{ver(1, 5, 0)},
				{ver(1, 4, 1), ver(1, 5, 2), ver(1, 4, 9), ver(1, 5, 1)},
				{ver(0, 16, 0), ver(1, 5, 7), ver(1, 2, 0), ver(2, 0, 0), ver(1, 5, 3)},
				{ver(1, 10, 0), ver(1, 9, 9), ver(1, 2, 0), ver(1, 1, 0)},
			}
			ops := []rop{opSuggest(rA), opSuggest(rB),
				opHandshake(rA, 0, goodApp, "n", 6863), opHandshake(rA, 1, goodApp, "n", 6863), opHandshake(rA, -1, goodApp, "n", 6863), opHandshake(rA, 2, goodApp, "n", 6863), opHandshake(rA, 0, goodApp, "x\xff", 6863),
				opAppend(tcpAddr("8.8.8.1", 6863)), opUnreg(rA), opHostile(rA), opTake(), opAdvance(60), opAdvance(redial), opReopen()}
			s := []Scenario{
				{Name: "repeated suggestions", Run: func(x *X) {
					// Every list of up to four versions over a small alphabet.
					al := []proto.Version{ver(1, 5, 0), ver(1, 5, 3), ver(1, 4, 0), ver(1, 3, 0), ver(2, 5, 0), ver(0, 5, 1)}
					n := 1 + x.Choose(4)
					var l []proto.Version
					for i := 0; i < n; i++ {
						l = append(l, al[x.Choose(len(al))])
					}
					e := newReg(x, selfAP, l, rA)
					if x.Bool() {
						e.appendAddrs(tcpAddr("8.8.8.1", 6863))
					}
					for i := 0; i < 2*len(e.m.versions)+1; i++ {
						e.suggest(rA)
						if i == n {
							e.reopen()
						}
						e.cmp()
						e.x.State(e.hash())
					}
				}},
			}
			for i, c := range cfgs {
				c := c
				dd := d
				if i > 0 {
					dd--
				}
				s = append(s, ropsReg(fmt.Sprintf("every sequence, versions %v", c), dd, func(x *X) *rEnv { return newReg(x, selfAP, c, rA, rB) }, ops))
			}
			return s
		},
		Bounds: "every list of 1 to 4 configured versions over 6, cycled through twice; every sequence of up to 7 (thorough 9) of 14 calls for 5 configurations",
	})

	register(&Check{
		ID: "P06",
		Scenarios: func(th bool) []Scenario {
			al := []*net.TCPAddr{tcpAddr("8.8.8.1", 6863), tcpAddr("8.8.8.1", 7000), {IP: net.IP{8, 8, 8, 1}, Port: 6865}, tcpAddr("8.8.8.2", 1), tcpAddr("8.8.8.3", 0), tcpAddr("8.8.8.4", 65535),
				tcpAddr("127.0.0.1", 6863), tcpAddr("127.1.2.3", 6863), tcpAddr("8.8.8.9", 6868), tcpAddr("8.8.8.9", 1), tcpAddr("2001:db8::1", 6863), tcpAddr("::1", 6863), {}, {IP: net.IP{1, 2, 3}, Port: 5}, tcpAddr("8.8.8.5", 70000), tcpAddr("8.8.8.5", -1), nil,
				{IP: net.ParseIP("fe80::1"), Zone: "eth0", Port: 6863}}
			setups := []func(e *rEnv){
				func(e *rEnv) {},
				func(e *rEnv) { e.suggest(rA) },
				func(e *rEnv) { opConnect(rA, 0, goodApp, "n", 7777).do(e) },
				func(e *rEnv) { opConnect(rA, 0, goodApp, "n", 0).do(e); e.score(rA, "9"); e.unregister(rA) },
				func(e *rEnv) { e.hostile(rA) },
				func(e *rEnv) { e.appendAddrs(tcpAddr("8.8.8.1", 9999)); e.take() },
				func(e *rEnv) { e.appendAddrs(tcpAddr("8.8.8.1", 9999)); e.take(); e.suggest(rA); e.unregister(rA) },
			}
			k := 3
			if th {
				k = 4
			}
			return []Scenario{
				{Name: "every list", Run: func(x *X) {
					e := newReg(x, selfAP, regVers, rA, rB, rC, rS, ip("8.8.8.4"), ip("8.8.8.5"))
					setups[x.Choose(len(setups))](e)
					var l []*net.TCPAddr
					for i := x.Choose(k + 1); i > 0; i-- {
						l = append(l, al[x.Choose(len(al))])
					}
					e.appendAddrs(l...)
					e.cmp()
					x.State(e.hash())
					e.take()
				}},
				{Name: "two lists", Run: func(x *X) {
					e := newReg(x, selfAP, regVers, rA, rB, rC, rS, ip("8.8.8.4"), ip("8.8.8.5"))
					setups[x.Choose(len(setups))](e)
					small := []*net.TCPAddr{al[0], al[1], al[3], al[4], al[6], al[8], al[10], al[12]}
					for r := 0; r < 2; r++ {
						var l []*net.TCPAddr
						for i := x.Choose(3); i > 0; i-- {
							l = append(l, small[x.Choose(len(small))])
						}
						e.appendAddrs(l...)
						if r == 0 && x.Bool() {
							e.reopen()
						}
					}
					e.cmp()
					x.State(e.hash())
					e.settle()
				}},
				{Name: "no declared address of our own", Run: func(x *X) {
					e := newReg(x, "", regVers, rA, rB, rC, rS)
					for i := 0; i < 3; i++ {
						e.appendAddrs(al[x.Choose(len(al))])
					}
					e.cmp()
					e.take()
				}},
			}
		},
		Bounds: "every list of up to 3 (thorough 4) of 18 addresses of all kinds, and every two lists of up to 2 of 8, after 7 situations of the known address",
	})
}
