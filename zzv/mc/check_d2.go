package main

import (
	"context"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/netip"
	"sort"
	"time"

	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/zzv/vs"
)

// Check N07: connections of the whole service.

type dEvent struct {
	t  time.Time
	do func()
}

// dEnv is the service with the expected state of its peers and chains.
type dEnv struct {
	x     *X
	d     *daemon
	m     *regRef
	c     *refChain
	args  []string
	began time.Time
	evs   []dEvent
	cnt   map[netip.Addr]int
	pings map[*link]int
	plan  func(a netip.Addr, n int) int
	app   string
}

const (
	oRefused = iota
	oConnects
	oSlowFails
	oSlowConnects
	oForeign
	oHangs
	nOutcomes
)

func newD(x *X, plan func(a netip.Addr, n int) int, addrs ...string) *dEnv {
	d := newDaemon(x)
	e := &dEnv{x: x, d: d, plan: plan, app: "wavesW"}
	e.args = []string{"-db=" + d.db, "-declared-address=8.8.8.9:6868", "-versions=1.5,1.4"}
	var l []*net.TCPAddr
	for _, s := range mainSeeds {
		l = append(l, net.TCPAddrFromAddrPort(ap(s)))
	}
	for i, s := range addrs {
		if i == 0 {
			e.args = append(e.args, "-peers="+s)
		} else {
			e.args[len(e.args)-1] += "," + s
		}
		l = append(l, net.TCPAddrFromAddrPort(ap(s)))
	}
	e.m = newRegRef(rS, nVers)
	e.m.scheme = 'W'
	e.m.appendAddrs(l)
	e.c = newRef(&mainGenesis)
	e.start()
	return e
}

func (e *dEnv) start() {
	e.began = vs.W.Now
	e.evs, e.cnt, e.pings = nil, map[netip.Addr]int{}, map[*link]int{}
	if e.d.exited {
		e.m.reopen()
		e.d.restart(e.args...)
	} else {
		e.d.up(e.args...)
	}
	e.d.n.dial = e.dial
}

func (e *dEnv) at(after int, f func()) {
	e.evs = append(e.evs, dEvent{vs.W.Now.Add(time.Duration(after) * time.Second), f})
}

func (e *dEnv) dial(ctx context.Context, q dialing) (proto.Handshake, error) {
	a := q.to.Addr()
	n := e.cnt[a]
	e.cnt[a]++
	hs := hsOf(e.app, q.ver, "n"+a.String(), 3, declAddr(a.String(), int(q.to.Port())))
	k := oRefused
	if a != netip.MustParseAddrPort(mainSeeds[0]).Addr() {
		k = e.plan(a, n)
	}
	up := func(after int) {
		e.at(after, func() {
			var l *link
			for _, o := range e.d.n.links {
				if o.addr == q.to {
					l = o
				}
			}
			e.x.Check(l != nil, "the connection to %s is lost", q.to)
			e.joined(l)
		})
	}
	switch k {
	case oConnects:
		up(0)
		return hs, nil
	case oSlowFails:
		e.at(35, func() { e.m.failed(a) })
		vs.Sleep(35 * time.Second)
		return proto.Handshake{}, io.EOF
	case oSlowConnects:
		up(25)
		vs.Sleep(25 * time.Second)
		return hs, nil
	case oForeign:
		hs.AppName = "wavesX"
		up(0)
		return hs, nil
	case oHangs:
		vs.Recv(ctx.Done())
		return hs, ctx.Err()
	}
	e.at(0, func() { e.m.failed(a) })
	return proto.Handshake{}, errDial
}

// joined is the expected effect of a completed handshake.
func (e *dEnv) joined(l *link) {
	ok := e.m.register(l.addr.Addr(), l.fpeer)
	e.x.Check(ok == (l.closed == 0), "connection of %s: acceptable %v, closed %d times", l.addr, ok, l.closed)
	e.pings[l] = 0
}

// comes lets a node connect to us.
func (e *dEnv) comes(a netip.Addr, hs proto.Handshake) {
	d := e.d
	d.n.shake = shakeWith(hs)
	_, ok := e.m.suggest(a)
	n, dn := len(d.n.inc), len(d.n.links)
	c := d.arrive(a)
	vs.Quiesce()
	e.x.Check((len(d.n.inc) > n) == ok, "connection of %s is served: %v, expected %v", a, len(d.n.inc) > n, ok)
	if !ok {
		e.x.Check(c.closed > 0, "a connection that is not served is not closed")
		return
	}
	e.x.Check(len(d.n.links) == dn+1, "no connection")
	e.joined(d.n.links[dn])
}

// live are the open connections in the order of their appearance.
func (e *dEnv) live() []*link {
	var o []*link
	for _, l := range e.d.n.links {
		if l.closed == 0 && l.ctx.Err() == nil && !l.told {
			o = append(o, l)
		}
	}
	return o
}

func (e *dEnv) fail(l *link) {
	e.x.Op("%s fails", l.addr)
	l.fail(io.EOF)
	vs.Quiesce()
	e.x.Check(l.closed > 0, "a failed connection is not closed")
	e.m.broken(l.addr.Addr(), l.fpeer)
}

// tick lets the seconds pass, 5 at a time, and compares the attempts and the requests for peers.
func (e *dEnv) tick(secs int) {
	x, d := e.x, e.d
	for s := 0; s < secs; s += 5 {
		n := len(d.n.dials)
		vs.Advance(5 * time.Second)
		x.Check(!d.exited, "the service ends with code %d and %q", d.code, d.stderr)
		t := int(vs.W.Now.Sub(e.began) / time.Second)
		var want, got []string
		if t%10 == 0 {
			for _, a := range e.m.take() {
				v, ok := e.m.suggest(a.Addr())
				x.Check(ok, "a hostile address is eligible")
				want = append(want, a.String()+" "+v.String())
			}
		}
		for _, q := range d.n.dials[n:] {
			got = append(got, q.to.String()+" "+q.ver.String())
		}
		x.Check(eqs(sorted(got...), sorted(want...)), "after %d s %v are dialed, expected %v", t, got, want)
		for _, l := range e.live() {
			k := 0
			for _, m := range l.got {
				if _, ok := m.(*proto.GetPeersMessage); ok {
					k++
				}
			}
			// At the same instant a connection may complete before or after the requests are sent.
			if w := e.pings[l]; t%60 == 0 && e.m.conns[l.addr.Addr()] == l.fpeer {
				x.Check(k == w+1, "after %d s connection %s has %d requests for peers, expected %d", t, l.addr, k, w+1)
			} else if t%60 == 0 && e.m.conns[l.addr.Addr()] == nil {
				x.Check(k == w || k == w+1, "after %d s connection %s has %d requests for peers, expected %d", t, l.addr, k, w)
			} else {
				x.Check(k == w, "after %d s connection %s has %d requests for peers, expected %d", t, l.addr, k, w)
			}
			e.pings[l] = k
		}
		for i := 0; i < len(e.evs); {
			if e.evs[i].t.After(vs.W.Now) {
				i++
				continue
			}
			x.Check(e.evs[i].t.Equal(vs.W.Now), "missed event")
			f := e.evs[i].do
			e.evs = append(e.evs[:i:i], e.evs[i+1:]...)
			f()
		}
		for _, l := range e.live() {
			if _, ok := e.pings[l]; ok {
				k := 0
				for _, m := range l.got {
					if _, ok := m.(*proto.GetPeersMessage); ok {
						k++
					}
				}
				e.pings[l] = k
			}
		}
	}
}

// cmp compares everything the API shows.
func (e *dEnv) cmp() {
	x := e.x
	ce := &cEnv{x: x, r: e.c}
	for a := range e.m.recs {
		ce.peers = append(ce.peers, a)
	}
	sort.Slice(ce.peers, func(i, j int) bool { return ce.peers[i].Less(ce.peers[j]) })
	a := &aEnv{x: x, h: e.d.handler, ce: ce, re: &rEnv{x: x, m: e.m}}
	all, friends, conns := a.sets()
	a.peerList("/api/peers/all", all)
	a.peerList("/api/peers/friendly", friends)
	a.peerList("/api/connections", conns)
	a.status()
	a.leashes()
	a.heads()
}

func (e *dEnv) restart() {
	pend := e.m.pending
	t := nowSec() + redial
	e.d.stop()
	e.start()
	// An attempt that is interrupted may count as failed.
	var l []jPeer
	e.d.api().get("/api/peers/all", &l)
	for _, p := range l {
		if a := p.Address.Addr(); pend[a] && p.Next.Unix() == t {
			r := e.m.recs[a]
			r.next = t
			e.m.recs[a] = r
		}
	}
}

func (e *dEnv) getBlock(l *link, w wire) {
	e.x.Op("%s: block %s", l.addr, blkName(w.b.BlockID()))
	l.recv(w.m)
	vs.Quiesce()
	_ = e.c.put(w.b, l.addr.Addr())
}

func (e *dEnv) getScore(l *link, s int64) {
	e.x.Op("%s: score %d", l.addr, s)
	l.recv(scoreMsg(big.NewInt(s)))
	vs.Quiesce()
	e.m.score(l.addr.Addr(), fmt.Sprint(s))
}

func (e *dEnv) getPeers(l *link, s ...string) {
	e.x.Op("%s: peers %v", l.addr, s)
	l.recv(peersMsg(s...))
	vs.Quiesce()
	var as []*net.TCPAddr
	for _, p := range s {
		as = append(as, net.TCPAddrFromAddrPort(ap(p)))
	}
	e.m.appendAddrs(as)
}

func init() {
	register(&Check{
		ID: "N07",
		Scenarios: func(th bool) []Scenario {
			depth := 3
			if th {
				depth = 4
			}
			w1, w2 := child(mainGenesis, 60, 500), child(mainGenesis, 61, 400)
			in := func(a netip.Addr) proto.Handshake {
				return hsOf("wavesW", ver(1, 5, 0), "in"+a.String(), 8, declAddr(a.String(), 6868))
			}
			events := []func(e *dEnv){
				func(e *dEnv) { e.tick(10) },
				func(e *dEnv) { e.tick(60) },
				func(e *dEnv) { e.comes(rA, in(rA)) },
				func(e *dEnv) { e.comes(rB, hsOf("wavesW", ver(1, 4, 0), "b", 8, nil)) },
				func(e *dEnv) { e.comes(rC, hsOf("wavesT", ver(1, 5, 0), "c", 8, nil)) },
				func(e *dEnv) {
					if l := e.live(); len(l) > 0 {
						e.fail(l[len(l)-1])
					}
				},
				func(e *dEnv) {
					if l := e.live(); len(l) > 1 {
						e.fail(l[0])
					}
				},
				func(e *dEnv) {
					if l := e.live(); len(l) > 0 {
						e.getBlock(l[0], w1)
						e.getBlock(l[len(l)-1], w2)
						e.getScore(l[0], 77)
						e.getPeers(l[len(l)-1], "8.8.8.4:6868", "8.8.8.2:1", "8.8.8.9:6868")
					}
				},
				func(e *dEnv) { e.tick(600) },
				func(e *dEnv) { e.restart() },
			}
			return []Scenario{
				{Name: "histories", Opt: seqOpt, Run: func(x *X) {
					oa, ob := x.Choose(nOutcomes), x.Choose(2)
					e := newD(x, func(a netip.Addr, n int) int {
						switch a {
						case rA:
							return (oa + n) % nOutcomes
						case rB:
							return ob
						case ip("8.8.8.4"):
							return oConnects
						}
						return oRefused
					}, "8.8.8.1:6868", "8.8.8.2:6868")
					e.tick(10)
					e.cmp()
					for i := 0; i < depth; i++ {
						events[x.Choose(len(events))](e)
						e.cmp()
					}
					e.tick(1210)
					e.cmp()
					x.State(H(dbHash(e.d.db+"/peers"), dbHash(e.d.db+"/blocks"), len(e.live())))
					e.d.stop()
				}},
				{Name: "at once", Opt: vs.Options{Bound: 1 + b2i(th), FreeCost: 1, SelCost: 1}, Run: atOnce},
			}
		},
		Bounds: "the whole service with two given addresses, 6 successive outcomes of dialing the first, 2 of the second; every sequence of 3 (thorough 4) of 10 events: 10, 60 or 600 seconds, incoming connections of 3 nodes, failures of the newest or oldest connection, messages, restart; then 20 minutes; up to two connections that appear and fail at once in 7 ways under every interleaving with 1 (2) deviations",
	})
}

// atOnce has connections that fail while they are being admitted.
func atOnce(x *X) {
	const (
		live  = iota
		fails // at once
		ends  // with a message before the failure
	)
	plans := []struct {
		dialed, in []int // connections of A
		b          []int // incoming connections of B
	}{
		{in: []int{fails}}, {in: []int{ends}, b: []int{live}}, {dialed: []int{fails}}, {in: []int{fails, live}}, {in: []int{live, fails}}, {in: []int{fails}, b: []int{fails}}, {dialed: []int{live}, in: []int{fails}},
	}
	pl := plans[x.Choose(len(plans))]
	d := newDaemon(x)
	begin := vs.W.Now
	d.n.dial = func(_ context.Context, q dialing) (proto.Handshake, error) {
		if q.to.Addr() == rA && len(pl.dialed) > 0 && vs.W.Now.Sub(begin) < time.Minute {
			return hsOf("wavesW", ver(1, 5, 0), "a", 3, declAddr("8.8.8.1", 6868)), nil
		}
		return proto.Handshake{}, errDial
	}
	d.n.shake = func(_ context.Context, c net.Conn) (proto.Handshake, error) {
		a := netip.MustParseAddrPort(c.RemoteAddr().String()).Addr()
		return hsOf("wavesW", ver(1, 5, 0), "n", 3, declAddr(a.String(), 6868)), nil
	}
	var ins, busy int
	d.n.onLink = func(l *link) {
		k := live
		switch {
		case l.addr.Addr() == rB:
			k = pl.b[0]
		case !l.in:
			k = pl.dialed[0]
		default:
			k = pl.in[ins]
			ins++
		}
		if k == live {
			return
		}
		busy++
		vs.Go(func() {
			defer func() { busy-- }()
			if k == ends {
				l.recv(scoreMsg(big.NewInt(33)))
			}
			l.fail(io.EOF)
		})
	}
	args := []string{"-db=" + d.db, "-declared-address=8.8.8.9:6868", "-versions=1.5,1.4"}
	if len(pl.dialed) > 0 {
		args = append(args, "-peers=8.8.8.1:6868")
	}
	d.up(args...)
	if len(pl.dialed) > 0 {
		vs.Advance(8 * time.Second)
	}
	vs.SetPoints(true)
	for range pl.in {
		d.arrive(rA)
	}
	for range pl.b {
		d.arrive(rB)
	}
	if len(pl.dialed) > 0 {
		vs.Advance(3 * time.Second)
	}
	vs.Quiesce()
	vs.SetPoints(false)
	vs.WaitFor("nodes", func() bool { return busy == 0 })
	vs.Quiesce()
	failed := vs.W.Now
	settled := func() (single map[netip.Addr]bool) {
		var conns []jPeer
		d.api().get("/api/connections", &conns)
		listed := map[netip.Addr]bool{}
		for _, p := range conns {
			listed[p.Address.Addr()] = true
		}
		single = map[netip.Addr]bool{}
		open, n := map[netip.Addr]int{}, map[netip.Addr]int{}
		for _, l := range d.n.links {
			a := l.addr.Addr()
			n[a]++
			if l.told {
				x.Check(l.closed > 0, "the failed connection of %s is not closed", l.addr)
			} else {
				x.Check(l.closed == 0, "the connection of %s is closed", l.addr)
				open[a]++
			}
		}
		for a, k := range n {
			x.Check(!listed[a] || open[a] > 0, "%s is listed without an open connection", a)
			x.Check(k > 1 || listed[a] || open[a] == 0, "the connection of %s is not listed", a)
			single[a] = k == 1 && open[a] == 0
		}
		for a := range listed {
			x.Check(n[a] > 0, "%s is listed without a connection", a)
		}
		return single
	}
	single := settled()
	vs.Advance(time.Minute)
	settled()
	if e := (redial*time.Second + 15*time.Second) - vs.W.Now.Sub(failed); e > 0 {
		vs.Advance(e)
	}
	for a, s := range single {
		if !s {
			continue
		}
		k := 0
		for _, q := range d.n.dials {
			if q.to.Addr() == a && q.at.After(failed) {
				k++
			}
		}
		x.Check(k == 1, "%s is dialed %d times in 10 minutes after the failure of its connection", a, k)
	}
	d.stop()
}
