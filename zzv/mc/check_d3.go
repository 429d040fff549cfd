package main

import (
	"context"
	"errors"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"net/netip"
	"net/url"
	"strings"
	"time"

	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/zzv/leveldb"
	"github.com/alexeykiselev/waves-fork-detector/zzv/vs"
)

// Check N06: the end of the service.

// serveChain makes a connection answer requests for identifiers and blocks as a node with the given chain does.
func serveChain(l *link, ws []wire) { serveNode(l, func() []wire { return ws }) }

// serveNode is serveChain for a chain that changes.
func serveNode(l *link, chain func() []wire) {
	l.onGot = func(m proto.Message) {
		ws := chain()
		find := func(known []proto.BlockID) int {
			for _, k := range known {
				if k == mainGenesis.BlockID() {
					return 0
				}
				for i, w := range ws {
					if w.b.BlockID() == k {
						return i + 1
					}
				}
			}
			return -1
		}
		from := func(n int) []proto.BlockID {
			if n < 0 {
				return nil
			}
			ids := []proto.BlockID{mainGenesis.BlockID()}
			if n > 0 {
				ids[0] = ws[n-1].b.BlockID()
			}
			for i := n; i < len(ws) && i < n+100; i++ {
				ids = append(ids, ws[i].b.BlockID())
			}
			return ids
		}
		switch v := m.(type) {
		case *proto.GetBlockIdsMessage:
			if ids := from(find(v.Blocks)); ids != nil {
				l.recv(idsMsg(ids...))
			}
		case *proto.GetSignaturesMessage:
			if ids := from(find(sigIDs(v.Signatures))); ids != nil {
				sm := &proto.SignaturesMessage{}
				for _, id := range ids {
					sm.Signatures = append(sm.Signatures, id.Signature())
				}
				l.recv(frame(sm))
			}
		case *proto.GetBlockMessage:
			for _, w := range ws {
				if w.b.BlockID() == v.BlockID {
					l.recv(w.m)
				}
			}
		}
	}
}

// mainChain is a chain on the genesis block of the main network.
func mainChain(n int, pb bool) []wire {
	var ws []wire
	p := mainGenesis.BlockID()
	for i := 0; i < n; i++ {
		v := proto.BlockVersion(3)
		if pb {
			v = 5
		}
		w := mkWire(wblk{n: 100 + i, parent: p, ver: v, bt: 1000, ts: mainGenesis.Timestamp + uint64(i+1)*60000, pb: pb})
		p = w.b.BlockID()
		ws = append(ws, w)
	}
	return ws
}

// request serves an HTTP request as a connection of the HTTP server does.
func (d *daemon) request(target string) {
	h := d.handler
	if d.isDown {
		return
	}
	d.active++
	defer func() { d.active-- }()
	u, err := url.ParseRequestURI(target)
	if err != nil {
		panic(err)
	}
	r := &http.Request{Method: http.MethodGet, URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Host: "localhost", RemoteAddr: "127.0.0.1:1", RequestURI: target, Body: http.NoBody}
	w := httptest.NewRecorder()
	h.ServeHTTP(w, r)
	b := w.Body.String()
	d.x.Check(w.Code != http.StatusInternalServerError || strings.TrimSpace(b) != "", "GET %s panics", target)
}

func init() {
	good := func(a netip.Addr) proto.Handshake {
		return hsOf("wavesW", ver(1, 5, 0), "n"+a.String(), 3, declAddr(a.String(), 6868))
	}
	args := func(d *daemon, more ...string) []string {
		return append([]string{"-db=" + d.db, "-declared-address=8.8.8.9:6868", "-versions=1.5,1.4"}, more...)
	}
	// whenever sends the signal at any moment from now on.
	whenever := func(d *daemon) {
		vs.GoN("signal", func() {
			d.x.Op("signal")
			d.signal()
		})
	}
	bound := func(th bool, n int) vs.Options {
		if th {
			n++
		}
		return vs.Options{Bound: n, FreeCost: 1, SelCost: 1}
	}
	finish := func(x *X, d *daemon, more ...any) {
		vs.Quiesce()
		vs.SetPoints(false)
		d.ended()
		x.State(H(append(more, dbHash(d.db+"/peers"), dbHash(d.db+"/blocks"), len(d.n.dials), len(d.n.links))...))
	}
	// connected starts the service with two connections, an outgoing and an incoming one.
	connected := func(x *X) (*daemon, *link, *link) {
		d := newDaemon(x)
		d.n.dial = func(ctx context.Context, q dialing) (proto.Handshake, error) {
			if q.to.Addr() == rA {
				return good(rA), nil
			}
			return proto.Handshake{}, errDial
		}
		d.up(args(d, "-peers=8.8.8.1:6868")...)
		vs.Advance(11 * time.Second)
		d.n.shake = shakeWith(good(rB))
		d.arrive(rB)
		vs.Quiesce()
		x.Check(len(d.n.links) == 2, "connections")
		return d, d.n.links[0], d.n.links[1]
	}
	register(&Check{
		ID: "N06",
		Scenarios: func(th bool) []Scenario {
			chain := mainChain(4, false)
			return []Scenario{
				{Name: "right after the start", Opt: bound(th, 2), Run: func(x *X) {
					d := newDaemon(x)
					if x.Bool() {
						d.lstBad = errDisk2
					}
					vs.SetPoints(true)
					d.start(args(d)...)
					vs.GoN("signal", func() {
						vs.WaitFor("the handler", func() bool { return d.signal != nil })
						d.x.Op("signal")
						d.signal()
					})
					finish(x, d)
				}},
				{Name: "messages", Opt: bound(th, 2), Run: func(x *X) {
					d, a, b := connected(x)
					k := x.Choose(4)
					vs.SetPoints(true)
					vs.GoN("a", func() {
						switch k {
						case 0:
							a.recv(chain[0].m)
							a.recv(chain[1].m)
						case 1:
							a.recv(idsMsg(mainGenesis.BlockID(), chain[0].b.BlockID()))
							a.recv(sigsMsg(1, 2))
						case 2:
							a.recv(scoreMsg(big.NewInt(1000)))
							a.recv(frame(&proto.GetPeersMessage{}))
						case 3:
							a.fail(io.EOF)
						}
					})
					vs.GoN("b", func() { b.recv(chain[0].m) })
					whenever(d)
					finish(x, d, k)
					x.Check(leveldb.Late() == 0, "a closed database is used")
				}},
				{Name: "many queued messages", Opt: bound(th, 1), Run: func(x *X) {
					d, a, b := connected(x)
					vs.SetPoints(true)
					vs.GoN("a", func() {
						for i := 0; i < 300; i++ {
							a.recv(chain[i%4].m)
						}
						for i := 0; i < 30; i++ {
							b.recv(idsMsg(mainGenesis.BlockID()))
						}
						b.fail(io.EOF)
						whenever(d)
					})
					finish(x, d)
					x.Check(leveldb.Late() == 0, "a closed database is used")
				}},
				{Name: "synchronization", Opt: bound(th, 1), Delays: 1, Run: func(x *X) {
					d, a, b := connected(x)
					serveChain(a, chain)
					if x.Bool() {
						serveChain(b, chain[:2])
					}
					n := x.Choose(3)
					a.recv(scoreMsg(new(big.Int).Lsh(big.NewInt(1), 70)))
					b.recv(scoreMsg(new(big.Int).Lsh(big.NewInt(1), 60)))
					vs.Quiesce()
					start := vs.W.Now
					vs.Advance(3 * time.Second)
					vs.SetPoints(true)
					// The loader looks for a peer at 15 s.
					vs.GoN("signal", func() {
						vs.WaitFor("the round", func() bool { return vs.W.Now.Sub(start) >= time.Duration(4+n)*time.Second })
						d.x.Op("signal")
						d.signal()
					})
					vs.Advance(4 * time.Second)
					finish(x, d, n)
					x.Check(leveldb.Late() == 0, "a closed database is used")
				}},
				{Name: "peers asked and dialed", Opt: bound(th, 2), Run: func(x *X) {
					d := newDaemon(x)
					k := x.Choose(4)
					begin := vs.W.Now
					d.n.dial = func(ctx context.Context, q dialing) (proto.Handshake, error) {
						if q.to.Addr() != rA && q.to.Addr() != rB {
							return proto.Handshake{}, errDial
						}
						switch k {
						case 0:
							return proto.Handshake{}, errDial
						case 1:
							return good(q.to.Addr()), nil
						case 2:
							vs.Sleep(5 * time.Second)
							return proto.Handshake{}, errors.New("timeout")
						}
						c0, c1 := vs.CaseRecv(ctx.Done()), vs.CaseRecv(vs.TimeAfter(5*time.Second))
						vs.Select(false, c0, c1)
						return proto.Handshake{}, io.EOF
					}
					d.up(args(d)...)
					vs.Advance(11 * time.Second)
					d.n.shake = shakeWith(good(rC))
					d.arrive(rC)
					vs.Quiesce()
					d.n.links[0].recv(peersMsg("8.8.8.1:6868", "8.8.8.2:6868"))
					vs.Advance(8 * time.Second)
					vs.SetPoints(true)
					vs.GoN("signal", func() {
						vs.WaitFor("the round", func() bool { return vs.W.Now.Sub(begin) >= 20*time.Second })
						d.x.Op("signal")
						d.signal()
					})
					vs.Advance(2 * time.Second)
					finish(x, d, k)
				}},
				{Name: "accepting", Opt: bound(th, 2), Run: func(x *X) {
					d := newDaemon(x)
					k := x.Choose(4)
					d.n.shake = func(ctx context.Context, c net.Conn) (proto.Handshake, error) {
						switch k {
						case 0:
							return good(rB), nil
						case 1:
							return hsOf("wavesX", ver(1, 5, 0), "x", 1, nil), nil
						case 2:
							vs.Recv(ctx.Done())
							return proto.Handshake{}, ctx.Err()
						}
						return proto.Handshake{}, io.EOF
					}
					d.up(args(d)...)
					vs.SetPoints(true)
					vs.GoN("node", func() {
						d.arrive(rB)
						d.arrive(rC)
					})
					whenever(d)
					finish(x, d, k)
				}},
				{Name: "failing accepts", Opt: bound(th, 1), Run: func(x *X) {
					d := newDaemon(x)
					d.up(args(d)...)
					vs.SetPoints(true)
					vs.GoN("node", func() { d.lst.errs = 3; d.arrive(rB) })
					whenever(d)
					finish(x, d)
				}},
				{Name: "a minute", Opt: bound(th, 2), Run: func(x *X) {
					d, _, _ := connected(x)
					start := vs.W.Now.Add(-11 * time.Second)
					vs.Advance(48 * time.Second)
					vs.SetPoints(true)
					vs.GoN("signal", func() {
						vs.WaitFor("the minute", func() bool { return vs.W.Now.Sub(start) >= time.Minute })
						d.x.Op("signal")
						d.signal()
					})
					vs.Advance(2 * time.Second)
					finish(x, d)
				}},
				{Name: "requests", Opt: bound(th, 2), Run: func(x *X) {
					d, a, b := connected(x)
					a.recv(chain[0].m)
					b.recv(chain[1].m)
					vs.Quiesce()
					ts := []string{"/api/peers/all", "/api/connections", "/api/heads", "/api/leashes", "/api/status", "/api/forks", "/api/active-forks", "/api/fork/8.8.8.1", "/api/fork/8.8.8.1/generators/2"}
					k := x.Choose(len(ts))
					vs.SetPoints(true)
					vs.GoN("request", func() { d.request(ts[k]) })
					whenever(d)
					finish(x, d, k)
				}},
				{Name: "storage failures", Opt: vs.Options{Bound: 1, FreeCost: -1, SelCost: -1}, Run: func(x *X) {
					d, a, b := connected(x)
					serveChain(a, chain)
					n := 0
					leveldb.FaultyClose()
					vs.W.Fault = func(op string) error {
						if n < 1 && x.w.Choose(2, vs.KFault, 1) == 1 {
							n++
							x.Op("storage failure at %q", op)
							return errDisk
						}
						return nil
					}
					a.recv(scoreMsg(new(big.Int).Lsh(big.NewInt(1), 70)))
					b.recv(chain[0].m)
					vs.Advance(time.Duration([]int{0, 4, 5}[x.Choose(3)]) * time.Second)
					d.stop()
					x.State(H(n, dbHash(d.db+"/peers"), dbHash(d.db+"/blocks")))
				}},
				{Name: "signal twice and again after a restart", Opt: seqOpt, Run: func(x *X) {
					d, a, _ := connected(x)
					a.recv(chain[0].m)
					vs.Quiesce()
					for i := 0; i < 3; i++ {
						d.signal()
						d.signal()
						d.ended()
						bl, ps := d.stores()
						h := H(dbHash(bl.Path), dbHash(ps.Path))
						d.restart(args(d, "-peers=8.8.8.1:6868")...)
						x.Check(H(dbHash(bl.Path), dbHash(ps.Path)) == h, "a start changes the databases")
					}
					d.stop()
				}},
			}
		},
		Bounds: "the whole service; the signal at every scheduling point of 9 activities (start, messages, full queues, synchronization, dialing, accepting, failing accepts, asking for peers, HTTP requests) with one (thorough two) further preemption or delay, none (one) for full queues and failing accepts (for a synchronization two delays); one storage failure at any call of a synchronization, including closing",
	})
}
