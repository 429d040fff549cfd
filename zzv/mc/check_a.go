package main

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"net/http/httptest"
	"net/netip"
	"net/url"
	"sort"
	"strings"
	"time"

	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/api"
	"github.com/alexeykiselev/waves-fork-detector/chains"
	"github.com/alexeykiselev/waves-fork-detector/peers"
	"github.com/alexeykiselev/waves-fork-detector/version"
	"github.com/alexeykiselev/waves-fork-detector/zzv/vs"
)

// Checks A01-A03: the HTTP API.

var (
	pV6 = ip("2001:db8::1")
	rD  = ip("8.8.8.4")
)

type aEnv struct {
	x   *X
	ce  *cEnv
	re  *rEnv
	h   http.Handler
	zip bool
}

func newAPI(x *X) *aEnv {
	vs.SetPoints(false)
	e := &aEnv{x: x, ce: newChain(x, rA, rB, pV6), re: newReg(x, "8.8.8.9:6868", nVers)}
	e.ce.univ = []proto.BlockID{gen1ID}
	e.serve()
	return e
}

func (e *aEnv) serve() {
	vs.H.Serve = func(s *http.Server) error {
		e.x.Check(s.Addr == "127.0.0.1:8000", "the API listens on %q", s.Addr)
		e.h = s.Handler
		return http.ErrServerClosed
	}
	a, err := api.NewAPI(e.re.r, e.ce.l, "127.0.0.1:8000")
	e.x.Check(err == nil, "NewAPI: %v", err)
	a.Run(context.Background())
	vs.Quiesce()
	e.x.Check(e.h != nil, "the API doesn't listen")
}

type resp struct {
	code int
	body []byte
	ct   string
}

// req makes a request and checks that it is answered completely.
func (e *aEnv) req(method, target string) resp {
	u, err := url.ParseRequestURI(target)
	if err != nil {
		panic(fmt.Sprint("harness: bad URL ", target))
	}
	r := &http.Request{Method: method, URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Host: "localhost", RemoteAddr: "127.0.0.1:1", RequestURI: target, Body: http.NoBody}
	if e.zip {
		r.Header.Set("Accept-Encoding", "gzip")
	}
	w := httptest.NewRecorder()
	e.x.Op("%s %s", method, target)
	e.h.ServeHTTP(w, r)
	b := w.Body.Bytes()
	if w.Header().Get("Content-Encoding") == "gzip" {
		z, err := gzip.NewReader(bytes.NewReader(b))
		e.x.Check(err == nil, "%s: bad compressed response: %v", target, err)
		b, err = io.ReadAll(z)
		e.x.Check(err == nil, "%s: bad compressed response: %v", target, err)
	}
	if w.Code == http.StatusInternalServerError {
		e.x.Check(len(b) > 0, "%s %s panics", method, target)
	}
	return resp{w.Code, b, w.Header().Get("Content-Type")}
}

// get decodes the answer of a successful request.
func (e *aEnv) get(target string, v any) {
	r := e.req(http.MethodGet, target)
	e.decode(target, r, v)
}

func (e *aEnv) decode(target string, r resp, v any) {
	x := e.x
	x.Check(r.code == http.StatusOK, "GET %s gives status %d: %s", target, r.code, r.body)
	x.Check(strings.HasPrefix(r.ct, "application/json"), "GET %s gives content type %q", target, r.ct)
	d := json.NewDecoder(bytes.NewReader(r.body))
	x.Check(json.Valid(r.body), "GET %s gives no valid JSON: %q", target, r.body)
	err := d.Decode(v)
	x.Check(err == nil, "GET %s: %v in %q", target, err, r.body)
}

// fields checks that every object of a list (or a single object) has all the fields.
func (e *aEnv) fields(target string, b []byte, names ...string) {
	var l []map[string]json.RawMessage
	if bytes.HasPrefix(bytes.TrimSpace(b), []byte("{")) {
		l = make([]map[string]json.RawMessage, 1)
		e.x.Check(json.Unmarshal(b, &l[0]) == nil, "%s: not an object: %q", target, b)
	} else {
		e.x.Check(json.Unmarshal(b, &l) == nil, "%s: not a list of objects: %q", target, b)
	}
	for _, o := range l {
		for _, n := range names {
			_, ok := o[n]
			e.x.Check(ok, "%s: field %q is missing in %q", target, n, b)
		}
	}
}

type jPeer struct {
	Address netip.AddrPort `json:"address"`
	Nonce   uint64         `json:"nonce"`
	Name    string         `json:"name"`
	Version string         `json:"version"`
	State   peers.State    `json:"state"`
	Next    time.Time      `json:"next_attempt"`
	Score   *big.Int       `json:"score"`
}

func (e *aEnv) peerList(target string, want map[netip.Addr]bool) {
	r := e.req(http.MethodGet, target)
	var l []jPeer
	e.decode(target, r, &l)
	e.fields(target, r.body, "address", "nonce", "name", "version", "state", "next_attempt", "score")
	var ps []peers.Peer
	names := map[netip.Addr]string{}
	for _, j := range l {
		v, err := proto.NewVersionFromString(j.Version)
		e.x.Check(err == nil, "%s: version %q", target, j.Version)
		n := j.Name
		if m, ok := e.re.m.recs[j.Address.Addr()]; ok && strings.ToValidUTF8(m.name, "\ufffd") == n {
			n = m.name
		}
		names[j.Address.Addr()] = n
		ps = append(ps, peers.Peer{AddressPort: j.Address, Nonce: j.Nonce, Name: n, Version: v, State: j.State, NextAttempt: j.Next, Score: j.Score})
	}
	e.re.cmpList(target, ps, want)
}

func (e *aEnv) sets() (all, friends, conns map[netip.Addr]bool) {
	all, friends, conns = map[netip.Addr]bool{}, map[netip.Addr]bool{}, map[netip.Addr]bool{}
	for a, p := range e.re.m.recs {
		all[a] = true
		if p.state == peers.PeerConnected {
			friends[a] = true
		}
	}
	for a := range e.re.m.conns {
		conns[a] = true
	}
	return
}

func (e *aEnv) heads() {
	const target = "/api/heads"
	var l []struct {
		Number    uint64    `json:"number"`
		ID        string    `json:"id"`
		Height    uint32    `json:"height"`
		Score     *big.Int  `json:"score"`
		Timestamp time.Time `json:"timestamp"`
	}
	r := e.req(http.MethodGet, target)
	e.decode(target, r, &l)
	e.fields(target, r.body, "number", "id", "height", "score", "timestamp")
	want := map[string]*rBlock{}
	num := map[string]uint64{}
	for id, n := range e.ce.r.heads {
		for _, t := range e.ce.r.leash {
			if t == id {
				want[id.String()] = e.ce.r.blocks[id]
				num[id.String()] = n
			}
		}
	}
	x := e.x
	x.Check(len(l) == len(want), "%s: %d entries, expected %d: %s", target, len(l), len(want), r.body)
	for _, h := range l {
		b := want[h.ID]
		x.Check(b != nil, "%s: unexpected or repeated head %s", target, h.ID)
		delete(want, h.ID)
		x.Check(h.Number == num[h.ID] && h.Height == b.height && h.Score != nil && h.Score.Cmp(b.score) == 0 && h.Timestamp.Equal(time.UnixMilli(b.ts)),
			"%s: head %s is shown as %+v, expected number %d, height %d, score %s, timestamp %d", target, blkName(b.id), h, num[h.ID], b.height, b.score, b.ts)
	}
}

func (e *aEnv) leashes() {
	const target = "/api/leashes"
	var l []struct {
		ID         string    `json:"block_id"`
		Height     uint32    `json:"height"`
		Score      *big.Int  `json:"score"`
		Timestamp  time.Time `json:"timestamp"`
		Generator  string    `json:"generator"`
		PeersCount int       `json:"peers_count"`
		Peers      []string  `json:"peers"`
	}
	r := e.req(http.MethodGet, target)
	e.decode(target, r, &l)
	e.fields(target, r.body, "block_id", "height", "score", "timestamp", "generator", "peers_count", "peers")
	want := map[string][]string{}
	blks := map[string]*rBlock{}
	for a, id := range e.ce.r.leash {
		want[id.String()] = append(want[id.String()], a.String())
		blks[id.String()] = e.ce.r.blocks[id]
	}
	x := e.x
	x.Check(len(l) == len(want), "%s: %d entries, expected %d: %s", target, len(l), len(want), r.body)
	for i, s := range l {
		ps, ok := want[s.ID]
		x.Check(ok, "%s: unexpected or repeated entry %s", target, s.ID)
		delete(want, s.ID)
		sort.Strings(ps)
		sort.Strings(s.Peers)
		b := blks[s.ID]
		x.Check(s.Height == b.height && s.Score != nil && s.Score.Cmp(b.score) == 0 && s.Timestamp.Equal(time.UnixMilli(b.ts)) && s.Generator == b.gen.String(),
			"%s: block %s is shown as %+v", target, blkName(b.id), s)
		x.Check(s.PeersCount == len(ps) && strings.Join(s.Peers, " ") == strings.Join(ps, " "), "%s: peers of %s are %v (%d), expected %v", target, blkName(b.id), s.Peers, s.PeersCount, ps)
		if i > 0 {
			c := l[i-1].Score.Cmp(s.Score)
			x.Check(c > 0 || c == 0 && l[i-1].PeersCount >= s.PeersCount, "%s: entries %d and %d are out of order", target, i-1, i)
		}
	}
}

func (e *aEnv) status() {
	const target = "/api/status"
	var s struct {
		Version    string `json:"version"`
		Short      int    `json:"short_forks_count"`
		Long       int    `json:"long_forks_count"`
		All        int    `json:"all_peers_count"`
		Friendly   int    `json:"friendly_peers_count"`
		Connected  int    `json:"connected_peers_count"`
		Goroutines int    `json:"goroutines_count"`
	}
	r := e.req(http.MethodGet, target)
	e.decode(target, r, &s)
	e.fields(target, r.body, "version", "short_forks_count", "long_forks_count", "all_peers_count", "friendly_peers_count", "connected_peers_count", "goroutines_count")
	all, fr, con := e.sets()
	e.x.Check(s.Version == version.ForkDetectorVersion() && s.Goroutines > 0, "%s: version %q, %d goroutines", target, s.Version, s.Goroutines)
	e.x.Check(s.All == len(all) && s.Friendly == len(fr) && s.Connected == len(con), "%s: %d peers, %d friendly, %d connected, expected %d, %d, %d", target, s.All, s.Friendly, s.Connected, len(all), len(fr), len(con))
	e.ce.checkStats(target, s.Short, s.Long)
}

var forkFields = []string{"longest", "head_block", "head_timestamp", "head_generator", "head_height", "score", "peers_count", "peers", "last_common_block", "length"}

// forks compares a forks report with the selection of peers (nil: all).
func (e *aEnv) forks(target string, sel map[netip.Addr]bool) {
	var fs []chains.Fork
	r := e.req(http.MethodGet, target)
	e.decode(target, r, &fs)
	e.fields(target, r.body, forkFields...)
	e.ce.checkForks(target, fs, sel)
}

func (e *aEnv) activeForks(target string, filter map[netip.Addr]bool) {
	sel := map[netip.Addr]bool{}
	for a := range e.re.m.conns {
		if len(filter) == 0 || filter[a] {
			sel[a] = true
		}
	}
	e.forks(target, sel)
}

// fork compares the report of one peer and its generators for several numbers of blocks.
func (e *aEnv) fork(a netip.Addr, counts ...int) {
	target := "/api/fork/" + a.String()
	if _, ok := e.ce.r.leash[a]; !ok {
		for _, t := range []string{target, target + "/generators/0", target + "/generators/3"} {
			r := e.req(http.MethodGet, t)
			e.x.Check(r.code == http.StatusNotFound, "GET %s of an unknown peer gives status %d: %s", t, r.code, r.body)
		}
		return
	}
	var f chains.Fork
	r := e.req(http.MethodGet, target)
	e.decode(target, r, &f)
	e.fields(target, r.body, forkFields...)
	e.ce.checkPeerFork(target, f, a)
	for _, c := range counts {
		t := fmt.Sprintf("%s/generators/%d", target, c)
		var gs []chains.GeneratorStats
		r := e.req(http.MethodGet, t)
		e.decode(t, r, &gs)
		e.fields(t, r.body, "generator", "blocks")
		n := c
		if c == 0 {
			// The length of the fork, or 1000 blocks of the longest one; ties for the longest are decided per request.
			opts := map[int]bool{f.Length: true}
			fs := e.ce.r.forksOf(nil)
			long := longestOf(fs)
			for _, h := range long {
				if h == e.ce.r.leash[a] {
					opts[1000] = true
				} else if len(long) > 1 || h != e.ce.r.leash[a] {
					opts[int(e.ce.r.blocks[e.ce.r.leash[a]].height)-int(e.ce.r.blocks[e.ce.r.lca(h, e.ce.r.leash[a])].height)] = true
				}
			}
			if len(long) == 1 {
				opts = map[int]bool{f.Length: true}
				if f.Longest {
					opts = map[int]bool{1000: true}
				}
			}
			n = -1
			for o := range opts {
				if tryCheck(func() { e.ce.checkGenerators(t, gs, f.HeadBlock, o) }) == "" {
					n = o
				}
			}
			if n < 0 {
				for o := range opts {
					n = o
				}
			}
		}
		e.ce.checkGenerators(t, gs, f.HeadBlock, n)
	}
}

// all compares all views.
func (e *aEnv) all(counts ...int) {
	if len(counts) == 0 {
		counts = []int{0, 1, 2, 100}
	}
	all, fr, con := e.sets()
	e.peerList("/api/peers/all", all)
	e.peerList("/api/peers/friendly", fr)
	e.peerList("/api/connections", con)
	e.heads()
	e.leashes()
	e.status()
	e.forks("/api/forks", nil)
	e.activeForks("/api/active-forks", nil)
	for _, a := range e.ce.peers {
		e.fork(a, counts...)
	}
}

func (e *aEnv) fresh() bool { return e.ce.fresh() }

func (e *aEnv) hash() uint64 { return e.ce.hash() ^ e.re.hash() }

func (e *aEnv) connect(a netip.Addr, name string, v proto.Version) {
	if _, ok := e.re.suggest(a); ok {
		e.re.register(a, hsOf(goodApp, v, name, uint64(len(name)), nil))
	}
}

// op is one step of the histories of A01: of the chains or of the registry.
func (e *aEnv) op(i int) {
	x := e.x
	n := 10 + i
	e.ce.univ = append(e.ce.univ, idN(n, n%2 == 0))
	switch k := x.Choose(8); k {
	case 0, 1:
		ids := e.ce.r.order
		p := ids[len(ids)-1-x.Choose(min(3, len(ids)))]
		a := e.ce.peers[x.Choose(len(e.ce.peers))]
		b := attr(n, p, n%2 == 0)
		if k == 1 {
			if e.ce.r.blocks[p].root {
				// Nothing to extend: a repeated block instead.
				x.Op("repeat")
				e.ce.move(p, a)
				return
			}
			e.ce.micro(p, idN(n, p.IsSignature() == false), a)
			e.ce.univ = append(e.ce.univ, idN(n, p.IsSignature() == false))
			return
		}
		e.ce.put(b.proto(), a)
	case 2:
		a := []netip.Addr{rA, rB}[x.Choose(2)]
		e.connect(a, []string{"b", "A \"<&>\u00e9"}[x.Choose(2)], ver(1, 5, uint32(i)))
	case 3:
		e.re.unregister([]netip.Addr{rA, rB}[x.Choose(2)])
	case 4:
		e.re.hostile(rA)
	case 5:
		e.re.score(rB, []string{"0", "123456789012345678901234567890"}[x.Choose(2)])
	case 6:
		e.re.appendAddrs(tcpAddr("8.8.8.4", 6868), tcpAddr("8.8.8.1", 6863))
	case 7:
		e.re.suggest(rB)
	}
}

// grown builds a larger state: branches of the given lengths from a common trunk, each with its peers.
func (e *aEnv) grown(trunk int, lens ...int) {
	n := 100
	p := gen1ID
	for i := 0; i < trunk; i++ {
		b := attr(n, p, true)
		b.bt = 100
		e.ce.put(b.proto(), rA)
		p = b.id()
		n++
	}
	ps := []netip.Addr{rA, rB, pV6, rC, rD}
	for k, l := range lens {
		q := p
		for i := 0; i < l; i++ {
			b := attr(n, q, k%2 == 0)
			b.bt = uint64(100 + k)
			e.ce.put(b.proto(), ps[k%len(ps)])
			q = b.id()
			n++
		}
		if l == 0 {
			e.ce.move(q, ps[k%len(ps)])
		}
	}
	e.ce.peers = ps
}

func init() {
	register(&Check{
		ID: "A01",
		Scenarios: func(th bool) []Scenario {
			depth := 3
			if th {
				depth = 4
			}
			return []Scenario{
				{Name: "histories", Opt: seqOpt, Run: func(x *X) {
					e := newAPI(x)
					if x.Bool() {
						e.zip = true
						e.ce.put(attr(2, gen1ID, true).proto(), rA)
						e.ce.put(attr(3, idN(2, true), true).proto(), rB)
						e.ce.put(attr(4, idN(2, true), false).proto(), pV6)
						e.connect(rA, "a", ver(1, 5, 0))
						e.connect(rB, "b", ver(1, 4, 0))
					}
					for i := 0; i < depth; i++ {
						if x.Seen(e.hash(), depth-i) {
							return
						}
						e.op(i)
						if e.fresh() {
							e.all()
						}
					}
				}},
				{Name: "larger states", Opt: seqOpt, Run: func(x *X) {
					e := newAPI(x)
					var lens []int
					for i := 0; i < 3; i++ {
						lens = append(lens, []int{0, 1, 5, 6, 12}[x.Choose(5)])
					}
					e.grown([]int{0, 1, 7}[x.Choose(3)], lens...)
					e.connect(rB, "b", ver(1, 5, 0))
					e.connect(rC, "", ver(1, 4, 0))
					x.State(e.hash())
					e.all(0, 1, 5, 6, 7, 1000)
				}},
				{Name: "long chain", Opt: seqOpt, Run: func(x *X) {
					e := newAPI(x)
					e.grown([]int{990, 996}[x.Choose(2)], 12, 3)
					x.State(e.hash())
					e.all(0, 999, 1000, 1001, 1100)
				}},
				{Name: "extreme values", Opt: seqOpt, Run: func(x *X) {
					// Every accepted block and peer is shown, whatever values a node chose for it.
					e := newAPI(x)
					p := gen1ID
					n := 1
					if th {
						n = 2
					}
					for i := 0; i < n; i++ {
						b := attr(10+i, p, true).proto()
						b.Timestamp = append([]uint64{253402300799999, 253402300800000, 253370764799999, 1 << 50}, extremes...)[x.Choose(4+len(extremes))]
						b.BaseTarget = extremes[x.Choose(len(extremes))]
						if e.ce.hostilePut(b, rA) {
							p = b.BlockID()
						}
					}
					e.ce.put(attr(30, gen1ID, true).proto(), rB)
					e.connect(rA, []string{"", "\xff\xfe", "\u2028\x00\x7f", strings.Repeat("\"", 255)}[x.Choose(4)], ver(1, 4, 4294967295))
					e.re.score(rA, []string{"0", "99999999999999999999999999999999999999999999999999999999999999999999999999"}[x.Choose(2)])
					x.State(e.hash())
					e.all()
				}},
				{Name: "views during an update", Opt: vs.Options{Bound: 2, FreeCost: 1, SelCost: 1}, Delays: 1, Run: func(x *X) {
					// A view shown while a block arrives is that before or after it.
					e := newAPI(x)
					e.ce.put(attr(2, gen1ID, true).proto(), rA)
					e.ce.put(attr(3, idN(2, true), true).proto(), rB)
					b := []blk{attr(4, idN(3, true), false), attr(4, idN(2, true), false), attr(4, gen1ID, true)}[x.Choose(3)]
					a := []netip.Addr{rA, pV6}[x.Choose(2)]
					views := []string{"/api/heads", "/api/leashes", "/api/forks", "/api/fork/8.8.8.1", "/api/fork/8.8.8.1/generators/100"}
					v := views[x.Choose(len(views))]
					before := e.req(http.MethodGet, v)
					var mid resp
					done := false
					vs.SetPoints(true)
					vs.Go(func() {
						mid = e.req(http.MethodGet, v)
						done = true
					})
					err := e.ce.l.PutBlock(b.proto(), a)
					vs.WaitFor("view", func() bool { return done })
					vs.SetPoints(false)
					x.Check(err == nil, "PutBlock: %v", err)
					after := e.req(http.MethodGet, v)
					x.Check(before.code == 200 && after.code == 200, "%s gives status %d before and %d after the update", v, before.code, after.code)
					x.Check(mid.code == 200 && (bytes.Equal(mid.body, before.body) || bytes.Equal(mid.body, after.body)),
						"%s during the update gives %d %s, neither the state before, %s, nor after, %s", v, mid.code, mid.body, before.body, after.body)
				}},
			}
		},
		Bounds: "all views after every history of up to 3 (thorough 4) of 8 kinds of chain and registry operations from the fresh and a populated state; every triple of branch lengths from {0,1,5,6,12} on trunks of 0, 1 and 7 blocks; chains around 1000 blocks; every combination (thorough: for two blocks) of extreme timestamps and base targets with 4 names and 2 scores; 5 views concurrent with the arrival of a block, all schedules with up to 2 preemptions",
	})

	register(&Check{
		ID: "A02",
		Scenarios: func(th bool) []Scenario {
			states := []func(e *aEnv){
				func(e *aEnv) {},
				func(e *aEnv) { e.connect(rA, "a", ver(1, 5, 0)); e.re.appendAddrs(tcpAddr("8.8.8.4", 6868)) },
				func(e *aEnv) {
					e.ce.put(attr(2, gen1ID, true).proto(), rA)
					e.ce.put(attr(3, gen1ID, false).proto(), pV6)
					e.connect(rA, "a", ver(1, 5, 0))
					e.connect(rB, "b", ver(1, 5, 0))
					e.re.hostile(ip("8.8.8.5"))
				},
				func(e *aEnv) {
					e.grown(3, 7, 2, 6)
					e.connect(rB, "b", ver(1, 5, 0))
				},
			}
			type par struct {
				s    string
				good bool // well-formed
				any  bool // either is fine
				a    netip.Addr
			}
			addrs := []par{{s: "8.8.8.1", good: true, a: rA}, {s: "8.8.8.77", good: true, a: ip("8.8.8.77")}, {s: "2001:db8::1", good: true, a: pV6}, {s: "2001:0db8:0:0::1", good: true, a: pV6}, {s: "::", good: true, a: ip("::")},
				{s: "abc"}, {s: "300.1.1.1"}, {s: "1.2.3"}, {s: "8.8.8.1:6868"}, {s: "[::1]"}, {s: "%00"}, {s: "%20"}, {s: "8.8.8.1%20"}, {s: strings.Repeat("9", 3000)}, {s: "-1"}, {s: "8.8.8.1%2F"}, {s: "..", any: true}, {s: "fe80::1%25eth0", any: true}, {s: "08.8.8.1"}, {s: "%E2%82%AC"}}
			counts := []par{{s: "0", good: true}, {s: "1", good: true}, {s: "5", good: true}, {s: "1000", good: true}, {s: "1000000000", good: true}, {s: "9223372036854775807", good: true},
				{s: "-1"}, {s: "-9223372036854775808"}, {s: "9223372036854775808"}, {s: "99999999999999999999999"}, {s: "abc"}, {s: "1.5"}, {s: "%201"}, {s: "0x10"}, {s: "1_0"}, {s: "1e3"}, {s: "+5", any: true}, {s: "-0", any: true}, {s: "%00"}, {s: strings.Repeat("1", 5000)}}
			filters := []par{{s: "", good: true}, {s: "8.8.8.1", good: true}, {s: "8.8.8.1,8.8.8.2", good: true}, {s: "%208.8.8.1%20,,2001:db8::1,", good: true}, {s: ",,%20,", good: true}, {s: "8.8.8.77", good: true},
				{s: "abc"}, {s: "8.8.8.1,abc"}, {s: "8.8.8.1:6868"}, {s: "8.8.8.1;8.8.8.2", any: true}, {s: "%00"}, {s: "8.8.8.1%zz", any: true}, {s: "8.8.8.1/32"}, {s: strings.Repeat("8.8.8.1,", 10000), good: true}}
			views := []string{"/api/peers/all", "/api/peers/friendly", "/api/connections", "/api/heads", "/api/leashes", "/api/status", "/api/forks", "/api/active-forks"}
			expect := func(e *aEnv, r resp, target string, want int) {
				e.x.Check(r.code == want, "GET %s gives status %d, expected %d: %s", target, r.code, want, r.body)
				if want == 200 {
					e.x.Check(json.Valid(r.body), "GET %s gives no valid JSON", target)
				} else {
					e.x.Check(len(bytes.TrimSpace(r.body)) > 0, "GET %s gives status %d without an explanation", target, r.code)
				}
			}
			return []Scenario{
				{Name: "parameters", Opt: seqOpt, Run: func(x *X) {
					e := newAPI(x)
					states[x.Choose(len(states))](e)
					x.State(e.hash())
					var target string
					want := 200
					switch x.Choose(4) {
					case 0:
						target = views[x.Choose(len(views))]
						target += []string{"", "?", "?peers", "?x=1", "?peers=&a=b"}[x.Choose(5)]
					case 1:
						a := addrs[x.Choose(len(addrs))]
						target = "/api/fork/" + a.s
						_, known := e.ce.r.leash[a.a]
						switch {
						case a.any:
							want = 0
						case !a.good:
							want = 400
						case !known:
							want = 404
						}
					case 2:
						a, c := addrs[x.Choose(len(addrs))], counts[x.Choose(len(counts))]
						target = "/api/fork/" + a.s + "/generators/" + c.s
						_, known := e.ce.r.leash[a.a]
						switch {
						case a.any || c.any:
							want = 0
						case !a.good || !c.good && known:
							want = 400
						case !known && !c.good:
							want = 4
						case !known:
							want = 404
						}
					case 3:
						f := filters[x.Choose(len(filters))]
						target = views[6+x.Choose(2)] + "?peers=" + f.s
						if f.any {
							want = 0
						} else if !f.good {
							want = 400
						}
					}
					for i := 0; i < 2; i++ {
						r := e.req(http.MethodGet, target)
						switch want {
						case 0:
							x.Check(r.code >= 200 && r.code < 500, "GET %s gives status %d", target, r.code)
						case 4:
							x.Check(r.code == 400 || r.code == 404, "GET %s gives status %d", target, r.code)
						default:
							expect(e, r, target, want)
						}
					}
					e.re.cmp()
					e.ce.cmpLeashes()
				}},
				{Name: "methods and paths", Opt: seqOpt, Run: func(x *X) {
					e := newAPI(x)
					states[2*x.Choose(2)](e)
					paths := append([]string{"/", "/api", "/api/", "/api/unknown", "/api/heads/", "/api//heads", "/api/fork", "/api/fork/", "/api/fork//generators/5", "/api/fork/8.8.8.1/generators", "/api/fork/8.8.8.1/generators/", "/api/fork/8.8.8.1/generators/1/2", "/heads", "/API/heads", "/api/../api/heads", "/%2e%2e/etc/passwd", "/api/%00"}, views...)
					paths = append(paths, "/api/fork/8.8.8.1", "/api/fork/8.8.8.1/generators/3")
					p := paths[x.Choose(len(paths))]
					ms := []string{"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "CONNECT", "TRACE", "BREW"}
					m := ms[x.Choose(len(ms))]
					r := e.req(m, p)
					x.Check(r.code >= 200 && r.code < 500, "%s %s gives status %d: %s", m, p, r.code, r.body)
					if m != "GET" && m != "HEAD" && m != "OPTIONS" {
						x.Check(r.code >= 400, "%s %s gives status %d", m, p, r.code)
					}
					e.all(0, 1)
				}},
				{Name: "storage failures", Opt: vs.Options{Bound: 1, FreeCost: -1, SelCost: -1}, Run: func(x *X) {
					// One storage call fails during a view: a server error, and the next request works.
					e := newAPI(x)
					states[x.Choose(len(states))](e)
					ts := append([]string{"/api/fork/8.8.8.1", "/api/fork/8.8.8.1/generators/0", "/api/fork/8.8.8.1/generators/3", "/api/fork/8.8.8.77", "/api/forks?peers=8.8.8.1,2001:db8::1", "/api/active-forks?peers=8.8.8.1"}, views...)
					t := ts[x.Choose(len(ts))]
					good := e.req(http.MethodGet, t)
					hit := faults(x)
					r := e.req(http.MethodGet, t)
					vs.W.Fault = nil
					if *hit {
						x.Check(r.code == 500, "GET %s with a failing storage gives status %d: %s", t, r.code, r.body)
					} else {
						x.Check(r.code == good.code, "GET %s gives status %d, then %d", t, good.code, r.code)
					}
					again := e.req(http.MethodGet, t)
					x.Check(again.code == good.code, "GET %s gives status %d after a storage failure, %d before it", t, again.code, good.code)
					x.State(e.hash())
					// Nothing is left locked.
					e.ce.put(attr(50, gen1ID, true).proto(), rC)
					e.connect(rD, "d", ver(1, 5, 0))
					e.all(0, 2)
				}},
				{Name: "requests during updates", Opt: vs.Options{Bound: 2, FreeCost: 1, SelCost: 1}, Delays: 1, Run: func(x *X) {
					// Requests are answered while blocks arrive and peers connect and disconnect.
					e := newAPI(x)
					states[2](e)
					ts := append([]string{"/api/fork/8.8.8.1", "/api/fork/8.8.8.1/generators/0"}, views...)
					t := ts[x.Choose(len(ts))]
					var r resp
					done := 0
					up := x.Choose(4)
					e.re.suggest(rC)
					vs.SetPoints(true)
					vs.Go(func() {
						r = e.req(http.MethodGet, t)
						done++
					})
					switch up {
					case 0:
						err := e.ce.l.PutBlock(attr(4, idN(2, true), true).proto(), rB)
						x.Check(err == nil, "PutBlock: %v", err)
					case 1:
						err := e.re.r.UnregisterPeer(rA)
						x.Check(err == nil, "UnregisterPeer: %v", err)
					case 2:
						f := &fpeer{addr: netip.MustParseAddrPort("8.8.8.3:40000"), hs: hsOf(goodApp, ver(1, 5, 0), "c", 3, nil)}
						err := e.re.r.RegisterPeer(rC, f, f.hs)
						x.Check(err == nil, "RegisterPeer: %v", err)
					case 3:
						e.re.r.AppendAddresses([]*tcpA{{IP: []byte{8, 8, 8, 3}, Port: 6868}})
					}
					vs.WaitFor("answer", func() bool { return done == 1 })
					vs.SetPoints(false)
					x.Check(r.code == 200, "GET %s during an update gives status %d: %s", t, r.code, r.body)
					x.Check(json.Valid(r.body), "GET %s gives no valid JSON", t)
				}},
			}
		},
		Bounds: "20 addresses x 20 block counts, 14 peer filters, 8 views with 5 query variants, in 4 states (fresh, connected, forked, grown), each twice; 27 paths x 10 methods in 2 states; every single storage failure in 14 requests in 4 states; 10 requests x 4 concurrent updates, all schedules with up to 2 preemptions",
	})

	register(&Check{
		ID: "A03",
		Scenarios: func(th bool) []Scenario {
			ps := []netip.Addr{rA, rB, pV6}
			return []Scenario{
				{Name: "subsets", Opt: seqOpt, Run: func(x *X) {
					e := newAPI(x)
					e.ce.peers = []netip.Addr{rA, rB, pV6}
					leashed, connected, filter := x.Choose(8), x.Choose(4), x.Choose(8)
					shape := x.Choose(4)
					parents := [][3]int{{0, 0, 0}, {0, 1, 2}, {0, 1, 1}, {0, 1, 0}}[shape]
					// The layout of blocks: b1 on the genesis, then as the shape tells; the leash of each peer is its own block.
					ids := []proto.BlockID{gen1ID}
					for i := range ps {
						b := attr(20+i, ids[parents[i]], true)
						ids = append(ids, b.id())
						e.ce.univ = append(e.ce.univ, b.id())
						e.ce.put(b.proto(), rD)
					}
					n := x.Choose(2) // All on one block or each on its own.
					for i, a := range ps {
						if leashed>>i&1 == 1 {
							if n == 1 {
								e.ce.move(ids[1], a)
							} else {
								e.ce.move(ids[i+1], a)
							}
						}
					}
					for i, a := range ps[:2] {
						if connected>>i&1 == 1 {
							e.connect(a, "n", ver(1, 5, 0))
						}
					}
					if x.Bool() {
						e.connect(rC, "c", ver(1, 5, 0)) // Connected, without a leash.
					}
					x.State(e.hash())
					fm := map[netip.Addr]bool{}
					var items []string
					for i, a := range ps {
						if filter>>i&1 == 1 {
							fm[a] = true
							items = append(items, a.String())
						}
					}
					var qs []string
					j := strings.Join(items, ",")
					qs = append(qs, "?peers="+j, "?peers="+url.QueryEscape(" "+strings.Join(items, " , ")+" "), "?peers=,"+j+",,", "?a=1&peers="+j+"&b=2")
					if len(items) == 0 {
						qs = append(qs, "", "?peers", "?Peers=8.8.8.1")
					} else {
						qs = append(qs, "?peers="+j+","+j, "?peers="+url.QueryEscape("\t"+strings.Join(items, "\t,\n")), "?peers="+url.QueryEscape(strings.ToUpper(j)))
						for k, l := 0, len(items); k < l/2; k++ {
							items[k], items[l-1-k] = items[l-1-k], items[k]
						}
						qs = append(qs, "?peers="+strings.Join(items, ","))
					}
					sel := fm
					if len(fm) == 0 {
						sel = nil
					}
					for _, q := range qs {
						e.forks("/api/forks"+q, sel)
						e.activeForks("/api/active-forks"+q, fm)
					}
					// Together with a peer nobody knows.
					fm2 := map[netip.Addr]bool{ip("8.8.8.77"): true}
					for a := range fm {
						fm2[a] = true
					}
					q := "?peers=8.8.8.77," + j
					e.forks("/api/forks"+q, fm2)
					e.activeForks("/api/active-forks"+q, fm2)
					for _, bad := range []string{"x", "8.8.8", "8.8.8.1:1", "1"} {
						for _, v := range []string{"/api/forks", "/api/active-forks"} {
							for _, q := range []string{bad, bad + "," + j, j + "," + bad, j + ", " + bad + " ,"} {
								t := v + "?peers=" + url.QueryEscape(q)
								r := e.req(http.MethodGet, t)
								x.Check(r.code == 400, "GET %s gives status %d", t, r.code)
							}
						}
					}
				}},
				{Name: "connections come and go", Opt: seqOpt, Run: func(x *X) {
					e := newAPI(x)
					e.grown(2, 3, 1, 2)
					depth := 3
					if th {
						depth = 4
					}
					for i := 0; i < depth; i++ {
						if x.Seen(e.hash(), depth-i) {
							return
						}
						a := []netip.Addr{rA, rB, rC}[x.Choose(3)]
						switch x.Choose(4) {
						case 0:
							e.connect(a, "n", ver(1, 5, 0))
						case 1:
							e.re.unregister(a)
						case 2:
							e.ce.put(attr(70+i, e.ce.r.leashOf(a), true).proto(), a)
						case 3:
							e.re.reopen()
							e.serve()
						}
						if e.fresh() {
							for f := 0; f < 8; f++ {
								fm := map[netip.Addr]bool{}
								var it []string
								for k, a := range []netip.Addr{rA, rB, rC} {
									if f>>k&1 == 1 {
										fm[a] = true
										it = append(it, a.String())
									}
								}
								sel := fm
								if f == 0 {
									sel = nil
								}
								q := "?peers=" + strings.Join(it, ",")
								e.forks("/api/forks"+q, sel)
								e.activeForks("/api/active-forks"+q, fm)
							}
						}
					}
				}},
			}
		},
		Bounds: "every subset of 3 peers (IPv4, IPv6) as leashed and as filter, every subset of the IPv4 ones as connected, with and without a connected peer that has no leash, 4 layouts of their blocks and a common block, 8 notations, with unknown peers and with invalid entries at each position; every history of 3 (thorough 4) connects, disconnects, blocks and restarts with every filter",
	})
}
