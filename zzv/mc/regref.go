package main

import (
	"fmt"
	"math/big"
	"net"
	"net/netip"
	"sort"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/wavesplatform/gowaves/pkg/p2p/conn"
	"github.com/wavesplatform/gowaves/pkg/p2p/peer"
	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/peers"
	"github.com/alexeykiselev/waves-fork-detector/zzv/leveldb"
	"github.com/alexeykiselev/waves-fork-detector/zzv/vs"
)

// fpeer is a connection that only records what is done with it.
type fpeer struct {
	addr   netip.AddrPort
	hs     proto.Handshake
	dir    peer.Direction
	closed int
	sent   []proto.Message
	onSend func(m proto.Message)
	onStop func()
	badEnd bool // closing reports an error
}

type fid string

func (i fid) String() string { return string(i) }

func (p *fpeer) Direction() peer.Direction { return p.dir }
func (p *fpeer) Close() error {
	p.closed++
	if p.onStop != nil {
		p.onStop()
	}
	if p.badEnd || p.closed > 1 {
		return net.ErrClosed
	}
	return nil
}
func (p *fpeer) SendMessage(m proto.Message) {
	p.sent = append(p.sent, m)
	if p.onSend != nil {
		p.onSend(m)
	}
}
func (p *fpeer) ID() peer.ID                 { return fid(p.addr.String()) }
func (p *fpeer) Connection() conn.Connection { return nil }
func (p *fpeer) Handshake() proto.Handshake  { return p.hs }
func (p *fpeer) RemoteAddr() proto.TCPAddr {
	return proto.TCPAddr(*net.TCPAddrFromAddrPort(p.addr))
}
func (p *fpeer) Equal(o peer.Peer) bool { return p == o }

// Reference model of the peer registry, written from the properties alone.
type rrec struct {
	port  uint16
	nonce uint64
	name  string
	ver   proto.Version
	state peers.State
	next  int64
	score string
	fuzzy bool // name and version are not specified
}

type regRef struct {
	scheme   byte
	declared netip.Addr
	versions []proto.Version // distinct major.minor, highest first
	recs     map[netip.Addr]rrec
	conns    map[netip.Addr]*fpeer
	pending  map[netip.Addr]bool
}

func newRegRef(declared netip.Addr, vs []proto.Version) *regRef {
	r := &regRef{scheme: scheme, declared: declared, recs: map[netip.Addr]rrec{}, conns: map[netip.Addr]*fpeer{}, pending: map[netip.Addr]bool{}}
	for _, v := range vs {
		n := proto.NewVersion(v.Major(), v.Minor(), 0)
		dup := false
		for _, o := range r.versions {
			dup = dup || o == n
		}
		if !dup {
			r.versions = append(r.versions, n)
		}
	}
	sort.Slice(r.versions, func(i, j int) bool {
		a, b := r.versions[i], r.versions[j]
		if a.Major() != b.Major() {
			return a.Major() > b.Major()
		}
		return a.Minor() > b.Minor()
	})
	return r
}

func (r *regRef) clone() *regRef {
	n := &regRef{scheme: r.scheme, declared: r.declared, versions: r.versions, recs: map[netip.Addr]rrec{}, conns: map[netip.Addr]*fpeer{}, pending: map[netip.Addr]bool{}}
	for k, v := range r.recs {
		n.recs[k] = v
	}
	for k, v := range r.conns {
		n.conns[k] = v
	}
	for k, v := range r.pending {
		n.pending[k] = v
	}
	return n
}

func nowSec() int64 { return vs.W.Now.Unix() }

const redial = 600

func (r *regRef) suggest(a netip.Addr) (proto.Version, bool) {
	p, ok := r.recs[a]
	if !ok {
		r.recs[a] = rrec{ver: r.versions[0], next: nowSec() + redial, score: "0"}
		return r.versions[0], true
	}
	switch p.state {
	case peers.PeerConnected:
		return p.ver, true
	case peers.PeerHostile:
		return proto.Version{}, false
	}
	n := 0
	for i, v := range r.versions {
		if v.Major() == p.ver.Major() && v.Minor() == p.ver.Minor() {
			n = (i + 1) % len(r.versions)
		}
	}
	p.ver = r.versions[n]
	p.next = nowSec() + redial
	r.recs[a] = p
	return p.ver, true
}

func verDist(a, b proto.Version) bool {
	if a.Major() != b.Major() {
		return false
	}
	x, y := int64(a.Minor()), int64(b.Minor())
	return x-y <= 1 && y-x <= 1
}

// register reports whether the connection is admitted.
func (r *regRef) register(a netip.Addr, np *fpeer) bool {
	delete(r.pending, a)
	if !a.Is4() || a == r.declared {
		return false
	}
	p, ok := r.recs[a]
	if !ok {
		p.next = noTime
	}
	if p.state == peers.PeerHostile {
		return false
	}
	hs := np.hs
	if !verDist(hs.Version, p.ver) || len(hs.AppName) == 0 || hs.AppName[len(hs.AppName)-1] != r.scheme {
		if p.score == "" {
			p.score = "0"
		}
		p.state = peers.PeerHostile
		p.fuzzy = true
		r.recs[a] = p
		return false
	}
	port := uint16(0)
	if d := hs.DeclaredAddr; !d.Empty() {
		ip, ok := netip.AddrFromSlice(d.IP)
		if !ok || d.Port < 0 || d.Port > 65535 {
			return false
		}
		ip = ip.Unmap()
		if !ip.Is4() || ip.IsLoopback() {
			return false
		}
		if ip == a {
			port = uint16(d.Port)
		}
	}
	if !utf8.ValidString(hs.NodeName) {
		return false
	}
	if p.score == "" {
		p.score = "0"
	}
	p.port, p.nonce, p.name, p.ver, p.state, p.next = port, hs.NodeNonce, hs.NodeName, hs.Version, peers.PeerConnected, nowSec()
	r.recs[a] = p
	r.conns[a] = np
	return true
}

func (r *regRef) unregister(a netip.Addr) bool {
	p, ok := r.recs[a]
	if !ok {
		return false
	}
	delete(r.pending, a)
	delete(r.conns, a)
	p.next = nowSec() + redial
	r.recs[a] = p
	return true
}

// broken is the failure of a connection.
func (r *regRef) broken(a netip.Addr, c *fpeer) {
	if r.conns[a] == c {
		r.unregister(a)
	}
}

// failed is the failure of an attempt to connect.
func (r *regRef) failed(a netip.Addr) {
	if r.conns[a] != nil {
		delete(r.pending, a)
		return
	}
	r.unregister(a)
}

func (r *regRef) hostile(a netip.Addr) {
	delete(r.pending, a)
	p, ok := r.recs[a]
	if !ok {
		p.score = "0"
		p.next = noTime
	}
	p.port = 0
	p.state = peers.PeerHostile
	r.recs[a] = p
}

func (r *regRef) score(a netip.Addr, s string) bool {
	p, ok := r.recs[a]
	if !ok {
		return false
	}
	p.score = s
	r.recs[a] = p
	return true
}

var noTime = time.Time{}.Unix()

func (r *regRef) appendAddrs(l []*net.TCPAddr) int {
	n := 0
	for _, t := range l {
		if t == nil || t.Port < 0 || t.Port > 65535 {
			continue
		}
		a, ok := netip.AddrFromSlice(t.IP)
		if !ok {
			continue
		}
		a = a.Unmap()
		if !a.Is4() || a.IsLoopback() || a == r.declared {
			continue
		}
		if _, known := r.recs[a]; known {
			continue
		}
		r.recs[a] = rrec{port: uint16(t.Port), next: noTime, score: "0"}
		n++
	}
	return n
}

func (r *regRef) take() []netip.AddrPort {
	var o []netip.AddrPort
	for a, p := range r.recs {
		if p.state == peers.PeerHostile || p.port == 0 || a == r.declared || p.next > nowSec() || r.conns[a] != nil || r.pending[a] {
			continue
		}
		o = append(o, netip.AddrPortFrom(a, p.port))
		r.pending[a] = true
	}
	sortAP(o)
	return o
}

func sortAP(o []netip.AddrPort) {
	sort.Slice(o, func(i, j int) bool { return o[i].Compare(o[j]) < 0 })
}

func (r *regRef) reopen() {
	r.conns = map[netip.Addr]*fpeer{}
	r.pending = map[netip.Addr]bool{}
}

// rEnv is a registry on the simulated storage together with its model.
type rEnv struct {
	x        *X
	r        *peers.Registry
	m        *regRef
	declared string
	vers     []proto.Version
	badEnd   bool         // closing of connections reports an error
	probe    []netip.Addr // addresses asked individually
	ncon     int
	fakes    []*fpeer
}

const regDB = "/rs"

func regPath() string { return regDB + "/peers" }

func regStore() *leveldb.Store { return leveldb.Lookup(regPath()) }

var (
	rA = ip("8.8.8.1")
	rB = ip("8.8.8.2")
	rC = ip("8.8.8.3")
	rS = ip("8.8.8.9") // our own declared address
)

func ver(a, b, c uint32) proto.Version { return proto.NewVersion(a, b, c) }

func newReg(x *X, declared string, vers []proto.Version, probe ...netip.Addr) *rEnv {
	e := &rEnv{x: x, declared: declared, vers: vers, probe: probe}
	e.open()
	var d netip.Addr
	if declared != "" {
		d = netip.MustParseAddrPort(declared).Addr()
	}
	e.m = newRegRef(d, vers)
	return e
}

func (e *rEnv) open() {
	d := proto.TCPAddr{}
	if e.declared != "" {
		d = proto.TCPAddr(*net.TCPAddrFromAddrPort(netip.MustParseAddrPort(e.declared)))
	}
	r, err := peers.NewRegistry(scheme, d, append([]proto.Version{}, e.vers...), regDB)
	if err != nil {
		e.x.Fail("opening the registry failed: %v", err)
	}
	e.r = r
}

func (e *rEnv) reopen() {
	e.x.Op("reopen")
	if err := e.r.Close(); err != nil {
		e.x.Fail("Close: %v", err)
	}
	e.open()
	e.m.reopen()
}

func (e *rEnv) fresh() bool { return e.x.noPrune || len(e.x.w.Trace) >= e.x.prefix }

// hsOf is a handshake with the given application name suffix, version, name and declared address.
func hsOf(app string, v proto.Version, name string, nonce uint64, decl *proto.HandshakeTCPAddr) proto.Handshake {
	h := proto.Handshake{AppName: app, Version: v, NodeName: name, NodeNonce: nonce, Timestamp: 1}
	if decl != nil {
		h.DeclaredAddr = *decl
	}
	return h
}

func declAddr(s string, port int) *proto.HandshakeTCPAddr {
	d := proto.HandshakeTCPAddr{IP: net.ParseIP(s), Port: port}
	return &d
}

var goodApp = "waves" + string(rune(scheme))

func (e *rEnv) register(a netip.Addr, hs proto.Handshake) bool {
	e.ncon++
	np := &fpeer{addr: netip.AddrPortFrom(a, uint16(40000+e.ncon)), hs: hs, badEnd: e.badEnd}
	e.fakes = append(e.fakes, np)
	e.x.Op("RegisterPeer %s %q v%s name %q declared %q", a, hs.AppName, hs.Version, hs.NodeName, hs.DeclaredAddr)
	err := e.r.RegisterPeer(a, np, hs)
	ok := e.m.register(a, np)
	if ok {
		e.x.Check(err == nil, "an acceptable peer is refused: %v", err)
		e.x.Check(np.closed == 0, "the connection of an admitted peer is closed")
	} else {
		e.x.Check(np.closed > 0, "the connection of a refused peer is not closed (%v)", err)
	}
	return ok
}

func (e *rEnv) unregister(a netip.Addr) {
	e.x.Op("UnregisterPeer %s", a)
	err := e.r.UnregisterPeer(a)
	ok := e.m.unregister(a)
	e.x.Check((err == nil) == ok, "UnregisterPeer(%s): %v", a, err)
}

func (e *rEnv) hostile(a netip.Addr) {
	e.x.Op("MarkAsHostile %s", a)
	err := e.r.MarkAsHostile(&net.IPAddr{IP: a.AsSlice()})
	e.m.hostile(a)
	e.x.Check(err == nil, "MarkAsHostile(%s): %v", a, err)
}

func (e *rEnv) suggest(a netip.Addr) (proto.Version, bool) {
	e.x.Op("SuggestVersion %s", a)
	v, err := e.r.SuggestVersion(a)
	w, ok := e.m.suggest(a)
	if ok {
		e.x.Check(err == nil, "SuggestVersion(%s): %v", a, err)
		e.x.Check(v == w, "SuggestVersion(%s) gives %s, expected %s", a, v, w)
	} else {
		e.x.Check(err != nil, "a version is suggested for the hostile peer %s", a)
	}
	return w, ok
}

func (e *rEnv) score(a netip.Addr, s string) {
	e.x.Op("UpdatePeerScore %s %s", a, s)
	n, _ := new(big.Int).SetString(s, 10)
	err := e.r.UpdatePeerScore(a, n)
	ok := e.m.score(a, s)
	e.x.Check((err == nil) == ok, "UpdatePeerScore(%s): %v", a, err)
}

func (e *rEnv) appendAddrs(l ...*net.TCPAddr) {
	e.x.Op("AppendAddresses %v", l)
	n := e.r.AppendAddresses(l)
	w := e.m.appendAddrs(l)
	e.x.Check(n == w, "AppendAddresses reports %d new addresses, expected %d", n, w)
}

func (e *rEnv) take() []netip.AddrPort {
	e.x.Op("TakeAvailableAddresses")
	got, err := e.r.TakeAvailableAddresses()
	want := e.m.take()
	e.x.Check(err == nil, "TakeAvailableAddresses: %v", err)
	g := append([]netip.AddrPort{}, got...)
	sortAP(g)
	e.x.Check(fmt.Sprint(g) == fmt.Sprint(append([]netip.AddrPort{}, want...)), "handed out for dialing: %v, expected %v", g, want)
	return want
}

func (e *rEnv) advance(s int) {
	e.x.Op("advance %d s", s)
	vs.Advance(time.Duration(s) * time.Second)
}

func tcpAddr(s string, port int) *net.TCPAddr { return &net.TCPAddr{IP: net.ParseIP(s), Port: port} }

func (e *rEnv) cmpRec(what string, p peers.Peer, w rrec, a netip.Addr) {
	f := ""
	sc := "0"
	if p.Score != nil {
		sc = p.Score.String()
	}
	switch {
	case p.AddressPort.Addr() != a:
		f = fmt.Sprintf("address %s", p.AddressPort.Addr())
	case p.AddressPort.Port() != w.port:
		f = fmt.Sprintf("port %d, expected %d", p.AddressPort.Port(), w.port)
	case p.Nonce != w.nonce:
		f = fmt.Sprintf("nonce %d, expected %d", p.Nonce, w.nonce)
	case !w.fuzzy && p.Name != w.name:
		f = fmt.Sprintf("name %q, expected %q", p.Name, w.name)
	case !w.fuzzy && p.Version != w.ver:
		f = fmt.Sprintf("version %s, expected %s", p.Version, w.ver)
	case p.State != w.state:
		f = fmt.Sprintf("state %s, expected %s", p.State, w.state)
	case p.NextAttempt.Unix() != w.next && !(w.next == noTime && p.NextAttempt.IsZero()):
		f = fmt.Sprintf("next attempt %s, expected %s", p.NextAttempt.UTC(), time.Unix(w.next, 0).UTC())
	case sc != w.score:
		f = fmt.Sprintf("score %s, expected %s", sc, w.score)
	}
	if f != "" {
		e.x.Fail("%s: record of %s has %s", what, a, f)
	}
}

func (e *rEnv) cmpList(what string, got []peers.Peer, want map[netip.Addr]bool) {
	seen := map[netip.Addr]bool{}
	for i, p := range got {
		a := p.AddressPort.Addr()
		if !want[a] {
			e.x.Fail("%s: %s is listed but should not be", what, a)
		}
		if seen[a] {
			e.x.Fail("%s: %s is listed twice", what, a)
		}
		seen[a] = true
		e.cmpRec(what, p, e.m.recs[a], a)
		if i > 0 && strings.ToUpper(got[i-1].Name) > strings.ToUpper(p.Name) {
			e.x.Fail("%s: %q is listed before %q", what, got[i-1].Name, p.Name)
		}
	}
	for a := range want {
		if !seen[a] {
			e.x.Fail("%s: %s is missing", what, a)
		}
	}
}

// cmp compares everything observable without changing anything.
func (e *rEnv) cmp() {
	x := e.x
	all, friends, conns := map[netip.Addr]bool{}, map[netip.Addr]bool{}, map[netip.Addr]bool{}
	for a, p := range e.m.recs {
		all[a] = true
		if p.state == peers.PeerConnected {
			friends[a] = true
		}
		got, err := e.r.Peer(a)
		x.Check(err == nil, "Peer(%s): %v", a, err)
		e.cmpRec("Peer", got, p, a)
	}
	for a := range e.m.conns {
		conns[a] = true
	}
	for _, a := range e.probe {
		if !all[a] {
			_, err := e.r.Peer(a)
			x.Check(err != nil, "Peer(%s) finds an address never recorded", a)
		}
	}
	l, err := e.r.Peers()
	x.Check(err == nil, "Peers: %v", err)
	e.cmpList("Peers", l, all)
	l, err = e.r.FriendlyPeers()
	x.Check(err == nil, "FriendlyPeers: %v", err)
	e.cmpList("FriendlyPeers", l, friends)
	as, err := e.r.Addresses()
	x.Check(err == nil, "Addresses: %v", err)
	var gs, ws []string
	for _, a := range as {
		gs = append(gs, a.String())
	}
	for a := range friends {
		ws = append(ws, netip.AddrPortFrom(a, e.m.recs[a].port).String())
	}
	sort.Strings(gs)
	sort.Strings(ws)
	x.Check(strings.Join(gs, " ") == strings.Join(ws, " "), "Addresses gives %v, expected %v", gs, ws)
	l, err = e.r.Connections()
	x.Check(err == nil, "Connections: %v", err)
	e.cmpList("Connections", l, conns)
	for _, f := range e.fakes {
		f.sent = nil
	}
	for i := range l {
		m := &proto.GetPeersMessage{}
		a := l[i].AddressPort.Addr()
		vs.Settle(func() { l[i].Send(m) })
		for _, f := range e.fakes {
			if want := f == e.m.conns[a]; want != (len(f.sent) > 0) {
				x.Fail("a message to the listed peer %s is sent on the wrong connection", a)
			}
			f.sent = nil
		}
	}
	m := &proto.GetPeersMessage{}
	vs.Settle(func() { e.r.Broadcast(m) })
	for _, f := range e.fakes {
		n := 0
		if e.m.conns[f.addr.Addr()] == f {
			n = 1
		}
		x.Check(len(f.sent) == n && (n == 0 || f.sent[0] == proto.Message(m)), "a broadcast reached connection %s %d times, expected %d", f.addr, len(f.sent), n)
		f.sent = nil
	}
}

// hash covers the real storage and memory; the model is a function of the same history and agrees with it.
func (e *rEnv) hash() uint64 {
	var sb strings.Builder
	var ks []string
	for a, p := range e.m.recs {
		ks = append(ks, fmt.Sprint(a, p, e.m.conns[a] != nil, e.m.pending[a]))
	}
	sort.Strings(ks)
	sb.WriteString(strings.Join(ks, ";"))
	return worldHash([]string{regPath()}, e.r, sb.String())
}

// settle looks at what is offered for dialing now, and after the delay.
func (e *rEnv) settle() {
	e.take()
	e.advance(redial - 1)
	e.take()
	e.advance(1)
	e.take()
	e.cmp()
}

type (
	tcpA = net.TCPAddr
	ipA  = net.IPAddr
)
