package main

import (
	"fmt"
	"math/big"
	"net/netip"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/peers"
	"github.com/alexeykiselev/waves-fork-detector/zzv/leveldb"
	"github.com/alexeykiselev/waves-fork-detector/zzv/vs"
)

// Checks P07 (durability and exactness of records) and P08 (concurrency).

func (e *rEnv) matches(m *regRef) (bool, string) {
	old := e.m
	e.m = m
	defer func() { e.m = old }()
	why := tryCheck(e.cmp)
	return why == "", why
}

func dumpReg(r *peers.Registry) string {
	var sb strings.Builder
	row := func(p peers.Peer) string {
		sc := "nil"
		if p.Score != nil {
			sc = p.Score.String()
		}
		return fmt.Sprintf("%s nonce %d %q v%s %s next %d score %s", p.AddressPort, p.Nonce, p.Name, p.Version, p.State, p.NextAttempt.Unix(), sc)
	}
	list := func(n string, f func() ([]peers.Peer, error)) {
		l, err := f()
		fmt.Fprintf(&sb, "%s %v\n", n, err)
		var rows []string
		for _, p := range l {
			rows = append(rows, row(p))
		}
		sort.Strings(rows)
		sb.WriteString("  " + strings.Join(rows, "\n  ") + "\n")
	}
	list("peers", r.Peers)
	list("friends", r.FriendlyPeers)
	list("connections", r.Connections)
	return sb.String()
}

func maxScore(bits int) string {
	n := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	return n.Sub(n, big.NewInt(1)).String()
}

func durableOps() []rop {
	long := strings.Repeat("n", 300)
	full := func(a netip.Addr, name string, nonce uint64, port int, patch uint32) rop {
		return rop{"register", func(e *rEnv) {
			v, ok := e.suggest(a)
			if !ok {
				v = ver(1, 5, 0)
			}
			e.register(a, hsOf(goodApp, ver(v.Major(), v.Minor(), patch), name, nonce, declAddr(a.String(), port)))
		}}
	}
	return []rop{
		full(rA, "alpha", 1<<64-1, 65535, 1<<32-1),
		full(rA, "", 0, 1, 0),
		full(rB, "Ünï‮"+long, 1<<63, 256, 1),
		opScore(rA, maxScore(64)), opScore(rA, "0"), opScore(rB, maxScore(300)),
		opAppend(tcpAddr("8.8.8.2", 6863), tcpAddr("8.8.8.3", 6863)),
		opUnreg(rA), opUnreg(rC), opHostile(rB), opSuggest(rC), opTake(), opAdvance(1),
	}
}

func init() {
	register(&Check{
		ID: "P07",
		Scenarios: func(th bool) []Scenario {
			d, dc := 5, 4
			if th {
				d, dc = 7, 5
			}
			ops := durableOps()
			mk := func(x *X) *rEnv { return newReg(x, selfAP, regVers, rA, rB, rC) }
			s := []Scenario{
				{Name: "every record", Run: func(x *X) {
					names := []string{"", "a", "A", "0", "\x00", "quote\"\\", "Ünïcödé 界", strings.Repeat("x", 255), strings.Repeat("界", 2000)}
					nonces := []uint64{0, 1, 23, 24, 255, 256, 65535, 65536, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}
					ports := []int{0, 1, 23, 24, 255, 256, 6863, 65535}
					scores := []string{"", "0", "1", "-1", maxScore(63), maxScore(64), "18446744073709551616", "-18446744073709551616", maxScore(128), maxScore(2048), "-" + maxScore(512)}
					patches := []uint32{0, 1, 1<<31 - 1, 1<<32 - 1}
					e := mk(x)
					e.appendAddrs(tcpAddr("8.8.8.3", 6863))
					v, _ := e.suggest(rA)
					name, nonce := names[x.Choose(len(names))], nonces[x.Choose(len(nonces))]
					e.register(rA, hsOf(goodApp, ver(v.Major(), v.Minor(), patches[x.Choose(len(patches))]), name, nonce, declAddr("8.8.8.1", ports[x.Choose(len(ports))])))
					if sc := scores[x.Choose(len(scores))]; sc != "" {
						e.score(rA, sc)
					}
					e.cmp()
					e.reopen()
					e.cmp()
					x.State(e.hash())
				}},
				{Name: "every sequence, reopened", Run: func(x *X) {
					e := mk(x)
					for i := 0; i < d; i++ {
						if x.Seen(e.hash(), d-i) {
							return
						}
						ops[x.Choose(len(ops))].do(e)
						if e.fresh() {
							e.cmp()
						}
						if x.Bool() {
							e.reopen()
							if e.fresh() {
								e.cmp()
							}
						}
					}
					if x.Seen(e.hash(), 0) {
						return
					}
					e.reopen()
					e.cmp()
				}},
				{Name: "process death at every storage update", Run: func(x *X) {
					e := mk(x)
					n := 1 + x.Choose(dc)
					for i := 0; i < n; i++ {
						o := ops[x.Choose(len(ops))]
						st := regStore()
						before := e.m.clone()
						w0 := st.Writes()
						o.do(e)
						if i < n-1 {
							continue
						}
						// The states between the storage updates of this step, by address.
						w1 := st.Writes()
						cut := w0 + x.Choose(w1-w0+1)
						x.Op("crash after %d of %d storage updates of the last step", cut-w0, w1-w0)
						after := e.m.clone()
						before.reopen()
						after.reopen()
						st.Cut(cut)
						e.open()
						if cut == w1 {
							ok, why := e.matches(after)
							x.Check(ok, "an acknowledged update is lost: %s", why)
						} else {
							// Each record is entirely the old or the new one, or one between the two calls of a compound step.
							l, err := e.r.Peers()
							x.Check(err == nil, "Peers after a crash: %v", err)
							for _, p := range l {
								a := p.AddressPort.Addr()
								var why []string
								ok := false
								var cand []rrec
								for _, m := range []*regRef{before, after} {
									if r, has := m.recs[a]; has {
										cand = append(cand, r)
									}
								}
								mid := before.clone()
								mid.suggest(a)
								cand = append(cand, mid.recs[a])
								for _, r := range cand {
									w := tryCheck(func() { e.cmpRec("Peers", p, r, a) })
									ok = ok || w == ""
									why = append(why, w)
								}
								x.Check(ok, "mixed record after a crash: %s", strings.Join(why, "; "))
							}
							for a := range before.recs {
								_, err := e.r.Peer(a)
								x.Check(err == nil, "the record of %s is lost by a crash: %v", a, err)
							}
							if cut == w0 {
								ok, why := e.matches(before)
								x.Check(ok, "state differs from the one before the update: %s", why)
							}
						}
						x.State(dbHash(regPath()))
					}
				}},
				{Name: "process death during the first start", Run: func(x *X) {
					e := mk(x)
					st := regStore()
					st.Cut(x.Choose(st.Writes() + 1))
					e.open()
					e.cmp()
					for _, o := range ops {
						o.do(e)
						e.cmp()
					}
				}},
				{Name: "torn journal of the real database", Run: func(x *X) {
					hist := [][]int{{0, 2, 3, 6, 9}, {6, 1, 5, 7, 8, 10, 2}}
					h := hist[x.Choose(len(hist))]
					step := 3
					if th {
						step = 1
					}
					regTorn(x, h, x.Choose(32), 32, step)
				}},
				{Name: "real database agrees with the simulated one", Run: func(x *X) {
					dd := 2
					if th {
						dd = 3
					}
					var h []int
					for i := 0; i < dd; i++ {
						h = append(h, x.Choose(len(ops)))
					}
					e := mk(x)
					t0 := vs.W.Now
					for k, i := range h {
						ops[i].do(e)
						if k%2 == 1 {
							e.reopen()
						}
					}
					sim := dumpReg(e.r)
					e.r.Close()
					vs.W.Now = t0
					r := &rEnv{x: x, declared: selfAP, vers: regVers, m: newRegRef(rS, regVers)}
					dir := scratchDir(x)
					leveldb.UseReal(true)
					r.openAt(dir)
					for k, i := range h {
						ops[i].do(r)
						r.cmp()
						if k%2 == 1 {
							r.r.Close()
							r.openAt(dir)
							r.m.reopen()
							r.cmp()
						}
					}
					got := dumpReg(r.r)
					r.r.Close()
					leveldb.UseReal(false)
					x.Check(got == sim, "the real database gives\n%s\nthe simulated one\n%s", got, sim)
					x.State(H(got))
				}},
				{Name: "failing storage", Opt: vs.Options{Bound: 1}, Run: func(x *X) {
					// One storage call fails: the registry keeps the old or takes the new state of the records.
					e := mk(x)
					for i := 0; i < dc-2; i++ {
						ops[x.Choose(len(ops))].do(e)
					}
					calls := regCalls(e)
					c := calls[x.Choose(len(calls))]
					before, after := e.m.clone(), e.m.clone()
					c.ref(after)
					failed := faults(x)
					x.Op("%s", c.name)
					err := c.do()
					vs.W.Fault = nil
					if *failed {
						x.Check(err != nil, "%s: a failing storage call was reported as success", c.name)
					} else {
						x.Check(err == nil, "%s: %v", c.name, err)
					}
					recs := func(m *regRef) string {
						return tryCheck(func() {
							old := e.m
							e.m = m
							defer func() { e.m = old }()
							l, err := e.r.Peers()
							x.Check(err == nil, "Peers: %v", err)
							all := map[netip.Addr]bool{}
							for a := range m.recs {
								all[a] = true
							}
							e.cmpList("Peers", l, all)
						})
					}
					w1, w2 := recs(before), recs(after)
					if *failed {
						x.Check(w1 == "" || w2 == "", "half-made change: not the records before (%s) nor after (%s)", w1, w2)
					} else {
						x.Check(w2 == "", "%s", w2)
					}
					x.State(e.hash())
				}},
			}
			return s
		},
		Bounds: "every record of 9 names, 13 nonces, 8 ports, 4 patch numbers and 11 scores; every sequence of up to 5 (thorough 7) of 13 calls with the registry reopened after any of them; process death after every storage update of the last of up to 4 (5) calls; truncation of the real database journal of 2 histories at every third (every) byte; every history of 2 (3) calls on the real database; every single failing storage call in each of 9 calls",
		Assume: []string{"a batch write of the database is atomic across process death (checked on the real database by truncating its journal)"},
	})

	register(&Check{
		ID: "P08",
		Scenarios: func(th bool) []Scenario {
			const nw = 11
			b := 0
			if th {
				b = 1
			}
			nops := len(linReg(nil, "").ops)
			var ww, wr, rr, multi, three [][][]int
			for i := 0; i < nops; i++ {
				for j := i; j < nops; j++ {
					if i >= nw {
						rr = append(rr, [][]int{{i}, {j}})
					} else if j < nw {
						ww = append(ww, [][]int{{i}, {j}})
					} else {
						wr = append(wr, [][]int{{i}, {j}})
					}
				}
			}
			multi = [][][]int{{{0, 0}, {0, 5}}, {{1, 3}, {4, 0}}, {{6, 1}, {6, 2}}, {{5, 0}, {0, 3}}, {{1, 11}, {2, 11}}, {{3, 12}, {4, 13}}, {{6, 6}, {6, 1}}, {{4, 4}, {3, 1}}, {{7, 0}, {5, 3}}, {{1, 9}, {9, 2}}, {{10, 1}, {3, 11}}}
			three = [][][]int{{{0}, {0}, {0}}, {{0}, {3}, {1}}, {{1}, {2}, {4}}, {{6}, {6}, {6}}, {{5}, {5}, {0}}, {{1}, {3}, {14}}, {{2}, {4}, {11}}, {{7}, {1}, {11}}, {{8}, {3}, {12}}, {{1}, {9}, {3}}, {{1}, {10}, {9}}}
			mk := func(name string, menu [][][]int, opt vs.Options) Scenario {
				opt.Races = true
				return Scenario{Name: name, Opt: opt, Run: func(x *X) {
					m := menu[x.Choose(len(menu))]
					linearizable(x, "", m, func(inst string) linObj { return linReg(x, inst) })
				}}
			}
			return []Scenario{
				mk("two updates", ww, vs.Options{Bound: 4 + b, FreeCost: 1}),
				mk("two queries", rr, vs.Options{Bound: 2 + b, FreeCost: 1}),
				mk("update and query", wr, vs.Options{Bound: 4 + b, FreeCost: 1}),
				mk("two updates, statement level", ww, vs.Options{Fine: true, Bound: 2 + b, FreeCost: 1}),
				mk("update and query, statement level", wr, vs.Options{Fine: true, Bound: 2 + b, FreeCost: 1}),
				mk("two goroutines with two calls", multi, vs.Options{Bound: 3 + b, FreeCost: 1}),
				mk("three goroutines", three, vs.Options{Bound: 3 + b}),
			}
		},
		Bounds: "every pair of 11 updates (selection, admissions, disconnects of every kind, score updates, discoveries, suggestions, hostile marks) and every update with each query; every pair of queries (up to 2 preemptions, thorough 3); 11 pairs of two-call goroutines and 11 triples; on each of them no two goroutines access the same memory without synchronization; all schedules with up to 4 (thorough 5) preemptions at lock and storage operations (3 (4) with more calls or goroutines) and up to 2 (3) at any statement",
	})
}

func (e *rEnv) openAt(path string) {
	d := proto.TCPAddr{IP: rS.AsSlice(), Port: 6868}
	r, err := peers.NewRegistry(scheme, d, append([]proto.Version{}, e.vers...), path)
	if err != nil {
		e.x.Fail("opening the registry failed: %v", err)
	}
	e.r = r
}

type regCall struct {
	name string
	do   func() error
	ref  func(m *regRef)
}

func regCalls(e *rEnv) []regCall {
	var c []regCall
	add := func(n string, do func() error, ref func(m *regRef)) { c = append(c, regCall{n, do, ref}) }
	none := func(m *regRef) {}
	e.m.suggest(rA)
	e.r.SuggestVersion(rA)
	if e.m.recs[rA].state != peers.PeerHostile {
		np := &fpeer{addr: netip.AddrPortFrom(rA, 50000), hs: hsOf(goodApp, e.m.recs[rA].ver, "node", 3, declAddr("8.8.8.1", 99))}
		add("RegisterPeer", func() error { return e.r.RegisterPeer(rA, np, np.hs) }, func(m *regRef) { m.register(rA, np) })
		bad := &fpeer{addr: netip.AddrPortFrom(rA, 50001), hs: hsOf("wavesX", e.m.recs[rA].ver, "node", 3, nil)}
		_ = bad
		add("SuggestVersion", func() error { _, err := e.r.SuggestVersion(rA); return err }, func(m *regRef) { m.suggest(rA) })
	}
	add("UnregisterPeer", func() error { return e.r.UnregisterPeer(rA) }, func(m *regRef) { m.unregister(rA) })
	add("UpdatePeerScore", func() error { return e.r.UpdatePeerScore(rA, big.NewInt(9)) }, func(m *regRef) { m.score(rA, "9") })
	add("Connections", func() error {
		if len(e.m.conns) == 0 {
			_, err := e.r.Peers()
			return err
		}
		_, err := e.r.Connections()
		return err
	}, none)
	add("Peers", func() error { _, err := e.r.Peers(); return err }, none)
	add("FriendlyPeers", func() error { _, err := e.r.FriendlyPeers(); return err }, none)
	add("Addresses", func() error { _, err := e.r.Addresses(); return err }, none)
	add("Peer", func() error { _, err := e.r.Peer(rA); return err }, none)
	return c
}

// regTorn truncates the journal of the real database of a history.
func regTorn(x *X, h []int, chunk, chunks, step int) {
	ops := durableOps()
	t0 := vs.W.Now
	e := newReg(x, selfAP, regVers, rA, rB, rC)
	for _, i := range h {
		ops[i].do(e)
	}
	e.r.Close()
	total := regStore().Writes()
	var states []string
	for n := 0; n <= total; n++ {
		leveldb.Copy(regPath(), "/cut/peers")
		leveldb.Lookup("/cut/peers").Cut(n)
		c := &rEnv{x: x, vers: regVers}
		c.openAt("/cut")
		states = append(states, dumpReg(c.r))
		c.r.Close()
	}
	vs.W.Now = t0
	leveldb.UseReal(true)
	defer leveldb.UseReal(false)
	dir := scratchDir(x)
	r := &rEnv{x: x, vers: regVers, m: newRegRef(rS, regVers)}
	r.openAt(dir)
	for _, i := range h {
		ops[i].do(r)
	}
	files := map[string][]byte{}
	jname := ""
	fs, _ := os.ReadDir(filepath.Join(dir, "peers"))
	for _, f := range fs {
		if f.Name() == "LOCK" {
			continue
		}
		b, _ := os.ReadFile(filepath.Join(dir, "peers", f.Name()))
		files[f.Name()] = b
		if strings.HasSuffix(f.Name(), ".log") {
			jname = f.Name()
		}
	}
	r.r.Close()
	j := files[jname]
	x.Check(len(j) > 0, "no journal found")
	lo, hi := len(j)*chunk/chunks, len(j)*(chunk+1)/chunks
	if chunk == chunks-1 {
		hi = len(j) + 1
	}
	prev := 0
	for n := lo; n < hi; n += step {
		if n+step >= hi && chunk == chunks-1 {
			n = len(j)
		}
		x.Op("journal truncated at byte %d of %d", n, len(j))
		d2 := scratchDir(x)
		os.MkdirAll(filepath.Join(d2, "peers"), 0o755)
		for f, b := range files {
			if f == jname {
				b = b[:n]
			}
			os.WriteFile(filepath.Join(d2, "peers", f), b, 0o644)
		}
		c := &rEnv{x: x, vers: regVers}
		c.openAt(d2)
		got := dumpReg(c.r)
		at := -1
		for k, s := range states {
			if s == got {
				at = k
			}
		}
		x.Check(at >= 0, "with the journal truncated at byte %d of %d the registry is in none of the states between storage updates:\n%s", n, len(j), got)
		x.Check(at >= prev, "an older state is recovered from a longer journal")
		if n == len(j) {
			x.Check(got == states[total], "the complete journal does not give the last state")
		}
		prev = at
		x.State(H(got))
		c.r.Close()
		os.RemoveAll(d2)
	}
}

// linReg is a registry with a connected, a discovered and an unknown peer, and the calls on it.
func linReg(x *X, inst string) linObj {
	var r *peers.Registry
	var fakes []*fpeer
	fake := func(a netip.Addr, v proto.Version, app, name string, port int) *fpeer {
		p := &fpeer{addr: netip.AddrPortFrom(a, uint16(41000+len(fakes))), hs: hsOf(app, v, name, 7, declAddr(a.String(), port))}
		fakes = append(fakes, p)
		return p
	}
	es := func(e error) string {
		if e == nil {
			return "ok"
		}
		return "error"
	}
	reg := func(p *fpeer) string { return es(r.RegisterPeer(p.addr.Addr(), p, p.hs)) }
	a0 := fake(rA, ver(1, 5, 0), goodApp, "alpha", 6863)
	a1 := fake(rA, ver(1, 4, 0), goodApp, "alpha2", 6870)
	b1 := fake(rB, ver(1, 5, 0), goodApp, "beta", 6864)
	if x != nil {
		// Every instance lives at the same time.
		base, ok := vs.W.Data["base"].(time.Time)
		if !ok {
			base = vs.W.Now
			vs.W.Data["base"] = base
		}
		vs.W.Now = base
		var err error
		r, err = peers.NewRegistry(scheme, proto.TCPAddr{IP: rS.AsSlice(), Port: 6868}, append([]proto.Version{}, regVers...), "/"+inst)
		x.Check(err == nil, "NewRegistry: %v", err)
		_, _ = r.SuggestVersion(rA)
		x.Check(reg(a0) == "ok", "set-up")
		r.AppendAddresses([]*tcpA{tcpAddr("8.8.8.2", 6864), tcpAddr("8.8.8.4", 6865)})
		_, _ = r.SuggestVersion(rB)
		vs.W.Now = base.Add(redial * 1e9)
	}
	var ops []lop
	add := func(n string, f func() string) { ops = append(ops, lop{n, f}) }
	add("TakeAvailableAddresses", func() string { // 0
		l, err := r.TakeAvailableAddresses()
		sortAP(l)
		return fmt.Sprint(l) + es(err)
	})
	add("RegisterPeer(A again)", func() string { return reg(a1) })                                // 1
	add("RegisterPeer(B)", func() string { return reg(b1) })                                      // 2
	add("UnregisterPeer(A)", func() string { return es(r.UnregisterPeer(rA)) })                   // 3
	add("UpdatePeerScore(A)", func() string { return es(r.UpdatePeerScore(rA, big.NewInt(77))) }) // 4
	add("AppendAddresses", func() string {                                                        // 5
		return fmt.Sprint(r.AppendAddresses([]*tcpA{tcpAddr("8.8.8.3", 6866), tcpAddr("8.8.8.1", 1)}))
	})
	add("SuggestVersion(B)", func() string { v, err := r.SuggestVersion(rB); return v.String() + es(err) }) // 6
	add("MarkAsHostile(A)", func() string { return es(r.MarkAsHostile(&ipA{IP: rA.AsSlice()})) })           // 7
	add("SuggestVersion(C)", func() string { v, err := r.SuggestVersion(rC); return v.String() + es(err) }) // 8
	add("UnregisterConnection(A)", func() string { return es(r.UnregisterConnection(rA, a0)) })             // 9
	add("UnregisterPending(A)", func() string { return es(r.UnregisterPending(rA)) })                       // 10
	list := func(n string, f func() ([]peers.Peer, error)) {
		add(n, func() string {
			l, err := f()
			var s []string
			for i := range l {
				s = append(s, l[i].String())
				l[i].Send(&proto.GetPeersMessage{})
			}
			return strings.Join(s, ",") + es(err)
		})
	}
	list("Connections", func() ([]peers.Peer, error) { return r.Connections() }) // 11
	list("Peers", func() ([]peers.Peer, error) {
		l, err := r.Peers()
		sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
		return l, err
	})
	list("FriendlyPeers", func() ([]peers.Peer, error) { return r.FriendlyPeers() })
	add("Broadcast", func() string { r.Broadcast(&proto.GetPeersMessage{}); return "" }) // 14
	add("Addresses", func() string { l, err := r.Addresses(); return fmt.Sprint(l) + es(err) })
	add("Peer(A)", func() string { p, err := r.Peer(rA); return p.String() + es(err) })
	return linObj{ops, func() string {
		var sb strings.Builder
		sb.WriteString(dumpReg(r))
		l, _ := r.Connections()
		vs.Settle(func() {
			for i := range l {
				l[i].Send(&proto.GetPeersMessage{})
			}
		})
		for _, f := range fakes {
			fmt.Fprintf(&sb, "%s %s closed %d sent %d\n", f.addr, f.hs.NodeName, f.closed, len(f.sent))
		}
		t, err := r.TakeAvailableAddresses()
		sortAP(t)
		fmt.Fprint(&sb, t, err)
		vs.W.Now = vs.W.Now.Add(redial * 1e9)
		t, err = r.TakeAvailableAddresses()
		sortAP(t)
		fmt.Fprint(&sb, t, err)
		return sb.String()
	}}
}
