package main

import (
	"context"
	"encoding/json"
	"math/big"
	"slices"
	"strings"
	"time"

	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/zzv/vs"
)

// Check K01: start-up parameters.

// param is one command-line parameter with one of its values.
type param struct {
	name, val string
	omit      bool
	ok        bool
	net       byte     // scheme, for the blockchain type
	seeds     []string // additional seed peers
	vers      []proto.Version
}

func kParams() [][]param {
	db := func(v string, ok bool) param { return param{name: "db", val: v, ok: ok} }
	bt := func(v string, n byte) param { return param{name: "blockchain-type", val: v, ok: n != 0, net: n} }
	pe := func(v string, ok bool, s ...string) param { return param{name: "peers", val: v, ok: ok, seeds: s} }
	vr := func(v string, ok bool, s ...proto.Version) param {
		return param{name: "versions", val: v, ok: ok, vers: s}
	}
	s := func(n, v string, ok bool) param { return param{name: n, val: v, ok: ok} }
	d := runDir
	l := [][]param{
		{db(d+"/db", true), {name: "db", omit: true}, db("", false), db(d+"/none", false), db(d+"/file", false), db(d+"/file/x", false), db(d+"/db/", true), db(d+"/./db2", true), db("\x00", false)},
		{{name: "blockchain-type", omit: true, ok: true, net: 'W'}, bt("mainnet", 'W'), bt("testnet", 'T'), bt("stagenet", 'S'), bt("custom", 0), bt("", 0), bt("nonsense", 0)},
		{{name: "peers", omit: true, ok: true}, pe("", true), pe("8.8.8.1:6868", true, "8.8.8.1:6868"), pe("8.8.8.1:1,8.8.8.2:65535", true, "8.8.8.1:1", "8.8.8.2:65535"),
			pe(" 8.8.8.1:1 , 8.8.8.2:2 ", true, "8.8.8.1:1", "8.8.8.2:2"), pe("8.8.8.1:1,", true, "8.8.8.1:1"), pe(",,8.8.8.1:1", true, "8.8.8.1:1"),
			pe("8.8.8.1:1,8.8.8.1:1", true, "8.8.8.1:1"), pe("8.8.8.1:1,34.253.153.4:6868", true, "8.8.8.1:1", "34.253.153.4:6868"),
			pe("8.8.8.1", false), pe("8.8.8.1:", false), pe("8.8.8.1:70000", false), pe("8.8.8.1:-1", false), pe("8.8.8:1", false), pe("host:6868", false), pe("8.8.8.1:1,x", false), pe("8.8.8.1:1;8.8.8.2:1", false), pe(":6868", false)},
		{{name: "versions", omit: true, ok: true, vers: []proto.Version{ver(1, 5, 0)}}, vr("1.5", true, ver(1, 5, 0)), vr("1.4,1.5", true, ver(1, 5, 0), ver(1, 4, 0)), vr("1.5.3,1.4.9,1.5.1", true, ver(1, 5, 0), ver(1, 4, 0)), vr("1.3", true, ver(1, 3, 0)),
			vr("2.0,1.10,1.9", true, ver(2, 0, 0), ver(1, 10, 0), ver(1, 9, 0)),
			vr("", false), vr("1.5,", false), vr("x", false), vr("2", true, ver(2, 0, 0)), vr("1.5.1.1", false), vr("1.-5", false), vr("1.5,a.b", false), vr("1.5,1.5", true, ver(1, 5, 0)), vr("4294967296.0", false), vr("1.5;1.4", false)},
		{{name: "api", omit: true, ok: true}, s("api", "127.0.0.1:9999", true), s("api", "0.0.0.0:80", true), s("api", "127.0.0.1:65535", true), s("api", "127.0.0.1:65536", false), s("api", "[::1]:8080", true), s("api", "", false), s("api", "127.0.0.1", false), s("api", ":8080", false), s("api", "localhost:8080", false), s("api", "127.0.0.1:99999", false)},
		{{name: "net", omit: true, ok: true}, s("net", "127.0.0.1:7777", true), s("net", "0.0.0.0:6868", true), s("net", "", false), s("net", "127.0.0.1", false), s("net", ":6868", false), s("net", "localhost:6868", false), s("net", "127.0.0.1:x", false)},
		{{name: "name", omit: true, ok: true}, s("name", "n", true), s("name", strings.Repeat("n", 255), true), s("name", "", false), s("name", strings.Repeat("n", 256), false), s("name", strings.Repeat("é", 127), true), s("name", strings.Repeat("é", 128), false)},
		{s("declared-address", "8.8.8.9:6868", true), {name: "declared-address", omit: true, ok: true}, s("declared-address", "9.9.9.9:1", true)},
		{{name: "log-level", omit: true, ok: true}, s("log-level", "DEBUG", true), s("log-level", "info", true), s("log-level", "ERROR", true), s("log-level", "nonsense", false)},
	}
	return l
}

func init() {
	// try starts the service with the chosen values and compares what it does.
	try := func(x *X, d *daemon, ps []param) {
		var args []string
		val := map[string]param{}
		ok := true
		for _, p := range ps {
			val[p.name] = p
			ok = ok && p.ok
			if !p.omit {
				args = append(args, "-"+p.name+"="+p.val)
			}
		}
		def := func(n, v string) string {
			if p := val[n]; !p.omit {
				return p.val
			}
			return v
		}
		name, decl := def("name", "forkdetector"), def("declared-address", "")
		if !val["db"].omit && val["db"].ok {
			switch {
			case strings.HasSuffix(val["db"].val, "db2"):
				d.db = runDir + "/db2"
			default:
				d.db = runDir + "/db"
			}
		}
		up := 0
		d.n.dial = func(ctx context.Context, q dialing) (proto.Handshake, error) {
			if up == 1 {
				up++
				return hsOf("waves"+string(rune(val["blockchain-type"].net)), q.ver, "peer", 5, declAddr(q.to.Addr().String(), int(q.to.Port()))), nil
			}
			up++
			return proto.Handshake{}, errDial
		}
		d.start(args...)
		vs.Quiesce()
		if !ok {
			x.Check(d.exited, "the service starts with %q", args)
			x.Check(d.code != 0, "the service ends with code 0 with %q", args)
			x.Check(strings.TrimSpace(d.stderr) != "", "no error message with %q", args)
			for _, s := range []string{"/db/blocks", "/db/peers", "/db2/blocks", "/db2/peers"} {
				if st := lookup(runDir + s); st != nil {
					x.Fail("the database %s is touched with %q", s, args)
				}
			}
			return
		}
		x.Check(!d.exited, "the service ends with %q: code %d, %q", args, d.code, d.stderr)
		bl, pr := d.stores()
		x.Check(bl != nil && pr != nil && bl.IsOpen() && pr.IsOpen(), "the databases are not opened in %s", d.db)
		x.Check(d.apiAddr == def("api", "127.0.0.1:8080"), "the API is bound to %q with %q", d.apiAddr, args)
		if decl == "" {
			x.Check(d.lst == nil, "a network server is started without a declared address")
		} else {
			x.Check(d.netAddr == def("net", "127.0.0.1:6868"), "the network server is bound to %q with %q", d.netAddr, args)
		}
		a := d.api()
		// The seed peers are known, and dialed with the parameters.
		seeds := map[byte][]string{'W': mainSeeds, 'T': testSeeds, 'S': stageSeeds}[val["blockchain-type"].net]
		seeds = append([]string{}, seeds...)
		for _, s := range val["peers"].seeds {
			if !slices.Contains(seeds, s) {
				seeds = append(seeds, s)
			}
		}
		var all []jPeer
		a.get("/api/peers/all", &all)
		var known []string
		for _, p := range all {
			known = append(known, p.Address.String())
		}
		x.Check(eqs(sorted(known...), sorted(seeds...)), "known addresses are %v with %q", known, args)
		vs.Advance(10 * time.Second)
		x.Check(eqs(d.dialed(0), sorted(seeds...)), "%v are dialed with %q", d.dialed(0), args)
		app := "waves" + string(rune(val["blockchain-type"].net))
		for _, q := range d.n.dials {
			da := ""
			if !q.p.DeclAddr.Empty() {
				da = q.p.DeclAddr.String()
			}
			x.Check(q.p.WavesNetwork == app && q.p.NodeName == name && da == decl, "dialing with network %q, name %q, declared address %q", q.p.WavesNetwork, q.p.NodeName, da)
			// The first suggestion for a new peer follows the version 0.0.0 of its record.
			found := false
			for _, v := range val["versions"].vers {
				found = found || q.ver == v
			}
			x.Check(found, "dialing with version %s, acceptable are %v", q.ver, val["versions"].vers)
		}
		// The versions follow each other.
		vs.Advance(3000 * time.Second)
		used := map[string][]proto.Version{}
		for _, q := range d.n.dials {
			used[q.to.String()] = append(used[q.to.String()], q.ver)
		}
		for s, l := range used {
			vl := val["versions"].vers
			for i := 1; i < len(l); i++ {
				for j, v := range vl {
					if v == l[i-1] {
						x.Check(l[i] == vl[(j+1)%len(vl)], "%s is dialed with %v, acceptable are %v", s, l, vl)
					}
				}
			}
		}
		// An incoming connection.
		if d.lst != nil {
			inc := len(d.n.inc)
			d.n.shake = shakeWith(hsOf(app, val["versions"].vers[0], "in", 6, nil))
			c := d.arrive(rC)
			vs.Quiesce()
			x.Check(len(d.n.inc) == inc+1 && c.closed == 0, "an incoming connection is not served")
			q := d.n.inc[inc].p
			x.Check(q.WavesNetwork == app && q.NodeName == name && q.DeclAddr.String() == decl, "serving with network %q, name %q, declared address %q", q.WavesNetwork, q.NodeName, q.DeclAddr)
		}
		// The genesis block and the scheme.
		var l *link
		for _, k := range d.n.links {
			if k.closed == 0 {
				l = k
				break
			}
		}
		x.Check(l != nil, "the connection of a peer of the network is refused")
		g := map[byte]proto.Block{'W': mainGenesis, 'T': testGenesis, 'S': stageGenesis}[val["blockchain-type"].net]
		w := child(g, 50, 1000)
		l.recv(w.m)
		vs.Quiesce()
		r := newRef(&g)
		x.Check(r.put(w.b, l.addr.Addr()) == nil, "reference")
		b := r.blocks[w.b.BlockID()]
		var ls []struct {
			ID        string   `json:"block_id"`
			Height    uint32   `json:"height"`
			Score     *big.Int `json:"score"`
			Generator string   `json:"generator"`
		}
		a.get("/api/leashes", &ls)
		x.Check(len(ls) == 1 && ls[0].ID == w.b.BlockID().String() && ls[0].Height == 2 && ls[0].Score.Cmp(b.score) == 0, "a block on the genesis block is not recorded: %v", ls)
		want, err := proto.NewAddressFromPublicKey(val["blockchain-type"].net, w.b.GeneratorPublicKey)
		x.Check(err == nil && ls[0].Generator == want.String(), "the generator is %s, expected %s", ls[0].Generator, want)
		d.stop()
		b2, _ := json.Marshal(args)
		x.State(H(string(b2)))
	}
	register(&Check{
		ID: "K01",
		Scenarios: func(th bool) []Scenario {
			return []Scenario{
				{Name: "one parameter", Opt: seqOpt, Run: func(x *X) {
					d := newDaemon(x)
					ps := kParams()
					i := x.Choose(len(ps))
					k := x.Choose(len(ps[i]))
					var l []param
					for j := range ps {
						if j == i {
							l = append(l, ps[j][k])
						} else {
							l = append(l, ps[j][0])
						}
					}
					try(x, d, l)
				}},
				{Name: "two parameters", Opt: seqOpt, Run: func(x *X) {
					d := newDaemon(x)
					ps := kParams()
					i := x.Choose(len(ps))
					j := x.Choose(len(ps))
					if i >= j {
						return
					}
					k, m := 1+x.Choose(len(ps[i])-1), 1+x.Choose(len(ps[j])-1)
					var l []param
					for n := range ps {
						switch n {
						case i:
							l = append(l, ps[n][k])
						case j:
							l = append(l, ps[n][m])
						default:
							l = append(l, ps[n][0])
						}
					}
					try(x, d, l)
				}},
				{Name: "three parameters", Opt: seqOpt, Run: func(x *X) {
					if !th {
						return
					}
					d := newDaemon(x)
					ps := kParams()
					var at [3]int
					at[0] = x.Choose(len(ps) - 2)
					at[1] = at[0] + 1 + x.Choose(len(ps)-2-at[0])
					at[2] = at[1] + 1 + x.Choose(len(ps)-1-at[1])
					var l []param
					for n := range ps {
						k := 0
						if n == at[0] || n == at[1] || n == at[2] {
							k = 1 + x.Choose(len(ps[n])-1)
						}
						l = append(l, ps[n][k])
					}
					try(x, d, l)
				}},
				{Name: "storage does not open", Opt: vs.Options{Bound: 1, FreeCost: -1, SelCost: -1}, Run: func(x *X) {
					d := newDaemon(x)
					n := 0
					vs.W.Fault = func(op string) error {
						if n < 1 && x.w.Choose(2, vs.KFault, 1) == 1 {
							n++
							x.Op("storage failure at %q", op)
							return errDisk
						}
						return nil
					}
					d.start("-db="+d.db, "-declared-address=8.8.8.9:6868")
					vs.Quiesce()
					vs.W.Fault = nil
					if d.exited {
						x.Check(n > 0, "the service ends with code %d, %q", d.code, d.stderr)
						x.Check(d.code != 0 && d.stderr != "", "the service ends after a storage failure with code %d, %q", d.code, d.stderr)
						bl, pr := d.stores()
						if bl != nil {
							bl.Crash()
						}
						if pr != nil {
							pr.Crash()
						}
						// The next start succeeds.
						d = newDaemon(x)
						vs.W.Exited = false
						d.up("-db="+d.db, "-declared-address=8.8.8.9:6868")
					}
					x.State(H(n, d.exited))
					d.stop()
				}},
				{Name: "servers do not start", Opt: seqOpt, Run: func(x *X) {
					d := newDaemon(x)
					k := x.Choose(3)
					if k&1 == 0 {
						d.apiBad = errDisk2
					} else {
						d.lstBad = errDisk2
					}
					if k == 2 {
						d.lstBad = errDisk2
					}
					d.start("-db="+d.db, "-declared-address=8.8.8.9:6868")
					vs.Quiesce()
					if d.apiBad != nil {
						x.Check(d.exited && d.code != 0, "the service runs without its API")
						return
					}
					x.Check(!d.exited, "the service ends")
					d.stop()
				}},
			}
		},
		Bounds: "every value of each of 9 parameters (79 values) with all others valid, and every pair (thorough: every triple) of values of different parameters; one storage failure at any call of the start; either server failing to start",
	})
}
