package main

import (
	"bytes"
	"context"
	"errors"
	"flag"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/netip"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/wavesplatform/gowaves/pkg/proto"
	"github.com/wavesplatform/gowaves/pkg/settings"

	root "github.com/alexeykiselev/waves-fork-detector"
	"github.com/alexeykiselev/waves-fork-detector/zzv/leveldb"
	"github.com/alexeykiselev/waves-fork-detector/zzv/vs"
)

// The whole service: its main function with a simulated network, storage, clock, HTTP server and signals.

type daemon struct {
	x       *X
	n       *network
	db      string
	handler http.Handler
	served  vs.Mark // the start of the HTTP server
	apiAddr string
	apiBad  error // the HTTP server cannot start
	active  int   // HTTP requests being served
	down    chan struct{}
	isDown  bool
	netAddr string
	lst     *flisten
	lstBad  error
	signal  context.CancelFunc
	errs    bytes.Buffer // messages of the flag package
	stderr  string
	exited  bool
	code    int
	open    []string // databases that are open at the end
	busy    int      // threads of the program other than connections at the end
	port    int
}

// scratch is an existing directory that belongs to this check alone.
func scratch() string {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	d := filepath.Join(filepath.Dir(exe), "run")
	for _, s := range []string{"db", "db2"} {
		if err := os.MkdirAll(filepath.Join(d, s), 0o755); err != nil {
			panic(err)
		}
	}
	f := filepath.Join(d, "file")
	if _, err := os.Stat(f); err != nil {
		if err := os.WriteFile(f, nil, 0o644); err != nil {
			panic(err)
		}
	}
	return d
}

var (
	runDir   string
	errFile  *os.File
	errDisk2 = errors.New("address already in use")
)

func newDaemon(x *X) *daemon {
	if runDir == "" {
		runDir = scratch()
		f, err := os.CreateTemp(runDir, "stderr")
		if err != nil {
			panic(err)
		}
		os.Remove(f.Name())
		errFile = f
	}
	vs.SetPoints(false)
	d := &daemon{x: x, db: filepath.Join(runDir, "db")}
	d.hooks()
	return d
}

func (d *daemon) hooks() {
	x := d.x
	d.n = newNetwork(x)
	d.down = make(chan struct{})
	d.isDown, d.exited, d.handler, d.lst, d.signal = false, false, nil, nil, nil
	vs.H.Notify = func(p context.Context) (context.Context, context.CancelFunc) {
		ctx, cancel := context.WithCancel(p)
		d.signal = cancel
		return ctx, cancel
	}
	vs.H.Listen = func(ctx context.Context, network, addr string) (net.Listener, error) {
		x.Op("listen on %s", addr)
		d.netAddr = addr
		if d.lstBad != nil {
			return nil, d.lstBad
		}
		d.lst = newListen()
		return d.lst, nil
	}
	vs.H.Serve = func(s *http.Server) error {
		x.Op("serve HTTP on %s", s.Addr)
		if d.apiBad != nil {
			return d.apiBad
		}
		if d.isDown {
			return http.ErrServerClosed
		}
		d.served.Set()
		served := d.served
		d.handler, d.apiAddr = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			vs.NewAside("HTTP request", &served).Do(func() { s.Handler.ServeHTTP(w, r) })
		}), s.Addr
		vs.Recv(d.down)
		return http.ErrServerClosed
	}
	vs.H.Shutdown = func(s *http.Server, ctx context.Context) error {
		if !d.isDown {
			d.isDown = true
			vs.Close(d.down)
		}
		for d.active > 0 {
			if ctx.Err() != nil {
				return ctx.Err()
			}
			stop := false
			vs.WaitSync("requests", func() bool { stop = ctx.Err() != nil; return stop || d.active == 0 })
		}
		return nil
	}
}

func (d *daemon) stores() (b, p *leveldb.Store) {
	return leveldb.Lookup(d.db + "/blocks"), leveldb.Lookup(d.db + "/peers")
}

// start runs the service.
func (d *daemon) start(args ...string) {
	x := d.x
	x.Op("start %q", args)
	os.Args = append([]string{"forkdetector"}, args...)
	flag.CommandLine = flag.NewFlagSet("forkdetector", flag.ContinueOnError)
	flag.CommandLine.SetOutput(&d.errs)
	flag.CommandLine.Usage = func() { vs.OSExit(2) }
	errFile.Truncate(0)
	errFile.Seek(0, io.SeekStart)
	old := os.Stderr
	os.Stderr = errFile
	x.Defer(func() { os.Stderr = old })
	vs.Process(func() {
		d.exited, d.code = true, vs.W.ExitCode
		os.Stderr = old
		b, err := os.ReadFile(fmt.Sprintf("/proc/self/fd/%d", errFile.Fd()))
		if err != nil {
			panic(err)
		}
		d.stderr = d.errs.String() + string(b)
		bl, ps := d.stores()
		for _, s := range []*leveldb.Store{bl, ps} {
			if s != nil && s.IsOpen() {
				d.open = append(d.open, filepath.Base(s.Path))
			}
		}
		x.Op("exit %d", d.code)
	})
	vs.GoN("service", func() {
		root.ZZMain()
		vs.OSExit(0)
	})
}

// up is start of a service that has to run.
func (d *daemon) up(args ...string) {
	d.start(args...)
	vs.Quiesce()
	d.x.Check(!d.exited, "the service ends at once with code %d and %q", d.code, d.stderr)
	d.x.Check(d.signal != nil, "the service doesn't handle the termination signal")
	d.x.Check(d.handler != nil, "the service doesn't serve HTTP requests")
}

// stop sends the signal and waits for the end.
func (d *daemon) stop() {
	x := d.x
	x.Op("signal")
	d.signal()
	d.ended()
}

// ended waits for the end of the service after the signal.
func (d *daemon) ended() {
	x := d.x
	vs.Quiesce()
	for i := 0; i < 60 && !d.exited; i++ {
		vs.Advance(time.Second)
	}
	x.Check(d.exited, "the service doesn't terminate within a minute after the signal: %s", vs.Blocked())
	x.Check(d.code == 0, "the service terminates with code %d and %q", d.code, d.stderr)
	bl, ps := d.stores()
	x.Check(bl != nil && ps != nil, "databases are missing")
	x.Check(len(d.open) == 0, "the databases %v are not closed", d.open)
}

// restart is a new start in the same folder after the end of the service.
func (d *daemon) restart(args ...string) {
	bl, ps := d.stores()
	bl.Crash()
	ps.Crash()
	d.open, d.stderr = nil, ""
	d.errs.Reset()
	vs.W.Exited = false
	d.hooks()
	d.up(args...)
}

// arrive lets a connection arrive at the listening socket.
func (d *daemon) arrive(a netip.Addr) *fconn {
	d.port++
	c := &fconn{remote: fAddr(netip.AddrPortFrom(a, uint16(40000+d.port)).String())}
	d.x.Op("connection from %s", c.remote)
	vs.SendC(d.lst.ch)(c)
	return c
}

// linksOf are the current connections of an address.
func (d *daemon) linksOf(a netip.Addr) []*link {
	var o []*link
	for _, l := range d.n.links {
		if l.addr.Addr() == a && l.closed == 0 && l.ctx.Err() == nil {
			o = append(o, l)
		}
	}
	return o
}

var (
	mainGenesis  = settings.MainNetSettings.Genesis
	testGenesis  = settings.TestNetSettings.Genesis
	stageGenesis = settings.StageNetSettings.Genesis
)

var mainSeeds = []string{"34.253.153.4:6868", "168.119.116.189:6868", "135.181.87.72:6868", "162.55.39.115:6868", "168.119.155.201:6868"}
var testSeeds = []string{"159.69.126.149:6868", "94.130.105.239:6868", "159.69.126.153:6868", "94.130.172.201:6868", "35.157.247.122:6868"}
var stageSeeds = []string{"88.99.185.128:6868", "49.12.15.166:6868", "95.216.205.3:6868", "88.198.179.16:6868", "52.58.254.101:6868"}

func (d *daemon) api() *aEnv { return &aEnv{x: d.x, h: d.handler} }

// dialed lists the attempts since the n-th.
func (d *daemon) dialed(n int) []string {
	var o []string
	for _, q := range d.n.dials[n:] {
		o = append(o, q.to.String())
	}
	sort.Strings(o)
	return o
}

func eqs(a, b []string) bool { return strings.Join(a, " ") == strings.Join(b, " ") }

func sorted(l ...string) []string {
	o := append([]string{}, l...)
	sort.Strings(o)
	return o
}

// child is a block on a genesis block.
func child(g proto.Block, n int, bt uint64) wire {
	return mkWire(wblk{n: n, parent: g.BlockID(), ver: 3, bt: bt, ts: g.Timestamp + uint64(n)*1000})
}

func lookup(p string) *leveldb.Store { return leveldb.Lookup(p) }
