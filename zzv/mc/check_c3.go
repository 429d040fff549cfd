package main

import (
	"errors"
	"fmt"
	"net/netip"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/chains"
	"github.com/alexeykiselev/waves-fork-detector/zzv/leveldb"
	"github.com/alexeykiselev/waves-fork-detector/zzv/vs"
)

// Checks C10 and C11: crashes and storage failures.

// cop is one announcement or leash move.
type cop struct {
	name string
	do   func(l *chains.Linkage) error
	ref  func(r *refChain) error
	ins  func(r *refChain) // the insertion alone, without the leash
}

func chainOps(peers []netip.Addr) []cop {
	b2 := attr(2, gen1ID, true)
	b3 := attr(3, b2.id(), false)
	b4 := attr(4, b2.id(), true)
	b5 := attr(5, gen1ID, false)
	m6 := idN(6, true)
	b7 := attr(7, m6, true)
	var ops []cop
	put := func(b blk, p netip.Addr) {
		pb := b.proto()
		ops = append(ops, cop{fmt.Sprintf("block b%d by %s", b.n, p), func(l *chains.Linkage) error { return l.PutBlock(pb, p) },
			func(r *refChain) error { return r.put(pb, p) },
			func(r *refChain) {
				old, ok := r.leash[p]
				_ = r.put(pb, p)
				if ok {
					r.leash[p] = old
				} else {
					delete(r.leash, p)
				}
			}})
	}
	micro := func(ref, total proto.BlockID, p netip.Addr) {
		ops = append(ops, cop{fmt.Sprintf("micro-block by %s", p),
			func(l *chains.Linkage) error {
				return l.PutMicroBlock(&proto.MicroBlockInv{PublicKey: pkN(0), TotalBlockID: total, Reference: ref}, p)
			},
			func(r *refChain) error { return r.putMicro(ref, total, p) },
			func(r *refChain) {
				old, ok := r.leash[p]
				_ = r.putMicro(ref, total, p)
				if ok {
					r.leash[p] = old
				} else {
					delete(r.leash, p)
				}
			}})
	}
	for i, p := range peers {
		put(b2, p)
		put(b3, p)
		put(b4, p)
		if i == 0 {
			put(b5, p)
			put(b7, p)
		}
		micro(b2.id(), m6, p)
		ops = append(ops, cop{fmt.Sprintf("leash of %s to genesis", p), func(l *chains.Linkage) error { return l.MoveLeash(gen1ID, p) },
			func(r *refChain) error { r.leash[p] = gen1ID; return nil }, func(r *refChain) {}})
	}
	return ops
}

// dump is the complete observable state as text.
func dumpChain(l *chains.Linkage, ids []proto.BlockID, peers []netip.Addr) string {
	var sb strings.Builder
	for _, id := range ids {
		b, err := l.Block(id)
		if err != nil {
			fmt.Fprintf(&sb, "%s: -\n", blkName(id))
			continue
		}
		fmt.Fprintf(&sb, "%s: parent %s height %d score %s ts %d gen %s\n", blkName(b.ID), blkName(b.Parent), b.Height, b.Score, b.Timestamp, b.Generator)
		last, err := l.LastIDs(id, 50)
		fmt.Fprintf(&sb, "   %v %v\n", names(last), err)
	}
	hs, err := l.Heads()
	fmt.Fprintf(&sb, "heads %s %v\n", headList(hs), err)
	ls, err := l.Leashes()
	fmt.Fprintf(&sb, "leashes %s %v\n", leashNames(ls), err)
	for _, p := range peers {
		id, err := l.Leash(p)
		lcb, e2 := l.LCB(p)
		fmt.Fprintf(&sb, "leash %s %s %v lcb %s %v\n", p, blkName(id), err, blkName(lcb), e2)
	}
	fs, err := l.Forks(nil)
	fmt.Fprintf(&sb, "forks %s %v\n", forkNames(fs), err)
	st, err := l.Stats()
	fmt.Fprintf(&sb, "stats %+v %v\n", st, err)
	return sb.String()
}

func names(ids []proto.BlockID) []string {
	var s []string
	for _, id := range ids {
		s = append(s, blkName(id).String())
	}
	return s
}

func leashNames(ls []chains.Leash) string {
	var s []string
	for _, l := range ls {
		s = append(s, fmt.Sprintf("%s:%s", l.Addr, blkName(l.BlockID)))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

func forkNames(fs []chains.Fork) string {
	var s []string
	for _, f := range fs {
		s = append(s, fmt.Sprintf("%s(l=%v lcb=%s len=%d peers=%v)", blkName(f.HeadBlock), f.Longest, blkName(f.LastCommonBlock), f.Length, f.Peers))
	}
	return strings.Join(s, " ")
}

// matches reports whether the complete state equals the model.
func (e *cEnv) matches(r *refChain) (ok bool, why string) {
	old := e.r
	e.r = r
	defer func() { e.r = old }()
	why = tryCheck(func() { e.cmpAll2() })
	return why == "", why
}

// cmpAll2 compares everything including unknown blocks of the universe.
func (e *cEnv) cmpAll2() { e.cmpAll() }

type checkFailed struct{ msg string }

// tryCheck runs comparisons and returns the first difference instead of failing.
func tryCheck(f func()) (why string) {
	soft++
	defer func() {
		soft--
		if r := recover(); r != nil {
			if c, ok := r.(checkFailed); ok {
				why = c.msg
				return
			}
			panic(r)
		}
	}()
	f()
	return ""
}

var soft int

func init() {
	peers := []netip.Addr{pA, pB}
	register(&Check{
		ID: "C10",
		Scenarios: func(th bool) []Scenario {
			d := 4
			if th {
				d = 5
			}
			s := []Scenario{{Name: "process death at every storage update", Run: func(x *X) {
				e := crashEnv(x, peers)
				ops := chainOps(peers)
				st := chainStore()
				n := x.Choose(d) + 1
				for i := 0; i < n; i++ {
					o := ops[x.Choose(len(ops))]
					before := e.r.clone()
					w0 := st.Writes()
					e.step(o)
					if i < n-1 {
						continue
					}
					w1 := st.Writes()
					cut := w0 + x.Choose(w1-w0+1)
					x.Op("crash after %d of the %d storage updates of the last step", cut-w0, w1-w0)
					after := e.r
					st.Cut(cut)
					e.open()
					mid := before.clone()
					o.ins(mid)
					okB, whyB := e.matches(before)
					okM, _ := e.matches(mid)
					okA, whyA := e.matches(after)
					switch {
					case cut == w1:
						x.Check(okA, "acknowledged update lost: %s", whyA)
					case cut == w0:
						x.Check(okB, "state differs from the one before the update: %s", whyB)
					default:
						x.Check(okB || okM || okA, "mixed state: not the state before (%s), nor after (%s)", whyB, whyA)
					}
					x.State(e.hash())
					// The interrupted announcement is repeated.
					e.r = before
					e.step(o)
					if o.ref(before.clone()) == nil {
						okA, whyA = e.matches(after)
						x.Check(okA, "after repeating the interrupted announcement: %s", whyA)
					}
					// And the storage goes on working.
					for _, o2 := range ops[:3] {
						e.step(o2)
					}
					e.cmpAll()
				}
			}},
				{Name: "process death during the first start", Run: func(x *X) {
					e := crashEnv(x, peers)
					st := chainStore()
					cut := x.Choose(st.Writes() + 1)
					st.Cut(cut)
					e.open()
					e.cmpAll()
					for _, o := range chainOps(peers) {
						e.step(o)
					}
					e.cmpAll()
				}},
			}
			hist := [][]int{{0, 1, 2, 5}, {0, 5, 4, 6, 7}, {3, 0, 1, 8, 9, 10, 11}}
			const chunks = 64
			s = append(s, Scenario{Name: "torn journal of the real database", Run: func(x *X) {
				h := hist[x.Choose(len(hist))]
				c := x.Choose(chunks)
				step := 1
				if !th {
					step = 3
				}
				tornJournal(x, peers, h, c, chunks, step)
			}})
			s = append(s, Scenario{Name: "real database agrees with the simulated one", Run: func(x *X) {
				d := 2
				if th {
					d = 3
				}
				ops := chainOps(peers)
				var h []int
				for i := 0; i < d; i++ {
					h = append(h, x.Choose(len(ops)))
				}
				e := crashEnv(x, peers)
				for _, i := range h {
					e.step(ops[i])
				}
				sim := dumpChain(e.l, e.univ, peers)
				e.l.Close()
				dir := scratchDir(x)
				leveldb.UseReal(true)
				l, err := chains.NewLinkage(dir, scheme, gen1)
				x.Check(err == nil, "opening the real database: %v", err)
				for k, i := range h {
					x.Op("%s (real database)", ops[i].name)
					_ = ops[i].do(l)
					if k%2 == 1 {
						l.Close()
						l, err = chains.NewLinkage(dir, scheme, gen1)
						x.Check(err == nil, "reopening the real database: %v", err)
					}
				}
				got := dumpChain(l, e.univ, peers)
				l.Close()
				leveldb.UseReal(false)
				x.Check(got == sim, "the real database gives\n%s\nthe simulated one\n%s", got, sim)
			}})
			return s
		},
		Bounds: "every history of up to 4 (thorough 5) of 12 updates by 2 peers, with the process dying after every storage update of the last one; truncation of the real database journal at every third (every) byte of 3 histories; every history of 2 (3) updates replayed on the real database",
		Assume: []string{"a batch write of the database is atomic across process death (checked on the real database by truncating its journal)"},
	})

	register(&Check{
		ID: "C11",
		Scenarios: func(th bool) []Scenario {
			d := 3
			if th {
				d = 4
			}
			return []Scenario{
				{Name: "failing updates", Opt: vs.Options{Bound: 1}, Run: func(x *X) {
					e := crashEnv(x, peers)
					ops := chainOps(peers)
					n := x.Choose(d) + 1
					for i := 0; i < n-1; i++ {
						e.step(ops[x.Choose(len(ops))])
					}
					o := ops[x.Choose(len(ops))]
					before := e.r.clone()
					after := e.r.clone()
					want := o.ref(after)
					failed := faults(x)
					x.Op("%s", o.name)
					err := o.do(e.l)
					vs.W.Fault = nil
					if !*failed {
						e.errs("update", err, want)
						e.r = after
						if e.fresh() {
							e.cmpAll()
						}
						return
					}
					x.Check(err != nil, "a failing storage call was reported as success")
					ins := before.clone()
					o.ins(ins)
					bl := func(r *refChain) string {
						old := e.r
						e.r = r
						defer func() { e.r = old }()
						return tryCheck(func() { e.cmpBlocks(); e.cmpHeadsOnly() })
					}
					w1, w2 := bl(before), bl(ins)
					x.Check(w1 == "" || w2 == "", "half-made change: not the state before (%s) nor after the insertion (%s)", w1, w2)
					// Leashes: each is the old or the new one.
					for _, p := range peers {
						id, lErr := e.l.Leash(p)
						x.Check(lErr == nil, "Leash: %v", lErr)
						x.Check(id == before.leashOf(p) || id == after.leashOf(p), "leash of %s is %s", p, e.name(id))
						_, known := e.l.Block(id)
						x.Check(known == nil, "leash of %s designates the missing block %s", p, e.name(id))
					}
					_, fErr := e.l.Forks(nil)
					x.Check(fErr == nil, "Forks: %v", fErr)
					err = o.do(e.l)
					e.errs("repeated update", err, want)
					if want == nil {
						e.r = after
					} else {
						e.r = before
					}
					e.cmpAll()
					x.State(e.hash())
					for _, o2 := range ops[:3] {
						e.step(o2)
					}
					e.cmpAll()
				}},
				{Name: "failing queries", Opt: vs.Options{Bound: 1}, Run: func(x *X) {
					e := crashEnv(x, peers)
					ops := chainOps(peers)
					for i := 0; i < d-1; i++ {
						e.step(ops[x.Choose(len(ops))])
					}
					q := chainQueries(e)
					c := q[x.Choose(len(q))]
					failed := faults(x)
					x.Op("%s", c.name)
					err := c.do()
					vs.W.Fault = nil
					if *failed {
						x.Check(err != nil, "%s: a failing storage call was reported as success", c.name)
					} else {
						x.Check(err == nil, "%s: %v", c.name, err)
					}
					e.cmpAll()
					if *failed {
						for _, o2 := range ops[:2] {
							e.step(o2)
						}
						e.cmpAll()
					}
				}},
				{Name: "failing start", Opt: vs.Options{Bound: 1}, Run: func(x *X) {
					e := crashEnv(x, peers)
					if x.Bool() {
						for _, o := range chainOps(peers)[:3] {
							e.step(o)
						}
					} else {
						chainStore().Cut(0)
					}
					e.l.Close()
					failed := faults(x)
					l, err := chains.NewLinkage(chainDB, scheme, gen1)
					vs.W.Fault = nil
					if *failed {
						x.Check(err != nil, "NewLinkage: a failing storage call was reported as success")
						chainStore().Crash()
						e.open()
					} else {
						x.Check(err == nil, "NewLinkage: %v", err)
						e.l = l
					}
					e.cmpAll()
				}},
			}
		},
		Bounds: "every single failing storage call (open, snapshot, read, existence, iteration, write before and after taking effect) in every update after every history of up to 2 (thorough 3) and every query after every history of 2 (3) of 12 updates",
	})
}

func (e *cEnv) cmpHeadsOnly() {
	hs, err := e.l.Heads()
	e.x.Check(err == nil, "Heads: %v", err)
	got := append([]chains.Head{}, hs...)
	sort.Slice(got, func(i, j int) bool { return got[i].ID < got[j].ID })
	want := e.r.headList()
	e.x.Check(fmt.Sprint(got) == fmt.Sprint(want), "heads are %s, expected %s", headList(got), headList(want))
}

func (e *cEnv) step(o cop) {
	e.x.Op("%s", o.name)
	err := o.do(e.l)
	want := o.ref(e.r)
	e.errs("update", err, want)
}

func crashEnv(x *X, peers []netip.Addr) *cEnv {
	e := newChain(x, peers...)
	for n := 2; n <= 7; n++ {
		e.univ = append(e.univ, idN(n, true), idN(n, false))
	}
	return e
}

var errDisk = errors.New("simulated storage failure")

// faults makes one storage call fail, at every position in turn (deviation bound 1).
func faults(x *X) *bool {
	hit := false
	vs.W.Fault = func(op string) error {
		if hit {
			return nil
		}
		n := 2
		if op == "write" {
			n = 3
		}
		switch vs.W.Choose(n, vs.KFault, 1) {
		case 1:
			hit = true
			x.Op("storage failure at %q", op)
			return fmt.Errorf("%s: %w", op, errDisk)
		case 2:
			hit = true
			x.Op("storage failure after %q took effect", op)
			return leveldb.ErrAfterWrite(errDisk)
		}
		return nil
	}
	return &hit
}

type query struct {
	name string
	do   func() error
}

func chainQueries(e *cEnv) []query {
	last := e.r.order[len(e.r.order)-1]
	var q []query
	add := func(n string, f func() error) { q = append(q, query{n, f}) }
	add("HasBlock", func() error { _, err := e.l.HasBlock(last); return err })
	add("Block", func() error { _, err := e.l.Block(last); return err })
	add("LastIDs", func() error { _, err := e.l.LastIDs(last, 3); return err })
	add("Heads", func() error { _, err := e.l.Heads(); return err })
	add("ActiveHeads", func() error { _, err := e.l.ActiveHeads(); return err })
	add("Leashes", func() error { _, err := e.l.Leashes(); return err })
	add("Forks", func() error { _, err := e.l.Forks(nil); return err })
	add("Stats", func() error { _, err := e.l.Stats(); return err })
	add("ForkGenerators", func() error { _, err := e.l.ForkGenerators(last, 5); return err })
	for _, p := range e.peers {
		p := p
		add("Leash", func() error { _, err := e.l.Leash(p); return err })
		add("HasLeash", func() error { _, err := e.l.HasLeash(p); return err })
		add("LeashScore", func() error { _, err := e.l.LeashScore(p); return err })
		add("LCB", func() error { _, err := e.l.LCB(p); return err })
		if _, ok := e.r.leash[p]; ok {
			add("Fork", func() error { _, err := e.l.Fork(p); return err })
		}
	}
	return q
}

func scratchDir(x *X) string {
	d, err := os.MkdirTemp(shmDir(), "mcdb")
	if err != nil {
		panic(err)
	}
	x.Defer(func() { os.RemoveAll(d) })
	return d
}

func shmDir() string {
	if fi, err := os.Stat("/dev/shm"); err == nil && fi.IsDir() {
		return "/dev/shm"
	}
	return ""
}

// tornJournal runs a history on the real database, truncates its journal and compares what is recovered with the
// states after each storage update.
func tornJournal(x *X, peers []netip.Addr, h []int, chunk, chunks, step int) {
	ops := chainOps(peers)
	// The admissible states, from the simulated database.
	e := crashEnv(x, peers)
	for _, i := range h {
		if i < len(ops) {
			_ = ops[i].do(e.l)
			_ = ops[i].ref(e.r)
		}
	}
	e.l.Close()
	total := chainStore().Writes()
	var states []string
	for n := 0; n <= total; n++ {
		leveldb.Copy(storePath(), "/cut/blocks")
		st := leveldb.Lookup("/cut/blocks")
		st.Cut(n)
		l, err := chains.NewLinkage("/cut", scheme, gen1)
		x.Check(err == nil, "opening after %d storage updates: %v", n, err)
		states = append(states, dumpChain(l, e.univ, peers))
		l.Close()
	}
	leveldb.UseReal(true)
	defer leveldb.UseReal(false)
	dir := scratchDir(x)
	l, err := chains.NewLinkage(dir, scheme, gen1)
	x.Check(err == nil, "opening the real database: %v", err)
	for _, i := range h {
		if i < len(ops) {
			_ = ops[i].do(l)
		}
	}
	files := map[string][]byte{}
	jname := ""
	fs, _ := os.ReadDir(filepath.Join(dir, "blocks"))
	for _, f := range fs {
		b, _ := os.ReadFile(filepath.Join(dir, "blocks", f.Name()))
		if f.Name() == "LOCK" {
			continue
		}
		files[f.Name()] = b
		if strings.HasSuffix(f.Name(), ".log") {
			jname = f.Name()
		}
	}
	l.Close()
	j := files[jname]
	x.Check(len(j) > 0, "no journal found")
	lo, hi := len(j)*chunk/chunks, len(j)*(chunk+1)/chunks
	if chunk == chunks-1 {
		hi = len(j) + 1
	}
	prev := 0
	for n := lo; n < hi; n += step {
		if n+step >= hi && chunk == chunks-1 {
			n = len(j)
		}
		x.Op("journal truncated at byte %d of %d", n, len(j))
		d2 := scratchDir(x)
		os.MkdirAll(filepath.Join(d2, "blocks"), 0o755)
		for f, b := range files {
			if f == jname {
				b = b[:n]
			}
			os.WriteFile(filepath.Join(d2, "blocks", f), b, 0o644)
		}
		l, err := chains.NewLinkage(d2, scheme, gen1)
		x.Check(err == nil, "opening with the journal truncated at byte %d of %d: %v", n, len(j), err)
		got := dumpChain(l, e.univ, peers)
		at := -1
		for k, s := range states {
			if s == got {
				at = k
			}
		}
		x.Check(at >= 0, "with the journal truncated at byte %d of %d the state is none of those between storage updates:\n%s", n, len(j), got)
		x.Check(at >= prev, "state of %d storage updates recovered from a longer journal than that of %d", at, prev)
		if n == len(j) {
			x.Check(got == states[total], "the complete journal does not give the last state")
		}
		prev = at
		x.State(H(got))
		l.Close()
		os.RemoveAll(d2)
	}
}
