package main

import (
	"bufio"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"github.com/alexeykiselev/waves-fork-detector/zzv/vs"
)

// Scenario is one closed driver whose whole choice tree is explored.
type Scenario struct {
	Name string
	Opt  vs.Options
	Run  func(x *X)
	// Delays is added to the bound if delays are explored.
	Delays int
	// Goals are judged if the exploration is complete.
	Goals []Goal
	// Only is the only kind of violations that count.
	Only string
	// Long is set if an execution takes many seconds.
	Long bool
}

// Goal is a situation that at least one of the executions must reach, if some execution reaches the condition.
type Goal struct{ If, Then string }

// Check decides one property.
type Check struct {
	ID        string
	Scenarios func(thorough bool) []Scenario
	Bounds    string
	Assume    []string
}

// delayed adds variants of the interleaving scenarios, in which a deviation does not switch to another goroutine but
// suspends the running one until all others wait.
func delayed(scs ...Scenario) []Scenario {
	for _, s := range scs {
		if s.Opt.Bound > 0 && s.Opt.FreeCost > 0 {
			s.Name += ", delays"
			s.Opt.Demote = true
			s.Opt.Bound += s.Delays
			scs = append(scs, s)
		}
	}
	return scs
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// X is the handle of one execution.
type X struct {
	w       *vs.World
	sc      *Scenario
	ops     int64
	states  []uint64
	pruned  bool
	prefix  int
	seen    *seenTable
	salt    uint64
	noPrune bool
	known   []string
	depth   int
	note    string
	clean   []func()
}

// Choose picks one of n alternatives, all of which are explored.
func (x *X) Choose(n int) int { return x.w.Choose(n, vs.KData, 0) }

// Bool is a two-way choice.
func (x *X) Bool() bool { return x.Choose(2) == 1 }

// Op counts one transition and logs it in verbose runs.
func (x *X) Op(f string, a ...any) {
	x.ops++
	if x.w.Verbose {
		vs.Logf(f, a...)
	}
}

// Fail rejects the execution.
func (x *X) Fail(f string, a ...any) {
	if soft > 0 {
		panic(checkFailed{fmt.Sprintf(f, a...)})
	}
	vs.FailNow("violation", fmt.Sprintf(f, a...))
}

// Check fails unless ok.
func (x *X) Check(ok bool, f string, a ...any) {
	if !ok {
		x.Fail(f, a...)
	}
}

// Finding reports a defect that may be listed in the known-findings file.
func (x *X) Finding(id, f string, a ...any) {
	if knownFindings[id] != "" {
		x.known = append(x.known, id)
		return
	}
	x.Fail("%s: %s", id, fmt.Sprintf(f, a...))
}

// State records an observed state.
func (x *X) State(h uint64) { x.states = append(x.states, h) }

// Reach says that the execution reached a goal of its scenario.
func (x *X) Reach(goal string) { x.State(goalHash(goal)) }

func goalHash(goal string) uint64 { return H("goal", goal) }

// Seen reports whether the subtree below state h with this remaining depth was (or will be) explored elsewhere.
func (x *X) Seen(h uint64, remaining int) bool {
	x.State(h)
	if x.noPrune || len(x.w.Trace) < x.prefix {
		return false
	}
	if x.seen.visit((h^x.salt)*0xff51afd7ed558ccd, remaining) {
		x.pruned = true
		return true
	}
	return false
}

// Defer registers a clean-up of real resources.
func (x *X) Defer(f func()) { x.clean = append(x.clean, f) }

// H hashes the printed form of values.
func H(a ...any) uint64 {
	h := fnv.New64a()
	for _, v := range a {
		switch s := v.(type) {
		case string:
			io.WriteString(h, s)
		case []byte:
			h.Write(s)
		default:
			fmt.Fprintf(h, "%v", s)
		}
		h.Write([]byte{0})
	}
	return h.Sum64()
}

type found struct {
	Prefix []int
	Kind   string
	Msg    string
	Stack  string
	Log    []string
}

type outcome struct {
	w *vs.World
	x *X
}

func execute(sc *Scenario, prefix []int, verbose bool, seen *seenTable) outcome {
	x := &X{sc: sc, salt: H(sc.Name), prefix: len(prefix), seen: seen, noPrune: seen == nil}
	vs.H = vs.Hooks{}
	w := vs.Exec(sc.Opt, prefix, verbose, func() {
		x.w = vs.W
		sc.Run(x)
	})
	x.w = w
	for _, f := range x.clean {
		f()
	}
	if w.Fail == nil && len(w.Trace) < len(prefix) {
		w.Fail = &vs.Failure{Kind: "divergence", Msg: "trace shorter than its prefix"}
	}
	return outcome{w, x}
}

type task struct {
	Sc       int
	Prefixes [][]int
	SliceMS  int
}

type reply struct {
	Sc      int
	Execs   int64
	Ops     int64
	Steps   int64
	Sched   int64
	Pruned  int64
	Diverg  int64
	MaxLen  int
	States  string
	Rest    [][]int
	Fail    *found
	Known   []string
	Sample  []string
	Samples [][]int
	DivMsg  string
}

func childPrefixes(opt vs.Options, t []vs.Point, from int, out [][]int) [][]int {
	cost := 0
	for i := 0; i < from && i < len(t); i++ {
		if t[i].C > 0 {
			cost += t[i].Cost
		}
	}
	// Points after the prefix all took alternative 0, so the cost does not change.
	for i := from; i < len(t); i++ {
		p := t[i]
		if cost+p.Cost > opt.Bound && p.Cost > 0 {
			continue
		}
		for c := p.N - 1; c >= 1; c-- {
			np := make([]int, i+1)
			for j := 0; j < i; j++ {
				np[j] = t[j].C
			}
			np[i] = c
			out = append(out, np)
		}
	}
	return out
}

func worker(id string, thorough bool) {
	debug.SetGCPercent(400)
	runtime.GOMAXPROCS(1)
	limitMemory()
	if d := os.Getenv("MC_PROF"); d != "" {
		f, _ := os.Create(fmt.Sprintf("%s/%d.prof", d, os.Getpid()))
		pprof.StartCPUProfile(f)
		go func() { time.Sleep(8 * time.Second); pprof.StopCPUProfile(); f.Close() }()
	}
	ck := checks[id]
	scs := delayed(ck.Scenarios(thorough)...)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	cur := os.NewFile(3, "cur")
	seen := openSeen(os.Getenv("MC_SEEN"))
	sent := map[int]map[uint64]struct{}{}
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var t task
		if err := json.Unmarshal(line, &t); err != nil {
			panic(err)
		}
		r := runTask(scs, t, seen, sent, cur)
		b, _ := json.Marshal(r)
		// Concurrent marking keeps what is allocated meanwhile, so that the goal of the collector can run
		// away; nothing survives a task.
		var m runtime.MemStats
		if runtime.ReadMemStats(&m); m.HeapAlloc > 400<<20 {
			runtime.GC()
		}
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}

func runTask(scs []Scenario, t task, seen *seenTable, sent map[int]map[uint64]struct{}, cur *os.File) *reply {
	sc := &scs[t.Sc]
	if sent[t.Sc] == nil {
		sent[t.Sc] = map[uint64]struct{}{}
	}
	r := &reply{Sc: t.Sc}
	stack := t.Prefixes
	var newStates []byte
	deadline := time.Now().Add(time.Duration(t.SliceMS) * time.Millisecond)
	for len(stack) > 0 {
		p := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if cur != nil {
			b, _ := json.Marshal(map[string]any{"sc": t.Sc, "prefix": p})
			b = append(b, '\n')
			cur.WriteAt(b, 0)
		}
		o := execute(sc, p, false, seen)
		r.Execs++
		r.Ops += o.x.ops
		r.Steps += int64(o.w.Steps)
		r.Sched += int64(o.w.Sched)
		if o.x.pruned {
			r.Pruned++
		}
		if len(o.w.Trace) > r.MaxLen {
			r.MaxLen = len(o.w.Trace)
		}
		for _, s := range o.x.states {
			if _, ok := sent[t.Sc][s]; !ok {
				sent[t.Sc][s] = struct{}{}
				newStates = binary.LittleEndian.AppendUint64(newStates, s)
			}
		}
		r.Known = append(r.Known, o.x.known...)
		if o.w.Fail != nil && !(sc.Only != "" && o.w.Fail.Kind != sc.Only && o.w.Fail.Kind != "divergence") {
			if o.w.Fail.Kind == "divergence" {
				r.Diverg++
				r.DivMsg = o.w.Fail.Msg
				continue
			}
			full := make([]int, len(o.w.Trace))
			for i, q := range o.w.Trace {
				full[i] = q.C
			}
			r.Fail = &found{Prefix: full, Kind: o.w.Fail.Kind, Msg: o.w.Fail.Msg, Stack: o.w.Fail.Stack}
			break
		}
		stack = childPrefixes(sc.Opt, o.w.Trace, len(p), stack)
		if len(r.Samples) < 1 {
			full := make([]int, len(o.w.Trace))
			for i, q := range o.w.Trace {
				full[i] = q.C
			}
			r.Samples = append(r.Samples, full)
		}
		if r.Execs&7 == 0 && time.Now().After(deadline) {
			break
		}
	}
	r.Rest = stack
	r.States = base64.StdEncoding.EncodeToString(newStates)
	sort.Strings(r.Known)
	r.Known = uniq(r.Known)
	return r
}

func uniq(s []string) []string {
	var o []string
	for i, x := range s {
		if i == 0 || x != s[i-1] {
			o = append(o, x)
		}
	}
	return o
}

// confirm replays one choice sequence and prints what happened.
func confirm(id string, thorough bool, scName string, prefix []int) {
	limitMemory()
	runtime.GOMAXPROCS(1)
	for _, sc := range delayed(checks[id].Scenarios(thorough)...) {
		if sc.Name != scName {
			continue
		}
		sc := sc
		o := execute(&sc, prefix, true, nil)
		f := found{Prefix: prefix, Kind: "none", Log: o.w.Log}
		if o.w.Fail != nil {
			f.Kind, f.Msg, f.Stack = o.w.Fail.Kind, o.w.Fail.Msg, trimStack(o.w.Fail.Stack)
		}
		b, _ := json.Marshal(f)
		os.Stdout.Write(append(b, '\n'))
		return
	}
	fmt.Fprintln(os.Stderr, "no such scenario", scName)
	os.Exit(2)
}

func trimStack(s string) string {
	l := strings.Split(s, "\n")
	var o []string
	for i := 0; i+1 < len(l); i += 1 {
		if strings.Contains(l[i], "/zzv/vs") || strings.Contains(l[i], "runtime/") {
			continue
		}
		o = append(o, l[i])
		if len(o) > 40 {
			break
		}
	}
	return strings.Join(o, "\n")
}
