// Command mc explores the choice trees of the scenarios of a property on the instrumented code.
package main

import (
	"bufio"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

var knownFindings = map[string]string{}

func limitMemory() {
	lim := uint64(6 << 30)
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	_ = syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
}

func loadKnown(id string) {
	b, err := os.ReadFile(os.Getenv("MC_KNOWN"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		f := strings.Fields(l)
		if len(f) < 4 || f[1] != "property="+id || !strings.HasPrefix(f[2], "id=") {
			continue
		}
		knownFindings[strings.TrimPrefix(f[2], "id=")] = strings.Join(f[3:], " ")
	}
}

func main() {
	if len(os.Args) < 4 {
		fmt.Fprintln(os.Stderr, "usage: mc run|worker|confirm ID tier ...")
		os.Exit(2)
	}
	mode, id, tier := os.Args[1], os.Args[2], os.Args[3]
	if checks[id] == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		os.Exit(2)
	}
	loadKnown(id)
	switch mode {
	case "run":
		os.Exit(master(id, tier))
	case "worker":
		worker(id, tier == "thorough")
	case "confirm":
		var p []int
		if err := json.Unmarshal([]byte(os.Args[5]), &p); err != nil {
			panic(err)
		}
		confirm(id, tier == "thorough", os.Args[4], p)
	case "replay":
		var r struct {
			Scenario string `json:"scenario"`
			Choices  []int  `json:"choices"`
		}
		b, err := os.ReadFile(os.Args[4])
		if err == nil {
			err = json.Unmarshal(b, &r)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		f, se, to := runConfirm(id, tier, r.Scenario, r.Choices, 240*time.Second)
		if f == nil {
			fmt.Println("the process dies or hangs:", to, se)
			os.Exit(1)
		}
		fmt.Println(strings.Join(f.Log, "\n"))
		fmt.Println(f.Kind, f.Msg)
		fmt.Println(f.Stack)
		if f.Kind != "none" {
			os.Exit(1)
		}
	case "one": // run the default execution of each scenario in-process (debugging)
		for _, sc := range checks[id].Scenarios(tier == "thorough") {
			if len(os.Args) > 4 && sc.Name != os.Args[4] {
				continue
			}
			sc := sc
			t0 := time.Now()
			o := execute(&sc, nil, true, nil)
			fmt.Println(sc.Name, "points", len(o.w.Trace), "ops", o.x.ops, "steps", o.w.Steps, time.Since(t0))
			if o.w.Fail != nil {
				fmt.Println(o.w.Fail.Kind, o.w.Fail.Msg, trimStack(o.w.Fail.Stack))
			}
			if len(os.Args) > 5 {
				fmt.Println(strings.Join(o.w.Log, "\n"))
			}
		}
	}
}

type proc struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	cur   string
	tail  *tailBuf
	task  *task
	start time.Time
}

type tailBuf struct{ b []byte }

func (t *tailBuf) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = append([]byte{}, t.b[:1<<16]...)
	}
	return len(p), nil
}

func startProc(id, tier, dir string, n int) *proc {
	self, _ := os.Executable()
	cur := filepath.Join(dir, fmt.Sprintf("cur%d", n))
	f, err := os.Create(cur)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	c := exec.Command(self, "worker", id, tier)
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	c.ExtraFiles = []*os.File{f}
	c.Env = append(os.Environ(), "MC_SEEN="+filepath.Join(dir, "seen"))
	t := &tailBuf{}
	c.Stderr = t
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	if err := c.Start(); err != nil {
		panic(err)
	}
	return &proc{cmd: c, in: in, out: bufio.NewReaderSize(out, 1<<20), cur: cur, tail: t}
}

type scStat struct {
	Scenario   string
	Executions int64
	Operations int64
	SchedPts   int64 `json:",omitempty"`
	Pruned     int64 `json:",omitempty"`
	States     int
	MaxChoices int
	Complete   bool
	Diverged   int64 `json:",omitempty"`
	Bound      int   `json:",omitempty"`
	states     map[uint64]struct{}
	pending    int
}

type event struct {
	p   *proc
	r   *reply
	err error
}

func master(id, tier string) int {
	start := time.Now()
	ck := checks[id]
	thorough := tier == "thorough"
	scs := delayed(ck.Scenarios(thorough)...)
	if f := os.Getenv("MC_ONLY"); f != "" {
		for i := range scs {
			if !strings.HasPrefix(scs[i].Name, f) {
				scs[i].Run = func(*X) {}
			}
		}
	}
	budget := 150 * time.Second
	if thorough {
		budget = 12 * time.Minute
	}
	if s := os.Getenv("MC_BUDGET"); s != "" {
		if v, err := strconv.Atoi(s); err == nil {
			budget = time.Duration(v) * time.Second
		}
	}
	dir, err := os.MkdirTemp("", "mc")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	if err := createSeen(filepath.Join(dir, "seen")); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	stats := make([]*scStat, len(scs))
	var queue []task
	for i, sc := range scs {
		stats[i] = &scStat{Scenario: sc.Name, states: map[uint64]struct{}{}, pending: 1, Bound: sc.Opt.Bound}
		queue = append(queue, task{Sc: i, Prefixes: [][]int{nil}, SliceMS: 40})
	}
	// queue is used as a FIFO over scenarios so that all of them progress.
	events := make(chan event, nw)
	idle := []*proc{}
	busy := map[*proc]bool{}
	for i := 0; i < nw; i++ {
		idle = append(idle, startProc(id, tier, dir, i))
	}
	nproc := nw
	read := func(p *proc) {
		line, err := p.out.ReadBytes('\n')
		if err != nil {
			events <- event{p: p, err: err}
			return
		}
		var r reply
		if err := json.Unmarshal(line, &r); err != nil {
			events <- event{p: p, err: err}
			return
		}
		events <- event{p: p, r: &r}
	}
	var viol *found
	violSc := ""
	deadlineHit := false
	var notes []string
	known := map[string]bool{}
	samples := map[int][]int{}
	deadline := time.NewTimer(budget)
	watch := time.NewTicker(2 * time.Second)
	const hang = 25 * time.Second
	for viol == nil {
		for len(idle) > 0 && len(queue) > 0 && !deadlineHit {
			p := idle[len(idle)-1]
			idle = idle[:len(idle)-1]
			t := queue[0]
			queue = queue[1:]
			if len(t.Prefixes) > 1 && len(queue) < 2*nw {
				// spread the prefixes over the workers
				n := nw
				if n > len(t.Prefixes) {
					n = len(t.Prefixes)
				}
				parts := make([][][]int, n)
				for i, pf := range t.Prefixes {
					parts[i%n] = append(parts[i%n], pf)
				}
				t.Prefixes = parts[0]
				for _, x := range parts[1:] {
					queue = append(queue, task{Sc: t.Sc, Prefixes: x, SliceMS: 250})
					stats[t.Sc].pending++
				}
			}
			tt := t
			p.task, p.start = &tt, time.Now()
			busy[p] = true
			b, _ := json.Marshal(tt)
			p.in.Write(append(b, '\n'))
			go read(p)
		}
		if len(busy) == 0 {
			break
		}
		select {
		case <-deadline.C:
			deadlineHit = true
		case <-watch.C:
			for p := range busy {
				if d := time.Since(p.start); d > hang && (d > 8*hang || !scs[p.task.Sc].Long) {
					p.start = time.Now().Add(time.Hour)
					p.tail.b = []byte("HANG")
					p.cmd.Process.Kill()
				}
			}
		case e := <-events:
			delete(busy, e.p)
			st := stats[e.p.task.Sc]
			if e.err != nil {
				// The worker died: find out at which execution.
				e.p.cmd.Wait()
				st.pending--
				f, why := diagnose(id, tier, scs, e.p)
				if f != nil {
					viol, violSc = f, scs[e.p.task.Sc].Name
				} else {
					notes = append(notes, why)
					st.Diverged++
				}
				nproc++
				idle = append(idle, startProc(id, tier, dir, nproc))
				continue
			}
			idle = append(idle, e.p)
			r := e.r
			st.Executions += r.Execs
			st.Operations += r.Ops
			st.SchedPts += r.Sched
			st.Pruned += r.Pruned
			st.Diverged += r.Diverg
			if r.Diverg > 0 && len(notes) < 20 {
				notes = append(notes, scs[r.Sc].Name+": "+r.DivMsg)
			}
			if r.MaxLen > st.MaxChoices {
				st.MaxChoices = r.MaxLen
			}
			if b, err := base64.StdEncoding.DecodeString(r.States); err == nil {
				for i := 0; i+8 <= len(b); i += 8 {
					st.states[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
				}
			}
			for _, k := range r.Known {
				known[k] = true
			}
			for _, s := range r.Samples {
				if len(s) >= len(samples[r.Sc]) {
					samples[r.Sc] = s
				}
			}
			if r.Fail != nil {
				ok, f := reproduce(id, tier, scs[r.Sc].Name, r.Fail)
				if ok {
					viol, violSc = f, scs[r.Sc].Name
				} else {
					notes = append(notes, fmt.Sprintf("%s: not reproducible: %s %s", scs[r.Sc].Name, r.Fail.Kind, r.Fail.Msg))
					st.Diverged++
				}
			}
			if len(r.Rest) > 0 {
				queue = append(queue, task{Sc: r.Sc, Prefixes: r.Rest, SliceMS: 250})
			} else {
				st.pending--
				if st.pending == 0 {
					st.Complete = true
				}
			}
		}
	}
	for p := range busy {
		p.cmd.Process.Kill()
	}
	for _, p := range idle {
		p.in.Close()
		p.cmd.Process.Kill()
	}
	for i := 0; viol == nil && i < len(scs); i++ {
		if !stats[i].Complete || stats[i].Diverged > 0 || os.Getenv("MC_ONLY") != "" {
			continue
		}
		for _, g := range scs[i].Goals {
			if _, ok := stats[i].states[goalHash(g.If)]; g.If != "" && !ok {
				continue
			}
			if _, ok := stats[i].states[goalHash(g.Then)]; !ok {
				violSc = scs[i].Name
				viol = &found{Kind: "unreachable", Msg: fmt.Sprintf("none of the %d executions, with every random choice, reaches: %s", stats[i].Executions, g.Then), Prefix: samples[i]}
				break
			}
		}
	}
	exhaustive := viol == nil
	var execs, ops int64
	nstates := 0
	for i, s := range stats {
		s.States = len(s.states)
		nstates += s.States
		execs += s.Executions
		ops += s.Operations
		if !s.Complete || s.Diverged > 0 {
			exhaustive = false
		}
		_ = i
	}
	code := 0
	replayPath := ""
	if viol != nil {
		code = 1
		replayPath = writeReplay(id, tier, violSc, viol)
	}
	writeEvidence(id, tier, ck, scs, stats, samples, notes, exhaustive, execs, ops, nstates, time.Since(start), viol, replayPath, deadlineHit)
	var ks []string
	for k := range known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, knownFindings[k])
	}
	fmt.Printf("%s %s: %d scenarios, %d executions, %d operations, %d states, exhaustive=%v, %.1fs\n",
		id, tier, len(scs), execs, ops, nstates, exhaustive, time.Since(start).Seconds())
	if os.Getenv("MC_STATS") != "" {
		for _, s := range stats {
			fmt.Printf("  %-40s execs %8d ops %9d states %7d pruned %6d maxchoices %3d complete %v div %d\n", s.Scenario, s.Executions, s.Operations, s.States, s.Pruned, s.MaxChoices, s.Complete, s.Diverged)
		}
		for _, n := range notes {
			fmt.Println("  note:", n)
		}
	}
	if viol != nil {
		fmt.Printf("scenario %s: %s: %s\n", violSc, viol.Kind, viol.Msg)
		for _, l := range viol.Log {
			fmt.Println("   ", l)
		}
		if viol.Kind == "panic" || os.Getenv("MC_STATS") != "" {
			fmt.Println(viol.Stack)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replayPath)
	}
	return code
}

func runConfirm(id, tier, sc string, prefix []int, timeout time.Duration) (f *found, stderr string, timedOut bool) {
	self, _ := os.Executable()
	b, _ := json.Marshal(prefix)
	if prefix == nil {
		b = []byte("[]")
	}
	c := exec.Command(self, "confirm", id, tier, sc, string(b))
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	t := &tailBuf{}
	c.Stderr = t
	var out strings.Builder
	c.Stdout = &out
	if err := c.Start(); err != nil {
		return nil, err.Error(), false
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case <-done:
	case <-time.After(timeout):
		c.Process.Kill()
		<-done
		return nil, "", true
	}
	var r found
	if json.Unmarshal([]byte(out.String()), &r) != nil {
		return nil, string(t.b), false
	}
	return &r, string(t.b), false
}

const reruns = 5

// reproduce replays a failure in fresh processes; all replays must fail the same way.
func reproduce(id, tier, sc string, f *found) (bool, *found) {
	var last *found
	for i := 0; i < reruns; i++ {
		g, _, _ := runConfirm(id, tier, sc, f.Prefix, 120*time.Second)
		if g == nil || g.Kind != f.Kind {
			return false, nil
		}
		last = g
	}
	return true, last
}

// diagnose decides whether the death of a worker is a reproducible crash or hang of the code under test.
func diagnose(id, tier string, scs []Scenario, p *proc) (*found, string) {
	var c struct {
		Sc     int   `json:"sc"`
		Prefix []int `json:"prefix"`
	}
	b, _ := os.ReadFile(p.cur)
	if i := strings.IndexByte(string(b), '\n'); i >= 0 {
		b = b[:i]
	}
	if json.Unmarshal(b, &c) != nil {
		return nil, "worker died: " + head(string(p.tail.b))
	}
	name := scs[c.Sc].Name
	hang, limit := 40*time.Second, 60*time.Second
	if scs[c.Sc].Long {
		hang, limit = 240*time.Second, 240*time.Second
	}
	if string(p.tail.b) == "HANG" {
		for i := 0; i < 2; i++ {
			if _, _, to := runConfirm(id, tier, name, c.Prefix, hang); !to {
				return nil, name + ": unconfirmed hang"
			}
		}
		return &found{Prefix: c.Prefix, Kind: "hang", Msg: fmt.Sprintf("the operation does not return (no scheduling point reached for %v)", hang)}, ""
	}
	if strings.Contains(string(p.tail.b), "all goroutines are asleep") {
		return nil, name + ": blocked outside the controlled runtime"
	}
	var last string
	for i := 0; i < reruns; i++ {
		f, se, to := runConfirm(id, tier, name, c.Prefix, limit)
		if f != nil || to || !strings.Contains(se, "fatal error") && !strings.Contains(se, "panic") {
			return nil, fmt.Sprintf("%s: unconfirmed crash at %v: %s", name, c.Prefix, head(string(p.tail.b)))
		}
		last = se
	}
	return &found{Prefix: c.Prefix, Kind: "crash", Msg: "the process dies: " + head(last), Stack: last[:min(len(last), 4000)]}, ""
}

func head(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

func evDir() string {
	if d := os.Getenv("MC_EVIDENCE"); d != "" {
		return d
	}
	return "/verif/evidence"
}

func writeReplay(id, tier, sc string, f *found) string {
	d := filepath.Join(evDir(), "replays")
	os.MkdirAll(d, 0o755)
	p := filepath.Join(d, id+".json")
	b, _ := json.MarshalIndent(map[string]any{"property": id, "tier": tier, "scenario": sc, "choices": f.Prefix,
		"kind": f.Kind, "message": f.Msg, "log": f.Log, "stack": strings.Split(f.Stack, "\n"),
		"replay_cmd": fmt.Sprintf("cd /verif && ./check.sh %s %s replay %s", id, tier, p)}, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

func writeEvidence(id, tier string, ck *Check, scs []Scenario, stats []*scStat, samples map[int][]int, notes []string,
	exhaustive bool, execs, ops int64, nstates int, wall time.Duration, viol *found, replay string, deadline bool) {
	var smp []any
	for i := range scs {
		if len(smp) >= 3 {
			break
		}
		if s, ok := samples[i]; ok {
			f, _, _ := runConfirm(id, tier, scs[i].Name, s, 60*time.Second)
			e := map[string]any{"scenario": scs[i].Name, "choices": s}
			if f != nil {
				l := f.Log
				if len(l) > 40 {
					l = l[:40]
				}
				e["trace"] = l
				e["outcome"] = f.Kind
			}
			smp = append(smp, e)
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	v := 0
	if viol != nil {
		v = 1
	}
	cov := map[string]any{
		"states": nstates, "transitions": ops, "traces_validated_against_impl": execs,
		"samples": smp, "exhaustive": exhaustive, "scenarios": stats,
		"rule": "every execution runs the real code of the working tree under the controlled runtime; the whole choice tree " +
			"(inputs, operations, schedules, timers, faults, crash points) of every scenario is enumerated within its deviation bound; " +
			"states counts distinct observed states (canonical dumps of the implementation state), transitions the operations executed " +
			"and compared with the reference model or oracle",
		"bounds": ck.Bounds, "deadline_hit": deadline, "notes": notes,
	}
	if viol != nil {
		cov["violation"] = map[string]any{"kind": viol.Kind, "message": viol.Msg, "replay": replay}
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": append([]string{}, ck.Assume...), "wall_s": wall.Seconds(), "violations": v}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(evDir(), 0o755)
	tmp := filepath.Join(evDir(), "."+id+".tmp")
	os.WriteFile(tmp, b, 0o644)
	os.Rename(tmp, filepath.Join(evDir(), id+".json"))
}
