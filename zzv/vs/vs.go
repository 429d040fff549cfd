// Package vs is the controlled runtime: a cooperative scheduler, channels, timers and a virtual clock whose
// every nondeterministic decision is taken by an explorer.
package vs

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// Kind of a choice point.
type Kind byte

const (
	KData  Kind = iota // harness input: every alternative is explored
	KSched             // which thread runs next
	KSel               // which ready select case fires
	KMap               // map iteration order
	KRand              // random numbers of the program
	KFault             // storage fault
)

// Options of one execution.
type Options struct {
	Fine     bool // statement-level scheduling points
	Bound    int  // total deviation budget
	FreeCost int  // cost of not choosing the default thread when the running one is blocked
	SelCost  int  // cost of choosing a non-default ready select case (-1: never branch)
	MapCost  int  // cost of a non-canonical map order (0: never branch)
	RandCost int  // cost of a non-zero random number (-1: never branch)
	// Demote explores delays instead of preemptions: a deviation at a scheduling point suspends the running thread
	// until no other one can run.
	Demote bool
	Races  bool // data races are violations
	// Free is for harnesses that act on the program through channels only: their waiting doesn't order anything.
	Free     bool
	MaxSteps int
	Horizon  time.Duration // automatic clock advance limit when everything is blocked
}

// Point is one recorded choice.
type Point struct {
	N, C int
	Kind Kind
	Cost int // cost of an alternative (C>0)
}

// Failure describes why an execution was rejected.
type Failure struct {
	Kind  string // "violation", "panic", "deadlock", "livelock", "divergence", "exit"
	Msg   string
	Stack string
}

type thread struct {
	id     int
	name   string
	wake   chan struct{}
	done   chan struct{}
	pred   func() bool
	desc   string
	fin    bool
	unwind bool
	low    bool
	slow   bool
	hidden bool // not a goroutine of the program yet
	op     *selOp
	clk    *clock
}

type vtimer struct {
	vc   vclock
	when time.Time
	seq  int
	fn   func()
	dead bool
}

// World is the state of one execution.
type World struct {
	ID      int
	Opt     Options
	Prefix  []int
	Trace   []Point
	Fail    *Failure
	Now     time.Time
	Steps   int
	Verbose bool
	Log     []string
	Sched   int // scheduling decisions
	Data    map[string]any

	threads  []*thread
	cur      *thread
	finish   chan struct{}
	ended    bool
	killing  bool
	timers   []*vtimer
	tseq     int
	chans    map[uintptr]*chState
	mapIdx   int
	Fault    func(op string) error
	points   bool // scheduling points enabled
	quiet    bool // decisions are not recorded
	home     *thread
	onExit   func()
	Exited   bool // the simulated process has ended
	ExitCode int
	auto     time.Duration
	shadow   map[unsafe.Pointer]*cell
	clocks   []*clock
	armed    vclock // what precedes the start of the timer that is firing
}

// W is the current execution's world.
var W *World

var worldID int

var epoch = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)

// Exec runs fn as the main thread of a fresh world.
func Exec(opt Options, prefix []int, verbose bool, fn func()) *World {
	worldID++
	if opt.MaxSteps == 0 {
		opt.MaxSteps = 5_000_000
	}
	if opt.Horizon == 0 {
		opt.Horizon = 30 * time.Minute
	}
	w := &World{ID: worldID, Opt: opt, Prefix: prefix, Now: epoch, Verbose: verbose, finish: make(chan struct{}, 1),
		chans: map[uintptr]*chState{}, Data: map[string]any{}, points: true}
	W = w
	RaceOn = (opt.Races || os.Getenv("MC_RACES") != "") && !NoRaces
	if RaceOn {
		w.shadow = map[unsafe.Pointer]*cell{}
	}
	main := w.newThread("main", fn)
	main.isMain()
	w.cur = main
	main.wake <- struct{}{}
	<-w.finish
	// Unwind whatever is still there.
	w.killing = true
	for i := 0; i < len(w.threads); i++ {
		t := w.threads[i]
		if t.fin {
			<-t.done
			continue
		}
		w.cur = t
		t.wake <- struct{}{}
		<-t.done
	}
	W = nil
	return w
}

func (t *thread) isMain() {}

func (w *World) newThread(name string, fn func()) *thread {
	t := &thread{id: len(w.threads), name: name, wake: make(chan struct{}, 1), done: make(chan struct{})}
	w.threads = append(w.threads, t)
	w.startClock(t)
	go func() {
		defer close(t.done)
		<-t.wake
		if w.killing {
			t.fin = true
			return
		}
		normal := false
		defer func() {
			if !normal {
				if r := recover(); r != nil && !w.killing && w.Fail == nil {
					w.Fail = &Failure{Kind: "panic", Msg: fmt.Sprintf("panic in %s: %v", t.name, r), Stack: string(debug.Stack())}
				}
			}
			t.fin = true
			if w.killing {
				return
			}
			if w.Fail != nil || t.id == 0 || w.ended {
				w.end()
				return
			}
			w.dispatch(nil)
		}()
		fn()
		normal = true
	}()
	return t
}

func (w *World) end() {
	if !w.ended {
		w.ended = true
		w.finish <- struct{}{}
	}
}

// abort records a failure and stops the execution.
func (w *World) abort(kind, msg string) {
	if w.killing {
		return
	}
	if w.Fail == nil {
		w.Fail = &Failure{Kind: kind, Msg: msg, Stack: string(debug.Stack())}
	}
	runtime.Goexit()
}

// FailNow rejects the current execution.
func FailNow(kind, msg string) { W.abort(kind, msg) }

// dead handles operations of threads that are being unwound. It reports true if the operation must be skipped.
func (w *World) dead() bool {
	if !w.killing && w.Fail == nil {
		return false
	}
	if !w.killing {
		return true // deferred code of the thread that has just aborted
	}
	if t := w.cur; !t.unwind {
		t.unwind = true
		runtime.Goexit()
	}
	return true
}

// Choose takes a decision.
func (w *World) Choose(n int, kind Kind, cost int) int {
	if n <= 1 {
		return 0
	}
	if w.quiet {
		return 0
	}
	i := len(w.Trace)
	c := 0
	if i < len(w.Prefix) {
		c = w.Prefix[i]
		if c >= n || c < 0 {
			w.abort("divergence", fmt.Sprintf("choice %d of %d at point %d", c, n, i))
			return 0
		}
	}
	w.Trace = append(w.Trace, Point{N: n, C: c, Kind: kind, Cost: cost})
	return c
}

func (t *thread) enabled() bool {
	if t.fin {
		return false
	}
	return t.pred == nil || t.pred()
}

// point is a scheduling point of the running thread.
func (w *World) point() {
	if w.dead() {
		return
	}
	w.step()
	if len(w.threads) == 1 || !w.points {
		return
	}
	cur := w.cur
	if cur.low {
		return
	}
	var alts []*thread
	for _, t := range w.threads {
		if t != cur && !t.low && t.enabled() {
			alts = append(alts, t)
		}
	}
	if len(alts) == 0 {
		return
	}
	w.Sched++
	if w.Opt.Demote {
		if w.Choose(2, KSched, 1) == 1 {
			cur.slow = true
			w.dispatch(cur)
		}
		return
	}
	c := w.Choose(len(alts)+1, KSched, 1)
	if c == 0 {
		return
	}
	w.switchTo(alts[c-1])
}

func (w *World) step() {
	w.Steps++
	if w.Steps > w.Opt.MaxSteps {
		w.abort("livelock", fmt.Sprintf("no termination within %d steps", w.Opt.MaxSteps))
	}
}

func (w *World) switchTo(t *thread) {
	cur := w.cur
	w.cur = t
	t.wake <- struct{}{}
	<-cur.wake
	if w.killing {
		w.dead()
	}
}

// dispatch picks the next thread when the running one cannot continue (self == nil: it has terminated).
func (w *World) dispatch(self *thread) {
	for {
		var en []*thread
		start := 0
		if w.cur != nil {
			start = w.cur.id + 1
		}
		n := len(w.threads)
		for i := 0; i < n; i++ {
			t := w.threads[(start+i)%n]
			if !t.low && !t.slow && t.enabled() {
				en = append(en, t)
			}
		}
		if len(en) == 0 { // only suspended threads may go on
			for _, t := range w.threads {
				if t.slow && t.enabled() {
					t.slow = false
					en = append(en, t)
					break
				}
			}
		}
		if len(en) == 0 { // only low-priority (quiescing) threads may go on
			for _, t := range w.threads {
				if t.low && t.enabled() {
					en = append(en, t)
					break
				}
			}
		}
		if len(en) == 0 {
			if w.autoAdvance() {
				continue
			}
			w.deadlock(self)
			return
		}
		c := 0
		if len(en) > 1 {
			w.Sched++
			if w.Opt.FreeCost >= 0 {
				c = w.Choose(len(en), KSched, w.Opt.FreeCost)
			}
		}
		t := en[c]
		w.cur = t
		if t == self {
			return
		}
		t.wake <- struct{}{}
		if self != nil {
			<-self.wake
			if w.killing {
				w.dead()
			}
		}
		return
	}
}

func (w *World) deadlock(self *thread) {
	var sb strings.Builder
	for _, t := range w.threads {
		if !t.fin {
			fmt.Fprintf(&sb, "[%s: %s] ", t.name, t.desc)
		}
	}
	if w.Fail == nil {
		w.Fail = &Failure{Kind: "deadlock", Msg: "all threads blocked: " + sb.String()}
	}
	if self != nil {
		runtime.Goexit()
	}
	w.end()
}

func (w *World) autoAdvance() bool {
	t := w.nextTimer()
	if t == nil {
		return false
	}
	if d := t.when.Sub(w.Now); d > 0 {
		if w.auto+d > w.Opt.Horizon {
			return false
		}
		w.auto += d
	}
	w.Steps++
	if w.Steps > w.Opt.MaxSteps {
		return false
	}
	w.fire(t)
	return true
}

// block suspends the running thread until pred holds.
func (w *World) block(desc string, pred func() bool) {
	if w.dead() {
		return
	}
	t := w.cur
	if pred() {
		return
	}
	t.pred, t.desc = pred, desc
	w.step()
	w.dispatch(t)
	t.pred, t.desc = nil, ""
}

// Block suspends the thread forever.
func Block() { W.block("select{}", func() bool { return false }) }

// P is a statement-level scheduling point.
func P() {
	w := W
	if w == nil || w.killing {
		return
	}
	w.Steps++
	if w.Steps > w.Opt.MaxSteps && w.Fail == nil {
		w.abort("livelock", fmt.Sprintf("no termination within %d steps", w.Opt.MaxSteps))
	}
	if w.Opt.Fine && len(w.threads) > 1 && w.Fail == nil {
		w.point()
	}
}

// Pt is a scheduling point at a shared-memory or storage operation.
func Pt() {
	if W != nil {
		W.point()
	}
}

// Go starts a thread.
func Go(fn func()) { GoN("", fn) }

// GoN starts a named thread.
func GoN(name string, fn func()) {
	w := W
	if w.dead() {
		return
	}
	if name == "" {
		name = fmt.Sprintf("g%d", len(w.threads))
	}
	w.newThread(name, fn)
	w.point()
}

// WaitFor blocks the calling harness thread until pred holds.
func WaitFor(desc string, pred func() bool) {
	W.block(desc, pred)
	if !W.Opt.Free {
		W.acquireAll()
	}
}

// WaitSync blocks the calling thread until pred holds, everything that has happened so far is ordered before what
// follows.
func WaitSync(desc string, pred func() bool) {
	W.block(desc, pred)
	W.acquireAll()
}

// SetPoints switches preemption points on or off (blocking still switches).
func SetPoints(on bool) { W.points = on }

// Threads returns the number of live threads besides the caller.
func Threads() int {
	n := 0
	for _, t := range W.threads {
		if !t.fin && t != W.cur && !t.hidden {
			n++
		}
	}
	return n
}

// Blocked describes the live threads besides the caller.
func Blocked() string {
	var s []string
	for _, t := range W.threads {
		if !t.fin && t != W.cur && !t.hidden {
			s = append(s, t.name+": "+t.desc)
		}
	}
	return strings.Join(s, "; ")
}

// Quiesce lets every other thread run until all of them are blocked or finished.
func Quiesce() {
	w := W
	if w.dead() {
		return
	}
	t := w.cur
	t.low = true
	w.block("quiesce", func() bool {
		for _, o := range w.threads {
			if o != t && !o.low && o.enabled() {
				return false
			}
		}
		return true
	})
	t.low = false
	if !w.Opt.Free {
		w.acquireAll()
	}
}

// Settle runs fn and all other threads until they wait, without taking any decision.
func Settle(fn func()) {
	if W.dead() {
		return
	}
	W.quiet = true
	fn()
	Quiesce()
	W.quiet = false
}

func (w *World) nextTimer() *vtimer {
	for len(w.timers) > 0 && w.timers[0].dead {
		w.timers = w.timers[1:]
	}
	if len(w.timers) == 0 {
		return nil
	}
	return w.timers[0]
}

func (w *World) fire(t *vtimer) {
	if t.when.After(w.Now) {
		w.Now = t.when
	}
	t.dead = true
	w.armed = t.vc
	t.fn()
	w.armed = nil
}

// AddTimer schedules fn after d.
func (w *World) AddTimer(d time.Duration, fn func()) *vtimer {
	if d < 0 {
		d = 0
	}
	w.tseq++
	t := &vtimer{when: w.Now.Add(d), seq: w.tseq, fn: fn}
	if w.armed != nil { // a ticker
		t.vc = w.armed
	} else {
		w.release(&t.vc)
	}
	i := sort.Search(len(w.timers), func(i int) bool { return w.timers[i].when.After(t.when) })
	w.timers = append(w.timers, nil)
	copy(w.timers[i+1:], w.timers[i:])
	w.timers[i] = t
	return t
}

func (t *vtimer) stop() bool {
	r := !t.dead
	t.dead = true
	return r
}

// Advance moves the virtual clock by d, letting threads run to quiescence around every timer.
func Advance(d time.Duration) {
	w := W
	Quiesce()
	target := w.Now.Add(d)
	w.auto = 0
	for {
		if w.dead() {
			return
		}
		t := w.nextTimer()
		if t == nil || t.when.After(target) {
			break
		}
		w.step()
		w.fire(t)
		Quiesce()
	}
	if target.After(w.Now) {
		w.Now = target
	}
}

// Logf appends to the trace of a verbose execution.
func Logf(f string, a ...any) {
	if w := W; w != nil && w.Verbose {
		w.Log = append(w.Log, fmt.Sprintf("%s  ", w.Now.Sub(epoch))+fmt.Sprintf(f, a...))
	}
}

// Deadlines lists the times, from now, at which pending timers fire.
func Deadlines() []time.Duration {
	var o []time.Duration
	for _, t := range W.timers {
		if !t.dead {
			o = append(o, t.when.Sub(W.Now))
		}
	}
	return o
}
