package vs

import (
	"fmt"
	"reflect"
	"unsafe"
)

// Detection of data races: every access to a field of a structure behind a pointer, to a package variable or to a map
// of the program is compared with the earlier accesses under the happens-before order of the execution. Two accesses,
// one of them a write, that are not ordered are a race in every schedule with the same order of synchronization.
//
// The order is never underestimated: whatever is not tracked precisely (foreign channels, timers, waiting of the
// harness) orders everything that has happened so far.

// RaceOn is set while accesses are recorded.
var RaceOn bool

// NoRaces switches the detection off, the program uses synchronization that isn't tracked.
var NoRaces bool

type vclock []int32

func (c *vclock) join(o vclock) {
	for len(*c) < len(o) {
		*c = append(*c, 0)
	}
	for i, x := range o {
		if x > (*c)[i] {
			(*c)[i] = x
		}
	}
}

func (c vclock) at(i int) int32 {
	if i < len(c) {
		return c[i]
	}
	return 0
}

type access struct {
	t    int
	c    int32
	site string
}

type cell struct {
	w   access
	has bool
	r   []access
}

// clock is the vector clock of a sequence of actions, usually of a thread.
type clock struct {
	id   int
	name string
	vc   vclock
}

func (c *clock) now() int32 { return c.vc.at(c.id) }

func (w *World) newClock(name string) *clock {
	c := &clock{id: len(w.clocks), name: name}
	w.clocks = append(w.clocks, c)
	return c
}

// start begins the clock after the given actions.
func (c *clock) start(after vclock) {
	c.vc.join(after)
	for len(c.vc) <= c.id {
		c.vc = append(c.vc, 0)
	}
	c.vc[c.id]++
}

// Aside is a sequence of actions that is ordered with nothing but its own mark, whichever threads perform them.
type Aside struct {
	name string
	c    *clock
	from *Mark
}

// NewAside makes a sequence that starts after the mark.
func NewAside(name string, m *Mark) *Aside { return &Aside{name: name, from: m} }

// Do performs an action of the sequence.
func (a *Aside) Do(f func()) {
	if !RaceOn || !W.Opt.Free {
		f()
		return
	}
	if a.c == nil {
		a.c = W.newClock(a.name)
		a.c.start(a.from.vc)
	}
	t := W.cur
	old := t.clk
	t.clk = a.c
	defer func() { t.clk = old }()
	f()
}

// Mark is a point of the execution that others refer to.
type Mark struct{ vc vclock }

// Set moves the mark to what the running thread has done.
func (m *Mark) Set() {
	m.vc = nil
	W.release(&m.vc)
}

// After orders what the running thread does next after the mark.
func (m *Mark) After() { W.acquire(m.vc) }

// expired is the send of a timer to its channel.
func expired[T any](w *World, ch chan T) {
	if RaceOn {
		s := w.st(reflect.ValueOf(ch).Pointer(), ch)
		s.tracked = true
		s.sent.join(w.armed)
	}
}

// release publishes everything the running thread has done.
func (w *World) release(c *vclock) {
	if !RaceOn {
		return
	}
	k := w.cur.clk
	c.join(k.vc)
	k.vc[k.id]++
}

// acquire makes everything published precede what the running thread does next.
func (w *World) acquire(c vclock) {
	if RaceOn {
		w.cur.clk.vc.join(c)
	}
}

// acquireAll orders everything that has happened so far before what the running thread does next.
func (w *World) acquireAll() {
	if RaceOn {
		w.joinAll(w.cur)
	}
}

func (w *World) joinAll(t *thread) {
	for _, o := range w.clocks {
		if o != t.clk {
			t.clk.vc.join(o.vc)
			o.vc[o.id]++
		}
	}
}

func (w *World) startClock(t *thread) {
	if !RaceOn {
		return
	}
	t.clk = w.newClock(t.name)
	if w.armed != nil {
		t.clk.start(w.armed)
		return
	}
	var after vclock
	if w.cur != nil {
		w.release(&after)
	}
	t.clk.start(after)
}

func (w *World) access(p unsafe.Pointer, write bool, site string) {
	if p == nil || w.killing || w.Fail != nil {
		return
	}
	t := w.cur.clk
	c := w.shadow[p]
	if c == nil {
		c = &cell{}
		w.shadow[p] = c
	}
	if c.has && c.w.t != t.id && c.w.c > t.vc.at(c.w.t) {
		w.race(c.w, true, access{t.id, 0, site}, write)
	}
	if write {
		for _, r := range c.r {
			if r.t != t.id && r.c > t.vc.at(r.t) {
				w.race(r, false, access{t.id, 0, site}, true)
			}
		}
		c.w, c.has, c.r = access{t.id, t.now(), site}, true, nil
		return
	}
	for i := range c.r {
		if c.r[i].t == t.id {
			c.r[i].c, c.r[i].site = t.now(), site
			return
		}
	}
	c.r = append(c.r, access{t.id, t.now(), site})
}

func (w *World) race(a access, aw bool, b access, bw bool) {
	k := func(w bool) string {
		if w {
			return "written"
		}
		return "read"
	}
	w.abort("race", fmt.Sprintf("data race: %s %s by %s and %s %s by %s without synchronization",
		a.site, k(aw), w.clocks[a.t].name, b.site, k(bw), w.clocks[b.t].name))
}

// Rd is a read of a shared variable.
func Rd[T any](p *T, site string) *T {
	if RaceOn && W != nil && unsafe.Sizeof(*p) > 0 {
		W.access(unsafe.Pointer(p), false, site)
	}
	return p
}

// Wr is a write of a shared variable.
func Wr[T any](p *T, site string) *T {
	if RaceOn && W != nil && unsafe.Sizeof(*p) > 0 {
		W.access(unsafe.Pointer(p), true, site)
	}
	return p
}

// MRd is a read of a map.
func MRd[M ~map[K]V, K comparable, V any](m M, site string) M {
	if RaceOn && W != nil && m != nil {
		W.access(reflect.ValueOf(m).UnsafePointer(), false, site)
	}
	return m
}

// MWr is a write of a map.
func MWr[M ~map[K]V, K comparable, V any](m M, site string) M {
	if RaceOn && W != nil && m != nil {
		W.access(reflect.ValueOf(m).UnsafePointer(), true, site)
	}
	return m
}

// Order orders everything that has happened so far before what the caller does next.
func Order() {
	if W != nil && !W.killing {
		W.acquireAll()
	}
}
