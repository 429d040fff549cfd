// Package sync replaces the standard library's sync under the controlled scheduler.
package sync

import (
	"sync"

	"github.com/alexeykiselev/waves-fork-detector/zzv/vs"
)

type (
	Map    = sync.Map
	Pool   = sync.Pool
	Locker = sync.Locker
)

type Mutex struct{ m vs.Mu }

func (m *Mutex) Lock()         { m.m.Lock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }
func (m *Mutex) TryLock() bool { return m.m.TryLock() }

type RWMutex struct{ m vs.RW }

func (m *RWMutex) Lock()          { m.m.Lock() }
func (m *RWMutex) Unlock()        { m.m.Unlock() }
func (m *RWMutex) RLock()         { m.m.RLock() }
func (m *RWMutex) RUnlock()       { m.m.RUnlock() }
func (m *RWMutex) TryLock() bool  { return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { return m.m.TryRLock() }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type WaitGroup struct{ n int }

func (g *WaitGroup) Add(d int) {
	vs.Pt()
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	vs.Pt()
	vs.WaitSync("WaitGroup.Wait", func() bool { return g.n == 0 })
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	vs.Go(func() { defer g.Done(); f() })
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	vs.Pt()
	if o.done {
		vs.Order()
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type Cond struct {
	L    Locker
	wait []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	b := false
	c.wait = append(c.wait, &b)
	c.L.Unlock()
	vs.WaitSync("Cond.Wait", func() bool { return b })
	c.L.Lock()
}
func (c *Cond) Signal() {
	vs.Pt()
	if len(c.wait) > 0 {
		*c.wait[0] = true
		c.wait = c.wait[1:]
	}
}
func (c *Cond) Broadcast() {
	vs.Pt()
	for _, b := range c.wait {
		*b = true
	}
	c.wait = nil
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}
