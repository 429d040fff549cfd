package vs

import (
	"context"
	"fmt"
	"reflect"
	"sort"
	"time"
)

// TimeNow is the virtual wall clock.
func TimeNow() time.Time {
	if W == nil {
		return epoch
	}
	return W.Now
}

func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

// Sleep blocks for virtual time.
func Sleep(d time.Duration) {
	w := W
	if w.dead() {
		return
	}
	w.point()
	if d <= 0 {
		return
	}
	fired := false
	w.AddTimer(d, func() { fired = true })
	w.block("sleep", func() bool { return fired })
}

// Timer replaces time.Timer.
type Timer struct {
	C <-chan time.Time
	c chan time.Time
	f func()
	t *vtimer
}

func (t *Timer) arm(d time.Duration) {
	w := W
	t.t = w.AddTimer(d, func() {
		if t.f != nil {
			w.newThread("afterfunc", t.f)
			return
		}
		select {
		case t.c <- w.Now:
			expired(w, t.c)
		default:
		}
	})
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

// NewStopped makes a timer that is not running.
func NewStopped() *Timer {
	c := make(chan time.Time, 1)
	return &Timer{C: c, c: c}
}

func TimeAfter(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func TimeAfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}

func (t *Timer) Stop() bool {
	if W == nil || W.dead() {
		return false
	}
	if t.t == nil {
		return false
	}
	return t.t.stop()
}

func (t *Timer) Reset(d time.Duration) bool {
	if W == nil || W.dead() {
		return false
	}
	was := t.t != nil && t.t.stop()
	if t.c != nil {
		select {
		case <-t.c:
		default:
		}
	}
	t.arm(d)
	return was
}

// Ticker replaces time.Ticker.
type Ticker struct {
	C <-chan time.Time
	c chan time.Time
	t *vtimer
	d time.Duration
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}

func (t *Ticker) arm() {
	w := W
	t.t = w.AddTimer(t.d, func() {
		select {
		case t.c <- w.Now:
			expired(w, t.c)
		default:
		}
		t.arm()
	})
}

func (t *Ticker) Stop() {
	if W == nil || W.dead() {
		return
	}
	t.t.stop()
}

func (t *Ticker) Reset(d time.Duration) {
	if W == nil || W.dead() {
		return
	}
	t.t.stop()
	t.d = d
	t.arm()
}

func TimeTick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

type dlCtx struct {
	context.Context
	expired *bool
	when    time.Time
}

func (c dlCtx) Err() error {
	if e := c.Context.Err(); e != nil {
		if *c.expired {
			return context.DeadlineExceeded
		}
		return e
	}
	return nil
}

func (c dlCtx) Deadline() (time.Time, bool) { return c.when, true }

func CtxWithTimeout(p context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(p)
	e := false
	W.AddTimer(d, func() {
		if ctx.Err() == nil {
			e = true
			cancel()
		}
	})
	return dlCtx{ctx, &e, W.Now.Add(d)}, cancel
}

func CtxWithDeadline(p context.Context, t time.Time) (context.Context, context.CancelFunc) {
	return CtxWithTimeout(p, t.Sub(W.Now))
}

func CtxWithTimeoutCause(p context.Context, d time.Duration, _ error) (context.Context, context.CancelFunc) {
	return CtxWithTimeout(p, d)
}

func CtxWithDeadlineCause(p context.Context, t time.Time, _ error) (context.Context, context.CancelFunc) {
	return CtxWithDeadline(p, t)
}

// CtxAfterFunc replaces context.AfterFunc. The thread that waits for the context isn't counted until it calls the
// function.
func CtxAfterFunc(ctx context.Context, f func()) func() bool {
	w := W
	if w.dead() || ctx.Done() == nil {
		return func() bool { return true }
	}
	began, stopped := false, false
	stop := make(chan struct{})
	w.newThread(fmt.Sprintf("g%d", len(w.threads)), func() {
		Select(false, CaseRecv(ctx.Done()), CaseRecv((<-chan struct{})(stop)))
		if stopped {
			return
		}
		began = true
		w.cur.hidden = false
		f()
	}).hidden = true
	w.point()
	return func() bool {
		if W == nil || W.dead() || began || stopped {
			return false
		}
		stopped = true
		Close(stop)
		return true
	}
}

// Rand returns a number in [0,n) chosen by the explorer.
func Rand(n uint64) uint64 {
	w := W
	if w == nil || w.killing || n <= 1 || w.Opt.RandCost < 0 {
		return 0
	}
	if n > 8 {
		return 0
	}
	return uint64(w.Choose(int(n), KRand, w.Opt.RandCost))
}

// Entry is one entry of an instrumented map iteration.
type Entry[K comparable, V any] struct {
	m map[K]V
	K K
}

func (e Entry[K, V]) Live() bool { _, ok := e.m[e.K]; return ok }
func (e Entry[K, V]) V() V       { return e.m[e.K] }

// MapEntries lists the entries of a map in canonical order, or in another order chosen by the explorer.
func MapEntries[M ~map[K]V, K comparable, V any](m M) []Entry[K, V] {
	r := make([]Entry[K, V], 0, len(m))
	type ks struct {
		s string
		e Entry[K, V]
	}
	tmp := make([]ks, 0, len(m))
	for k := range m {
		tmp = append(tmp, ks{keyString(k), Entry[K, V]{m, k}})
	}
	sort.Slice(tmp, func(i, j int) bool { return tmp[i].s < tmp[j].s })
	for _, x := range tmp {
		r = append(r, x.e)
	}
	w := W
	if w == nil || w.killing || w.Fail != nil {
		return r
	}
	w.point()
	if len(r) > 1 && w.Opt.MapCost > 0 {
		// Alternatives: every rotation, and the reverse order.
		n := len(r) + 1
		if n > 5 {
			n = 5
		}
		c := w.Choose(n, KMap, w.Opt.MapCost)
		if c == n-1 {
			for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
				r[i], r[j] = r[j], r[i]
			}
		} else if c > 0 {
			r = append(append([]Entry[K, V]{}, r[c:]...), r[:c]...)
		}
	}
	return r
}

func keyString(k any) string {
	switch x := k.(type) {
	case string:
		return x
	case fmt.Stringer:
		return x.String()
	}
	v := reflect.ValueOf(k)
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%020d", uint64(v.Int())^(1<<63))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprintf("%020d", v.Uint())
	}
	return fmt.Sprintf("%v", k)
}

// Use keeps an expression evaluated.
func Use(any) struct{} { return struct{}{} }
