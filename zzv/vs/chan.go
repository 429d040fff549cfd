package vs

import (
	"fmt"
	"reflect"
)

type chState struct {
	recvq, sendq []*selOp
	closed       bool
	keep         any
	// For the order of accesses: what precedes the sends, the receives without a buffer, each receive with one.
	sent, received vclock
	room           []vclock
	sends          int
	tracked        bool // a send or the end has been recorded
}

type selOp struct {
	t     *thread
	cases []caser
	fired int // index completed by a partner, -1 if none
}

type caser interface {
	ready(self *selOp) bool
	commit(self *selOp)
	reg(op *selOp)
	unreg(op *selOp)
	where() string
	order(w *World)
	publish(w *World)
}

// order relates the operation to the others of the channel. A receive is ordered after all sends so far, or after
// everything if the channel is used elsewhere; a send after the receive that made room for it.
func (w *World) order(p uintptr, keep any, recv bool, size int) {
	if !RaceOn || p == 0 {
		return
	}
	s := w.st(p, keep)
	switch {
	case recv && !s.tracked:
		w.acquireAll()
	case recv:
		w.acquire(s.sent)
	case size == 0:
		w.acquire(s.received)
	default:
		if i := s.sends - size; i >= 0 && i < len(s.room) {
			w.acquire(s.room[i])
		}
		s.sends++
	}
	switch {
	case !recv:
		s.tracked = true
		w.release(&s.sent)
	case size == 0:
		w.release(&s.received)
	default:
		var c vclock
		if n := len(s.room); n > 0 {
			c.join(s.room[n-1])
		}
		w.release(&c)
		s.room = append(s.room, c)
	}
}

// publish makes what precedes a blocked operation known to its future partner.
func (c *SendCase[T]) publish(w *World) {
	if RaceOn && c.ptr != 0 {
		s := w.st(c.ptr, c.ch)
		s.tracked = true
		w.release(&s.sent)
	}
}
func (c *RecvCase[T]) publish(w *World) {
	if RaceOn && c.ptr != 0 && c.unb {
		w.release(&w.st(c.ptr, c.ch).received)
	}
}
func (c *RecvCase[T]) order(w *World) { w.order(c.ptr, c.ch, true, cap(c.ch)) }
func (c *SendCase[T]) order(w *World) { w.order(c.ptr, c.ch, false, cap(c.ch)) }

func (w *World) st(p uintptr, keep any) *chState {
	s := w.chans[p]
	if s == nil {
		s = &chState{keep: keep}
		w.chans[p] = s
	}
	return s
}

func remove(q []*selOp, op *selOp) []*selOp {
	for i, x := range q {
		if x == op {
			return append(append([]*selOp{}, q[:i]...), q[i+1:]...)
		}
	}
	return q
}

// RecvCase is a receive operation.
type RecvCase[T any] struct {
	ch   <-chan T
	ptr  uintptr
	unb  bool
	val  T
	ok   bool
	done bool
}

// CaseRecv makes a receive case.
func CaseRecv[T any](ch <-chan T) *RecvCase[T] {
	c := &RecvCase[T]{ch: ch}
	if ch != nil {
		c.ptr = reflect.ValueOf(ch).Pointer()
		c.unb = cap(ch) == 0
	}
	return c
}

func (c *RecvCase[T]) Val() T          { return c.val }
func (c *RecvCase[T]) Val2() (T, bool) { return c.val, c.ok }
func (c *RecvCase[T]) where() string   { return fmt.Sprintf("recv %T", c.ch) }

func (c *RecvCase[T]) partner(self *selOp) (*selOp, int) {
	s := W.chans[c.ptr]
	if s == nil {
		return nil, 0
	}
	for _, o := range s.sendq {
		if o == self || o.fired >= 0 || (self != nil && o.t == self.t) {
			continue
		}
		for i, k := range o.cases {
			if sc, ok := k.(*SendCase[T]); ok && sc.ptr == c.ptr {
				return o, i
			}
		}
	}
	return nil, 0
}

func (c *RecvCase[T]) ready(self *selOp) bool {
	if c.ch == nil {
		return false
	}
	if len(c.ch) > 0 {
		return true
	}
	if c.unb {
		if o, _ := c.partner(self); o != nil {
			return true
		}
	}
	return c.probe()
}

// probe detects a closed channel without consuming anything (the buffer is empty here).
func (c *RecvCase[T]) probe() bool {
	if c.done {
		return true
	}
	select {
	case v, ok := <-c.ch:
		if ok { // a foreign goroutine sent a value: keep it
			c.val, c.ok, c.done = v, true, true
		}
		return true
	default:
		return false
	}
}

func (c *RecvCase[T]) commit(self *selOp) {
	if c.done {
		return
	}
	if len(c.ch) > 0 {
		c.val, c.ok = <-c.ch
		return
	}
	if c.unb {
		if o, i := c.partner(self); o != nil {
			c.val, c.ok = o.cases[i].(*SendCase[T]).val, true
			o.fired = i
			return
		}
	}
	select {
	case c.val, c.ok = <-c.ch:
	default:
		panic("vs: commit of a receive that is not ready")
	}
}

func (c *RecvCase[T]) reg(op *selOp) {
	if c.ch != nil && c.unb {
		s := W.st(c.ptr, c.ch)
		s.recvq = append(s.recvq, op)
	}
}

func (c *RecvCase[T]) unreg(op *selOp) {
	if c.ch != nil && c.unb {
		s := W.st(c.ptr, c.ch)
		s.recvq = remove(s.recvq, op)
	}
}

// SendCase is a send operation.
type SendCase[T any] struct {
	ch  chan<- T
	ptr uintptr
	unb bool
	val T
}

// CaseSend makes a send case.
func CaseSend[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] {
		c := &SendCase[T]{ch: ch, val: v}
		if ch != nil {
			c.ptr = reflect.ValueOf(ch).Pointer()
			c.unb = cap(ch) == 0
		}
		return c
	}
}

func (c *SendCase[T]) where() string { return fmt.Sprintf("send %T", c.ch) }

func (c *SendCase[T]) partner(self *selOp) (*selOp, int) {
	s := W.chans[c.ptr]
	if s == nil {
		return nil, 0
	}
	for _, o := range s.recvq {
		if o == self || o.fired >= 0 || (self != nil && o.t == self.t) {
			continue
		}
		for i, k := range o.cases {
			if rc, ok := k.(*RecvCase[T]); ok && rc.ptr == c.ptr {
				return o, i
			}
		}
	}
	return nil, 0
}

func (c *SendCase[T]) ready(self *selOp) bool {
	if c.ch == nil {
		return false
	}
	if s := W.chans[c.ptr]; s != nil && s.closed {
		return true
	}
	if !c.unb {
		return len(c.ch) < cap(c.ch)
	}
	o, _ := c.partner(self)
	return o != nil
}

func (c *SendCase[T]) commit(self *selOp) {
	if s := W.chans[c.ptr]; s != nil && s.closed {
		panic("send on closed channel")
	}
	if !c.unb {
		c.ch <- c.val
		return
	}
	o, i := c.partner(self)
	rc := o.cases[i].(*RecvCase[T])
	rc.val, rc.ok = c.val, true
	o.fired = i
}

func (c *SendCase[T]) reg(op *selOp) {
	if c.ch != nil && c.unb {
		s := W.st(c.ptr, c.ch)
		s.sendq = append(s.sendq, op)
	}
}

func (c *SendCase[T]) unreg(op *selOp) {
	if c.ch != nil && c.unb {
		s := W.st(c.ptr, c.ch)
		s.sendq = remove(s.sendq, op)
	}
}

// Select performs one of the cases.
func Select(hasDefault bool, cases ...caser) int {
	w := W
	if w.dead() {
		return -2
	}
	w.point()
	op := &selOp{t: w.cur, cases: cases, fired: -1}
	readySet := func() []int {
		var r []int
		for i, c := range cases {
			if c.ready(op) {
				r = append(r, i)
			}
		}
		return r
	}
	rs := readySet()
	if len(rs) == 0 {
		if hasDefault {
			return -1
		}
		for _, c := range cases {
			c.reg(op)
			c.publish(w)
		}
		d := "select"
		if len(cases) == 1 {
			d = cases[0].where()
		}
		w.block(d, func() bool {
			if op.fired >= 0 {
				return true
			}
			for _, c := range cases {
				if c.ready(op) {
					return true
				}
			}
			return false
		})
		for _, c := range cases {
			c.unreg(op)
		}
		if w.dead() {
			return -2
		}
		if op.fired >= 0 {
			cases[op.fired].order(w)
			return op.fired
		}
		rs = readySet()
	}
	i := 0
	if len(rs) > 1 && w.Opt.SelCost >= 0 {
		i = w.Choose(len(rs), KSel, w.Opt.SelCost)
	}
	cases[rs[i]].order(w)
	cases[rs[i]].commit(op)
	return rs[i]
}

// Recv receives a value.
func Recv[T any](ch <-chan T) T {
	c := CaseRecv(ch)
	Select(false, c)
	return c.val
}

// Recv2 receives a value and its validity.
func Recv2[T any](ch <-chan T) (T, bool) {
	c := CaseRecv(ch)
	Select(false, c)
	return c.val, c.ok
}

// SendC sends on ch.
func SendC[T any](ch chan<- T) func(T) {
	return func(v T) { Select(false, CaseSend(ch)(v)) }
}

// Close closes a channel.
func Close[T any](ch chan<- T) {
	w := W
	if w.dead() {
		return
	}
	w.point()
	close(ch)
	st := w.st(reflect.ValueOf(ch).Pointer(), ch)
	st.closed = true
	if RaceOn {
		st.tracked = true
		w.release(&st.sent)
	}
}
