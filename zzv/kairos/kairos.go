// Package kairos replaces github.com/rhansen/go-kairos/kairos with virtual time.
package kairos

import (
	"time"

	"github.com/alexeykiselev/waves-fork-detector/zzv/vs"
)

type Timer struct {
	C <-chan time.Time
	t *vs.Timer
}

func NewStoppedTimer() *Timer {
	t := vs.NewStopped()
	return &Timer{C: t.C, t: t}
}

func NewTimer(d time.Duration) *Timer {
	t := vs.NewTimer(d)
	return &Timer{C: t.C, t: t}
}

func AfterFunc(d time.Duration, f func()) *Timer { return &Timer{t: vs.TimeAfterFunc(d, f)} }

func (t *Timer) Stop() bool {
	if t.t == nil {
		panic("timer: Stop called on uninitialized Timer")
	}
	return t.t.Stop()
}

func (t *Timer) Reset(d time.Duration) bool {
	if t.t == nil {
		panic("timer: Reset called on uninitialized Timer")
	}
	return t.t.Reset(d)
}
