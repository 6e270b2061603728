// Package time is the simulated time.
package time

import (
	"github.com/iomz/gosstrak/verif/simrt"
)

// Epoch is the wall clock time at the start of every run.
const Epoch = simrt.Epoch0

func Now() Time                    { return simrt.MkTime(simrt.ClockRead()) }
func Since(t Time) Duration        { return Now().Sub(t) }
func Until(t Time) Duration        { return t.Sub(Now()) }
func Sleep(d Duration)             { simrt.Sleep(int64(d)) }
func After(d Duration) <-chan Time { return NewTimer(d).C }
func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

type Timer struct {
	C      <-chan Time
	c      chan Time
	f      func()
	cancel func()
	active bool
}

func at() Time { return simrt.MkTime(simrt.NowNS()) }

func (t *Timer) start(d Duration) {
	t.active = true
	p := simrt.Cur()
	t.cancel = simrt.After(int64(d), func() {
		t.active = false
		if p.Exited {
			return
		}
		if t.f != nil {
			simrt.GoIn(p, "afterfunc", t.f)
			return
		}
		simrt.TrySend(t.c, at())
	})
}

func NewTimer(d Duration) *Timer {
	t := &Timer{c: make(chan Time, 1)}
	t.C = t.c
	t.start(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func (t *Timer) Stop() bool {
	if !simrt.Alive() {
		return false
	}
	was := t.active
	t.active = false
	if t.cancel != nil {
		t.cancel()
	}
	if t.c != nil { // since Go 1.23 no stale value is received after Stop
		if _, ok := simrt.TryRecv(t.C); ok {
			was = true
		}
	}
	return was
}

func (t *Timer) Reset(d Duration) bool {
	was := t.Stop()
	t.start(d)
	return was
}

type Ticker struct {
	C      <-chan Time
	c      chan Time
	d      Duration
	cancel func()
	off    bool
}

func (t *Ticker) arm() {
	p := simrt.Cur()
	var tick func()
	tick = func() {
		if t.off || p.Exited {
			return
		}
		simrt.TrySend(t.c, at())
		t.cancel = simrt.After(int64(t.d), tick)
	}
	t.cancel = simrt.After(int64(t.d), tick)
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{c: make(chan Time, 1), d: d}
	t.C = t.c
	t.arm()
	return t
}

func (t *Ticker) Stop() {
	t.off = true
	if t.cancel != nil {
		t.cancel()
	}
}

func (t *Ticker) Reset(d Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	t.Stop()
	t.off = false
	t.d = d
	t.arm()
}
