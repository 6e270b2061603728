package simrt

import (
	"iter"
	"reflect"
	"runtime"
	"unsafe"
)

type hchan struct {
	keep   any
	cap    int
	buf    []any
	sendq  []*waiter
	recvq  []*waiter
	closed bool
}

type waiter struct {
	g    *G
	sel  *Select
	idx  int
	val  any
	ok   bool
	done bool
}

func chanPtr[T any](ch <-chan T) uintptr { return uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch))) }

func (s *Sim) hc(ptr uintptr, keep any, cp int) *hchan {
	h := s.chans[ptr]
	if h == nil {
		h = &hchan{keep: keep, cap: cp}
		s.chans[ptr] = h
	}
	return h
}

func hcOf[T any](s *Sim, ch <-chan T) *hchan {
	if ch == nil {
		return nil
	}
	return s.hc(chanPtr(ch), ch, cap(ch))
}

func (w *waiter) live() bool {
	return !w.g.dead && !w.g.killed && (w.sel == nil || !w.sel.fired)
}

func firstLive(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.live() {
			return w
		}
	}
	return nil
}

func hasLive(q *[]*waiter) bool {
	for len(*q) > 0 {
		if (*q)[0].live() {
			return true
		}
		*q = (*q)[1:]
	}
	return false
}

func (s *Sim) fire(w *waiter, val any, ok bool) {
	w.val, w.ok, w.done = val, ok, true
	if w.sel != nil {
		w.sel.fired = true
		w.sel.chosen = w.idx
		w.sel.val, w.sel.ok = val, ok
	}
	s.ready(w.g)
}

type plainError string

func (e plainError) Error() string { return string(e) }
func (e plainError) RuntimeError() {}

// trySend returns true when the value was passed on.
func (s *Sim) trySend(h *hchan, v any) bool {
	if h.closed {
		panic(plainError("send on closed channel"))
	}
	if w := firstLive(&h.recvq); w != nil {
		s.fire(w, v, true)
		return true
	}
	if len(h.buf) < h.cap {
		h.buf = append(h.buf, v)
		return true
	}
	return false
}

func (s *Sim) tryRecv(h *hchan) (v any, ok, done bool) {
	if len(h.buf) > 0 {
		v = h.buf[0]
		h.buf = h.buf[1:]
		if w := firstLive(&h.sendq); w != nil {
			h.buf = append(h.buf, w.val)
			s.fire(w, w.val, true)
		}
		return v, true, true
	}
	if w := firstLive(&h.sendq); w != nil {
		v = w.val
		s.fire(w, v, true)
		return v, true, true
	}
	if h.closed {
		return nil, false, true
	}
	return nil, false, false
}

func (s *Sim) send(h *hchan, v any) {
	s.yield("send")
	if h == nil {
		s.parkForever("send on nil channel")
	}
	if s.trySend(h, v) {
		return
	}
	w := &waiter{g: s.cur, val: v}
	h.sendq = append(h.sendq, w)
	for !w.done {
		s.park("chan send")
	}
	if !w.ok {
		panic(plainError("send on closed channel"))
	}
}

func (s *Sim) recv(h *hchan) (any, bool) {
	s.yield("recv")
	if h == nil {
		s.parkForever("receive from nil channel")
	}
	if v, ok, done := s.tryRecv(h); done {
		return v, ok
	}
	w := &waiter{g: s.cur}
	h.recvq = append(h.recvq, w)
	for !w.done {
		s.park("chan receive")
	}
	return w.val, w.ok
}

func (s *Sim) parkForever(why string) {
	for {
		s.park(why)
	}
}

func (s *Sim) close(h *hchan) {
	if h == nil {
		panic(plainError("close of nil channel"))
	}
	if h.closed {
		panic(plainError("close of closed channel"))
	}
	h.closed = true
	for {
		w := firstLive(&h.recvq)
		if w == nil {
			break
		}
		s.fire(w, nil, false)
	}
	for {
		w := firstLive(&h.sendq)
		if w == nil {
			break
		}
		s.fire(w, nil, false)
	}
}

func need() *Sim {
	s := enter()
	if s == nil {
		panic("simrt: channel operation outside of a simulation")
	}
	return s
}

// SendTo is ch <- v, written SendTo(ch)(v).
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		s := need()
		if ch == nil {
			s.send(nil, nil)
		}
		s.send(s.hc(uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch))), ch, cap(ch)), v)
	}
}

func cast[T any](v any) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	s := need()
	v, _ := s.recv(hcOf(s, ch))
	return cast[T](v)
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	s := need()
	v, ok := s.recv(hcOf(s, ch))
	return cast[T](v), ok
}

// TryRecv receives without blocking and without a preemption point.
func TryRecv[T any](ch <-chan T) (T, bool) {
	s := need()
	v, ok, done := s.tryRecv(hcOf(s, ch))
	return cast[T](v), ok && done
}

// TrySend sends without blocking and without a preemption point (for event callbacks).
func TrySend[T any](ch chan<- T, v T) bool {
	s := S
	return s.trySend(s.hc(uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch))), ch, cap(ch)), v)
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	s, ok := quiet()
	if s == nil {
		close(ch)
		return
	}
	if !ok {
		runtime.Goexit()
	}
	if ch == nil {
		s.close(nil)
	}
	s.close(s.hc(uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch))), ch, cap(ch)))
	s.yield("close")
}

// CloseQuiet closes without a preemption point, also from event callbacks.
func CloseQuiet[T any](ch chan T) {
	if S == nil {
		close(ch)
		return
	}
	S.close(S.hc(uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch))), ch, cap(ch)))
}

// Via is an assignment's right-hand side with a preemption point before the
// store.
func Via[T any](v T) T { Y(lastSite); return v }

// Len is len(ch).
func Len[T any](ch <-chan T) int {
	if S == nil || ch == nil {
		return len(ch)
	}
	return len(hcOf(S, ch).buf)
}

// LenS is len(ch) for a send-only channel.
func LenS[T any](ch chan<- T) int {
	if S == nil || ch == nil {
		return len(ch)
	}
	return len(S.hc(uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch))), ch, cap(ch)).buf)
}

// RangeChan is range over a channel.
func RangeChan[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// BlockForever is select{}.
func BlockForever() {
	s := need()
	s.parkForever("select{}")
}

// ---- select ----

type selCase struct {
	h    *hchan
	send bool
	val  any
}

// Select is one execution of a select statement.
type Select struct {
	cases  []selCase
	def    bool
	fired  bool
	chosen int
	val    any
	ok     bool
}

func NewSelect(hasDefault bool) *Select { need(); return &Select{def: hasDefault} }

// RecvCase gives access to the received value.
type RecvCase[T any] struct{ sel *Select }

func (c RecvCase[T]) V() T          { return cast[T](c.sel.val) }
func (c RecvCase[T]) V2() (T, bool) { return cast[T](c.sel.val), c.sel.ok }

func SelRecv[T any](sel *Select, ch <-chan T) RecvCase[T] {
	sel.cases = append(sel.cases, selCase{h: hcOf(S, ch)})
	return RecvCase[T]{sel}
}

func SelSend[T any](sel *Select, ch chan<- T) func(T) {
	return func(v T) {
		var h *hchan
		if ch != nil {
			h = S.hc(uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch))), ch, cap(ch))
		}
		sel.cases = append(sel.cases, selCase{h: h, send: true, val: v})
	}
}

// Do blocks until a case can proceed and returns its index (-1: default).
func (sel *Select) Do() int {
	s := need()
	s.yield("select")
	return s.doSelect(sel)
}

func (s *Sim) doSelect(sel *Select) int {
	var rdy []int
	for i, c := range sel.cases {
		if c.h == nil {
			continue
		}
		if c.send {
			if c.h.closed || len(c.h.buf) < c.h.cap || hasLive(&c.h.recvq) {
				rdy = append(rdy, i)
			}
		} else if len(c.h.buf) > 0 || c.h.closed || hasLive(&c.h.sendq) {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		i := rdy[s.choose(len(rdy))]
		c := sel.cases[i]
		if c.send {
			s.trySend(c.h, c.val)
		} else {
			sel.val, sel.ok, _ = s.tryRecv(c.h)
		}
		sel.fired = true
		return i
	}
	if sel.def {
		sel.fired = true
		return -1
	}
	g := s.cur
	for i, c := range sel.cases {
		if c.h == nil {
			continue
		}
		w := &waiter{g: g, sel: sel, idx: i, val: c.val}
		if c.send {
			c.h.sendq = append(c.h.sendq, w)
		} else {
			c.h.recvq = append(c.h.recvq, w)
		}
	}
	for !sel.fired {
		s.park("select")
	}
	if sel.cases[sel.chosen].send && !sel.ok {
		panic(plainError("send on closed channel"))
	}
	return sel.chosen
}

// ReflectSelect is reflect.Select.
func ReflectSelect(cases []reflect.SelectCase) (int, reflect.Value, bool) {
	s := need()
	s.yield("select")
	sel := &Select{}
	idx := make([]int, 0, len(cases))
	elems := make([]reflect.Type, 0, len(cases))
	defIdx := -1
	for i, c := range cases {
		switch c.Dir {
		case reflect.SelectDefault:
			sel.def = true
			defIdx = i
			continue
		case reflect.SelectRecv:
			var h *hchan
			var et reflect.Type
			if c.Chan.IsValid() && !c.Chan.IsNil() {
				h = s.hc(c.Chan.Pointer(), c.Chan.Interface(), c.Chan.Cap())
				et = c.Chan.Type().Elem()
			}
			sel.cases = append(sel.cases, selCase{h: h})
			elems = append(elems, et)
		case reflect.SelectSend:
			var h *hchan
			var v any
			if c.Chan.IsValid() && !c.Chan.IsNil() {
				h = s.hc(c.Chan.Pointer(), c.Chan.Interface(), c.Chan.Cap())
				v = c.Send.Convert(c.Chan.Type().Elem()).Interface()
			}
			sel.cases = append(sel.cases, selCase{h: h, send: true, val: v})
			elems = append(elems, nil)
		}
		idx = append(idx, i)
	}
	k := s.doSelect(sel)
	if k < 0 {
		return defIdx, reflect.Value{}, false
	}
	if sel.cases[k].send {
		return idx[k], reflect.Value{}, false
	}
	rv := reflect.New(elems[k]).Elem()
	if sel.val != nil {
		rv.Set(reflect.ValueOf(sel.val))
	}
	return idx[k], rv, sel.ok
}
