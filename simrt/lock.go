package simrt

// WaitQ is a queue of parked goroutines, the base of the lock shims.
type WaitQ struct {
	epoch uint64
	q     []*G
}

// Fresh reports whether the owner's state belongs to an earlier run (and must
// be reset), and adopts the current one.
func (w *WaitQ) Fresh() bool {
	if S == nil || w.epoch == S.epoch {
		return false
	}
	w.epoch = S.epoch
	w.q = nil
	return true
}

// Wait parks the current goroutine on the queue.
func (w *WaitQ) Wait(why string) {
	s := need()
	w.q = append(w.q, s.cur)
	s.park(why)
}

// WakeOne makes one waiter runnable; pickAny lets the simulation choose which.
func (w *WaitQ) WakeOne(pickAny bool) bool {
	s := S
	for len(w.q) > 0 {
		i := 0
		if pickAny && len(w.q) > 1 {
			i = s.choose(len(w.q))
		}
		g := w.q[i]
		w.q = append(w.q[:i:i], w.q[i+1:]...)
		if g.dead || g.killed {
			continue
		}
		s.ready(g)
		return true
	}
	return false
}

// WakeAll makes all waiters runnable.
func (w *WaitQ) WakeAll() {
	for w.WakeOne(false) {
	}
}

// Drop removes the current goroutine from the queue (after a timeout).
func (w *WaitQ) Drop() {
	for i, g := range w.q {
		if g == S.cur {
			w.q = append(w.q[:i:i], w.q[i+1:]...)
			return
		}
	}
}

// Enter is called by shims at the start of an operation; false outside a run.
func Enter(how string) bool {
	s := enter()
	if s == nil {
		return false
	}
	s.yield(how)
	return true
}

// Alive is false when the current goroutine is being unwound.
func Alive() bool {
	s, ok := quiet()
	return s != nil && ok
}

// ReadyCur exposes waking a specific goroutine to shims.
type Waiter struct{ g *G }

func CurWaiter() Waiter     { return Waiter{S.cur} }
func (w Waiter) Wake()      { S.ready(w.g) }
func Park(why string)       { S.park(why) }
func InSim() bool           { return S != nil }
func Epoch() uint64 {
	if S == nil {
		return 0
	}
	return S.epoch
}
