// Package sync is the simulated sync.
package sync

import (
	std "sync"

	"github.com/iomz/gosstrak/verif/simrt"
)

type Locker = std.Locker

type Mutex struct {
	locked bool
	w      simrt.WaitQ
}

func (m *Mutex) fresh() {
	if m.w.Fresh() {
		m.locked = false
	}
}

func (m *Mutex) Lock() {
	if !simrt.Enter("lock") {
		m.locked = true
		return
	}
	m.fresh()
	for m.locked {
		m.w.Wait("mutex")
	}
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	if simrt.Enter("trylock") {
		m.fresh()
	}
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if !simrt.Alive() {
		m.locked = false
		return
	}
	m.fresh()
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.w.WakeOne(true)
	simrt.Enter("unlock")
}

type RWMutex struct {
	writer  bool
	readers int
	wwait   int
	w       simrt.WaitQ
}

func (m *RWMutex) fresh() {
	if m.w.Fresh() {
		m.writer, m.readers, m.wwait = false, 0, 0
	}
}

func (m *RWMutex) Lock() {
	if !simrt.Enter("lock") {
		m.writer = true
		return
	}
	m.fresh()
	m.wwait++
	for m.writer || m.readers > 0 {
		m.w.Wait("rwmutex")
	}
	m.wwait--
	m.writer = true
}

func (m *RWMutex) TryLock() bool {
	if simrt.Enter("trylock") {
		m.fresh()
	}
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) Unlock() {
	if !simrt.Alive() {
		m.writer = false
		return
	}
	m.fresh()
	if !m.writer {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.w.WakeAll()
	simrt.Enter("unlock")
}

func (m *RWMutex) RLock() {
	if !simrt.Enter("rlock") {
		m.readers++
		return
	}
	m.fresh()
	for m.writer || m.wwait > 0 {
		m.w.Wait("rwmutex read")
	}
	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	if simrt.Enter("tryrlock") {
		m.fresh()
	}
	if m.writer {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	if !simrt.Alive() {
		m.readers--
		return
	}
	m.fresh()
	if m.readers <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if m.readers == 0 {
		m.w.WakeAll()
	}
	simrt.Enter("runlock")
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()              { r.m.RLock() }
func (r rlocker) Unlock()            { r.m.RUnlock() }
func (m *RWMutex) RLocker() Locker   { return rlocker{m} }

type Once struct {
	done bool
	m    Mutex
	ep   uint64
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

type WaitGroup struct {
	n int
	w simrt.WaitQ
}

func (wg *WaitGroup) Add(d int) {
	if simrt.Alive() && wg.w.Fresh() {
		wg.n = 0
	}
	wg.n += d
	if wg.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if wg.n == 0 && simrt.Alive() {
		wg.w.WakeAll()
	}
}

func (wg *WaitGroup) Done() { wg.Add(-1) }

func (wg *WaitGroup) Wait() {
	if !simrt.Enter("wg") {
		return
	}
	if wg.w.Fresh() {
		wg.n = 0
	}
	for wg.n > 0 {
		wg.w.Wait("waitgroup")
	}
}

func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	simrt.Go(func() {
		defer wg.Done()
		f()
	})
}

type Cond struct {
	L Locker
	w simrt.WaitQ
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	c.w.Fresh()
	// enqueue before releasing the lock
	wt := &condWaiter{}
	c.enqueue(wt)
	c.L.Unlock()
	for !wt.woken {
		simrt.Park("cond")
	}
	c.L.Lock()
}

type condWaiter struct {
	w     simrt.Waiter
	woken bool
}

var condQ = map[*Cond][]*condWaiter{}
var condEpoch uint64

func (c *Cond) enqueue(w *condWaiter) {
	if condEpoch != simrt.Epoch() {
		condQ = map[*Cond][]*condWaiter{}
		condEpoch = simrt.Epoch()
	}
	w.w = simrt.CurWaiter()
	condQ[c] = append(condQ[c], w)
}

func (c *Cond) Signal() {
	if !simrt.Enter("signal") {
		return
	}
	if q := condQ[c]; len(q) > 0 && condEpoch == simrt.Epoch() {
		condQ[c] = q[1:]
		q[0].woken = true
		q[0].w.Wake()
	}
}

func (c *Cond) Broadcast() {
	if !simrt.Enter("broadcast") {
		return
	}
	if condEpoch != simrt.Epoch() {
		return
	}
	for _, w := range condQ[c] {
		w.woken = true
		w.w.Wake()
	}
	delete(condQ, c)
}

// Map keeps insertion order and ranges in an order decided by the simulation.
type Map struct {
	m    map[any]any
	keys []any
	ep   uint64
}

func (m *Map) pre(how string) {
	simrt.Enter(how)
	if m.m == nil {
		m.m = map[any]any{}
	}
}

func (m *Map) Load(key any) (any, bool) {
	m.pre("map load")
	v, ok := m.m[key]
	return v, ok
}

func (m *Map) store(key, value any) {
	if _, ok := m.m[key]; !ok {
		m.keys = append(m.keys, key)
	}
	m.m[key] = value
}

func (m *Map) Store(key, value any) { m.pre("map store"); m.store(key, value) }

func (m *Map) LoadOrStore(key, value any) (any, bool) {
	m.pre("map")
	if v, ok := m.m[key]; ok {
		return v, true
	}
	m.store(key, value)
	return value, false
}

func (m *Map) LoadAndDelete(key any) (any, bool) {
	m.pre("map")
	v, ok := m.m[key]
	m.del(key)
	return v, ok
}

func (m *Map) del(key any) {
	if _, ok := m.m[key]; ok {
		delete(m.m, key)
		for i, k := range m.keys {
			if k == key {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
}

func (m *Map) Delete(key any) { m.pre("map"); m.del(key) }

func (m *Map) Swap(key, value any) (any, bool) {
	m.pre("map")
	v, ok := m.m[key]
	m.store(key, value)
	return v, ok
}

func (m *Map) CompareAndSwap(key, old, new any) bool {
	m.pre("map")
	if v, ok := m.m[key]; ok && v == old {
		m.m[key] = new
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(key, old any) bool {
	m.pre("map")
	if v, ok := m.m[key]; ok && v == old {
		m.del(key)
		return true
	}
	return false
}

func (m *Map) Clear() { m.pre("map"); m.m = map[any]any{}; m.keys = nil }

func (m *Map) Range(f func(key, value any) bool) {
	m.pre("map range")
	ks := append([]any(nil), m.keys...)
	for i := range ks {
		j := i + simrt.Choose(len(ks)-i)
		ks[i], ks[j] = ks[j], ks[i]
	}
	for _, k := range ks {
		v, ok := m.m[k]
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
		simrt.Enter("map range")
	}
}

// Pool never keeps anything, which sync.Pool allows.
type Pool struct {
	New func() any
}

func (p *Pool) Get() any {
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(any) {}
