// Package simrt is the deterministic simulation runtime: a cooperative
// scheduler over real goroutines (exactly one runs at a time), a simulated
// clock, and the primitives (channels, mutexes, timers, network, disk) to which
// the source instrumenter redirects the code under test.
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
)

// Site names, filled in by the generated file zz_sites.go.
var SiteNames []string

// Config fixes one simulated run completely, together with the scenario code.
type Config struct {
	Seed      uint64   `json:"seed"`
	Strategy  int      `json:"strategy"`             // 0 random walk, 1 FIFO + random preemption, 2 PCT-like priorities
	Gap       int      `json:"gap"`                  // mean number of yields between preemption points; 0 = never preempt
	YieldCost int64    `json:"yield_cost"`           // simulated ns that one executed statement takes
	NowJitter int64    `json:"now_jitter"`           // each clock reading advances the clock by up to this many ns
	Stall     int64    `json:"stall,omitempty"`      // a goroutine is sometimes not run for up to this many ns
	StallOdds int      `json:"stall_odds,omitempty"` // one in so many occasions
	Gran      int64    `json:"gran,omitempty"`       // clock readings are multiples of this many ns
	Jumps     []Jump   `json:"jumps,omitempty"`      // of the wall clock
	MaxSteps  int64    `json:"max_steps"`
	Horizon   int64    `json:"horizon"` // simulated ns
	UseTape   bool     `json:"use_tape"`
	Tape      []uint32 `json:"tape,omitempty"`
	Trace     bool     `json:"-"`
}

// Proc is one simulated operating system process.
type Proc struct {
	Name     string
	Exited   bool
	ExitCode int
	ExitMsg  string
	Crash    bool // ended by an unrecovered panic
	Stack    string
	OOM      bool // ended by an allocation nobody has the memory for
	ExitTime int64
	onExit   []func()
	Args     []string
	Out      []byte // console and log output
	NoStall  bool   // a model whose own records must be exact
}

// G is one simulated goroutine.
type G struct {
	id     int
	name   string
	proc   *Proc
	wake   chan struct{}
	exited chan struct{}
	killed bool
	dead   bool
	queued bool
	prio   uint64
	sel    *Select
	why    string
	site   uint32
}

type event struct {
	at  int64
	seq uint64
	fn  func()
	off bool
	idx int
}

// Stats are measured on each run.
type Stats struct {
	Switches  int64
	Yields    int64
	Events    int64
	Gs        int64
	Decisions int64
	SchedHash uint64
	SimTime   int64
	Faults    map[string]int64
	Probes    map[string]int64
}

// Result of a run.
type Result struct {
	End      string // done, quiescent, horizon, steps
	Stats    Stats
	Tape     []uint32
	TraceLog []string
	Blocked  []string
}

// Sim is the running simulation.
type Sim struct {
	cfg      Config
	stalled  int64
	epoch    uint64
	rng      uint64
	pos      int
	tape     []uint32
	now      int64
	evs      []*event
	evSeq    uint64
	runq     []*G
	cur      *G
	gs       []*G
	nextID   int
	ended    bool
	endWhy   string
	killing  bool
	done     chan struct{}
	chans    map[uintptr]*hchan
	stats    Stats
	trace    []string
	chunk    int64
	gapLeft  int64
	steps    int64
	prioLow  uint64
	Net      *NetWorld
	FS       *FSWorld
	HTTP     *HTTPWorld
	LogSink  func(p *Proc, s string)
	rootP    *Proc
	selfKill *G
	evG      *G // stands for the world while event callbacks run
}

// S is the current simulation (nil outside of Run).
var S *Sim

var epochs uint64

// yl counts down to the next slow path of Y.
var yl int64

const bigChunk = 1 << 14

// Y is a statement-level preemption point.
func Y(site uint32) {
	lastSite = site
	yl--
	if yl > 0 {
		return
	}
	slowY()
}

var lastSite uint32

func slowY() {
	s := S
	if s == nil || s.cur == nil {
		yl = bigChunk
		return
	}
	if s.cur.killed {
		yl = 1
		if s.killing || s.cur.proc.Exited {
			runtime.Goexit()
		}
	}
	s.cur.site = lastSite
	s.sync()
	s.yield("stmt")
}

// sync folds the statements executed since the last sync into the clock.
func (s *Sim) sync() {
	used := s.chunk - yl
	if used < 0 {
		used = 0
	}
	s.chunk = yl
	s.stats.Yields += used
	s.steps += used
	s.now += used * s.cfg.YieldCost
	if s.gapLeft > 0 {
		s.gapLeft -= used
		if s.gapLeft < 0 {
			s.gapLeft = 0
		}
	}
}

func (s *Sim) refill() {
	n := int64(bigChunk)
	if s.cfg.Gap > 0 {
		if s.gapLeft <= 0 {
			s.gapLeft = s.drawGap()
		}
		if s.gapLeft < n {
			n = s.gapLeft
		}
	}
	if s.cfg.YieldCost > 0 && len(s.evs) > 0 {
		d := (s.evs[0].at-s.now)/s.cfg.YieldCost + 1
		if d < 1 {
			d = 1
		}
		if d < n {
			n = d
		}
	}
	if n < 1 {
		n = 1
	}
	yl = n
	s.chunk = n
}

func (s *Sim) drawGap() int64 {
	// 0 on the tape means "no preemption for a long time"
	v := s.choose(2*s.cfg.Gap + 1)
	if v == 0 {
		return bigChunk
	}
	return int64(v)
}

// ---- decisions ----

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Rand is a small deterministic generator, also used for scenario generation.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{mix(seed ^ 0x5851f42d4c957f2d)} }
func (r *Rand) Uint64() uint64  { r.s += 0x9e3779b97f4a7c15; return mix(r.s) }
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}
func (r *Rand) Int63n(n int64) int64 {
	if n <= 1 {
		return 0
	}
	return int64(r.Uint64() % uint64(n))
}
func (r *Rand) Float() float64      { return float64(r.Uint64()>>11) / (1 << 53) }
func (r *Rand) Bool(p float64) bool { return r.Float() < p }
func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// choose draws one scheduling or environment decision in [0,n).
func (s *Sim) choose(n int) int {
	if n <= 1 {
		return 0
	}
	s.stats.Decisions++
	var v int
	if s.cfg.UseTape {
		if s.pos < len(s.cfg.Tape) {
			v = int(s.cfg.Tape[s.pos]) % n
		}
		s.pos++
	} else {
		s.rng += 0x9e3779b97f4a7c15
		v = int(mix(s.rng) % uint64(n))
	}
	s.tape = append(s.tape, uint32(v))
	return v
}

// Choose is the decision seam for world models (0 is always the mildest outcome).
func Choose(n int) int {
	if S == nil {
		return 0
	}
	return S.choose(n)
}

// Chance is true with probability num/den.
func Chance(num, den int) bool {
	if num <= 0 {
		return false
	}
	return Choose(den) >= den-num
}

// ---- running ----

// Run executes main as the first goroutine of a simulation and returns when it
// ends the run, nothing can happen any more, or a bound is hit.
func Run(cfg Config, main func()) *Result {
	epochs++
	s := &Sim{cfg: cfg, epoch: epochs, rng: mix(cfg.Seed ^ 0xd1b54a32d192ed03), done: make(chan struct{}), chans: map[uintptr]*hchan{}}
	s.stats.Faults = map[string]int64{}
	s.stats.Probes = map[string]int64{}
	s.stats.SchedHash = 14695981039346656037
	s.now = 0
	s.prioLow = 1 << 40
	s.Net = newNetWorld(s)
	s.FS = newFSWorld(s)
	s.HTTP = newHTTPWorld(s)
	s.rootP = &Proc{Name: "world"}
	s.evG = &G{id: -1, name: "event", proc: s.rootP}
	if s.cfg.MaxSteps == 0 {
		s.cfg.MaxSteps = 20_000_000
	}
	S = s
	lastSite = 0
	g := s.newG(s.rootP, "main", main)
	s.runq = s.runq[:0]
	g.queued = false
	s.cur = g
	yl = 1
	s.chunk = 1
	g.wake <- struct{}{}
	<-s.done
	// kill what is left, one goroutine at a time
	s.killing = true
	var blocked []string
	for i := 0; i < len(s.gs); i++ {
		if x := s.gs[i]; !x.dead {
			blocked = append(blocked, fmt.Sprintf("g%d %s/%s: %s at %s", x.id, x.proc.Name, x.name, x.why, SiteName(x.site)))
		}
	}
	for i := 0; i < len(s.gs); i++ {
		x := s.gs[i]
		if !x.dead {
			x.killed = true
			s.cur = x
			yl = 1
			x.wake <- struct{}{}
			<-x.exited
		}
	}
	s.stats.SimTime = s.now
	s.stats.Gs = int64(s.nextID)
	S = nil
	return &Result{End: s.endWhy, Stats: s.stats, Tape: s.tape, TraceLog: s.trace, Blocked: blocked}
}

func SiteName(i uint32) string {
	if int(i) < len(SiteNames) {
		return SiteNames[i]
	}
	return "?"
}

func (s *Sim) newG(p *Proc, name string, fn func()) *G {
	g := &G{id: s.nextID, name: name, proc: p, wake: make(chan struct{}, 1), exited: make(chan struct{})}
	s.nextID++
	if s.cfg.Strategy == 2 {
		g.prio = 1<<41 + uint64(s.choose(1<<20))
	}
	s.gs = append(s.gs, g)
	go g.main(s, fn)
	s.ready(g)
	return g
}

func (g *G) main(s *Sim, fn func()) {
	normal := false
	defer func() {
		if !normal && !g.killed {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				s.crash(g, r, st)
			}
		} else if !normal {
			recover()
		}
		g.dead = true
		if s.killing || g.killed {
			close(g.exited)
			if !s.killing && s.selfKill == g {
				s.selfKill = nil
				s.handoff()
			}
			return
		}
		close(g.exited)
		s.sync()
		s.handoff()
	}()
	<-g.wake
	if g.killed {
		return
	}
	fn()
	normal = true
}

func (s *Sim) ready(g *G) {
	if g.dead || g.killed || g.queued {
		return
	}
	g.queued = true
	s.runq = append(s.runq, g)
}

// pick removes and returns the next goroutine to run, advancing time when idle;
// nil when the run has ended.
func (s *Sim) pick(how string) *G {
	for {
		if s.ended {
			return nil
		}
		s.fireDue()
		if s.ended {
			return nil
		}
		s.steps++
		if s.steps > s.cfg.MaxSteps {
			s.end("steps")
			return nil
		}
		if s.cfg.Horizon > 0 && s.now > s.cfg.Horizon {
			s.end("horizon")
			return nil
		}
		if n := len(s.runq); n > 0 {
			i := 0
			switch s.cfg.Strategy {
			case 0:
				i = s.choose(n)
			case 1:
				if how == "stmt" && n > 1 {
					i = s.choose(n)
				}
			case 2:
				for j := 1; j < n; j++ {
					if s.runq[j].prio > s.runq[i].prio {
						i = j
					}
				}
			}
			g := s.runq[i]
			s.runq = append(s.runq[:i], s.runq[i+1:]...)
			g.queued = false
			if g.dead || g.killed {
				continue
			}
			return g
		}
		// idle: jump to the next event
		for len(s.evs) > 0 && s.evs[0].off {
			s.popEv()
		}
		if len(s.evs) == 0 {
			s.end("quiescent")
			return nil
		}
		if s.evs[0].at > s.now {
			s.now = s.evs[0].at
		}
	}
}

func (s *Sim) fireDue() {
	for len(s.evs) > 0 && s.evs[0].at <= s.now && !s.ended {
		e := s.popEv()
		if e.off {
			continue
		}
		s.stats.Events++
		me := s.cur
		s.cur = s.evG
		e.fn()
		s.cur = me
	}
}

// handoff passes the token on from a goroutine that will not run again.
func (s *Sim) handoff() {
	if s.ended {
		return
	}
	n := s.pick("exit")
	if n == nil {
		return
	}
	s.switchTo(n, "exit")
	n.wake <- struct{}{}
}

func (s *Sim) switchTo(n *G, how string) {
	s.stats.Switches++
	h := s.stats.SchedHash
	h ^= uint64(n.id)<<20 ^ uint64(n.site)
	h *= 1099511628211
	s.stats.SchedHash = h
	if s.cfg.Trace {
		from := "-"
		if s.cur != nil {
			from = fmt.Sprintf("g%d(%s@%s)", s.cur.id, s.cur.name, SiteName(s.cur.site))
		}
		s.tracef("switch %s -%s-> g%d(%s@%s)", from, how, n.id, n.name, SiteName(n.site))
	}
	s.cur = n
	s.refill()
}

// yield lets another goroutine run if the strategy wants so.
func (s *Sim) yield(how string) {
	g := s.cur
	if how != "stmt" {
		s.sync()
	}
	if g.killed {
		runtime.Goexit()
	}
	s.fireDue()
	if s.steps > s.cfg.MaxSteps {
		s.end("steps")
	} else if s.cfg.Horizon > 0 && s.now > s.cfg.Horizon {
		s.end("horizon")
	}
	if s.ended {
		<-g.wake
		runtime.Goexit()
	}
	pre := false
	if how == "stmt" {
		if (s.cfg.Gap > 0 && s.gapLeft <= 0) || yl <= -bigChunk {
			pre = true
		}
		s.steps++
		if s.steps%int64(bigChunk) == 0 {
			pre = true
		}
	}
	if how == "gosched" {
		pre = true
	}
	if s.cfg.Stall > 0 && (pre || how != "stmt") && s.stall(g) {
		return
	}
	if !pre && s.cfg.Strategy == 2 && len(s.runq) > 0 {
		for _, x := range s.runq {
			if x.prio > g.prio {
				pre = true
			}
		}
		if pre {
			s.preempt(g, how)
			return
		}
	}
	if !pre || len(s.runq) == 0 {
		s.refill()
		return
	}
	if s.cfg.Strategy == 2 {
		s.prioLow--
		g.prio = s.prioLow
	}
	s.preempt(g, how)
}

// Goroutines are stalled for at most stallBurst, and stallShare of the time
// after that.
const stallBurst, stallShare = 40_000_000, 50

// stall keeps the current goroutine off the processor for a while, as an
// operating system does.
func (s *Sim) stall(g *G) bool {
	if g.proc == s.rootP || g.proc.NoStall {
		return false
	}
	if s.choose(s.cfg.StallOdds) != 0 {
		return false
	}
	left := stallBurst + s.now/stallShare - s.stalled
	if left > stallBurst {
		s.stalled += left - stallBurst
		left = stallBurst
	}
	d := 1 + int64(s.choose(int(s.cfg.Stall)))
	if d > left {
		return false
	}
	s.stalled += d
	s.stats.Faults["goroutine_stall"]++
	if s.cfg.Trace {
		s.tracef("FAULT goroutine_stall g%d %dns", g.id, d)
	}
	s.after(d, func() { s.ready(g) })
	s.park("stalled")
	return true
}

func (s *Sim) preempt(g *G, how string) {
	g.why = "runnable"
	s.ready(g)
	n := s.pick(how)
	if n == nil {
		<-g.wake
		runtime.Goexit()
	}
	if n == g {
		g.why = ""
		s.refill()
		return
	}
	s.switchTo(n, how)
	n.wake <- struct{}{}
	<-g.wake
	if g.killed {
		runtime.Goexit()
	}
	g.why = ""
}

// park blocks the current goroutine until something makes it ready again.
func (s *Sim) park(why string) {
	g := s.cur
	g.why = why
	g.site = lastSite
	s.sync()
	n := s.pick(why)
	if n == nil {
		<-g.wake
		runtime.Goexit()
	}
	if n != g {
		s.switchTo(n, why)
		n.wake <- struct{}{}
		<-g.wake
		if g.killed {
			runtime.Goexit()
		}
	} else {
		s.refill()
	}
	g.why = ""
}

func (s *Sim) end(why string) {
	if s.ended {
		return
	}
	s.ended = true
	s.endWhy = why
	close(s.done)
}

// enter is called at the start of every primitive operation.
func enter() *Sim {
	s := S
	if s == nil {
		return nil
	}
	if s.cur.killed {
		runtime.Goexit()
	}
	return s
}

// leave-type primitives (unlock, close, ...) must not unwind again.
func quiet() (*Sim, bool) {
	s := S
	if s == nil {
		return nil, true
	}
	return s, !s.cur.killed
}

// Gosched is a voluntary yield.
func Gosched() {
	s := enter()
	if s == nil {
		return
	}
	s.yield("gosched")
}

// End finishes the run from inside.
func End() {
	s := enter()
	g := s.cur
	s.sync()
	if g == s.evG {
		s.end("done")
		return
	}
	s.end("done")
	<-g.wake
	runtime.Goexit()
}

// Go starts a simulated goroutine in the current process.
func Go(fn func()) {
	s := enter()
	if s == nil {
		panic("simrt: go statement outside of a simulation")
	}
	pc, _, _, _ := runtime.Caller(1)
	name := "go"
	if f := runtime.FuncForPC(pc); f != nil {
		name = f.Name()
		if i := strings.LastIndexByte(name, '/'); i >= 0 {
			name = name[i+1:]
		}
	}
	s.newG(s.cur.proc, name, fn)
	s.yield("go")
}

// Spawn starts fn as the first goroutine of a new simulated process.
func Spawn(name string, args []string, fn func()) *Proc {
	s := enter()
	p := &Proc{Name: name, Args: args}
	s.newG(p, name, func() {
		fn()
		ExitProc(0, "main returned")
	})
	return p
}

// Cur returns the current process.
func Cur() *Proc {
	if S == nil {
		return nil
	}
	return S.cur.proc
}

func (p *Proc) OnExit(f func()) { p.onExit = append(p.onExit, f) }

// ExitProc ends the current simulated process at once.
func ExitProc(code int, msg string) {
	s := enter()
	if s == nil {
		panic("simrt: process exit outside of a simulation: " + msg)
	}
	s.exit(s.cur.proc, code, msg)
	if s.cur.killed {
		s.selfKill = s.cur
		runtime.Goexit()
	}
}

// MaxAlloc is the largest slice a simulated process has the memory for.
const MaxAlloc = 1 << 30

// AllocN is called with the number of elements of a slice to be made.
func AllocN[N ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n N, size uint64) N {
	if S == nil || n <= 0 || uint64(n) <= MaxAlloc/size {
		return n
	}
	if uint64(n) > (1<<47)/size {
		return n // makeslice panics
	}
	s := enter()
	s.stats.Probes["allocation_failed"]++
	s.cur.proc.Stack = string(debug.Stack())
	s.cur.proc.OOM = true
	ExitProc(2, "fatal error: runtime: out of memory: a single allocation of more than 1 GiB")
	return 0
}

// KillProc ends another simulated process at once (a crash, kill -9).
func KillProc(p *Proc, msg string) {
	s := enter()
	if p.Exited {
		return
	}
	s.exit(p, 137, msg)
}

func (s *Sim) exit(p *Proc, code int, msg string) {
	if p == s.rootP {
		panic("simrt: the world process cannot exit: " + msg)
	}
	if p.Exited {
		return
	}
	s.sync()
	p.Exited = true
	p.ExitCode = code
	p.ExitMsg = msg
	p.ExitTime = s.now
	s.tracef("process %s exits %d: %s", p.Name, code, msg)
	me := s.cur
	for i := 0; i < len(s.gs); i++ {
		g := s.gs[i]
		if g.proc == p && !g.dead && g != me {
			g.killed = true
			s.cur = g
			g.wake <- struct{}{}
			<-g.exited
		}
	}
	s.cur = me
	if me.proc == p {
		me.killed = true
	}
	for _, f := range p.onExit {
		f()
	}
	p.onExit = nil
	s.refill()
}

func (s *Sim) crash(g *G, r any, stack string) {
	if g.proc == s.rootP {
		// a bug of the harness itself: fail loudly
		panic(fmt.Sprintf("simrt: panic in the simulated world: %v\n%s", r, stack))
	}
	g.proc.Crash = true
	g.proc.Stack = stack
	msg := fmt.Sprint(r)
	s.exit(g.proc, 2, "panic: "+msg)
	s.selfKill = g
}

// ---- clock and events ----

func (s *Sim) pushEv(e *event) {
	e.seq = s.evSeq
	s.evSeq++
	s.evs = append(s.evs, e)
	i := len(s.evs) - 1
	for i > 0 {
		p := (i - 1) / 2
		if !evLess(s.evs[i], s.evs[p]) {
			break
		}
		s.evs[i], s.evs[p] = s.evs[p], s.evs[i]
		i = p
	}
}

func evLess(a, b *event) bool {
	return a.at < b.at || a.at == b.at && a.seq < b.seq
}

func (s *Sim) popEv() *event {
	e := s.evs[0]
	n := len(s.evs) - 1
	s.evs[0] = s.evs[n]
	s.evs[n] = nil
	s.evs = s.evs[:n]
	i := 0
	for {
		l, r, m := 2*i+1, 2*i+2, i
		if l < n && evLess(s.evs[l], s.evs[m]) {
			m = l
		}
		if r < n && evLess(s.evs[r], s.evs[m]) {
			m = r
		}
		if m == i {
			break
		}
		s.evs[i], s.evs[m] = s.evs[m], s.evs[i]
		i = m
	}
	return e
}

// at schedules fn (harness code that must not block) d ns from now.
func (s *Sim) after(d int64, fn func()) *event {
	s.sync()
	if d < 0 {
		d = 0
	}
	e := &event{at: s.now + d, fn: fn}
	s.pushEv(e)
	if s.cfg.YieldCost > 0 && s.cur != s.evG {
		// the new event may be due before the current chunk ends
		s.refill()
	}
	return e
}

// After schedules a non-blocking callback.
func After(d int64, fn func()) (cancel func()) {
	s := enter()
	e := s.after(d, fn)
	return func() { e.off = true }
}

// NowNS returns the simulated time in ns since the start of the run, without
// disturbing it.
func NowNS() int64 {
	if S == nil {
		return 0
	}
	S.sync()
	return S.now
}

// ClockRead is what the program under test sees; reading takes time.
func ClockRead() int64 {
	s := S
	if s == nil {
		return 0
	}
	s.sync()
	if s.cfg.NowJitter > 0 && !s.cur.killed && s.cur.proc != s.rootP {
		s.now += int64(s.choose(int(s.cfg.NowJitter) + 1))
	}
	return s.now
}

// Sleep blocks the current goroutine for d ns of simulated time.
func Sleep(d int64) {
	s := enter()
	if s == nil {
		return
	}
	if d <= 0 {
		s.yield("sleep0")
		return
	}
	g := s.cur
	s.after(d, func() { s.ready(g) })
	s.park("sleep")
}

// ---- trace, faults, probes ----

func (s *Sim) tracef(f string, a ...any) {
	if s.cfg.Trace && len(s.trace) < 200000 {
		s.trace = append(s.trace, fmt.Sprintf("%12.6fms ", float64(s.now)/1e6)+fmt.Sprintf(f, a...))
	}
}

// Tracef adds a line to the trace of the run (only kept when tracing).
func Tracef(f string, a ...any) {
	if S != nil && S.cfg.Trace {
		S.sync()
		S.tracef(f, a...)
	}
}

// Fault counts an injected fault that actually happened.
func Fault(kind string) {
	if S != nil {
		S.stats.Faults[kind]++
		S.tracef("FAULT %s", kind)
	}
}

// Probe counts that a rare condition was reached.
func Probe(kind string) {
	if S != nil {
		S.stats.Probes[kind]++
	}
}

// ProcGs lists what the goroutines of p wait for.
func ProcGs(p *Proc) []string {
	var out []string
	if S == nil {
		return nil
	}
	for _, g := range S.gs {
		if g.proc == p && !g.dead {
			out = append(out, fmt.Sprintf("g%d %s: %s at %s", g.id, g.name, g.why, SiteName(g.site)))
		}
	}
	sort.Strings(out)
	return out
}

// GoIn starts a goroutine in process p from an event callback.
func GoIn(p *Proc, name string, fn func()) {
	if p.Exited {
		return
	}
	S.newG(p, name, fn)
}

// FaultCount is how often a fault was injected in this run.
func FaultCount(name string) int64 { return S.stats.Faults[name] }
