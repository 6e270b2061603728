package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/iomz/go-llrp"
	"github.com/iomz/gosstrak/filtering"
	"github.com/iomz/gosstrak/verif/simrt"
)

const (
	ms  = int64(1_000_000)
	sec = 1000 * ms
	// delta is how long the middleware may take to react to something when
	// nothing is in its way: scheduling and the simulated cost of statements
	delta = 80 * ms
)

// Op is one step of a scenario.
type Op struct {
	K string `json:"k"`
	T int64  `json:"t,omitempty"` // wait before, ns
	A int    `json:"a,omitempty"`
	B int    `json:"b,omitempty"`
	N int64  `json:"n,omitempty"`
	S string `json:"s,omitempty"`
	L []int  `json:"l,omitempty"`
	D []byte `json:"d,omitempty"`
}

// Scenario fixes a run completely.
type Scenario struct {
	Kind    string            `json:"kind"`
	Seed    uint64            `json:"seed"`
	Sched   simrt.Config      `json:"sched"`
	Subs    []Sub             `json:"subs"`
	Tags    []Tag             `json:"tags"`
	Ops     []Op              `json:"ops"`
	Clients []Op              `json:"clients,omitempty"`
	Infl    []Op              `json:"infl,omitempty"`
	P       map[string]int64  `json:"p"`
	S       map[string]string `json:"s,omitempty"`
}

func (sc *Scenario) clone() *Scenario {
	b, err := json.Marshal(sc)
	if err != nil {
		panic(err)
	}
	x := &Scenario{}
	if err := json.Unmarshal(b, x); err != nil {
		panic(err)
	}
	return x
}

// Violation of a property observed in a run.
type Violation struct {
	Props []string `json:"props"`
	Sig   string   `json:"sig"`
	Msg   string   `json:"msg"`
	At    int64    `json:"at"`
}

// anyProp (for mutation campaigns) makes every violation count for the property that is run.
var anyProp = os.Getenv("VERIF_ANY") != ""

func (v Violation) has(p string) bool {
	if anyProp {
		return true
	}
	for _, x := range v.Props {
		if x == p {
			return true
		}
	}
	return false
}

// Call is one search of one engine instance.
type Call struct {
	Eng     string
	Inst    int
	Key     string
	T0, T1  int64
	Done    bool
	Matched bool
	Err     bool
	ans     answer
	g       simrt.Waiter // the goroutine
}

type world struct {
	sc     *Scenario
	viol   []Violation
	seen   map[string]bool
	calls  []*Call
	builds []buildEv
	begun  map[string]bool // whose construction has begun
	truths map[string][]truth
	insts  map[string]int
	svc    map[string]int64
	onCall func(c *Call, re *llrp.ReadEvent)
	stop   bool
	fcBase int64
	counts map[string]int64
}

type buildEv struct {
	name       string
	start, end int64
}

func newWorld(sc *Scenario) *world {
	return &world{sc: sc, seen: map[string]bool{}, insts: map[string]int{}, svc: map[string]int64{}, counts: map[string]int64{}, truths: map[string][]truth{}}
}

// fail records a violation; one per signature and run.
func (w *world) fail(props, sig, f string, a ...any) {
	if w.seen[props+sig] {
		return
	}
	w.seen[props+sig] = true
	v := Violation{Props: strings.Fields(props), Sig: sig, Msg: fmt.Sprintf(f, a...)}
	if simrt.S != nil {
		v.At = simrt.NowNS()
		simrt.Tracef("VIOLATION %s %s: %s", props, sig, v.Msg)
	}
	w.viol = append(w.viol, v)
}

func keyOf(pc, id []byte) string { return fmt.Sprintf("%x/%x", pc, id) }

// markedEngine stands between the factory and a real engine: it records every
// search, takes the configured time, and marks the answer with its name.
type markedEngine struct {
	filtering.Engine
	w    *world
	name string
	inst int
}

const markURI = "marker://"

type markErr struct {
	name string
	err  error
}

func (e *markErr) Error() string { return "engine=" + e.name + "| " + e.err.Error() }
func (e *markErr) Unwrap() error { return e.err }

func (m *markedEngine) Search(re llrp.ReadEvent) (string, []string, error) {
	w := m.w
	c := &Call{Eng: m.name, Inst: m.inst, Key: keyOf(re.PC, re.ID), T0: simrt.NowNS(), g: simrt.CurWaiter()}
	w.calls = append(w.calls, c)
	if w.onCall != nil {
		w.onCall(c, &re)
	}
	if d := w.svc[m.name]; d > 0 {
		simrt.Sleep(d)
	}
	pi, uris, err := m.Engine.Search(re)
	c.T1 = simrt.NowNS()
	c.Done = true
	c.Matched = len(uris) != 0
	c.Err = err != nil
	c.ans = answer{pi, setOf(uris), err != nil}
	if len(uris) != 0 {
		uris = append(append([]string(nil), uris...), markURI+m.name)
	}
	if err != nil {
		err = &markErr{m.name, err}
	}
	return pi, uris, err
}

// unmark takes the mark off an answer.
func unmark(uris []string, err error) (real []string, eng string) {
	for _, u := range uris {
		if strings.HasPrefix(u, markURI) {
			eng = u[len(markURI):]
		} else {
			real = append(real, u)
		}
	}
	var me *markErr
	if eng == "" && errors.As(err, &me) {
		eng = me.name
	} else if eng == "" && err != nil {
		s := err.Error()
		if i := strings.Index(s, "engine="); i >= 0 {
			if j := strings.Index(s[i:], "|"); j > 0 {
				eng = s[i+7 : i+j]
			}
		}
	}
	return
}

func engineNames() []string {
	var out []string
	for n := range filtering.AvailableEngines {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

const never = int64(1) << 60

// installEngines wraps every available engine's constructor.
func (w *world) installEngines() {
	for _, n := range engineNames() {
		name, ctor := n, filtering.AvailableEngines[n]
		w.svc[name] = w.sc.P["svc."+name]
		filtering.AvailableEngines[name] = func(sub filtering.Subscriptions) filtering.Engine {
			t0 := simrt.NowNS()
			if w.begun == nil {
				w.begun = map[string]bool{}
			}
			w.begun[name] = true
			simrt.Probe("build:" + name)
			if d := w.sc.P["build."+name]; d < 0 {
				simrt.Probe("build_never_ends")
				simrt.Sleep(never)
			} else if d > 0 {
				simrt.Sleep(d)
			}
			e := ctor(sub)
			if d := w.sc.P["build2."+name]; d > 0 {
				simrt.Sleep(d)
			}
			w.insts[name]++
			w.builds = append(w.builds, buildEv{name, t0, simrt.NowNS()})
			simrt.Tracef("engine %s built", name)
			return &markedEngine{Engine: e, w: w, name: name, inst: w.insts[name]}
		}
	}
}

func (w *world) built(name string) int64 {
	for _, b := range w.builds {
		if b.name == name {
			return b.end
		}
	}
	return never
}

// judgeBegun wants the construction of every engine to have begun.
func (w *world) judgeBegun(props string) {
	var miss []string
	for _, n := range engineNames() {
		if !w.begun[n] {
			miss = append(miss, n)
		}
	}
	if len(w.begun) == 0 {
		w.fail(props, "no-engine", "no engine is ever built")
	} else if len(miss) > 0 {
		w.fail("C03 C04", "engine-missing", "no %s is ever built", strings.Join(miss, " and no "))
	}
}

func (w *world) firstBuilt() int64 {
	t := never
	for _, b := range w.builds {
		if b.end < t {
			t = b.end
		}
	}
	return t
}

// resetAll gives every instrumented package fresh package-level state.
func resetAll() {
	for _, r := range resets {
		r()
	}
}

var bg = context.Background()

// proc runs f as a simulated process and waits for its end or the deadline.
func (w *world) proc(name string, limit int64, f func()) *simrt.Proc {
	p := simrt.Spawn(name, []string{name}, f)
	end := simrt.NowNS() + limit
	for !p.Exited && simrt.NowNS() < end {
		simrt.Sleep(5 * ms)
	}
	return p
}

// swarm picks the scheduling regime of a run.
func swarm(r *simrt.Rand, seed uint64) simrt.Config {
	c := simrt.Config{Seed: seed}
	c.Strategy = r.Intn(3)
	c.Gap = []int{0, 3, 10, 50, 300}[r.Intn(5)]
	c.YieldCost = []int64{20, 200, 1000}[r.Intn(3)]
	c.NowJitter = []int64{0, 0, 1000}[r.Intn(3)]
	c.Gran = []int64{0, 0, 0, 0, 0, 0, 0, 0, 100, 1000, ms, 16 * ms}[r.Intn(12)]
	if r.Bool(0.15) {
		for k := 1 + r.Intn(3); k > 0; k-- {
			by := []int64{ms, 300 * ms, 5 * sec, 3600 * sec, 40_000_000 * sec}[r.Intn(5)]
			by = 1 + by/2 + int64(r.Uint64()%uint64(by))
			if r.Bool(0.5) {
				by = -by
			}
			c.Jumps = append(c.Jumps, simrt.Jump{At: int64(r.Intn(12_000)) * ms, By: by})
		}
	}
	if c.Gap > 0 && r.Bool(0.4) {
		c.Stall = []int64{20_000, 300_000, 3 * ms, 20 * ms}[r.Intn(4)]
		c.StallOdds = []int{2, 8, 50, 400}[r.Intn(4)]
	}
	c.MaxSteps = 30_000_000
	return c
}

type kind struct {
	props string
	gen   func(r *simrt.Rand, prop string) *Scenario
	run   func(w *world)
}

var scenarioKinds map[string]kind

func (w *world) allProps() string { return scenarioKinds[w.sc.Kind].props }

// RunOut is what one simulated run gave.
type RunOut struct {
	Viol []Violation
	Res  *simrt.Result
}

func runScenario(sc *Scenario, trace bool) *RunOut {
	k, ok := scenarioKinds[sc.Kind]
	if !ok {
		panic("unknown scenario kind " + sc.Kind)
	}
	resetAll()
	w := newWorld(sc)
	cfg := sc.Sched
	cfg.Trace = trace
	done := false
	res := simrt.Run(cfg, func() {
		k.run(w)
		done = true
		simrt.End()
	})
	for _, j := range cfg.Jumps {
		if j.At < res.Stats.SimTime {
			res.Stats.Faults["clock_jump"]++
		}
	}
	if cfg.Gran > 1 {
		res.Stats.Faults["clock_coarse"]++
	}
	if !done {
		w.harnessStuck(res)
	}
	return &RunOut{Viol: w.viol, Res: res}
}

// harnessStuck is called when the scenario's own driver did not come to its end.
func (w *world) harnessStuck(res *simrt.Result) {
	if res.End == "steps" {
		w.fail(w.allProps(), "spin", "the run does not end: some goroutine of the middleware keeps running without end")
		return
	}
	panic(fmt.Sprintf("scenario driver of %s (seed %d) did not finish: %s\n%s", w.sc.Kind, w.sc.Seed, res.End, strings.Join(res.Blocked, "\n")))
}
