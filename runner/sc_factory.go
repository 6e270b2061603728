package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/iomz/go-llrp"
	"github.com/iomz/gosstrak/filtering"
	"github.com/iomz/gosstrak/verif/simrt"
)

// factory: a real EngineFactory with its generators and engines, driven the way
// the filtering core drives it: one goroutine reads, one drains the management
// channel.
//
// Ops: "r" waits T and reads tag A; "svc" sets the time engine S takes to N;
// "w" waits T. Params: interval, build.<Engine>, build2.<Engine>,
// svc.<Engine>, mc (capacity), lag (of the collector per message).

var prio = map[string]int{"LegacyEngine": 0, "List": 1, "SplayTree": 2, "PatriciaTrie": 3}

func genFactory(r *simrt.Rand, prop string) *Scenario {
	g := newGen(r)
	o := workOpt{tags: 3 + r.Intn(8), subs: 1 + r.Intn(6)}
	if r.Bool(0.3) {
		o.dup = 0.3
	}
	if prop == "C13" {
		o.damaged = 0.4
	}
	if prop == "C14" {
		o.bad = 0.4
	}
	if r.Bool(0.1) {
		o.subs = 0
	}
	sc := &Scenario{Kind: "factory", P: map[string]int64{}}
	sc.Subs, sc.Tags = g.work(o)
	iv := int64(1 + r.Intn(2))
	sc.P["interval"] = iv
	sc.P["mc"] = []int64{128, 128, 1, 0}[r.Intn(4)]
	names := []string{"LegacyEngine", "List", "PatriciaTrie", "SplayTree"}
	for _, n := range names {
		var b int64
		switch r.Intn(7) {
		case 6: // just when an interval ends
			b = int64(1+r.Intn(4))*sec + int64(r.Intn(200))*1000 - 100_000
		case 0:
		case 1:
			b = int64(r.Intn(5)) * ms
		case 2:
			b = int64(r.Intn(1000)) * ms
		case 3, 4:
			b = int64(r.Intn(4000)) * ms
		case 5:
			b = 1500 * ms
		}
		sc.P["build."+n] = b
		if r.Bool(0.06) {
			sc.P["build."+n] = -1
		}
		if r.Bool(0.2) {
			sc.P["build2."+n] = int64(r.Intn(800)) * ms
		}
		sc.P["svc."+n] = svcTime(r)
	}
	if sc.P["build.LegacyEngine"] < 0 && sc.P["build.List"] < 0 && sc.P["build.PatriciaTrie"] < 0 && sc.P["build.SplayTree"] < 0 {
		sc.P["build.List"] = 0
	}
	if r.Bool(0.2) {
		sc.P["lag"] = int64(r.Intn(4)) * ms
	}
	// one in three runs has an abrupt schedule of ticks and reads
	n := 10 + r.Intn(60)
	mode := r.Intn(3)
	for i := 0; i < n; i++ {
		switch {
		case r.Bool(0.06):
			sc.Ops = append(sc.Ops, Op{K: "svc", S: names[r.Intn(4)], N: svcTime(r)})
		case r.Bool(0.06):
			sc.Ops = append(sc.Ops, Op{K: "w", T: int64(r.Intn(2500)) * ms})
		case r.Bool(0.06):
			// reads without a pause around the end of an interval
			sc.Ops = append(sc.Ops, Op{K: "tick", N: int64(r.Intn(100)) * 1000, A: r.Intn(2)})
			e := r.Intn(len(sc.Tags))
			for k := 5 + r.Intn(15); k > 0; k-- {
				sc.Ops = append(sc.Ops, Op{K: "r", A: (e + k) % len(sc.Tags)})
			}
		}
		var gap int64
		switch mode {
		case 0:
			gap = int64(r.Intn(3)) * ms
		case 1:
			gap = int64(r.Intn(300)) * ms
		case 2:
			gap = int64(r.Intn(40)) * ms
			if r.Bool(0.2) {
				gap = 0
			}
		}
		sc.Ops = append(sc.Ops, Op{K: "r", T: gap, A: r.Intn(len(sc.Tags))})
	}
	if r.Bool(0.02) {
		// more reads than usual in an interval
		for _, n := range names {
			sc.Ops = append(sc.Ops, Op{K: "svc", S: n, N: int64(r.Intn(20)) * 1000})
		}
		op := Op{K: "mass", N: int64(300 + r.Intn(3000)), A: r.Intn(len(sc.Tags))}
		if r.Bool(0.01) {
			op.N = 70000
		}
		sc.Ops = append(sc.Ops, op)
	}
	if mode == 0 && r.Bool(0.7) {
		// a dense run of reads over interval boundaries
		e := r.Intn(len(sc.Tags))
		for i := 0; i < 60; i++ {
			sc.Ops = append(sc.Ops, Op{K: "r", T: int64(r.Intn(40)) * ms, A: (e + i) % len(sc.Tags)})
		}
	}
	return sc
}

func svcTime(r *simrt.Rand) int64 {
	switch r.Intn(5) {
	case 0:
		return 0
	case 1:
		return int64(r.Intn(2000)) // below and around a microsecond
	case 2:
		return int64(r.Intn(200)) * 1000
	case 3:
		return int64(r.Intn(5)) * ms
	}
	return int64(1+r.Intn(20)) * ms
}

type mgmt struct {
	at  int64
	msg filtering.ManagementMessage
}

type readRec struct {
	op     int
	tag    int
	s, e   int64
	ans    answer
	eng    string
	c0, c1 int // range of w.calls
	done   bool
}

func runFactory(w *world) {
	sc := w.sc
	iv := sc.P["interval"] * sec
	if iv <= 0 {
		iv = sec
	}
	w.installEngines()
	var log []mgmt
	var reads []*readRec
	var tGen, tRun, activeAt int64
	var inactive bool
	activeAt = never
	driverDone := false
	var tally int64 // when everything has settled
	cleanEnd := false
	lastRead := (*readRec)(nil)
	stopCollect := false
	p := simrt.Spawn("harness", []string{"harness"}, func() {
		mc := make(chan filtering.ManagementMessage, int(sc.P["mc"]))
		simrt.Go(func() {
			for {
				m, ok := simrt.Recv2(mc)
				if !ok {
					return
				}
				if !stopCollect {
					log = append(log, mgmt{simrt.NowNS(), m})
					simrt.Probe(fmt.Sprintf("mgmt:%d", m.Type))
				}
				if sc.P["lag"] > 0 {
					simrt.Sleep(sc.P["lag"])
				}
			}
		})
		tGen = simrt.NowNS()
		ef := filtering.NewEngineFactory(filtering.Subscriptions(subsMap(sc.Subs)), int(sc.P["interval"]), mc)
		simrt.Sleep(350 * ms)
		tRun = simrt.NowNS()
		simrt.Go(ef.Run)
		simrt.Go(func() {
			for {
				a := ef.IsActive()
				if a && activeAt == never {
					activeAt = simrt.NowNS()
				}
				if !a && activeAt != never {
					inactive = true
				}
				simrt.Sleep(20 * ms)
			}
		})
		for activeAt == never {
			if simrt.NowNS() > tRun+60*sec {
				break
			}
			simrt.Sleep(10 * ms)
		}
		if activeAt == never {
			driverDone = true
			return
		}
		read := func(i, tag int) *readRec {
			t := &sc.Tags[tag]
			rec := &readRec{op: i, tag: tag, s: simrt.NowNS(), c0: len(w.calls)}
			reads = append(reads, rec)
			pi, uris, err := ef.Search(llrp.ReadEvent{ID: append([]byte{}, t.ID...), PC: append([]byte{}, t.PC...)})
			rec.e = simrt.NowNS()
			rec.c1 = len(w.calls)
			rec.done = true
			real, eng := unmark(uris, err)
			rec.ans = answer{pi, setOf(real), err != nil}
			rec.eng = eng
			return rec
		}
		for i, op := range sc.Ops {
			if op.T > 0 {
				simrt.Sleep(op.T)
			}
			switch op.K {
			case "svc":
				w.svc[op.S] = op.N
			case "tick":
				from := tRun
				if op.A == 1 {
					from = tGen
				}
				if d := iv - (simrt.NowNS()-from)%iv - op.N; d > 0 {
					simrt.Sleep(d)
				}
			case "r":
				read(i, op.A)
			case "mass":
				for k := 0; k < int(op.N); k++ {
					read(i, (op.A+k)%len(sc.Tags))
				}
			}
		}
		// let every finite build end and two quiet intervals pass
		q := simrt.NowNS()
		for _, n := range engineNames() {
			if b := sc.P["build."+n]; b >= 0 {
				if t := tRun + b + sc.P["build2."+n] + 200*ms; t > q {
					q = t
				}
			}
		}
		k := (q-tGen)/iv + 3
		tally = tGen + k*iv + iv/2 + 100*ms
		simrt.Sleep(tally - simrt.NowNS())
		cleanEnd = true
		if len(sc.Tags) > 0 {
			lastRead = read(-1, 0)
		}
		simrt.Sleep(20 * ms)
		stopCollect = true
		driverDone = true
		simrt.Sleep(never)
	})
	limit := simrt.NowNS() + 600*sec
	for !driverDone && !p.Exited && simrt.NowNS() < limit {
		simrt.Sleep(50 * ms)
	}
	// ---- judgement ----
	for _, r := range reads {
		if r.done {
			w.judge(r.eng, &sc.Tags[r.tag], r.ans, nil, fmt.Sprintf("read %d at %s", r.op, tm(r.s)))
		}
	}
	if p.Exited && p.ExitCode != 0 {
		props := "C01 C03 C04 C05 C06 C13"
		if w.hasBad("") {
			props += " C14"
		}
		w.fail(props, "crash:"+crashSite(p), "the filtering core ended by itself at %s: %s%s", tm(p.ExitTime), p.ExitMsg, shortStack(p.Stack))
		return
	}
	if (!p.Exited || p.ExitCode == 0) && simrt.NowNS() > tRun+15*sec {
		w.judgeBegun("C03 C04 C01")
	}
	if w.firstBuilt() == never {
		return
	}
	if activeAt == never || activeAt > max64(w.firstBuilt(), tRun)+sec {
		w.fail("C03", "late-active", "the first engine was built at %s but the factory was active only at %s", tm(w.firstBuilt()), tm(activeAt))
	}
	if inactive {
		w.fail("C03", "inactive", "the factory became inactive again")
	}
	if !driverDone {
		var last *readRec
		if n := len(reads); n > 0 {
			last = reads[n-1]
		}
		if last != nil && !last.done {
			w.fail("C01 C03 C05 C06", "read-hangs", "read %d, started at %s, is never answered; %s", last.op, tm(last.s), strings.Join(simrt.ProcGs(p), "; "))
		} else {
			w.fail("C03", "driver-hangs", "the filtering core blocks its caller: %s", strings.Join(simrt.ProcGs(p), "; "))
		}
		return
	}
	if !cleanEnd {
		return
	}
	for _, r := range reads {
		var bound int64 = sec
		for i := r.c0; i < r.c1; i++ {
			bound += w.calls[i].T1 - w.calls[i].T0
		}
		if r.e-r.s > bound {
			w.fail("C03", "slow-read", "read %d took %s although the engines took only %s", r.op, tm(r.e-r.s), tm(bound-sec))
		}
	}
	w.judgeSearches(reads)
	// what the generators measure is enclosed by the read, less the other
	// engines if one is searched after the other
	outer := map[*Call]int64{}
	parallel := false
	for _, r := range reads {
		for i := r.c0; i < r.c1; i++ {
			if w.calls[i].g != w.calls[r.c0].g {
				parallel = true
			}
		}
	}
	for _, r := range reads {
		for i := r.c0; i < r.c1; i++ {
			c := w.calls[i]
			outer[c] = r.e - r.s
			for j := r.c0; j < r.c1; j++ {
				if j != i && !parallel {
					outer[c] -= w.calls[j].T1 - w.calls[j].T0
				}
			}
		}
	}
	w.judgeStats(log, tGen, iv, tally, lastRead, outer)
	w.judgeServing(log, reads, lastRead, tRun, iv)
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func tm(ns int64) string {
	if ns >= never {
		return "never"
	}
	return fmt.Sprintf("%d.%06ds", ns/sec, ns%sec/1000)
}

// C06: each read is searched once by the engine that answers, at most once by
// the others, exactly once by every engine that is deployed.
func (w *world) judgeSearches(reads []*readRec) {
	next := 0
	for _, r := range reads {
		if r.c0 != next {
			w.fail("C06", "spurious", "engine %s searched %s although no read was in progress", w.calls[next].Eng, w.calls[next].Key)
		}
		next = r.c1
		t := &w.sc.Tags[r.tag]
		n := map[string]int{}
		for _, c := range w.calls[r.c0:r.c1] {
			if c.Key != keyOf(t.PC, t.ID) {
				w.fail("C06", "wrongtag", "during read %d of %s engine %s searched %s", r.op, t, c.Eng, c.Key)
			}
			n[c.Eng]++
		}
		for _, e := range engineNames() {
			b := w.built(e)
			if n[e] > 1 {
				w.fail("C06", "twice", "read %d was searched %d times by %s (answered by %q)", r.op, n[e], e, r.eng)
			}
			if n[e] == 0 && b+delta < r.s {
				if r.eng == e {
					continue
				}
				w.fail("C06", "unmeasured", "read %d at %s was not searched by %s, deployed since %s", r.op, tm(r.s), e, tm(b))
			}
			if n[e] > 0 && b > r.e {
				w.fail("C06", "unbuilt", "read %d was searched by %s, which is still being built", r.op, e)
			}
		}
		if r.eng != "" && n[r.eng] != 1 {
			w.fail("C06", "answerer", "read %d is answered by %s, which searched it %d times", r.op, r.eng, n[r.eng])
		}
		total := 0
		for _, k := range n {
			total += k
		}
		if total == 0 {
			w.fail("C06", "nobody", "read %d at %s was searched by no engine", r.op, tm(r.s))
		}
	}
}

// C05: accounting.
func (w *world) judgeStats(log []mgmt, tGen, iv, tally int64, last *readRec, outerOf map[*Call]int64) {
	gran := w.sc.Sched.Gran // what a measured duration can be off by
	calls := w.calls
	if last != nil {
		calls = calls[:last.c0]
	}
	type acc struct{ ev, mt int64 }
	for _, e := range engineNames() {
		var real acc
		var mine []*Call
		for _, c := range calls {
			if c.Eng == e {
				real.ev++
				if c.Matched {
					real.mt++
				}
				mine = append(mine, c)
			}
		}
		var rep acc
		var reports int64
		var prevEv, prevAt int64
		prevN := int64(-1)
		_ = prevAt
		var inner, outer int64 // of the last reported interval
		thr := true
		for _, m := range log {
			if m.msg.EngineName != e || m.at > tally {
				continue
			}
			switch m.msg.Type {
			case filtering.TrafficStatus:
				if prevN > 0 && !thr && inner >= 1000+prevN*(gran+2) {
					w.fail("C05", "nothroughput", "%s reported %d events in an interval but no throughput", e, prevN)
				}
				reports++
				n, k := m.msg.EventCount, m.msg.MatchedCount
				if k > n {
					w.fail("C05", "excess", "%s reported %d matches of %d events at %s", e, k, n, tm(m.at))
				}
				if n < 0 || k < 0 {
					w.fail("C05", "negative", "%s reported %d events, %d matches", e, n, k)
				}
				prevEv = rep.ev
				rep.ev += n
				rep.mt += k
				if rep.ev > real.ev {
					w.fail("C05", "double", "%s has reported %d events by %s but searched only %d reads", e, rep.ev, tm(m.at), real.ev)
					return
				}
				inner, outer = 0, 0
				var km int64
				for _, c := range mine[prevEv:rep.ev] {
					inner += c.T1 - c.T0
					outer += outerOf[c]
					if c.Matched {
						km++
					}
				}
				if km != k {
					w.fail("C05", "matchcount", "%s reported %d matches for an interval of %d events, of which %d matched", e, k, n, km)
				}
				if n > 0 {
					simrt.Probe("busy_interval")
					t := truth{at: m.at, hi: math.Inf(1)}
					if d := inner - (1000+gran)*n; d > 0 {
						t.hi = float64(n) * 1000 / float64(d)
						t.lo = float64(n) * 1000 / float64(outer+1+gran*n)
					}
					w.truths[e] = append(w.truths[e], t)
				}
				prevN = n
				prevAt = m.at
				thr = n == 0
			case filtering.EngineStatus:
				x := m.msg.CurrentThroughput
				if math.IsInf(x, 0) || math.IsNaN(x) || x <= 0 {
					w.fail("C05", "infinite", "%s reported a throughput of %v at %s", e, x, tm(m.at))
					break
				}
				if thr && prevN >= 0 && prevN == 0 {
					w.fail("C05", "throughput-idle", "%s reported a throughput of %v for an interval without reads", e, x)
				} else if thr {
					w.fail("C05", "throughput-twice", "%s reported two throughputs for one interval", e)
				}
				thr = true
				if prevN > 0 {
					// what the generator measures encloses what the engine took
					// and is enclosed by the read less the other engines, but
					// for a little rounding
					ev := float64(prevN)
					g := ev * float64(gran) / 1000
					lo := float64(inner)/1000*0.98 - ev*0.002 - g
					hi := float64(outer)/1000 + 0.001 + g
					got := ev / x // microseconds
					if got < lo-0.001 || got > hi {
						w.fail("C05", "throughput", "%s reported %v events/us for %v events that took %.3f us: the time it divides by is %.3f us", e, x, ev, float64(inner)/1000, got)
					}
				}
			}
		}
		if rep.ev != real.ev || rep.mt != real.mt {
			w.fail("C05", "sum", "%s searched %d reads, %d matched; its reports add up to %d and %d", e, real.ev, real.mt, rep.ev, rep.mt)
		}
		want := (tally - tGen) / iv
		if reports != want {
			w.fail("C05", "intervals", "%s reported %d intervals of %d", e, reports, want)
		}
	}
}

// truth bounds the throughput an engine really had in an interval it reported
// at a time.
type truth struct {
	at     int64
	lo, hi float64
}

// truthAt bounds the last throughput measured of an engine around t.
func (w *world) truthAt(e string, t, dl int64) (lo, hi float64) {
	lo, hi = 0, 0
	set := false
	for _, x := range w.truths[e] {
		if x.at > t+dl {
			break
		}
		if x.at < t-dl || !set {
			lo, hi, set = x.lo, x.hi, true
			if x.at >= t-dl {
				lo = 0 // or not measured yet
			}
			continue
		}
		lo, hi = math.Min(lo, x.lo), math.Max(hi, x.hi)
	}
	return
}

// C04: who serves.
func (w *world) judgeServing(log []mgmt, reads []*readRec, last *readRec, tRun, iv int64) {
	type ev struct {
		at   int64
		kind string // build or tick
		name string
	}
	var evs []ev
	end := int64(0)
	for _, r := range reads {
		if r.e > end {
			end = r.e
		}
	}
	for _, b := range w.builds {
		evs = append(evs, ev{b.end, "build", b.name})
	}
	for t := tRun + iv; t < end+iv; t += iv {
		evs = append(evs, ev{t, "tick", ""})
	}
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].at < evs[j].at })
	perfAt := func(t int64) map[string]float64 {
		m := map[string]float64{}
		for _, x := range log {
			if x.at > t {
				break
			}
			if x.msg.Type == filtering.EngineStatus {
				m[x.msg.EngineName] = x.msg.CurrentThroughput
			}
		}
		return m
	}
	apply := func(state map[string]bool, e ev) map[string]bool {
		out := map[string]bool{}
		for s := range state {
			if e.kind == "build" {
				if s == "" || prio[e.name] > prio[s] {
					out[e.name] = true
				} else {
					out[s] = true
				}
				continue
			}
			best := 0.0
			pm := perfAt(e.at)
			for _, v := range pm {
				if v > best {
					best = v
				}
			}
			if best == 0 {
				out[s] = true
				continue
			}
			for n, v := range pm {
				if v == best {
					out[n] = true
				}
			}
		}
		return out
	}
	type span struct {
		from, to int64 // the state may be in effect from..to
		st       map[string]bool
		sure     bool
	}
	lag := w.sc.P["lag"] * 12
	dl := delta + lag
	spans := []span{{0, never, map[string]bool{"": true}, true}}
	union := func(a, b map[string]bool) map[string]bool {
		o := map[string]bool{}
		for k := range a {
			o[k] = true
		}
		for k := range b {
			o[k] = true
		}
		return o
	}
	for i := 0; i < len(evs); {
		j := i + 1
		for j < len(evs) && evs[j].at-evs[j-1].at < dl {
			j++
		}
		cl := evs[i:j]
		cur := spans[len(spans)-1].st
		// every order of the events that are too close to tell apart
		mid := union(cur, nil)
		fin := map[string]bool{}
		var rec func(left []ev, st map[string]bool)
		rec = func(left []ev, st map[string]bool) {
			mid = union(mid, st)
			if len(left) == 0 {
				fin = union(fin, st)
				return
			}
			for k := range left {
				rest := append(append([]ev(nil), left[:k]...), left[k+1:]...)
				rec(rest, apply(st, left[k]))
			}
		}
		if len(cl) > 6 {
			for _, n := range engineNames() {
				fin[n] = true
			}
			mid = union(mid, fin)
		} else {
			rec(cl, cur)
		}
		spans[len(spans)-1].to = cl[0].at
		spans = append(spans, span{cl[0].at, cl[len(cl)-1].at + dl, mid, false})
		// reads inside the following unambiguous span tell which one it is
		nextAt := never
		if j < len(evs) {
			nextAt = evs[j].at
		}
		from := cl[len(cl)-1].at + dl
		if len(fin) > 1 {
			for _, r := range reads {
				if r.s > from && r.e < nextAt && r.eng != "" && fin[r.eng] {
					fin = map[string]bool{r.eng: true}
					break
				}
			}
		}
		spans = append(spans, span{from, never, fin, true})
		i = j
	}
	// adoption by what the engines really did, whatever they reported
	for i, x := range evs {
		if x.kind != "tick" || i > 0 && x.at-evs[i-1].at < dl || i+1 < len(evs) && evs[i+1].at-x.at < dl {
			continue
		}
		next := never
		if i+1 < len(evs) {
			next = evs[i+1].at
		}
		for _, r := range reads {
			if r.eng == "" || r.s <= x.at+dl || r.e >= next {
				continue
			}
			_, hi := w.truthAt(r.eng, x.at, dl)
			for _, y := range engineNames() {
				if lo, _ := w.truthAt(y, x.at, dl); lo > hi {
					w.fail("C04", "slower", "after the interval ending at %s reads are answered by %s, which made at most %v events/us when last measured; %s made at least %v", tm(x.at), r.eng, hi, y, lo)
				}
			}
			simrt.Probe("adoption_checked")
			break
		}
	}
	changes := 0
	prevEng := ""
	for _, r := range reads {
		if r.eng == "" {
			continue
		}
		ok := false
		var why []string
		for _, s := range spans {
			if s.from <= r.e && s.to >= r.s {
				if s.st[r.eng] {
					ok = true
				}
				why = append(why, fmt.Sprint(keys(s.st)))
			}
		}
		if !ok {
			w.fail("C04", "serving", "read %d at %s was answered by %s; by deployment priority and measured throughput it is the turn of %s (builds %s; throughput %v)", r.op, tm(r.s), r.eng, strings.Join(why, " then "), w.buildText(), perfAt(r.s))
		}
		if prevEng != "" && prevEng != r.eng {
			changes++
			simrt.Probe("serving_changed")
		}
		prevEng = r.eng
	}
	// announcements
	var ann []mgmt
	for _, m := range log {
		if m.msg.Type == filtering.SelectedEngine && m.msg.EngineName != "" {
			ann = append(ann, m)
		}
	}
	for _, r := range reads {
		if r.eng == "" {
			continue
		}
		ok := false
		lastBefore := ""
		for _, a := range ann {
			if a.at <= r.s {
				lastBefore = a.msg.EngineName
			} else if a.at <= r.e+dl && a.msg.EngineName == r.eng {
				ok = true
			}
		}
		if lastBefore == r.eng {
			ok = true
		}
		if !ok {
			w.fail("C04", "unannounced", "read %d at %s was answered by %s; the last engine announced before was %q and no announcement of %s follows", r.op, tm(r.s), r.eng, lastBefore, r.eng)
		}
	}
	// every statistics interval announces
	lastT := end
	for k := int64(1); tRun+k*iv+dl < lastT; k++ {
		t := tRun + k*iv
		serving := map[string]bool{}
		for _, s := range spans {
			if s.from <= t+dl && s.to >= t {
				serving = union(serving, s.st)
			}
		}
		if serving[""] {
			continue
		}
		ok := false
		for _, m := range log {
			if m.msg.Type == filtering.SelectedEngine && m.at >= t && m.at <= t+dl && serving[m.msg.EngineName] {
				ok = true
			}
		}
		if !ok {
			w.fail("C04", "notick", "the statistics interval ending at %s did not announce the serving engine %v", tm(t), keys(serving))
		}
	}
	if last != nil && last.eng != "" && len(ann) > 0 {
		// once quiet
		l := ""
		for _, a := range ann {
			if a.at <= last.s {
				l = a.msg.EngineName
			}
		}
		if l != last.eng {
			w.fail("C04", "lastannounced", "all is quiet, %s is serving, but the last announcement names %s", last.eng, l)
		}
	}
}

func (w *world) buildText() string {
	var out []string
	for _, b := range w.builds {
		out = append(out, b.name+"@"+tm(b.end))
	}
	return strings.Join(out, " ")
}

// crashSite names where a process died, for signatures: the first repository
// function in the stack.
func crashSite(p *simrt.Proc) string {
	for _, l := range strings.Split(p.Stack, "\n") {
		if strings.Contains(l, "github.com/iomz/gosstrak/") && !strings.Contains(l, "/verif/") && strings.Contains(l, "(") && !strings.HasPrefix(l, "\t") {
			l = l[strings.LastIndex(l, "/")+1:]
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return l
		}
	}
	m := p.ExitMsg
	if len(m) > 60 {
		m = m[:60]
	}
	return m
}

func shortStack(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "/verif/simrt") || !strings.HasPrefix(l, "\t") {
			continue
		}
		out = append(out, strings.TrimSpace(l))
		if len(out) == 4 {
			break
		}
	}
	if len(out) == 0 {
		return ""
	}
	return " [" + strings.Join(out, " < ") + "]"
}
