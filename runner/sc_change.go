package main

import (
	"fmt"

	"github.com/iomz/gosstrak/filtering"
	"github.com/iomz/gosstrak/verif/simrt"
)

// change: the subscriptions of running engines are added to and deleted from,
// between reads (which reorganise some of them), storing, crash and restart.
//
// A subscription is a pair of subscriber and pattern; the scenario's Subs are
// the universe, Op.L chooses from it.
//
// Ops: "init" subscriptions at the start (first op only); "add", "del" L;
// "read" tag A; "save" images of all engines; "swap" go on with engines restored
// from images stored now; "crash" lose everything since the last "save"; "all"
// compare every tag with an engine built anew.

type chPair struct {
	uri string
	pat Pat
}

// pairs lists the universe; a subscriber's second way of writing a pattern is
// left out.
func (sc *Scenario) pairs() []chPair {
	var out []chPair
	seen := map[string]bool{}
	for _, s := range sc.Subs {
		for _, p := range s.Pats {
			k := s.URI + "\x00" + p.Text
			if !p.Bad {
				k = s.URI + "\x00" + p.bits()
			}
			if seen[k] {
				continue
			}
			seen[k] = true
			out = append(out, chPair{s.URI, p})
		}
	}
	return out
}

func genChange(r *simrt.Rand, prop string) *Scenario {
	g := newGen(r)
	o := workOpt{tags: 4 + r.Intn(10), subs: 2 + r.Intn(8), dup: []float64{0.15, 0.3, 0.6}[r.Intn(3)]}
	if r.Bool(0.15) {
		o.bad = 0.2
	}
	if r.Bool(0.1) {
		o.damaged = 0.2
	}
	if r.Bool(0.1) {
		o.subs = 10 + r.Intn(20)
	}
	sc := &Scenario{Kind: "change", P: map[string]int64{}}
	sc.Subs, sc.Tags = g.work(o)
	ps := sc.pairs()
	some := func(p float64) []int {
		var l []int
		for i := range ps {
			if r.Bool(p) {
				l = append(l, i)
			}
		}
		if len(l) > 1 && r.Bool(0.5) { // in any order
			for i := len(l) - 1; i > 0; i-- {
				j := r.Intn(i + 1)
				l[i], l[j] = l[j], l[i]
			}
		}
		return l
	}
	few := func() []int {
		if len(ps) == 0 {
			return nil
		}
		if r.Bool(0.08) {
			return some(0.6)
		}
		l := []int{r.Intn(len(ps))}
		for r.Bool(0.4) && len(l) < 6 {
			l = append(l, r.Intn(len(ps)))
		}
		return l
	}
	if !r.Bool(0.1) { // else without any subscription
		sc.Ops = append(sc.Ops, Op{K: "init", L: some([]float64{0.2, 0.5, 0.8, 1}[r.Intn(4)])})
	}
	for n := 4 + r.Intn(30); n > 0; n-- {
		switch k := r.Intn(100); {
		case k < 34:
			sc.Ops = append(sc.Ops, Op{K: "add", L: few()})
		case k < 64:
			sc.Ops = append(sc.Ops, Op{K: "del", L: few()})
		case k < 85:
			sc.Ops = append(sc.Ops, Op{K: "read", A: r.Intn(len(sc.Tags))})
		case k < 90:
			sc.Ops = append(sc.Ops, Op{K: "save"})
		case k < 93:
			sc.Ops = append(sc.Ops, Op{K: "swap"})
		case k < 95:
			sc.Ops = append(sc.Ops, Op{K: "crash"})
		default:
			sc.Ops = append(sc.Ops, Op{K: "all"})
		}
	}
	if r.Bool(0.15) { // until nothing is left, and again
		var l []int
		for i := range ps {
			l = append(l, i)
		}
		for i := len(l) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			l[i], l[j] = l[j], l[i]
		}
		for _, i := range l {
			sc.Ops = append(sc.Ops, Op{K: "del", L: []int{i}})
		}
		sc.Ops = append(sc.Ops, Op{K: "all"}, Op{K: "add", L: few()})
	}
	sc.Ops = append(sc.Ops, Op{K: "all"})
	return sc
}

func runChange(w *world) {
	sc := w.sc
	ps := sc.pairs()
	p := w.proc("harness", 3600*sec, func() {
		names := engineNames()
		have := map[int]bool{}
		// the map handed over is the same for all engines, as the factory does it
		subsOf := func(l []int) filtering.Subscriptions {
			m := filtering.Subscriptions{}
			done := map[int]bool{}
			for _, i := range l {
				if i < 0 || i >= len(ps) || done[i] {
					continue
				}
				done[i] = true
				m[ps[i].uri] = append(m[ps[i].uri], ps[i].pat.Text)
			}
			return m
		}
		model := func() (l []int) {
			for i := range ps {
				if have[i] {
					l = append(l, i)
				}
			}
			return
		}
		ops := sc.Ops
		if len(ops) > 0 && ops[0].K == "init" {
			for _, i := range ops[0].L {
				if i >= 0 && i < len(ps) {
					have[i] = true
				}
			}
			ops = ops[1:]
		}
		initial := subsOf(model())
		engines, still, before := map[string]filtering.Engine{}, map[string]filtering.Engine{}, map[string]filtering.Engine{}
		for _, n := range names {
			engines[n] = filtering.AvailableEngines[n](initial)
			still[n] = filtering.AvailableEngines[n](initial)
			before[n] = filtering.AvailableEngines[n](subsOf(model()))
		}
		compare := func(n string, e, want filtering.Engine, t *Tag, sig, what string) bool {
			if want == nil {
				return true
			}
			a, crash := safely(func() answer { return searchOf(e, t) })
			if crash != "" {
				w.fail("C17", sig+"-crash:"+n, "%s: %s crashes on tag %s: %s", what, n, t, crash)
				return false
			}
			b := searchOf(want, t)
			if !eqStrings(a.uris, b.uris) || a.err != b.err || len(b.uris) > 0 && a.pi != b.pi {
				w.fail("C17", sig+":"+n, "%s: %s answers tag %s with %v; %s with the same subscriptions built anew answers %v", what, n, t, a, n, b)
				return false
			}
			return true
		}
		fresh := map[string]filtering.Engine{}
		anew := func(n string) filtering.Engine {
			if fresh[n] == nil {
				fresh[n] = filtering.AvailableEngines[n](subsOf(model()))
			}
			return fresh[n]
		}
		images, saved := map[string][]byte{}, map[int]bool{}
		store := func() bool {
			for _, n := range names {
				img, err := engines[n].MarshalBinary()
				if err != nil {
					w.fail("C17 C16", "store:"+n, "%s cannot be stored after changes: %v", n, err)
					return false
				}
				images[n] = img
				simrt.FS().Put("/work/"+n+".img", img)
			}
			saved = map[int]bool{}
			for i := range have {
				saved[i] = true
			}
			return true
		}
		restore := func(k int) bool {
			for _, n := range names {
				e := newEngineOf(n)
				if e == nil {
					continue
				}
				if k%2 == 1 {
					e = engines[n] // the engine itself goes back
					simrt.Probe("restore_in_place")
				}
				img, _ := simrt.FS().Get("/work/" + n + ".img")
				var err error
				_, crash := safely(func() answer { err = e.UnmarshalBinary(img); return answer{} })
				if crash != "" || err != nil {
					w.fail("C17 C16", "restore:"+n, "the complete image of %s stored after changes is refused: %v %s", n, err, crash)
					return false
				}
				engines[n] = e
			}
			have = map[int]bool{}
			for i := range saved {
				have[i] = true
			}
			fresh = map[string]filtering.Engine{}
			return true
		}
		all := func(what string) bool {
			for i := range sc.Tags {
				for _, n := range names {
					if !compare(n, engines[n], anew(n), &sc.Tags[i], "changed", what) ||
						!compare(n, still[n], before[n], &sc.Tags[i], "bystander", "the engine that was not changed") {
						return false
					}
				}
			}
			return true
		}
		for k, op := range ops {
			what := fmt.Sprintf("after step %d (%s)", k, op.K)
			switch op.K {
			case "add", "del":
				m := subsOf(op.L)
				for _, i := range op.L {
					if i < 0 || i >= len(ps) {
						continue
					}
					if op.K == "add" {
						if have[i] {
							simrt.Probe("add_existing")
						} else {
							simrt.Probe("add_new")
						}
						have[i] = true
					} else {
						if have[i] {
							simrt.Probe("delete_existing")
						} else {
							simrt.Probe("delete_absent")
						}
						delete(have, i)
					}
				}
				if len(have) == 0 {
					simrt.Probe("no_subscription_left")
				}
				fresh = map[string]filtering.Engine{}
				for _, n := range names {
					_, crash := safely(func() answer {
						if op.K == "add" {
							engines[n].AddSubscription(m)
						} else {
							engines[n].DeleteSubscription(m)
						}
						return answer{}
					})
					if crash != "" {
						w.fail("C17", op.K+"-crash:"+n, "%s of %v crashes %s: %s", op.K, m, n, crash)
						return
					}
				}
			case "read":
				t := &sc.Tags[op.A%len(sc.Tags)]
				for _, n := range names {
					simrt.Probe("search:" + n)
					if !compare(n, engines[n], anew(n), t, "changed", what) {
						return
					}
				}
				continue
			case "save":
				if !store() {
					return
				}
			case "swap":
				if !store() || !restore(k) {
					return
				}
				simrt.Probe("restored_after_change")
			case "crash":
				if len(images) == 0 {
					continue
				}
				simrt.Fault("crash_back_to_image")
				if !restore(k) {
					return
				}
			}
			if op.K == "all" || op.K == "crash" || op.K == "swap" {
				if !all(what) {
					return
				}
			}
		}
		all("at the end")
	})
	w.crashCheck(p, "C17")
}
