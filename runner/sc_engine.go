package main

import (
	"bytes"
	"encoding/gob"
	"fmt"

	"github.com/iomz/go-llrp"
	"github.com/iomz/gosstrak/filtering"
	"github.com/iomz/gosstrak/verif/simrt"
)

// engine: engines built directly from their constructors, two of each type,
// fed the same reads in different histories.
//
// Ops: "a" and "b" search tag A in instance 1 or 2, "ab" in both; "store" saves
// images of instance 1 and restores them, whole and cut short.

func genEngine(r *simrt.Rand, prop string) *Scenario {
	g := newGen(r)
	o := workOpt{tags: 4 + r.Intn(14), subs: 1 + r.Intn(8)}
	if r.Bool(0.3) {
		o.dup = 0.3
	}
	switch prop {
	case "C14":
		o.bad = 0.4
	case "C13":
		o.damaged = 0.5
	default:
		if r.Bool(0.15) {
			o.bad = 0.2
		}
	}
	if r.Bool(0.06) {
		o.subs = 0
	}
	if r.Bool(0.1) {
		o.subs = 10 + r.Intn(15)
	}
	if r.Bool(0.003) {
		// as many as a large site has
		o.subs, o.dup = 200+r.Intn(400), 0.3
	}
	sc := &Scenario{Kind: "engine", P: map[string]int64{}}
	long := o.subs < 30 && r.Bool(0.003) || o.subs < 30 && prop == "C02" && r.Bool(0.01)
	if long {
		o.tags = []int{4, 50, 300, 1500}[r.Intn(4)] + r.Intn(20)
	}
	sc.Subs, sc.Tags = g.work(o)
	if r.Bool(0.2) {
		// the same identifiers under other protocol control bits
		seen := map[string]bool{}
		for i := range sc.Tags {
			seen[keyOf(sc.Tags[i].PC, sc.Tags[i].ID)] = true
		}
		for k := 1 + r.Intn(3); k > 0; k-- {
			t := sc.Tags[r.Intn(len(sc.Tags))]
			if !t.WF {
				continue
			}
			pc := []byte{t.PC[0] | 1, byte(0xA1 + r.Intn(10))}
			if t.I != nil && r.Bool(0.3) {
				pc = []byte{t.PC[0] &^ 1, 0}
			}
			if !seen[keyOf(pc, t.ID)] {
				seen[keyOf(pc, t.ID)] = true
				sc.Tags = append(sc.Tags, Tag{PC: pc, ID: append([]byte(nil), t.ID...), What: "other protocol bits"})
			}
		}
	}
	sc.Ops = nil
	n := 6 + r.Intn(40)
	if long {
		sc.Ops = append(sc.Ops, Op{K: "many", A: r.Intn(len(sc.Tags)), B: r.Intn(1 << 30), N: int64(500 + r.Intn(3000))})
	}
	stores := 0
	for i := 0; i < n; i++ {
		op := Op{K: []string{"a", "b", "ab", "ab"}[r.Intn(4)], A: r.Intn(len(sc.Tags))}
		sc.Ops = append(sc.Ops, op)
		if prop == "C16" && stores < 2 && r.Bool(0.08) {
			sc.Ops = append(sc.Ops, Op{K: "store", A: r.Intn(8), B: r.Intn(1 << 20)})
			stores++
		}
	}
	if prop == "C16" && stores == 0 {
		sc.Ops = append(sc.Ops, Op{K: "store", A: r.Intn(8), B: r.Intn(1 << 20)})
	}
	for i := range sc.Tags {
		if r.Bool(0.7) {
			sc.Ops = append(sc.Ops, Op{K: "ab", A: i})
		}
	}
	return sc
}

type answer struct {
	pi   string
	uris []string
	err  bool
}

func (a answer) String() string { return fmt.Sprintf("%q %q err=%v", a.pi, a.uris, a.err) }

func searchOf(e filtering.Engine, t *Tag) answer {
	a, _ := searchRaw(e, t)
	return a
}

func searchRaw(e filtering.Engine, t *Tag) (answer, []string) {
	pi, uris, err := e.Search(llrp.ReadEvent{ID: append([]byte{}, t.ID...), PC: append([]byte{}, t.PC...)})
	return answer{pi, setOf(uris), err != nil}, uris
}

// heldAnswer is an answer somebody still works with.
type heldAnswer struct {
	t    *Tag
	raw  []string
	want []string
}

// judge compares the answer to one read with the reference model.
func (w *world) judge(eng string, t *Tag, a answer, raw []string, where string) {
	if !t.WF {
		ok := allowed(w.sc.Subs, t)
		for _, u := range a.uris {
			if !ok[u] {
				w.fail("C13", "damaged-delivered:"+eng, "%s: damaged tag %s was delivered by %s to %s although no pattern of that subscriber is contained in its bits", where, t, eng, u)
			}
		}
		simrt.Probe("damaged_read:" + t.What)
		return
	}
	want := expect(w.sc.Subs, t)
	var missing, extra []string
	got := map[string]bool{}
	for _, u := range a.uris {
		got[u] = true
	}
	wantm := map[string]bool{}
	for _, u := range want {
		wantm[u] = true
		if !got[u] {
			missing = append(missing, u)
		}
	}
	for _, u := range a.uris {
		if !wantm[u] {
			extra = append(extra, u)
		}
	}
	props := "C01"
	if w.hasDamaged() {
		props += " C13"
	}
	if len(extra) > 0 {
		p := props
		for _, u := range extra {
			if w.hasBad(u) {
				p += " C14"
				break
			}
		}
		w.fail(p, "extra:"+eng, "%s: %s answered tag %s with %q; want %q", where, eng, t, a.uris, want)
	}
	if len(missing) > 0 {
		p := props
		if w.hasBad("") {
			p += " C14"
		}
		sig := "missing:" + eng
		w.fail(p, sig, "%s: %s answered tag %s with %q; want %q", where, eng, t, a.uris, want)
	}
	if len(want) > 0 {
		simrt.Probe("matched_read")
		if len(missing) == 0 && (a.pi != t.identity() || a.err) {
			w.fail(props, "identity:"+eng, "%s: %s gave identity %q (error: %v) for tag %s", where, eng, a.pi, a.err, t)
		}
	} else {
		simrt.Probe("unmatched_read")
		if !a.err && len(extra) == 0 {
			w.fail(props, "noerror:"+eng, "%s: %s answered tag %s, which nobody wants, without an error", where, eng, t)
		}
	}
}

func (w *world) hasDamaged() bool {
	for i := range w.sc.Tags {
		if !w.sc.Tags[i].WF {
			return true
		}
	}
	return false
}

func (w *world) hasBad(uri string) bool {
	for _, s := range w.sc.Subs {
		if uri != "" && s.URI != uri {
			continue
		}
		for _, p := range s.Pats {
			if p.Bad {
				return true
			}
		}
	}
	return false
}

func runEngine(w *world) {
	sc := w.sc
	p := w.proc("harness", 3600*sec, func() {
		names := engineNames()
		type pair struct{ a, b filtering.Engine }
		var es []pair
		subs := func() filtering.Subscriptions { return filtering.Subscriptions(subsMap(sc.Subs)) }
		for _, n := range names {
			es = append(es, pair{filtering.AvailableEngines[n](subs()), filtering.AvailableEngines[n](subs())})
		}
		last := map[string]answer{}
		held := map[string][]heldAnswer{}
		// an answer stays what it was while others are given
		look := func(n string, t *Tag) {
			for _, h := range held[n] {
				if !eqStrings(h.raw, h.want) {
					w.fail("C02", "answer-changed:"+n, "the answer %s gave for tag %s became %q, from %q, when it searched tag %s", n, h.t, h.raw, h.want, t)
				}
			}
		}
		read := func(op Op) {
			t := &sc.Tags[op.A]
			for i, n := range names {
				var as []answer
				for k, e := range []filtering.Engine{es[i].a, es[i].b} {
					if op.K == "a" && k == 1 || op.K == "b" && k == 0 {
						continue
					}
					a, raw := searchRaw(e, t)
					simrt.Probe("search:" + n)
					look(n, t)
					if len(held[n]) == 4 {
						held[n] = held[n][1:]
					}
					held[n] = append(held[n], heldAnswer{t, raw, append([]string{}, raw...)})
					w.judge(n, t, a, nil, "engine "+n)
					as = append(as, a)
					key := n + keyOf(t.PC, t.ID)
					if l, ok := last[key]; ok && (!eqStrings(l.uris, a.uris) || l.pi != a.pi || l.err != a.err) {
						w.fail("C02", "history:"+n, "%s answered tag %s with %v earlier and with %v now", n, t, l, a)
					}
					last[key] = a
				}
			}
			// engines of different types must agree as well
			if t.WF {
				for i := 1; i < len(names); i++ {
					a, b := last[names[0]+keyOf(t.PC, t.ID)], last[names[i]+keyOf(t.PC, t.ID)]
					if !eqStrings(a.uris, b.uris) {
						w.fail("C02", "differ:"+names[0]+"/"+names[i], "tag %s: %s answers %q, %s answers %q", t, names[0], a.uris, names[i], b.uris)
					}
				}
			}
		}
		for _, op := range sc.Ops {
			if op.K == "store" {
				n := op.A % (len(names) + 1)
				if n == len(names) {
					w.storeSubs(subs(), op.B)
				} else {
					w.storeEngine(names[n], es[n].a, op.B)
				}
				continue
			}
			if op.K == "many" && op.N > 0 {
				r := simrt.NewRand(uint64(op.B))
				for k := op.N; k > 1; k-- {
					read(Op{K: "a", A: r.Intn(len(sc.Tags))})
				}
				simrt.Probe("long_history")
				op.K = "ab"
			}
			read(op)
		}
	})
	w.crashCheck(p, "C01 C02 C13 C14 C16")
}

// crashCheck reports a simulated process that died by itself.
func (w *world) crashCheck(p *simrt.Proc, props string) {
	if !p.Exited {
		w.fail(props, "hang", "process %s does not finish: %v", p.Name, simrt.ProcGs(p))
		return
	}
	if p.ExitCode != 0 {
		w.fail(props, "crash:"+crashSite(p), "process %s ended with %s%s", p.Name, p.ExitMsg, shortStack(p.Stack))
	}
}

func newEngineOf(name string) filtering.Engine {
	switch name {
	case "List":
		return &filtering.List{}
	case "PatriciaTrie":
		return &filtering.PatriciaTrie{}
	case "SplayTree":
		return &filtering.SplayTree{}
	case "LegacyEngine":
		return &filtering.LegacyEngine{}
	}
	return nil
}

// storeEngine writes the image of an engine to the simulated disk, restores it
// whole, and restores what a crash after k bytes leaves for every k chosen.
func (w *world) storeEngine(name string, e filtering.Engine, salt int) {
	img, err := e.MarshalBinary()
	if err != nil {
		w.fail("C16", "store:"+name, "%s cannot be stored: %v", name, err)
		return
	}
	simrt.FS().Put("/work/engine.img", img)
	simrt.Probe("store:" + name)
	img, _ = simrt.FS().Get("/work/engine.img")
	probe := func(r filtering.Engine, what string) bool {
		for i := range w.sc.Tags {
			t := &w.sc.Tags[i]
			if !t.WF {
				continue
			}
			want := expect(w.sc.Subs, t)
			// the original may itself differ from the model: that is another
			// property, so the comparison is with the original
			orig := searchOf(e, t)
			a, crash := safely(func() answer { return searchOf(r, t) })
			if crash != "" {
				w.fail("C16", what+"-crash:"+name, "%s restored from %s crashes on tag %s: %s", name, what, t, crash)
				return false
			}
			if !eqStrings(a.uris, orig.uris) || a.err != orig.err || len(want) > 0 && a.pi != orig.pi {
				w.fail("C16", what+"-differs:"+name, "%s restored from %s answers tag %s with %v; the original answers %v", name, what, t, a, orig)
				return false
			}
		}
		return true
	}
	whole := newEngineOf(name)
	if whole == nil {
		return
	}
	_, crash := safely(func() answer { err = whole.UnmarshalBinary(append([]byte{}, img...)); return answer{} })
	if crash != "" || err != nil {
		w.fail("C16", "whole-refused:"+name, "a completely stored image of %s is refused: %v %s", name, err, crash)
		return
	}
	if !probe(whole, "whole") {
		return
	}
	// what was restored can be stored again
	var img2 []byte
	_, crash = safely(func() answer { img2, err = whole.MarshalBinary(); return answer{} })
	again := newEngineOf(name)
	if crash == "" && err == nil {
		_, crash = safely(func() answer { err = again.UnmarshalBinary(img2); return answer{} })
	}
	if crash != "" || err != nil {
		w.fail("C16", "again-refused:"+name, "an image of a restored %s is not restored: %v %s", name, err, crash)
		return
	}
	if !probe(again, "again") {
		return
	}
	// into an engine that is in use
	used := filtering.AvailableEngines[name](w.otherSubs(salt))
	_, crash = safely(func() answer { err = used.UnmarshalBinary(append([]byte{}, img...)); return answer{} })
	if crash != "" || err != nil {
		w.fail("C16", "used-refused:"+name, "a complete image of %s is refused by one that is in use: %v %s", name, err, crash)
		return
	}
	if !probe(used, "used") {
		return
	}
	// an image that is refused leaves the engine as it is
	kept := filtering.AvailableEngines[name](w.otherSubs(salt))
	before := make([]answer, len(w.sc.Tags))
	for i := range w.sc.Tags {
		before[i] = searchOf(kept, &w.sc.Tags[i])
	}
	r := simrt.NewRand(uint64(salt) + 78)
	for i := 0; i < 12; i++ {
		k := r.Intn(len(img))
		simrt.Fault("torn_image")
		_, crash := safely(func() answer { err = kept.UnmarshalBinary(append([]byte{}, img[:k]...)); return answer{} })
		if crash != "" || err == nil {
			break // judged below
		}
		for i := range w.sc.Tags {
			t := &w.sc.Tags[i]
			a, crash := safely(func() answer { return searchOf(kept, t) })
			if crash != "" || !eqStrings(a.uris, before[i].uris) || a.err != before[i].err {
				w.fail("C16", "refused-changes:"+name, "%s in use has refused an image cut to %d of %d bytes (%v), and now answers tag %s with %v %s; before with %v", name, k, len(img), err, t, a, crash, before[i])
				return
			}
		}
	}
	// as an engine of another type: refused, or right
	for _, n := range engineNames() {
		if n == name {
			continue
		}
		r := newEngineOf(n)
		_, crash := safely(func() answer { err = r.UnmarshalBinary(append([]byte{}, img...)); return answer{} })
		if crash != "" {
			w.fail("C16", "type-crash:"+name, "restoring an image of %s as %s crashes: %s", name, n, crash)
			return
		}
		if err == nil && !probe(r, n) {
			return
		}
		simrt.Probe("image_of_other_type")
	}
	// cut points: all for small images, else a spread plus the ends
	for _, k := range cuts(len(img), salt) {
		r := newEngineOf(name)
		var err error
		simrt.Fault("torn_image")
		_, crash := safely(func() answer { err = r.UnmarshalBinary(append([]byte{}, img[:k]...)); return answer{} })
		if crash != "" {
			w.fail("C16", "cut-crash:"+name, "restoring an image of %s cut to %d of %d bytes crashes: %s", name, k, len(img), crash)
			return
		}
		if err == nil {
			if !probe(r, "cut") {
				return
			}
			w.fail("C16", "cut-accepted:"+name, "an image of %s cut to %d of %d bytes is restored without an error", name, k, len(img))
			return
		}
	}
	// a cut image must not be usable through gob either
	var buf bytes.Buffer
	if gob.NewEncoder(&buf).Encode(e) == nil {
		r := newEngineOf(name)
		if err := gob.NewDecoder(bytes.NewReader(buf.Bytes())).Decode(r); err != nil {
			w.fail("C16", "whole-refused:"+name, "an image of %s written with gob is refused: %v", name, err)
		} else {
			probe(r, "gob")
		}
	}
}

// otherSubs are subscriptions that differ from those of the scenario.
func (w *world) otherSubs(salt int) filtering.Subscriptions {
	r := simrt.NewRand(uint64(salt) + 77)
	var subs []Sub
	for i, s := range w.sc.Subs {
		if r.Bool(0.6) {
			s.URI = fmt.Sprintf("http://used%d.example/", i)
			subs = append(subs, s)
		}
	}
	return filtering.Subscriptions(subsMap(subs))
}

func cuts(n, salt int) []int {
	var out []int
	if n <= 400 {
		for k := 0; k < n; k++ {
			out = append(out, k)
		}
		return out
	}
	r := simrt.NewRand(uint64(salt))
	for i := 0; i < 260; i++ {
		out = append(out, r.Intn(n))
	}
	for i := 1; i < 60; i++ {
		out = append(out, n-i)
	}
	return out
}

func (w *world) storeSubs(s filtering.Subscriptions, salt int) {
	img, err := s.MarshalBinary()
	if err != nil {
		w.fail("C16", "store:subs", "subscriptions cannot be stored: %v", err)
		return
	}
	simrt.Probe("store:Subscriptions")
	same := func(a, b filtering.Subscriptions) bool {
		if len(a) != len(b) {
			return false
		}
		for k, v := range a {
			if x, ok := b[k]; !ok || !eqStrings(v, x) {
				return false
			}
		}
		return true
	}
	r := filtering.Subscriptions{}
	if err := r.UnmarshalBinary(append([]byte{}, img...)); err != nil {
		w.fail("C16", "whole-refused:subs", "a completely stored subscription image is refused: %v", err)
		return
	}
	if !same(s, r) {
		w.fail("C16", "whole-differs:subs", "subscriptions %v are restored as %v", s, r)
	}
	for _, k := range cuts(len(img), salt) {
		simrt.Fault("torn_image")
		r := filtering.Subscriptions{}
		var err error
		_, crash := safely(func() answer { err = r.UnmarshalBinary(append([]byte{}, img[:k]...)); return answer{} })
		if crash != "" {
			w.fail("C16", "cut-crash:subs", "restoring a subscription image cut to %d of %d bytes crashes: %s", k, len(img), crash)
			return
		}
		if err == nil {
			w.fail("C16", "cut-accepted:subs", "a subscription image cut to %d of %d bytes is restored without an error", k, len(img))
			return
		}
	}
	// the preprocessed form is stored as well
	bs := s.ToByteSubscriptions()
	var buf bytes.Buffer
	if err := gob.NewEncoder(&buf).Encode(bs); err != nil {
		w.fail("C16", "store:bsubs", "byte subscriptions cannot be stored: %v", err)
		return
	}
	rb := filtering.ByteSubscriptions{}
	if err := gob.NewDecoder(bytes.NewReader(buf.Bytes())).Decode(&rb); err != nil {
		w.fail("C16", "whole-refused:bsubs", "a completely stored image of byte subscriptions is refused: %v", err)
		return
	}
	if rb.Dump() != bs.Dump() {
		w.fail("C16", "whole-differs:bsubs", "byte subscriptions are restored differently:\n%s\n%s", bs.Dump(), rb.Dump())
	}
}

// safely turns a panic of the code under test into a text.
func safely(f func() answer) (a answer, crash string) {
	defer func() {
		if r := recover(); r != nil {
			crash = fmt.Sprint("panic: ", r)
		}
	}()
	return f(), ""
}
