package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/iomz/go-llrp"
	"github.com/iomz/gosstrak/filtering"
	"github.com/iomz/gosstrak/monitoring"
	"github.com/iomz/gosstrak/verif/simrt"
)

func registerMore() {
	scenarioKinds["fc"] = kind{"C01 C03 C07 C08 C09 C10 C11 C12 C13 C18", genFC, runFC}
	scenarioKinds["stat"] = kind{"C07 C08", genStat, runStat}
	scenarioKinds["csv"] = kind{"C14", genCSV, runCSV}
	scenarioKinds["gobtags"] = kind{"C15", genGobtags, runGobtags}
	scenarioKinds["change"] = kind{"C16 C17", genChange, runChange}
	scenarioKinds["aleec"] = kind{"C12 C18", genALE, runALE}
}

// ---- stat: the statistics manager alone, with reports of known content ----
//
// Ops: "traffic" (A events, B matches), "throughput" (N: bits of the float),
// "engine"; S is the engine, T the wait before. Infl: database trouble.

var statEngines = []string{"LegacyEngine", "List", "PatriciaTrie", "SplayTree"}

func genStat(r *simrt.Rand, prop string) *Scenario {
	sc := &Scenario{Kind: "stat", P: map[string]int64{}}
	if r.Bool(map[string]float64{"C07": 0.9, "C08": 0.35}[prop]) {
		genInflux(r, sc, 15)
	}
	n := 1 + r.Intn(60)
	span := int64(0)
	for _, o := range sc.Infl {
		if o.N < never && o.T+o.N > span {
			span = o.T + o.N
		}
	}
	burst := 0
	var t int64
	for i := 0; i < n || (t < span+20*sec && len(sc.Infl) > 0 && i < 300); i++ {
		o := Op{S: statEngines[r.Intn(4)]}
		switch r.Intn(5) {
		case 0, 1, 2:
			o.K = "traffic"
			if r.Bool(0.8) {
				// distinct counts make every report recognisable
				o.A = 1000*(i+1) + r.Intn(1000)
				if r.Bool(0.1) {
					o.A += 1000000 * r.Intn(100000000)
				}
				switch r.Intn(4) {
				case 0:
					o.B = 0
				case 1:
					o.B = o.A
				default:
					o.B = r.Intn(o.A + 1)
				}
			}
		case 3:
			o.K = "throughput"
			x := float64(1+r.Intn(1000000)) / float64(1+r.Intn(1000000))
			if r.Bool(0.1) {
				x = float64(1 + r.Intn(5))
			}
			o.N = int64(math.Float64bits(x))
		default:
			o.K = "engine"
		}
		if burst > 0 {
			burst--
		} else {
			o.T = int64(r.Intn(600)) * ms
			if r.Bool(0.2) {
				o.T = int64(r.Intn(4000)) * ms
			}
			if r.Bool(0.01) {
				o.T = int64(10+r.Intn(600)) * sec
			}
			if r.Bool(0.2) {
				burst = 2 + r.Intn(40)
			}
		}
		t += o.T
		sc.Ops = append(sc.Ops, o)
	}
	if r.Bool(0.2) {
		sc.P["user"] = 1
	}
	return sc
}

func runStat(w *world) {
	sc := w.sc
	f := &fcWorld{world: w}
	simrt.HTTP().Servers[fcInflux] = f.influx
	type rep struct {
		op      *Op
		t0, t1  int64
		stored  int
		trouble bool
	}
	var reps []*rep
	through := false
	pr := "C08"
	if len(sc.Infl) > 0 {
		pr = "C07 C08"
	}
	p := simrt.Spawn("stat", []string{"stat"}, func() {
		user, pass := "", ""
		if sc.P["user"] == 1 {
			user, pass = "u", "p"
		}
		f.site = site{db: fcDB, user: user, pass: pass}
		sm := monitoring.NewStatManager("master", "http://"+fcInflux, user, pass, fcDB)
		for i := range sc.Ops {
			op := &sc.Ops[i]
			simrt.Sleep(op.T)
			m := monitoring.StatMessage{Name: op.S}
			switch op.K {
			case "traffic":
				m.Type = monitoring.Traffic
				m.Value = []interface{}{int64(op.A), int64(op.B)}
			case "throughput":
				m.Type = monitoring.EngineThroughput
				m.Value = []interface{}{math.Float64frombits(uint64(op.N))}
			default:
				m.Type = monitoring.SelectedEngine
			}
			rp := &rep{op: op, t0: simrt.NowNS()}
			reps = append(reps, rp)
			sm.Send(m)
			rp.t1 = simrt.NowNS()
		}
		through = true
		simrt.Sleep(never)
	})
	var quiet int64
	for {
		simrt.Sleep(20 * ms)
		now := simrt.NowNS()
		if p.Exited {
			break
		}
		if n := len(reps); n > 0 && reps[n-1].t1 == 0 && now > reps[n-1].t0+delta {
			w.fail(pr, "send-blocks", "handing a report to the statistics manager takes longer than %s (database trouble: %v)", tm(delta), sc.Infl)
			break
		}
		if through && quiet == 0 {
			quiet = now
		}
		if quiet > 0 && now > quiet+25*sec {
			break
		}
	}
	if p.Exited {
		w.fail(pr, "exit:"+exitKind(p), "the process with the statistics manager ended at %s: %s", tm(p.ExitTime), exitText(p))
		return
	}
	for i := range f.points {
		p := &f.points[i]
		if e := p.foreign(); e != "" {
			w.fail(pr, "foreign", "a %s point carries %s, which belongs to another report: %v %v", p.m, e, p.tags, p.fields)
		}
	}
	// each report is exactly one point
	used := make([]bool, len(f.points))
	match := func(rp *rep, p *point) string {
		op := rp.op
		switch op.K {
		case "traffic":
			if p.m != "traffic" || p.tags["engine"] != op.S {
				return "other"
			}
			n, ok1 := p.num("incoming_events")
			m, ok2 := p.num("matched_events")
			if !ok1 || !ok2 || n != float64(op.A) || m != float64(op.B) {
				return "other"
			}
			q, ok := p.num("matching_probability")
			if op.A > 0 && (!ok || math.Abs(q-float64(op.B)/float64(op.A)*100) > 1e-9*100) {
				return fmt.Sprintf("a percentage of %q", p.fields["matching_probability"])
			}
			if op.A == 0 && ok && (math.IsNaN(q) || math.IsInf(q, 0) || q != 0) {
				return fmt.Sprintf("a percentage of %q without events", p.fields["matching_probability"])
			}
		case "throughput":
			if p.m != "throughput" || p.tags["engine"] != op.S {
				return "other"
			}
			x, ok := p.num("event_per_us")
			if y := math.Float64frombits(uint64(op.N)); !ok || math.Abs(x-y) > 1e-9*y {
				return "other"
			}
		default:
			if p.m != "engine" {
				return "other"
			}
			x, ok := p.num("selected")
			if !ok || x != map[string]float64{"LegacyEngine": 0, "List": 1, "PatriciaTrie": 2, "SplayTree": 3}[op.S] {
				return "other"
			}
		}
		return ""
	}
	h := f.ixHealthyFrom()
	inTrouble := func(t int64) bool {
		for _, o := range sc.Infl {
			// what was sent shortly before or while the backlog drains may be lost
			e := o.N
			if e < never {
				e += 12 * sec
			}
			if t >= o.T-5*sec && t < o.T+e {
				return true
			}
		}
		return false
	}
	wrong := make([]string, len(f.points))
	// what was reported in healthy times first, the rest can stand for what was
	// reported around trouble
	for _, trouble := range []bool{false, true} {
		for pi := range f.points {
			pt := &f.points[pi]
			ts := pt.ts - epochNS
			for _, rp := range reps {
				if used[pi] || rp.stored > 0 || rp.t0 > ts+sc.Sched.Gran || pt.at < ts || inTrouble(rp.t0) != trouble || !trouble && ts > rp.t0+2*sec {
					continue
				}
				switch m := match(rp, pt); m {
				case "other":
				case "":
					rp.stored++
					used[pi] = true
				default:
					wrong[pi] = m
				}
			}
		}
	}
	for pi := range f.points {
		pt := &f.points[pi]
		if used[pi] {
			continue
		}
		if wrong[pi] != "" {
			w.fail(pr, "value", "a report was stored with %s: %s %v %v", wrong[pi], pt.m, pt.tags, pt.fields)
		} else {
			w.fail(pr, "no-such-report", "the point %s %v %v at %s that reached the database at %s stands for no report, or for one stored before", pt.m, pt.tags, pt.fields, tm(pt.ts-epochNS), tm(pt.at))
		}
	}
	for i, rp := range reps {
		if inTrouble(rp.t0) {
			continue
		}
		if rp.stored == 0 {
			w.fail(pr, "lost", "report %d (%s %s %d %d) handed over at %s was not stored while the database was healthy (trouble: %s)", i, rp.op.K, rp.op.S, rp.op.A, rp.op.B, tm(rp.t0), troubleText(sc.Infl))
		}
		simrt.Probe("report_stored")
		if h > 0 && h < never && rp.t0 > h {
			simrt.Probe("report_after_recovery")
		}
	}
}

func troubleText(l []Op) string {
	if len(l) == 0 {
		return "none"
	}
	var out []string
	for _, o := range l {
		out = append(out, fmt.Sprintf("%s %s..%s", ixName[o.A], tm(o.T), tm(o.T+o.N)))
	}
	return strings.Join(out, ", ")
}

func exitKind(p *simrt.Proc) string {
	if p.Crash {
		return "crash"
	}
	return fmt.Sprint(p.ExitCode)
}

func exitText(p *simrt.Proc) string {
	if p.Crash {
		return clip(p.ExitMsg, 300) + shortStack(p.Stack)
	}
	return fmt.Sprintf("exit code %d, %s", p.ExitCode, clip(p.ExitMsg, 300))
}

// ---- csv: the subscription file ----
//
// D is not used; the file is S["file"]. P: full (start the whole filtering
// core), missing, openerr, readerr (offset+1), short.

func genCSV(r *simrt.Rand, prop string) *Scenario {
	sc := &Scenario{Kind: "csv", P: map[string]int64{}, S: map[string]string{}}
	g := newGen(r)
	var lines []string
	n := r.Intn(12)
	if r.Bool(0.15) {
		n = 40 + r.Intn(300)
	} else if r.Bool(0.004) {
		n = 3000 + r.Intn(9000) // more than anybody has
	}
	_, tags := g.work(workOpt{tags: 6})
	var uris []string
	long := false
	eol := "\n"
	if r.Bool(0.2) {
		eol = "\r\n"
	}
	cell := func() string {
		switch r.Intn(12) {
		case 0:
			return g.badPat(tags).Text
		case 1:
			return []string{"", "urn:epc:id:sgtin:1234567.012345.1", "foo", "pattern", "urn:epc:tag:sgtin-96:3.1.1", "-", "http://other.example/x", "urn:epc:pat", "# urn:epc:pat:sgtin-96:3"}[r.Intn(9)]
		case 2:
			return strings.ToUpper(g.patOf(tags[r.Intn(len(tags))], 3).Text)
		}
		return g.patOf(tags[r.Intn(len(tags))], 1+r.Intn(4)).Text
	}
	quote := func(s string) string {
		if strings.ContainsAny(s, ",\"\n\r ") || r.Bool(0.1) {
			return `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
		}
		return s
	}
	for i := 0; i < n; i++ {
		switch r.Intn(10) {
		case 0:
			lines = append(lines, "")
			continue
		case 1:
			head := []string{"# comment", "ftp://h.example/x", "mailto:a@b.example", "", "report_uri", "urn:epc:pat:sgtin-96:3", "sub1", "note\nhttp://h.example/y", " http://h.example/y"}[r.Intn(9)]
			l := quote(head)
			for k := r.Intn(3); k > 0; k-- {
				l += "," + quote(cell())
			}
			lines = append(lines, l)
			continue
		}
		u := g.uri()
		if r.Bool(0.15) {
			u = strings.Replace(u, "http://", "https://", 1)
		}
		if len(uris) > 0 && r.Bool(0.2) {
			u = uris[r.Intn(len(uris))]
		}
		uris = append(uris, u)
		if r.Bool(0.15) {
			u = strings.ToUpper(u[:5]) + u[5:]
		}
		if r.Bool(0.1) {
			u += "?a=1;b=Ünï"
		}
		l := quote(u)
		k := r.Intn(5)
		if r.Bool(0.05) {
			k = 50 + r.Intn(200)
		}
		if r.Bool(0.004) {
			k = 1200 + r.Intn(2500) // more than usual buffers hold
			long = true
		}
		for ; k > 0; k-- {
			l += "," + quote(cell())
		}
		lines = append(lines, l)
	}
	if len(lines) > 0 && r.Bool(0.08) {
		// a line that is no CSV: a quote inside a cell, text after a quoted
		// cell, or a quote that is never closed
		u, pat := g.newURI(), quote(cell())
		l := []string{u + `"q",` + pat, `"` + u + `"q,` + pat, `"` + u + "," + pat, u + `,"` + strings.ReplaceAll(cell(), `"`, "")}[r.Intn(4)]
		i := r.Intn(len(lines) + 1)
		sc.S["wellformed"] = strings.Join(lines, eol)
		lines = append(lines[:i:i], append([]string{l}, lines[i:]...)...)
		sc.P["malformed"] = 1
	}
	file := strings.Join(lines, eol)
	if r.Bool(0.8) && file != "" {
		file += eol
	}
	sc.S["file"] = file
	if r.Bool(0.35) && !long {
		sc.P["full"] = 1
		for _, n := range engineNames() {
			if r.Bool(0.5) {
				sc.P["build."+n] = int64(r.Intn(1500)) * ms
			}
		}
	}
	if r.Bool(0.7) {
		sc.P["short"] = 1
	}
	switch r.Intn(6) {
	case 0:
		sc.P["missing"] = 1
	case 1:
		sc.P["openerr"] = 1 + int64(r.Intn(3))
	case 2, 3:
		off := r.Intn(len(file) + 1)
		switch r.Intn(4) {
		case 0:
			off = len(file)
		case 1:
			// right at the end of a line, where the part before looks complete
			for off < len(file) && (off == 0 || file[off-1] != '\n') {
				off++
			}
		}
		sc.P["readerr"] = int64(off) + 1
	}
	return sc
}

// refCSV reads a subscription file: every record is one line here, as the
// generated files have no line breaks inside quotes.
func refCSV(file string) map[string][]string {
	out := map[string][]string{}
	open := ""
	for _, l := range strings.Split(file, "\n") {
		// a quoted cell may go on in the next line
		l = open + l
		if strings.Count(l, `"`)%2 == 1 {
			open = strings.TrimSuffix(l, "\r") + "\n"
			continue
		}
		open = ""
		l = strings.TrimSuffix(l, "\r")
		if l == "" {
			continue
		}
		var cells []string
		for i := 0; i <= len(l); {
			if i < len(l) && l[i] == '"' {
				var b []byte
				i++
				for i < len(l) {
					if l[i] == '"' {
						if i+1 < len(l) && l[i+1] == '"' {
							b = append(b, '"')
							i += 2
							continue
						}
						i++
						break
					}
					b = append(b, l[i])
					i++
				}
				cells = append(cells, string(b))
				i++ // the comma
				if i > len(l) {
					break
				}
				continue
			}
			j := strings.IndexByte(l[i:], ',')
			if j < 0 {
				cells = append(cells, l[i:])
				break
			}
			cells = append(cells, l[i:i+j])
			i += j + 1
		}
		u := strings.ToLower(cells[0])
		if !strings.HasPrefix(u, "http") {
			continue
		}
		for _, c := range cells[1:] {
			if strings.HasPrefix(strings.ToLower(c), "urn:epc:pat:") {
				out[u] = append(out[u], c)
			}
		}
	}
	return out
}

func runCSV(w *world) {
	sc := w.sc
	const path = "/work/ecspec.csv"
	file := sc.S["file"]
	fs := simrt.FS()
	fault := ""
	if sc.P["missing"] == 0 {
		fs.Put(path, []byte(file))
	} else {
		fault = "the file is missing"
	}
	fs.ShortRead = sc.P["short"] == 1
	if e := sc.P["openerr"]; e > 0 {
		fs.OpenErr[path] = []error{syscall.EACCES, syscall.EIO, syscall.EMFILE}[e-1]
		fault = "opening the file fails: " + fs.OpenErr[path].Error()
	}
	if e := sc.P["readerr"]; e > 0 && e-1 <= int64(len(file)) {
		fs.ReadErrAt[path] = e - 1
		fault = fmt.Sprintf("reading the file fails at offset %d of %d", e-1, len(file))
	}
	want := refCSV(file)
	malformed := sc.P["malformed"] == 1
	if malformed {
		want = refCSV(sc.S["wellformed"])
	}
	// complete checks the subscriptions that are used though the file is malformed
	complete := func(got filtering.Subscriptions) {
		simrt.Probe("malformed_file_used")
		for _, u := range mapKeys(want) {
			if d := diff(setOf(want[u]), setOf(got[u])); len(d) > 0 {
				w.fail("C14", "partial-malformed", "a line of the file is no CSV, but the subscriptions are used without %s of %s", clip(fmt.Sprintf("%q", d), 300), u)
				return
			}
		}
	}
	if sc.P["full"] == 1 {
		nw := simrt.Net()
		dialed := false
		nw.DialHook = func(addr string, n int64) (int64, error) {
			if addr == fcReader {
				dialed = true
			}
			return 0, nil
		}
		var got filtering.Subscriptions
		seen := false
		for _, n := range engineNames() {
			name, ctor := n, filtering.AvailableEngines[n]
			filtering.AvailableEngines[name] = func(sub filtering.Subscriptions) filtering.Engine {
				if !seen {
					seen = true
					got = filtering.Subscriptions{}
					for _, u := range mapKeys(sub) {
						got[u] = append([]string(nil), sub[u]...)
					}
				}
				if d := sc.P["build."+name]; d > 0 {
					simrt.Sleep(d)
				}
				return ctor(sub)
			}
		}
		args := []string{"gosstrak-fc", "start", "--ecspecfile", path, "--ip", fcReader}
		p := simrt.Spawn("gosstrak-fc", args, mains["gosstrak-fc"])
		for end := simrt.NowNS() + 5*sec; !p.Exited && simrt.NowNS() < end; {
			simrt.Sleep(5 * ms)
		}
		if fault != "" {
			switch {
			case !p.Exited:
				w.fail("C14", "starts-anyway", "%s, but the filtering core runs (with %d subscribers of %d)", fault, len(got), len(want))
			case !p.Crash && p.ExitCode == 0:
				w.fail("C14", "exit-0", "%s, but the filtering core ends with success", fault)
			case dialed || seen:
				w.fail("C14", "starts-first", "%s, but the filtering core had begun to build engines or to connect to the reader before it failed", fault)
			}
			simrt.Probe("startup_refused")
			return
		}
		if malformed {
			switch {
			case p.Exited && !p.Crash && p.ExitCode == 0:
				w.fail("C14", "exit-0", "a line of the file is no CSV, and the filtering core ends with success")
			case p.Exited && (dialed || seen):
				w.fail("C14", "starts-first", "a line of the file is no CSV, but the filtering core had begun to build engines or to connect to the reader before it failed")
			case p.Exited:
				simrt.Probe("startup_refused")
			case !seen:
				w.fail("C14", "no-engine", "the filtering core runs but no engine is built")
			default:
				complete(got)
			}
			return
		}
		if p.Exited {
			w.fail("C14", "startup-fails", "the file is fine but the filtering core ended: %s", exitText(p))
			return
		}
		if !seen {
			w.fail("C14", "no-engine", "the file is fine but no engine is built")
			return
		}
		w.sameSubs(got, want)
		return
	}
	var got filtering.Subscriptions
	loaded := false
	p := w.proc("loader", 20*sec, func() {
		got = filtering.LoadSubscriptionsFromCSVFile(path)
		loaded = true
	})
	if !p.Exited {
		w.fail("C14", "load-hangs", "loading the subscriptions does not end (%s)", fault)
		return
	}
	if fault != "" {
		if loaded {
			w.fail("C14", "partial", "%s, but %d of %d subscribers are loaded and nothing is reported", fault, len(got), len(want))
		}
		simrt.Probe("load_refused")
		return
	}
	if malformed {
		if loaded {
			complete(got)
		} else {
			simrt.Probe("load_refused")
		}
		return
	}
	if !loaded {
		w.fail("C14", "load-fails", "the file is fine but loading it fails: %s", exitText(p))
		return
	}
	w.sameSubs(got, want)
}

func mapKeys(m map[string][]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (w *world) sameSubs(got filtering.Subscriptions, want map[string][]string) {
	simrt.Probe("subscriptions_compared")
	for _, u := range mapKeys(want) {
		if !eqStrings(setOf(got[u]), setOf(want[u])) {
			g, x := setOf(got[u]), setOf(want[u])
			w.fail("C14", "patterns", "subscriber %s has %d patterns loaded and %d in the file: %s", u, len(g), len(x), clip(fmt.Sprintf("%q / %q", diff(g, x), diff(x, g)), 400))
			return
		}
	}
	for _, u := range mapKeys(got) {
		if len(want[u]) == 0 && len(got[u]) > 0 {
			w.fail("C14", "subscriber", "subscriber %q is loaded with %q but not in the file", u, got[u])
			return
		}
	}
}

func diff(a, b []string) (out []string) {
	in := map[string]bool{}
	for _, x := range b {
		in[x] = true
	}
	for _, x := range a {
		if !in[x] {
			out = append(out, x)
		}
	}
	return
}

// ---- gobtags: the tag converter ----

func genGobtags(r *simrt.Rand, prop string) *Scenario {
	sc := &Scenario{Kind: "gobtags", P: map[string]int64{}, S: map[string]string{}}
	n := r.Intn(20)
	if r.Bool(0.3) {
		n = 50 + r.Intn(400)
	}
	if r.Bool(0.01) {
		n = 2000 + r.Intn(4000)
	}
	g := newGen(r)
	var b strings.Builder
	var ids []string
	for i := 0; i < n; i++ {
		t := g.tag()
		pc := fmt.Sprintf("%x", t.PC)
		if len(t.PC) != 2 {
			pc = "3000"
		}
		id := bitString(t.ID)
		switch r.Intn(12) {
		case 0:
			pc = []string{"", "xyz", "12345", "-1", "0x30", "g000"}[r.Intn(6)]
		case 1:
			id = []string{"", "0", "0101", id + "1", id[:len(id)-1]}[r.Intn(5)]
		case 2:
			id = id[:8*(1+r.Intn(len(id)/8))]
		}
		if r.Bool(0.05) {
			id += strings.Repeat("10110010", r.Intn(40))
		}
		if ids = append(ids, pc, id); r.Bool(0.1) {
			// a tag seen before, as it was or with other protocol control bits
			k := 2 * r.Intn(len(ids)/2)
			id = ids[k+1]
			if r.Bool(0.6) {
				pc = ids[k]
			}
		}
		b.WriteString(pc + "," + id)
		if i < n-1 || r.Bool(0.8) {
			b.WriteString("\n")
		}
	}
	in := b.String()
	sc.S["in"] = in
	size := int64(len(refGob(refTags(in))))
	if r.Bool(0.7) {
		sc.P["short"] = 1
	}
	if r.Bool(0.3) {
		sc.S["out"] = []string{"/work/tags.gob", "o.gob", "/work/none/o.gob", "/work"}[r.Intn(4)]
	}
	if r.Bool(0.4) {
		// an older output file
		sc.P["old"] = 1 + int64(r.Intn(int(2*size)+200))
	}
	pos := func(n int64) int64 {
		switch r.Intn(4) {
		case 0:
			return n
		case 1:
			return n - 1
		case 2:
			return 0
		}
		return int64(r.Intn(int(n) + 1))
	}
	switch r.Intn(15) {
	case 0:
		sc.P["missing"] = 1
	case 1:
		sc.P["openerr"] = 1
	case 2:
		sc.P["readerr"] = 1 + int64(r.Intn(len(in)+1))
		if r.Bool(0.3) {
			sc.P["readerr"] = 1 + int64(len(in))
		}
	case 3:
		sc.P["createrr"] = 1
	case 4, 5:
		sc.P["writeerr"] = 1 + max64(0, pos(size-1))
	case 6, 7:
		// the disk has room for so many bytes of the output
		sc.P["room"] = 1 + max64(0, pos(size-1))
	case 8:
		sc.P["closeerr"] = 1 + max64(0, pos(size-1))
	case 9, 10:
		sc.P["kill"] = 1 + int64(r.Intn(3_000_000))>>r.Intn(12)
	}
	return sc
}

type refTag struct {
	pc uint16
	id []byte
}

// refTags are the tags of a converter input.
func refTags(in string) (out []refTag) {
	for _, l := range strings.Split(in, "\n") {
		c := strings.Split(l, ",")
		if len(c) != 2 {
			continue
		}
		pc, err := strconv.ParseUint(c[0], 16, 16)
		if err != nil || len(c[1]) < 8 || len(c[1])%8 != 0 {
			continue
		}
		out = append(out, refTag{uint16(pc), packBits(c[1])})
	}
	return
}

// refGob is only used for the size of a complete output.
func refGob(tags []refTag) []byte {
	var ts llrp.Tags
	for _, t := range tags {
		ts = append(ts, &llrp.Tag{PCBits: t.pc, EPC: t.id})
	}
	var b bytes.Buffer
	gob.NewEncoder(&b).Encode(&ts)
	return b.Bytes()
}

func runGobtags(w *world) {
	sc := w.sc
	const in = "/work/in.csv"
	out := sc.S["out"]
	if out == "" {
		out = "out.gob"
	}
	outPath := out
	if !strings.HasPrefix(out, "/") {
		outPath = "/work/" + out
	}
	fs := simrt.FS()
	want := refTags(sc.S["in"])
	size := int64(len(refGob(want)))
	fault := ""
	if sc.P["missing"] == 0 {
		fs.Put(in, []byte(sc.S["in"]))
	} else {
		fault = "the input file is missing"
	}
	if n := sc.P["old"]; n > 0 && outPath != "/work" && outPath != "/work/none/o.gob" {
		fs.Put(outPath, bytes.Repeat([]byte{0xa5}, int(n)))
	}
	if outPath == "/work" || outPath == "/work/none/o.gob" {
		fault = "the output cannot be created"
	}
	fs.ShortRead = sc.P["short"] == 1
	fs.AllFaults = "/work" // also for an output written under another name first
	if sc.P["openerr"] == 1 {
		fs.OpenErr[in] = syscall.EACCES
		fault = "opening the input fails"
	}
	if e := sc.P["readerr"]; e > 0 && e-1 <= int64(len(sc.S["in"])) {
		fs.ReadErrAt[in] = e - 1
		fault = fmt.Sprintf("reading the input fails at offset %d of %d", e-1, len(sc.S["in"]))
	}
	if sc.P["createrr"] == 1 {
		fs.CreateErr["*"] = syscall.EROFS
		fault = "creating the output fails"
	}
	// a complete output has at least this many bytes whatever its encoding
	if e := sc.P["writeerr"]; e > 0 {
		fs.WriteErr["*"] = syscall.EIO
		fs.WriteErrAt["*"] = e - 1
		if e-1 < size {
			fault = fmt.Sprintf("writing the output fails at offset %d of %d", e-1, size)
		}
	}
	if e := sc.P["room"]; e > 0 {
		used := int64(len(sc.S["in"]))
		if fs.Capacity = used + e - 1; fs.Capacity == 0 {
			fs.Capacity = 1
			e = 2
		}
		if e-1 < size {
			fault = fmt.Sprintf("the disk is full after %d of %d bytes", e-1, size)
		}
	}
	if e := sc.P["closeerr"]; e > 0 {
		fs.CloseErr["*"] = syscall.EDQUOT
		fs.CloseKeep["*"] = e - 1
		fault = fmt.Sprintf("closing the output reports that only %d of %d bytes are stored", e-1, size)
	}
	args := []string{"gobtags", in}
	if sc.S["out"] != "" {
		args = append(args, "--out", out)
	}
	said := func(p *simrt.Proc) bool { return bytes.Contains(p.Out, []byte("Saved")) }
	p := simrt.Spawn("gobtags", args, mains["gobtags"])
	if d := sc.P["kill"]; d > 0 {
		simrt.Sleep(d)
		if !p.Exited {
			simrt.Fault("process_killed")
			simrt.KillProc(p, "killed")
			simrt.Sleep(10 * ms)
			if !said(p) {
				return
			}
		}
	}
	end := simrt.NowNS() + 20*sec
	for !p.Exited && simrt.NowNS() < end {
		simrt.Sleep(5 * ms)
	}
	if !p.Exited {
		w.fail("C15", "hangs", "the converter does not end (%s)", fault)
		return
	}
	killed := sc.P["kill"] > 0 && !p.Crash && !said(p) && p.ExitCode != 0
	success := said(p) || !p.Crash && p.ExitCode == 0
	if !success {
		if fault == "" && !killed {
			w.fail("C15", "fails", "nothing fails but the converter ended: %s", exitText(p))
		}
		simrt.Probe("conversion_refused")
		return
	}
	how := fmt.Sprintf("exit code %d", p.ExitCode)
	if said(p) {
		how += ", reports success"
	}
	data, ok := fs.Get(outPath)
	if !ok {
		w.fail("C15", "no-output", "the converter ended (%s) but there is no output file (%s)", how, fault)
		return
	}
	var got llrp.Tags
	rd := bytes.NewReader(data)
	if err := gob.NewDecoder(rd).Decode(&got); err != nil {
		w.fail("C15", "unloadable", "the converter ended (%s) but the output of %d bytes cannot be loaded: %v (%s)", how, len(data), err, fault)
		return
	}
	if rd.Len() > 0 {
		w.fail("C15", "trailing", "the converter ended (%s) but the output has %d bytes after the tags (%s)", how, rd.Len(), fault)
	}
	simrt.Probe("output_compared")
	if len(got) != len(want) {
		w.fail("C15", "incomplete", "the converter ended (%s) with %d tags in the output and %d in the input (%s)", how, len(got), len(want), fault)
		return
	}
	for i, t := range got {
		if t == nil || t.PCBits != want[i].pc || !bytes.Equal(t.EPC, want[i].id) {
			w.fail("C15", "wrong-tag", "tag %d of the output is not that of the input (%s)", i, fault)
			return
		}
	}
	if simrt.FaultCount("disk_read_error") > 0 || simrt.FaultCount("disk_late_write_error") > 0 {
		w.fail("C15", "success-despite-error", "%s, but the converter ended with success (%s)", fault, how)
	}
}

// ---- aleec: the event capture server ----

func genALE(r *simrt.Rand, prop string) *Scenario {
	sc := &Scenario{Kind: "aleec", P: map[string]int64{}}
	genNet(r, sc)
	for n := 1 + r.Intn(5); n > 0; n-- {
		sc.Clients = append(sc.Clients, genClient(r))
	}
	if r.Bool(0.6) {
		sc.Clients = append(sc.Clients, Op{K: "good", A: 1 + r.Intn(2), B: r.Intn(1 << 30), N: 1000, T: int64(1000+r.Intn(8000)) * ms})
	}
	if r.Bool(0.05) {
		// one is silent for hours and still there
		sc.Clients = append(sc.Clients, Op{K: "good", S: "hours", A: 1, B: r.Intn(1 << 30), N: 1000, T: int64(r.Intn(3000)) * ms})
	}
	if prop == "C18" {
		sc.P["kept"] = 1
		sc.Clients[0].K, sc.Clients[0].S = []string{"churn", "visits", "visits"}[r.Intn(3)], ""
		sc.Clients[0].A = 60 + r.Intn(300)
	}
	genMaxConn(r, sc)
	if r.Bool(0.1) {
		sc.P["port"] = []int64{1, 323, 9324, 65535}[r.Intn(4)]
	}
	return sc
}

func genNet(r *simrt.Rand, sc *Scenario) {
	sc.P["seg"] = []int64{0, 1, 3, 7, 100, 1400}[r.Intn(6)]
	sc.P["delay"] = []int64{0, 1, 20, 200}[r.Intn(4)] * ms
	if r.Bool(0.5) {
		sc.P["short"] = 1
	}
	if sc.P["seg"] > 0 && sc.P["seg"] < 100 {
		sc.P["delay"] = min64(sc.P["delay"], ms)
	}
}

func runALE(w *world) {
	sc := w.sc
	f := &fcWorld{world: w, broken: -1, openAt: never}
	nw := simrt.Net()
	nw.MaxSeg = int(sc.P["seg"])
	nw.MaxDelay = sc.P["delay"]
	nw.Short = sc.P["short"] == 1
	args := []string{"ale-ec"}
	addr := "127.0.0.1:9323"
	if n := sc.P["port"]; n != 0 {
		addr = fmt.Sprintf("127.0.0.1:%d", n)
		args = append(args, "--port", fmt.Sprint(n))
	}
	nw.MaxAccepted = map[string]int{addr: int(sc.P["maxconn"])}
	p := simrt.Spawn("ale-ec", args, mains["ale-ec"])
	for i := range sc.Clients {
		cl := &client{op: &sc.Clients[i], addr: addr, prop: "C12"}
		f.clients = append(f.clients, cl)
		simrt.Spawn(fmt.Sprintf("client%d", i), []string{"client"}, func() { f.client(cl) }).NoStall = true
	}
	for {
		simrt.Sleep(25 * ms)
		for _, cl := range f.clients {
			if cl.op.S == "hours" && simrt.NowNS() > 900*sec && !p.Exited {
				simrt.Sleep(5 * sec)
			}
		}
		now := simrt.NowNS()
		if p.Exited || now > 100*3600*sec {
			break
		}
		idle := now > 3*sec
		for _, cl := range f.clients {
			if !cl.done && cl.err == "" && (cl.begin == 0 || now < cl.begin+cl.limit()+10*sec) {
				idle = false
			}
		}
		if idle {
			break
		}
	}
	simrt.Sleep(200*ms + sc.P["delay"])
	if p.Exited {
		sig := "ale-exit:" + exitKind(p)
		if p.Stack != "" {
			sig = "crash:" + crashSite(p)
		}
		w.fail("C12", sig, "the event capture server ended at %s: %s", tm(p.ExitTime), exitText(p))
		return
	}
	f.judgeLeft(p, simrt.HTTPWorld{})
	f.judgeClients(p, simrt.NowNS(), 0)
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}
