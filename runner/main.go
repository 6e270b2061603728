package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/iomz/gosstrak/verif/simrt"
)

// filled by the generated zz_registry.go
var resets []func()
var mains = map[string]func(){}

func init() {
	scenarioKinds = map[string]kind{
		"engine":  {"C01 C02 C13 C14 C16", genEngine, runEngine},
		"factory": {"C01 C03 C04 C05 C06 C13 C14", genFactory, runFactory},
	}
	registerMore()
}

// which scenarios search for violations of a property, by weight
var plan = map[string][]string{
	"C01": {"engine", "engine", "factory", "factory", "factory", "fc", "fc"},
	"C02": {"engine"},
	"C03": {"factory", "factory", "fc"},
	"C04": {"factory"},
	"C05": {"factory"},
	"C06": {"factory"},
	"C07": {"fc", "fc", "stat"},
	"C08": {"stat", "fc"},
	"C09": {"fc"},
	"C10": {"fc"},
	"C11": {"fc"},
	"C12": {"fc", "aleec"},
	"C13": {"engine", "factory", "fc"},
	"C14": {"engine", "csv", "csv", "factory"},
	"C15": {"gobtags"},
	"C16": {"engine"},
	"C17": {"change"},
	"C18": {"fc", "fc", "aleec"},
}

func genScenario(prop string, seed uint64) *Scenario {
	r := simrt.NewRand(seed)
	ks := plan[prop]
	if k := os.Getenv("VERIF_KIND"); k != "" {
		ks = []string{k}
	}
	k := ks[int(seed%uint64(len(ks)))]
	sc := scenarioKinds[k].gen(r, prop)
	sc.Seed = seed
	sc.Sched = swarm(r, seed)
	for _, op := range sc.Ops {
		if op.K == "mass" || op.K == "many" {
			sc.Sched.MaxSteps += 3_000 * op.N
		}
	}
	return sc
}

// Report of a worker for one chunk of seeds.
type Report struct {
	Runs     int64
	Events   int64
	Switches int64
	Yields   int64
	Decs     int64
	Gs       int64
	SimNS    int64
	Checked  int64 // determinism re-executions
	Faults   map[string]int64
	Probes   map[string]int64
	Kinds    map[string]int64
	Ends     map[string]int64
	Strats   map[string]int64
	Hashes   map[uint64]bool
	Inputs   map[uint64]bool
	Distinct map[uint64]bool
	Found    []Found
	Other    map[string]int64 // violations of other properties met on the way, by signature
	MaxSteps int64
	Err      string
	Warn     []string
	Samples  []string
}

type Found struct {
	Seed uint64
	V    Violation
	Sc   *Scenario
}

func newReport() *Report {
	return &Report{Faults: map[string]int64{}, Probes: map[string]int64{}, Kinds: map[string]int64{}, Ends: map[string]int64{}, Strats: map[string]int64{}, Hashes: map[uint64]bool{}, Inputs: map[uint64]bool{}, Distinct: map[uint64]bool{}, Other: map[string]int64{}}
}

func (r *Report) add(o *Report) {
	r.Runs += o.Runs
	r.Events += o.Events
	r.Switches += o.Switches
	r.Yields += o.Yields
	r.Decs += o.Decs
	r.Gs += o.Gs
	r.SimNS += o.SimNS
	r.Checked += o.Checked
	if o.MaxSteps > r.MaxSteps {
		r.MaxSteps = o.MaxSteps
	}
	for _, p := range []struct{ a, b map[string]int64 }{{r.Faults, o.Faults}, {r.Probes, o.Probes}, {r.Kinds, o.Kinds}, {r.Ends, o.Ends}, {r.Strats, o.Strats}, {r.Other, o.Other}} {
		for k, v := range p.b {
			p.a[k] += v
		}
	}
	for h := range o.Hashes {
		r.Hashes[h] = true
	}
	for h := range o.Inputs {
		r.Inputs[h] = true
	}
	for h := range o.Distinct {
		r.Distinct[h] = true
	}
	r.Found = append(r.Found, o.Found...)
	if o.Err != "" && r.Err == "" {
		r.Err = o.Err
	}
	if len(r.Warn) < 5 {
		r.Warn = append(r.Warn, o.Warn...)
	}
	if len(r.Samples) < 5 {
		r.Samples = append(r.Samples, o.Samples...)
	}
}

func sameOut(a, b *RunOut) bool {
	if a.Res.Stats.SchedHash != b.Res.Stats.SchedHash || a.Res.Stats.SimTime != b.Res.Stats.SimTime || a.Res.Stats.Decisions != b.Res.Stats.Decisions || len(a.Viol) != len(b.Viol) {
		return false
	}
	for i := range a.Viol {
		if a.Viol[i].Sig != b.Viol[i].Sig || a.Viol[i].At != b.Viol[i].At {
			return false
		}
	}
	return true
}

// worker runs seeds first, first+step, ... and writes a report line per chunk.
func worker(prop string, first, step uint64, dur time.Duration, maxRuns int64, known map[string]bool, status string) {
	runtime.GOMAXPROCS(1)
	var stat *os.File
	if status != "" {
		stat, _ = os.OpenFile(status, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
	}
	debug.SetGCPercent(200)
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	end := time.Now().Add(dur)
	seed := first
	var total int64
	found := map[string]bool{}
	for time.Now().Before(end) && (maxRuns == 0 || total < maxRuns) {
		rep := newReport()
		t0 := time.Now()
		for time.Since(t0) < time.Second && (maxRuns == 0 || total < maxRuns) {
			if stat != nil {
				stat.WriteAt([]byte(fmt.Sprintf("%020d\n", seed)), 0)
			}
			petWatchdog(fmt.Sprintf("seed=%d", seed))
			sc := genScenario(prop, seed)
			o := runScenario(sc, false)
			total++
			rep.Runs++
			st := o.Res.Stats
			rep.Events += st.Events
			rep.Switches += st.Switches
			rep.Yields += st.Yields
			rep.Decs += st.Decisions
			rep.Gs += st.Gs
			rep.SimNS += st.SimTime
			if st.Yields > rep.MaxSteps {
				rep.MaxSteps = st.Yields
			}
			for k, v := range st.Faults {
				rep.Faults[k] += v
			}
			for k, v := range st.Probes {
				rep.Probes[k] += v
			}
			rep.Kinds[sc.Kind]++
			rep.Ends[o.Res.End]++
			rep.Strats[fmt.Sprintf("strategy=%d gap=%d", sc.Sched.Strategy, sc.Sched.Gap)]++
			rep.Hashes[st.SchedHash] = true
			ih := scenarioHash(sc)
			rep.Inputs[ih] = true
			if len(st.Probes) > 0 {
				rep.Distinct[ih*0x9e3779b97f4a7c15^st.SchedHash] = true
			}
			var mine *Violation
			for i := range o.Viol {
				if o.Viol[i].has(prop) && !known[prop+" "+o.Viol[i].Sig] && !(anyProp && known[" "+o.Viol[i].Sig]) {
					if mine == nil {
						mine = &o.Viol[i]
					}
				} else {
					rep.Other[strings.Join(o.Viol[i].Props, "+")+" "+o.Viol[i].Sig]++
				}
			}
			if mine != nil || total%50 == 1 {
				// the same scenario with the recorded decisions must repeat exactly
				sc2 := sc.clone()
				sc2.Sched.UseTape = true
				sc2.Sched.Tape = o.Res.Tape
				o2 := runScenario(sc2, false)
				rep.Checked++
				if !sameOut(o, o2) {
					rep.Warn = append(rep.Warn, fmt.Sprintf("seed %d did not repeat exactly: %+v / %+v", seed, o.Res.Stats, o2.Res.Stats))
				}
				if mine != nil && !found[mine.Sig] {
					found[mine.Sig] = true
					rep.Found = append(rep.Found, Found{seed, *mine, nil})
				}
			}
			if total == 3 || total == 200 {
				rep.Samples = append(rep.Samples, sample(sc, o))
			}
			seed += step
		}
		if err := enc.Encode(rep); err != nil {
			os.Exit(6)
		}
		out.Flush()
	}
	out.Flush()
}

// Replay is the replay file.
type Replay struct {
	Property  string    `json:"property"`
	Sig       string    `json:"sig"`
	Message   string    `json:"message"`
	Seed      uint64    `json:"seed"`
	Scenario  *Scenario `json:"scenario"`
	SchedHash string    `json:"sched_hash"`
	At        int64     `json:"at_ns"`
	Shrunk    string    `json:"shrunk,omitempty"`
	Trace     []string  `json:"trace,omitempty"`
}

func findSig(o *RunOut, prop, sig string) *Violation {
	for i := range o.Viol {
		if o.Viol[i].has(prop) && o.Viol[i].Sig == sig {
			return &o.Viol[i]
		}
	}
	return nil
}

func writeReplay(path, prop, sig string, sc *Scenario, note string) (*Replay, error) {
	o := runScenario(sc, true)
	v := findSig(o, prop, sig)
	if v == nil {
		return nil, fmt.Errorf("violation %s %s does not show again", prop, sig)
	}
	tr := o.Res.TraceLog
	if len(tr) > 400 {
		tr = append(append([]string{}, tr[:150]...), append([]string{fmt.Sprintf("... %d lines ...", len(tr)-400)}, tr[len(tr)-250:]...)...)
	}
	rp := &Replay{Property: prop, Sig: sig, Message: v.Msg, Seed: sc.Seed, Scenario: sc, SchedHash: fmt.Sprintf("%016x", o.Res.Stats.SchedHash), At: v.At, Shrunk: note, Trace: tr}
	b, err := json.MarshalIndent(rp, "", " ")
	if err != nil {
		return nil, err
	}
	os.MkdirAll(filepath.Dir(path), 0755)
	return rp, os.WriteFile(path, b, 0644)
}

func replay(path string, verbose, child bool) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	rp := &Replay{}
	if err := json.Unmarshal(b, rp); err != nil {
		fmt.Println(err)
		return 2
	}
	if strings.HasPrefix(rp.Sig, "fatal:") && !child {
		f := dies([]string{"-mode", "replay", "-child", "-file", path})
		if f == nil {
			fmt.Printf("replay %s: property %s holds (%s does not occur)\n", path, rp.Property, rp.Sig)
			return 0
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n", rp.Property, path, f.msg)
		return 1
	}
	o := runScenario(rp.Scenario, verbose)
	if verbose {
		for _, l := range o.Res.TraceLog {
			fmt.Println(l)
		}
		fmt.Printf("end=%s stats=%+v\n", o.Res.End, o.Res.Stats)
	}
	for _, v := range o.Viol {
		fmt.Printf("violation %s %s: %s\n", strings.Join(v.Props, ","), v.Sig, v.Msg)
	}
	v := findSig(o, rp.Property, rp.Sig)
	if v == nil {
		fmt.Printf("replay %s: property %s holds (%s does not occur)\n", path, rp.Property, rp.Sig)
		return 0
	}
	same := "same schedule"
	if h := fmt.Sprintf("%016x", o.Res.Stats.SchedHash); h != rp.SchedHash || v.At != rp.At {
		same = fmt.Sprintf("schedule hash %s at %d, recorded %s at %d", h, v.At, rp.SchedHash, rp.At)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n  %s (%s)\n", rp.Property, path, v.Msg, same)
	return 1
}

// Known findings: "finding: property=<id> sig=<sig> replay=<file> <text>".
type Known struct {
	Prop, Sig, File, Text string
}

func loadKnown(path string) (out []Known) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		k := Known{}
		var rest []string
		for _, f := range strings.Fields(l[len("finding: "):]) {
			switch {
			case k.Text == "" && strings.HasPrefix(f, "property=") && len(rest) == 0:
				k.Prop = f[9:]
			case strings.HasPrefix(f, "sig=") && len(rest) == 0:
				k.Sig = f[4:]
			case strings.HasPrefix(f, "replay=") && len(rest) == 0:
				k.File = f[7:]
			default:
				rest = append(rest, f)
			}
		}
		k.Text = strings.Join(rest, " ")
		out = append(out, k)
	}
	return
}

func main() {
	mode := flag.String("mode", "check", "check, worker, replay, one, shrink")
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "")
	seedF := flag.Uint64("seed", 1, "")
	first := flag.Uint64("first", 0, "")
	step := flag.Uint64("step", 1, "")
	secs := flag.Float64("secs", 30, "")
	maxRuns := flag.Int64("runs", 0, "")
	workers := flag.Int("workers", 0, "")
	verif := flag.String("verif", "/verif", "")
	file := flag.String("file", "", "")
	sig := flag.String("sig", "", "")
	verbose := flag.Bool("v", false, "")
	evOut := flag.String("evidence", "", "")
	replays := flag.String("replays", "", "")
	child := flag.Bool("child", false, "")
	status := flag.String("status", "", "")
	flag.Parse()
	known := map[string]bool{}
	var ks []Known
	for _, k := range loadKnown(filepath.Join(*verif, "known_findings.txt")) {
		ks = append(ks, k)
		known[k.Prop+" "+k.Sig] = true
		known[" "+k.Sig] = true
	}
	if *mode != "check" {
		startWatchdog()
	}
	switch *mode {
	case "worker":
		worker(*prop, *first, *step, time.Duration(*secs*float64(time.Second)), *maxRuns, known, *status)
	case "replay":
		os.Exit(replay(*file, *verbose, *child))
	case "one":
		sc := genScenario(*prop, *first)
		t0 := time.Now()
		o := runScenario(sc, *verbose)
		if *verbose {
			for _, l := range o.Res.TraceLog {
				fmt.Println(l)
			}
			b, _ := json.Marshal(sc)
			fmt.Println(string(b))
		}
		fmt.Printf("kind=%s end=%s real=%v stats=%+v\n", sc.Kind, o.Res.End, time.Since(t0), o.Res.Stats)
		for _, v := range o.Viol {
			fmt.Printf("violation %s %s: %s\n", strings.Join(v.Props, ","), v.Sig, v.Msg)
		}
	case "shrink":
		os.Exit(shrinkMain(*prop, *first, *sig, *file, *secs))
	case "check":
		if *workers == 0 {
			*workers = runtime.NumCPU()
		}
		os.Exit(check(*prop, *tier, *seedF, *secs, *maxRuns, *workers, *verif, ks, *evOut, *replays))
	}
}

func mixSeed(seed uint64, prop string) uint64 {
	h := seed * 0x9e3779b97f4a7c15
	for _, c := range prop {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h >> 20
}

func check(prop, tier string, seed uint64, secs float64, maxRuns int64, workers int, verif string, ks []Known, evOut, repDir string) int {
	t0 := time.Now()
	if plan[prop] == nil {
		fmt.Println("no such property:", prop)
		return 2
	}
	self, _ := os.Executable()
	base := mixSeed(seed, prop)
	total := newReport()
	var mu sync.Mutex
	var wg sync.WaitGroup
	stop := make(chan struct{})
	var once sync.Once
	var deaths []death
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			args := []string{"-mode", "worker", "-prop", prop, "-verif", verif, "-first", fmt.Sprint(base + uint64(i)), "-step", fmt.Sprint(workers), "-secs", fmt.Sprint(secs)}
			status := filepath.Join(repDir, fmt.Sprintf(".status-%s-%d", prop, i))
			if repDir != "" {
				os.MkdirAll(repDir, 0755)
				args = append(args, "-status", status)
			}
			if maxRuns > 0 {
				args = append(args, "-runs", fmt.Sprint(maxRuns/int64(workers)+1))
			}
			cmd := exec.Command(self, args...)
			var stderr strings.Builder
			cmd.Stderr = &stderr
			pipe, err := cmd.StdoutPipe()
			if err == nil {
				err = cmd.Start()
			}
			if err != nil {
				mu.Lock()
				total.Err = err.Error()
				mu.Unlock()
				return
			}
			go func() {
				<-stop
				cmd.Process.Kill()
			}()
			dec := json.NewDecoder(bufio.NewReaderSize(pipe, 1<<20))
			stopped := false
			for {
				r := newReport()
				if err := dec.Decode(r); err != nil {
					break
				}
				mu.Lock()
				total.add(r)
				if len(r.Found) > 0 || r.Err != "" {
					stopped = true
					once.Do(func() { close(stop) })
				}
				mu.Unlock()
			}
			err = cmd.Wait()
			select {
			case <-stop:
				stopped = true
			default:
			}
			if err != nil && !stopped {
				mu.Lock()
				if len(deaths) == 0 {
					deaths = append(deaths, death{i, err, stderr.String(), status})
				} else {
					os.Remove(status)
				}
				mu.Unlock()
				once.Do(func() { close(stop) })
			}
		}(i)
	}
	wg.Wait()
	searchWall := time.Since(t0)
	once.Do(func() { close(stop) })
	code := 0
	var out []string
	violations := 0
	report := func(seed uint64, sig, path string) {
		violations++
		out = append(out, fmt.Sprintf("VIOLATION property=%s replay=%s", prop, path), "  "+lastMessage(path), fmt.Sprintf("  seed=%d sig=%s", seed, sig))
	}
	for _, d := range deaths {
		seed, ok := readStatus(d.status)
		if !ok {
			total.Err = fmt.Sprintf("worker %d: %v\n%s", d.worker, d.err, clip(d.stderr, 3000))
			continue
		}
		f := dies([]string{"-mode", "one", "-prop", prop, "-first", fmt.Sprint(seed)})
		sc := genScenario(prop, seed)
		if f == nil || !strings.Contains(" "+scenarioKinds[sc.Kind].props+" ", " "+prop+" ") {
			total.Err = fmt.Sprintf("worker %d, seed %d: %v\n%s", d.worker, seed, d.err, clip(d.stderr, 3000))
			continue
		}
		path := filepath.Join(repDir, fmt.Sprintf("%s-%d-%s.json", prop, seed, clean(f.sig)))
		rp := &Replay{Property: prop, Sig: f.sig, Message: f.msg, Seed: seed, Scenario: sc, Shrunk: "no"}
		b, _ := json.MarshalIndent(rp, "", " ")
		if err := os.WriteFile(path, b, 0644); err != nil {
			total.Err = err.Error()
			continue
		}
		report(seed, f.sig, path)
	}
	for i := 0; i < workers; i++ {
		os.Remove(filepath.Join(repDir, fmt.Sprintf(".status-%s-%d", prop, i)))
	}
	if len(total.Found) > 0 {
		sort.Slice(total.Found, func(i, j int) bool { return total.Found[i].Seed < total.Found[j].Seed })
		seen := map[string]bool{}
		for _, f := range total.Found {
			if seen[f.V.Sig] || len(seen) >= 3 {
				continue
			}
			seen[f.V.Sig] = true
			path := filepath.Join(repDir, fmt.Sprintf("%s-%d-%s.json", prop, f.Seed, clean(f.V.Sig)))
			ok := false
			var last []byte
			for try := 0; try < 4 && !ok; try++ {
				secs := "25"
				if try > 0 {
					secs = "0" // as it was found
				}
				cmd := exec.Command(self, "-mode", "shrink", "-prop", prop, "-verif", verif, "-first", fmt.Sprint(f.Seed), "-sig", f.V.Sig, "-file", path, "-secs", secs)
				o, err := cmd.CombinedOutput()
				last = o
				if err != nil {
					continue
				}
				// a fresh process must reproduce it from the file
				last, _ = exec.Command(self, "-mode", "replay", "-file", path, "-verif", verif).CombinedOutput()
				ok = strings.Contains(string(last), "VIOLATION property="+prop)
			}
			if !ok {
				fmt.Printf("ERROR: seed %d %s (%s) does not reproduce:\n%s\n", f.Seed, f.V.Sig, f.V.Msg, clip(string(last), 2000))
				code = 3
				continue
			}
			report(f.Seed, f.V.Sig, path)
		}
	}
	for _, w := range total.Warn {
		fmt.Println("warning:", w)
	}
	if total.Err != "" {
		fmt.Println("ERROR:", total.Err)
		code = 3
	}
	if violations > 0 {
		code = 1
	}
	// listed findings are replayed every time
	for _, k := range ks {
		if k.Prop != prop {
			continue
		}
		p := k.File
		if !filepath.IsAbs(p) {
			p = filepath.Join(verif, p)
		}
		o, _ := exec.Command(self, "-mode", "replay", "-file", p, "-verif", verif).Output()
		if strings.Contains(string(o), "VIOLATION property="+prop) {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.Text)
		} else {
			fmt.Printf("note: the listed finding %s %s does not occur on this tree\n", k.Prop, k.Sig)
		}
	}
	for _, l := range out {
		fmt.Println(l)
	}
	wall := time.Since(t0).Seconds()
	if evOut != "" {
		writeEvidence(evOut, prop, tier, seed, total, wall, searchWall.Seconds(), violations, workers)
	}
	fmt.Printf("%s %s: %d runs (%d distinct schedules), %.0f s simulated, %.1f s wall, violations=%d\n", prop, tier, total.Runs, len(total.Hashes), float64(total.SimNS)/1e9, wall, violations)
	if len(total.Other) > 0 {
		var ks []string
		for k, v := range total.Other {
			ks = append(ks, fmt.Sprintf("%s (%d)", k, v))
		}
		sort.Strings(ks)
		fmt.Println("  also met (other properties or listed findings):", strings.Join(ks, "; "))
	}
	return code
}

func lastMessage(path string) string {
	b, _ := os.ReadFile(path)
	r := &Replay{}
	json.Unmarshal(b, r)
	return r.Message
}

func clean(s string) string {
	b := []byte(s)
	for i, c := range b {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-') {
			b[i] = '_'
		}
	}
	if len(b) > 60 {
		b = b[:60]
	}
	return string(b)
}
