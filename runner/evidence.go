package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
)

// which parts of a scenario kind run the repository's code and which are models
var realParts = map[string][2][]string{
	"engine": {
		{"filtering: the four engines, byte subscriptions, subscription and engine images (gob)", "tdt", "scheme", "go-llrp types and binutil", "encoding/gob"},
		{"none: the driver calls the engines directly; goroutines are scheduled by the simulator"},
	},
	"factory": {
		{"filtering: EngineFactory, EngineGenerator, the four engines, management messages", "tdt", "scheme"},
		{"build and search durations of the engines are added by a wrapper", "clock, timers, channels, locks, maps order: the simulator", "the reader is a goroutine that calls Search"},
	},
	"fc": {
		{"cmd/gosstrak-fc from main() on: kingpin, startup, LLRP session, management port", "filtering, monitoring, tdt, scheme", "go-llrp, moby/spdystream, influxdb1-client (HTTP client of the standard library replaced by the simulated transport)"},
		{"LLRP reader: model", "statistics database: model", "management clients: model (with the real spdystream client side)", "TCP, HTTP transport, clock, timers, files, goroutine scheduler: the simulator"},
	},
	"stat": {
		{"monitoring.StatManager", "influxdb1-client"},
		{"statistics database: model", "HTTP transport, clock, timers: the simulator"},
	},
	"csv": {
		{"filtering.LoadSubscriptionsFromCSVFile", "encoding/csv, bufio", "in part of the runs cmd/gosstrak-fc from main() on"},
		{"file system: the simulator"},
	},
	"change": {
		{"the engines (search, adding, deleting, storing, restoring)", "filtering, tdt"},
		{"a crash discards the engines; only stored images survive"},
	},
	"gobtags": {
		{"cmd/gobtags from main() on", "go-llrp tag loading", "encoding/csv, encoding/gob"},
		{"file system: the simulator"},
	},
	"aleec": {
		{"cmd/ale-ec from main() on", "moby/spdystream"},
		{"clients: model (with the real spdystream client side)", "TCP, clock, goroutine scheduler: the simulator"},
	},
}

func scenarioHash(sc *Scenario) uint64 {
	c := *sc
	c.Seed = 0
	c.Sched.Seed, c.Sched.Tape = 0, nil
	b, _ := json.Marshal(&c)
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// sample writes a run down in a few lines.
func sample(sc *Scenario, o *RunOut) string {
	var ops []string
	for i, op := range sc.Ops {
		if i == 12 {
			ops = append(ops, fmt.Sprintf("... %d more", len(sc.Ops)-i))
			break
		}
		op.D = nil
		if len(op.L) > 8 {
			op.L = op.L[:8]
		}
		b, _ := json.Marshal(op)
		ops = append(ops, string(b))
	}
	st := o.Res.Stats
	return clip(fmt.Sprintf("seed %d, %s scenario, parameters %v, strategy %d, preemption gap %d: %d subscribers, %d tags, %d clients, database trouble %v, steps %v; %d goroutines, %d switches, %d decisions, %.3f s simulated, faults %v, reached %v",
		sc.Seed, sc.Kind, sc.P, sc.Sched.Strategy, sc.Sched.Gap, len(sc.Subs), len(sc.Tags), len(sc.Clients), sc.Infl, ops, st.Gs, st.Switches, st.Decisions, float64(st.SimTime)/1e9, st.Faults, st.Probes), 3000)
}

func writeEvidence(path, prop, tier string, seed uint64, r *Report, wall, search float64, violations, workers int) {
	hours := search / 3600
	if hours <= 0 {
		hours = 1e-9
	}
	realC, stub := map[string]bool{}, map[string]bool{}
	for k := range r.Kinds {
		for _, x := range realParts[k][0] {
			realC[x] = true
		}
		for _, x := range realParts[k][1] {
			stub[x] = true
		}
	}
	list := func(m map[string]bool) []string {
		var out []string
		for x := range m {
			out = append(out, x)
		}
		sort.Strings(out)
		return out
	}
	samples := r.Samples
	if len(samples) > 4 {
		samples = samples[:4]
	}
	if samples == nil {
		samples = []string{}
	}
	cov := map[string]any{
		"evaluations":                  r.Runs,
		"distinct_nontrivial":          len(r.Distinct),
		"rule":                         "One evaluation is one simulated run of a scenario generated from its seed (configuration, inputs, fault plan, scheduling regime) under a seeded scheduler. It is non-trivial if the code under test reached at least one of the named points in reached (for instance an answer compared with the reference model, a report stored, a startup refused). Two runs are distinct if their scenario or the sequence of their scheduling and timing decisions differs (hashes).",
		"samples":                      samples,
		"distinct_schedules":           len(r.Hashes),
		"distinct_scenarios":           len(r.Inputs),
		"runs_per_hour":                int64(float64(r.Runs) / hours),
		"seeds_per_hour":               int64(float64(r.Runs) / hours),
		"simulated_seconds":            float64(r.SimNS) / 1e9,
		"simulated_seconds_per_second": float64(r.SimNS) / 1e9 / search,
		"workers":                      workers,
		"scenario_kinds":               r.Kinds,
		"scheduler_regimes":            r.Strats,
		"goroutine_switches":           r.Switches,
		"scheduling_points":            r.Yields,
		"decisions":                    r.Decs,
		"goroutines":                   r.Gs,
		"largest_run_points":           r.MaxSteps,
		"faults_injected":              r.Faults,
		"reached":                      r.Probes,
		"run_ends":                     r.Ends,
		"runs_executed_twice":          r.Checked,
		"runs_not_repeating_exactly":   len(r.Warn),
		"violations_elsewhere":         r.Other,
		"real_components":              list(realC),
		"stub_components":              list(stub),
	}
	ev := map[string]any{
		"property":   prop,
		"tier":       tier,
		"seed":       seed,
		"level":      "exploration",
		"coverage":   cov,
		"wall_s":     wall,
		"violations": violations,
		"assumptions": []string{
			"Goroutine switches happen at scheduling points the instrumentation inserts (function entries, loop iterations, before every statement that touches a channel, lock, timer, file, connection or shared variable), under a sequentially consistent memory model.",
			"The models of reader, database, clients, network and file system behave as real ones in the respects listed in DESIGN.md.",
			"A clean batch is evidence over the sampled runs, not a proof.",
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		os.MkdirAll(filepath.Dir(path), 0755)
		err = os.WriteFile(path, append(b, '\n'), 0644)
	}
	if err != nil {
		fmt.Println("cannot write the evidence file:", err)
	}
}
