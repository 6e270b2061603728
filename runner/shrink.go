package main

import (
	"fmt"
	"time"
)

// shrinkMain reproduces a violation from its seed, makes scenario and schedule
// smaller while it still shows, and writes the replay file.
func shrinkMain(prop string, seed uint64, sig, path string, secs float64) int {
	sc := genScenario(prop, seed)
	o := runScenario(sc, false)
	if findSig(o, prop, sig) == nil {
		fmt.Printf("seed %d does not give %s %s\n", seed, prop, sig)
		return 3
	}
	end := time.Now().Add(time.Duration(secs * float64(time.Second)))
	size0 := fmt.Sprintf("%d ops, %d subscribers, %d decisions", len(sc.Ops), len(sc.Subs), len(o.Res.Tape))
	tries := 0
	try := func(c *Scenario) bool {
		if time.Now().After(end) {
			return false
		}
		tries++
		petWatchdog("shrink")
		return findSig(runScenario(c, false), prop, sig) != nil
	}
	better := func(c *Scenario) {
		if try(c) {
			sc = c
		}
	}
	for pass := 0; pass < 3; pass++ {
		before := tries
		// plainer scheduling
		if sc.Sched.Gap != 0 {
			c := sc.clone()
			c.Sched.Gap = 0
			better(c)
		}
		if sc.Sched.Strategy != 1 {
			c := sc.clone()
			c.Sched.Strategy = 1
			better(c)
		}
		if sc.Sched.NowJitter != 0 {
			c := sc.clone()
			c.Sched.NowJitter = 0
			better(c)
		}
		if sc.Sched.Stall != 0 {
			c := sc.clone()
			c.Sched.Stall = 0
			better(c)
		}
		if sc.Sched.Gran != 0 {
			c := sc.clone()
			c.Sched.Gran = 0
			better(c)
		}
		for i := 0; i < len(sc.Sched.Jumps); {
			c := sc.clone()
			c.Sched.Jumps = append(c.Sched.Jumps[:i], c.Sched.Jumps[i+1:]...)
			if try(c) {
				sc = c
			} else {
				i++
			}
		}
		// fewer steps, in halves then singly
		for n := (len(sc.Ops) + 1) / 2; n >= 1; n /= 2 {
			for i := 0; i < len(sc.Ops); {
				c := sc.clone()
				j := i + n
				if j > len(c.Ops) {
					j = len(c.Ops)
				}
				c.Ops = append(c.Ops[:i], c.Ops[j:]...)
				if try(c) {
					sc = c
				} else {
					i += n
				}
			}
		}
		for i := 0; i < len(sc.Clients); {
			c := sc.clone()
			c.Clients = append(c.Clients[:i], c.Clients[i+1:]...)
			if try(c) {
				sc = c
			} else {
				i++
			}
		}
		for i := 0; i < len(sc.Subs); {
			c := sc.clone()
			c.Subs = append(c.Subs[:i], c.Subs[i+1:]...)
			if try(c) {
				sc = c
			} else {
				i++
			}
		}
		for i := 0; i < len(sc.Subs); i++ {
			for j := 0; j < len(sc.Subs[i].Pats) && len(sc.Subs[i].Pats) > 1; {
				c := sc.clone()
				c.Subs[i].Pats = append(c.Subs[i].Pats[:j], c.Subs[i].Pats[j+1:]...)
				if try(c) {
					sc = c
				} else {
					j++
				}
			}
		}
		for _, k := range sortedKeys(sc.P) {
			if sc.P[k] != 0 && k != "interval" {
				c := sc.clone()
				delete(c.P, k)
				better(c)
			}
		}
		for i := range sc.Ops {
			if sc.Ops[i].T != 0 {
				c := sc.clone()
				c.Ops[i].T = 0
				better(c)
			}
			for len(sc.Ops[i].L) > 1 {
				c := sc.clone()
				c.Ops[i].L = c.Ops[i].L[:len(c.Ops[i].L)/2]
				if !try(c) {
					break
				}
				sc = c
			}
		}
		if tries == before || time.Now().After(end) {
			break
		}
	}
	// unused tags
	// the schedule: record it, then cut its tail and calm its decisions
	o = runScenario(sc, false)
	c := sc.clone()
	c.Sched.UseTape = true
	c.Sched.Tape = o.Res.Tape
	if findSig(runScenario(c, false), prop, sig) != nil {
		sc = c
		end = time.Now().Add(time.Duration(secs * float64(time.Second) / 2))
		for n := len(sc.Sched.Tape); n > 0; n /= 2 {
			for {
				if len(sc.Sched.Tape) < n {
					break
				}
				c := sc.clone()
				c.Sched.Tape = c.Sched.Tape[:len(c.Sched.Tape)-n]
				if !try(c) {
					break
				}
				sc = c
			}
		}
		for n := (len(sc.Sched.Tape) + 1) / 2; n >= 1; n /= 2 {
			for i := 0; i < len(sc.Sched.Tape); i += n {
				c := sc.clone()
				any := false
				for j := i; j < i+n && j < len(c.Sched.Tape); j++ {
					if c.Sched.Tape[j] != 0 {
						any = true
						c.Sched.Tape[j] = 0
					}
				}
				if any && try(c) {
					sc = c
				}
			}
			if time.Now().After(end) {
				break
			}
		}
	}
	nz := 0
	for _, x := range sc.Sched.Tape {
		if x != 0 {
			nz++
		}
	}
	note := fmt.Sprintf("from %s to %d ops, %d subscribers, %d decisions (%d not zero) in %d executions", size0, len(sc.Ops), len(sc.Subs), len(sc.Sched.Tape), nz, tries)
	if _, err := writeReplay(path, prop, sig, sc, note); err != nil {
		fmt.Println(err)
		return 3
	}
	fmt.Println(note)
	return 0
}

func sortedKeys(m map[string]int64) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j] < out[i] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}
