package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"
)

// Some ways for the code under test to fail end the whole simulating process:
// a stack that grows without bound, a loop without a scheduling point, memory
// without bound. The process that runs scenarios watches itself for these, and
// the parent runs the scenario again in a child to attribute the death.

const (
	exitStuck  = 5
	exitMemory = 7
	stuckAfter = 40 * time.Second
	memLimit   = 3 << 30
)

var wdAt atomic.Int64
var wdWhat atomic.Value

func petWatchdog(what string) {
	wdAt.Store(time.Now().UnixNano())
	wdWhat.Store(what)
}

func startWatchdog() {
	debug.SetMaxStack(128 << 20)
	petWatchdog("start")
	go func() {
		for {
			time.Sleep(100 * time.Millisecond)
			if time.Now().UnixNano()-wdAt.Load() > int64(stuckAfter) {
				fmt.Fprintf(os.Stderr, "STUCK %v\n", wdWhat.Load())
				os.Exit(exitStuck)
			}
			b, err := os.ReadFile("/proc/self/statm")
			if err != nil {
				continue
			}
			var size, rss int64
			fmt.Sscan(string(b), &size, &rss)
			if rss*int64(os.Getpagesize()) > memLimit {
				fmt.Fprintf(os.Stderr, "MEMORY %v\n", wdWhat.Load())
				os.Exit(exitMemory)
			}
		}
	}()
}

type death struct {
	worker int
	err    error
	stderr string
	status string
}

type fatal struct{ sig, msg string }

// dies runs this program with args and tells how the code under test killed it.
func dies(args []string) *fatal {
	self, _ := os.Executable()
	cmd := exec.Command(self, args...)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Start(); err != nil {
		return nil
	}
	tm := time.AfterFunc(3*stuckAfter, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	tm.Stop()
	if err == nil {
		return nil
	}
	s := errb.String()
	switch cmd.ProcessState.ExitCode() {
	case exitStuck:
		return &fatal{"fatal:stuck", "the code under test does not come back: a run makes no progress for " + stuckAfter.String() + " of real time"}
	case exitMemory:
		return &fatal{"fatal:memory", "the code under test takes memory without bound"}
	}
	if i := strings.Index(s, "fatal error: "); i >= 0 {
		l := s[i:]
		if j := strings.IndexByte(l, '\n'); j > 0 {
			l = l[:j]
		}
		return &fatal{"fatal:" + strings.ReplaceAll(strings.TrimPrefix(l, "fatal error: "), " ", "_"), "the process ends with a fatal error that cannot be recovered: " + l}
	}
	return nil
}

func readStatus(path string) (uint64, bool) {
	b, err := os.ReadFile(path)
	if err != nil {
		return 0, false
	}
	var n uint64
	_, err = fmt.Sscan(strings.TrimLeft(strings.TrimSpace(string(b)), "0"), &n)
	return n, err == nil
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}
