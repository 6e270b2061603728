// Package runtime is runtime with a simulated scheduler.
package runtime

import "github.com/iomz/gosstrak/verif/simrt"

func Gosched()             { simrt.Gosched() }
func GOMAXPROCS(n int) int { return 8 }
func NumCPU() int          { return 8 }
func GC()                  {}
