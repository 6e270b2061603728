// Package signal delivers nothing: simulated processes are only ever killed.
package signal

import (
	"context"
	"os"
)

func Notify(c chan<- os.Signal, sig ...os.Signal) {}
func Stop(c chan<- os.Signal)                     {}
func Ignore(sig ...os.Signal)                     {}
func Reset(sig ...os.Signal)                      {}
func Ignored(sig os.Signal) bool                  { return false }
func NotifyContext(parent context.Context, signals ...os.Signal) (context.Context, context.CancelFunc) {
	return parent, func() {}
}
