// Package signal: no signals other than SIGKILL are sent in the simulation.
package signal

import (
	"context"
	"os"
)

func Notify(c chan<- os.Signal, sig ...os.Signal) {}
func Stop(c chan<- os.Signal)                     {}
func Ignore(sig ...os.Signal)                     {}
func Reset(sig ...os.Signal)                      {}

func NotifyContext(ctx context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	return context.WithCancel(ctx)
}
