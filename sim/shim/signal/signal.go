// Package signal stands in for os/signal: signals come from the simulator.
package signal

import (
	"context"
	"os"
	"syscall"

	"verifsim/simrt"
)

func nums(sigs []os.Signal) (o []int) {
	for _, s := range sigs {
		if n, ok := s.(syscall.Signal); ok {
			o = append(o, int(n))
		}
	}
	return
}

func Notify(c chan<- os.Signal, sig ...os.Signal) { simrt.SigNotify(c, nums(sig)...) }
func Stop(c chan<- os.Signal)                     { simrt.SigStop(c) }
func Ignore(sig ...os.Signal)                     { simrt.SigIgnore(nums(sig)...) }
func Reset(sig ...os.Signal)                      { simrt.SigReset(nums(sig)...) }
func NotifyContext(parent context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	c := make(chan os.Signal, 1)
	Notify(c, sig...)
	simrt.Go(func() { simrt.Recv(c); cancel() })
	return ctx, func() { Stop(c); cancel() }
}
