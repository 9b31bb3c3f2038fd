// Package context stands in for the standard package: deadlines follow the simulated clock.
package context

import (
	"context"
	"time"

	simtime "verifsim/shim/time"
	"verifsim/simrt"
)

type deadline struct {
	context.Context
	at time.Time
}

func (d deadline) Deadline() (time.Time, bool) {
	if p, ok := d.Context.Deadline(); ok && p.Before(d.at) {
		return p, true
	}
	return d.at, true
}

func (d deadline) Err() error {
	err := d.Context.Err()
	if err != nil && context.Cause(d.Context) == context.DeadlineExceeded {
		return context.DeadlineExceeded
	}
	return err
}

func WithDeadlineCause(parent context.Context, at time.Time, cause error) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancelCause(parent)
	if cause == nil {
		cause = context.DeadlineExceeded
	}
	t := simtime.AfterFunc(simtime.Until(at), func() { cancel(cause) })
	return deadline{Context: ctx, at: at}, func() { t.Stop(); cancel(nil) }
}

func WithDeadline(parent context.Context, at time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, at, nil)
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, simtime.Now().Add(d), nil)
}

func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, simtime.Now().Add(d), cause)
}

// AfterFunc runs f on a simulated goroutine once ctx is done.
func AfterFunc(ctx context.Context, f func()) (stop func() bool) {
	state := 0
	simrt.Go(func() {
		for state == 0 && ctx.Err() == nil {
			simrt.Sleep(int64(time.Millisecond))
		}
		if state == 0 {
			state = 1
			f()
		}
	})
	return func() bool {
		if state != 0 {
			return false
		}
		state = 2
		return true
	}
}
