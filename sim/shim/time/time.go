// Package time stands in for the standard package: clocks and timers are simulated.
package time

import (
	"time"
	"unsafe"

	"verifsim/simrt"
)

type rawTime struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

const (
	secPerDay      = 86400
	unixToInternal = (1969*365 + 1969/4 - 1969/100 + 1969/400) * secPerDay
	wallToInternal = (1884*365 + 1884/4 - 1884/100 + 1884/400) * secPerDay
)

// Now carries a simulated wall clock and a simulated monotonic reading, exactly as the real one does.
func Now() time.Time {
	mono, wall := simrt.MonoWall()
	sec, nsec := wall/1e9, wall%1e9
	s33 := uint64(sec + unixToInternal - wallToInternal)
	r := rawTime{wall: 1<<63 | s33<<30 | uint64(nsec), ext: mono + 1, loc: time.Local}
	return *(*time.Time)(unsafe.Pointer(&r))
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { simrt.Sleep(int64(d)) }

type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	f  func()
	id *simrt.TimerHandle
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func (t *Timer) start(d time.Duration) {
	t.id = simrt.StartTimer(int64(d), 0, t.f, func() {
		select {
		case t.c <- Now():
		default:
		}
	})
}

func (t *Timer) drain() {
	if t.c != nil {
		select {
		case <-t.c:
		default:
		}
	}
}

func (t *Timer) Stop() bool {
	ok := t.id.Stop()
	t.drain()
	return ok
}

func (t *Timer) Reset(d time.Duration) bool {
	ok := t.Stop()
	t.start(d)
	return ok
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

type Ticker struct {
	C  <-chan time.Time
	c  chan time.Time
	id *simrt.TimerHandle
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c}
	t.Reset(d)
	return t
}

func (t *Ticker) Stop() { t.id.Stop() }
func (t *Ticker) Reset(d time.Duration) {
	if t.id != nil {
		t.id.Stop()
	}
	t.id = simrt.StartTimer(int64(d), int64(d), nil, func() {
		select {
		case t.c <- Now():
		default:
		}
	})
}

func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
