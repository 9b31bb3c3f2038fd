package simrt

import (
	"os"
	"reflect"
	"runtime"
	"syscall"
)

// ---- channel operations of the code under test
//
// Buffered channels are the real ones, used without blocking. A goroutine that waits on an unbuffered channel is listed, so
// that its partner can hand the value over.

type chanWaiter struct {
	t    *Task
	ch   uintptr
	send bool
	val  any
	done bool
}

func chPtr(ch any) uintptr { return reflect.ValueOf(ch).Pointer() }

func (w *World) partner(ch uintptr, send bool) *chanWaiter {
	var l []*chanWaiter
	for _, x := range w.chanw {
		if x.ch == ch && x.send == send && !x.done && x.t != w.cur && !x.t.killed && !x.t.Proc.Dead {
			l = append(l, x)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[0] // goroutines are served in the order in which they came
}

func (w *World) wait(c *chanWaiter) { w.chanw = append(w.chanw, c) }
func (w *World) unwait(cs ...*chanWaiter) {
	k := w.chanw[:0]
next:
	for _, x := range w.chanw {
		for _, c := range cs {
			if c == x {
				continue next
			}
		}
		k = append(k, x)
	}
	for i := len(k); i < len(w.chanw); i++ {
		w.chanw[i] = nil
	}
	w.chanw = k
}

func chanWait(cs []*chanWaiter) {
	w := W
	if w == nil || w.cur == nil {
		panic("simrt: channel operation would block outside a simulated task")
	}
	if w.cur.killed {
		runtime.Goexit()
	}
	// Re-evaluated whenever anything else has happened.
	mark := w.TraceN
	opm := w.opsTotal
	t := w.cur
	if t.killed {
		return
	}
	w.block(func() bool {
		for _, c := range cs {
			if c.done {
				return true
			}
		}
		return w.TraceN != mark || w.opsTotal != opm
	}, w.Now+1e6)
}

// TrySend sends if that is possible without waiting.
func TrySend[T any](ch chan<- T, v T) bool {
	select {
	case ch <- v:
		return true
	default:
	}
	if cap(ch) > 0 || ch == nil || W == nil {
		return false
	}
	if r := W.partner(chPtr(ch), false); r != nil {
		r.val, r.done = v, true
		W.Log("rendezvous", int64(r.t.ID), 0, "")
		return true
	}
	return false
}

// TryRecv receives if that is possible without waiting.
func TryRecv[T any](ch <-chan T) (v T, ok, did bool) {
	select {
	case v, ok = <-ch:
		return v, ok, true
	default:
	}
	if cap(ch) > 0 || ch == nil || W == nil {
		return
	}
	if s := W.partner(chPtr(ch), true); s != nil {
		v, _ = s.val.(T)
		s.done = true
		W.Log("rendezvous", int64(s.t.ID), 1, "")
		return v, true, true
	}
	return
}

// SendTo is the rewritten send statement: SendTo(ch)(v).
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		P()
		if TrySend(ch, v) {
			return
		}
		w := W
		var cs []*chanWaiter
		if w != nil && w.cur != nil && cap(ch) == 0 && ch != nil {
			cs = []*chanWaiter{{t: w.cur, ch: chPtr(ch), send: true, val: v}}
			w.wait(cs[0])
			defer w.unwait(cs...)
		}
		for {
			chanWait(cs)
			if len(cs) > 0 && cs[0].done || TrySend(ch, v) {
				return
			}
		}
	}
}

// Zero gives a variable of the element type of ch.
func Zero[T any](ch <-chan T) (z T) { return }

// Case is one case of a rewritten select statement.
type Case struct {
	try func() bool
	got func(v any)
	w   func() *chanWaiter // for unbuffered channels
}

func CaseSend[T any](ch chan<- T) func(v T) Case {
	return func(v T) Case {
		c := Case{try: func() bool { return TrySend(ch, v) }}
		if cap(ch) == 0 && ch != nil {
			c.got = func(any) {}
			c.w = func() *chanWaiter { return &chanWaiter{t: W.cur, ch: chPtr(ch), send: true, val: v} }
		}
		return c
	}
}

func CaseRecv[T any](ch <-chan T, v *T, ok *bool) Case {
	c := Case{try: func() (did bool) { *v, *ok, did = TryRecv(ch); return }}
	if cap(ch) == 0 && ch != nil {
		c.got = func(x any) { *v, _ = x.(T); *ok = true }
		c.w = func() *chanWaiter { return &chanWaiter{t: W.cur, ch: chPtr(ch)} }
	}
	return c
}

// Select is the rewritten select statement: it gives the index of the case whose operation took place, or -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	P()
	var cs []*chanWaiter
	var idx []int
	for {
		for i, c := range cs {
			if c.done {
				cases[idx[i]].got(c.val)
				return idx[i]
			}
		}
		o := 0
		if W != nil && len(cases) > 1 {
			o = W.rngSched.Intn(len(cases))
		}
		for i := range cases {
			k := (i + o) % len(cases)
			if cases[k].try() {
				return k
			}
		}
		if hasDefault {
			return -1
		}
		if w := W; cs == nil && w != nil && w.cur != nil {
			for i, c := range cases {
				if c.w != nil {
					cs, idx = append(cs, c.w()), append(idx, i)
				}
			}
			if cs != nil {
				for _, c := range cs {
					w.wait(c)
				}
				defer w.unwait(cs...)
			}
		}
		chanWait(cs)
	}
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	P()
	if v, ok, did := TryRecv(ch); did {
		return v, ok
	}
	w := W
	var cs []*chanWaiter
	if w != nil && w.cur != nil {
		if cap(ch) == 0 && ch != nil {
			cs = []*chanWaiter{{t: w.cur, ch: chPtr(ch)}}
			w.wait(cs[0])
			defer w.unwait(cs...)
		}
		if len(w.cur.Proc.sigs) > 0 && w.cur.Proc.sigChan(chPtr(ch)) {
			t := w.cur
			t.parked = true // waits for a signal: no reason to look for preemptions
			w.updatePreempt()
			w.block(func() bool { return !t.parked }, never)
			if v, ok, did := TryRecv(ch); did {
				return v, ok
			}
		}
	}
	for {
		chanWait(cs)
		if len(cs) > 0 && cs[0].done {
			v, _ := cs[0].val.(T)
			return v, true
		}
		if v, ok, did := TryRecv(ch); did {
			return v, ok
		}
	}
}

// ---- signals

type sigReg struct {
	ch   chan<- os.Signal
	sigs map[int]bool // nil: all
}

func (p *Proc) sigChan(ptr uintptr) bool {
	for _, r := range p.sigs {
		if chPtr(r.ch) == ptr {
			return true
		}
	}
	return false
}

// SigNotify is signal.Notify.
func SigNotify(ch chan<- os.Signal, sigs ...int) {
	p := W.cur.Proc
	r := sigReg{ch: ch}
	if len(sigs) > 0 {
		r.sigs = map[int]bool{}
		for _, s := range sigs {
			r.sigs[s] = true
		}
	}
	p.sigs = append(p.sigs, r)
}

// SigStop is signal.Stop.
func SigStop(ch chan<- os.Signal) {
	p := W.cur.Proc
	var k []sigReg
	for _, r := range p.sigs {
		if r.ch != ch {
			k = append(k, r)
		}
	}
	p.sigs = k
}

// SigIgnore is signal.Ignore, SigReset is signal.Reset.
func SigIgnore(sigs ...int) { W.cur.Proc.sigDisp(true, sigs) }
func SigReset(sigs ...int)  { W.cur.Proc.sigDisp(false, sigs) }

func (p *Proc) sigDisp(ignore bool, sigs []int) {
	if len(sigs) == 0 {
		sigs = []int{1, 2, 15}
	}
	if p.sigIgn == nil {
		p.sigIgn = map[int]bool{}
	}
	for _, s := range sigs {
		p.sigIgn[s] = ignore
		for i := range p.sigs {
			if p.sigs[i].sigs == nil {
				p.sigs[i].sigs = map[int]bool{1: true, 2: true, 15: true}
			}
			delete(p.sigs[i].sigs, s)
		}
	}
}

// Signal delivers a signal to a process from outside.
func (w *World) Signal(p *Proc, sig syscall.Signal) {
	if p.Dead {
		return
	}
	w.Log("signal", int64(p.ID), int64(sig), "")
	w.Count("fault.signal")
	caught := false
	for _, r := range p.sigs {
		if r.sigs == nil || r.sigs[int(sig)] {
			caught = true
			TrySend(r.ch, os.Signal(sig))
		}
	}
	for _, t := range w.tasks {
		t.parked = false
	}
	w.updatePreempt()
	if !caught && !p.sigIgn[int(sig)] {
		p.Kill(w, "signal", sig.String())
	}
}

// Watch and OnChange record what is to happen when a configuration file changes.
func Watch(v any)         { Watching(v).On = true }
func OnChange(v, run any) { Watching(v).Run = run }

type Watcher struct {
	V   any
	On  bool
	Run any
}

var Watchers []*Watcher

func Watching(v any) *Watcher {
	for _, w := range Watchers {
		if w.V == v {
			return w
		}
	}
	w := &Watcher{V: v}
	Watchers = append(Watchers, w)
	return w
}

func init() { OnReset(func() { Watchers = nil }) }
