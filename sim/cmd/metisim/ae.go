package main

import (
	"fmt"
	"strings"

	"github.com/IfanTsai/metis/ae"
	"github.com/IfanTsai/metis/config"
	mlog "github.com/IfanTsai/metis/log"
	"github.com/IfanTsai/metis/socket"

	"verifsim/simrt"
)

// AEOp is one step of a script that drives package ae directly.
type AEOp struct {
	AtUs int64  `json:"at_us"`
	In   string `json:"in,omitempty"` // where it runs: "" = environment (client side), bs = before-sleep hook, t<timer>, f<conn>r, f<conn>w
	Do   string `json:"do"`
	T    int    `json:"t,omitempty"`  // timer label
	F    int    `json:"f,omitempty"`  // connection label
	Ms   int64  `json:"ms,omitempty"` // interval, delay, clock jump
	Once bool   `json:"once,omitempty"`
	W    bool   `json:"w,omitempty"`    // the writable direction
	N    int    `json:"n,omitempty"`    // bytes
	Mode int    `json:"mode,omitempty"` // what the handler does: 0 consume everything, 1 consume a little, 2 nothing
}

type aeTimer struct {
	id       int64
	label    int
	once     bool
	ivl      int64
	added    int64 // mono ns
	last     int64 // mono ns of the end of the last callback, or when added
	begin    int64
	fires    int
	live     bool
	removedT int64
}

type aeReg struct {
	conn *aeConn
	fd   socket.FD
	w    bool
	live bool
	mode int
	hot  int64 // ready and not called since (mono ns), -1 = not
	n    int
}

type aeConn struct {
	label int
	fd    socket.FD
	c     *simrt.Conn
	open  bool
	r, w  *aeReg
}

type aeRun struct {
	sc      *Scenario
	w       *simrt.World
	res     *Result
	el      *ae.EventLoop
	timers  map[int]*aeTimer
	byID    map[int64]*aeTimer
	nextID  int64
	conns   map[int]*aeConn
	todo    map[string][]AEOp
	bs      bool
	waits   int
	busy    int64 // total time spent inside callbacks that took long
	inCb    bool
	done    bool
	mainErr error
	calls   int
	env     []string
	proc    *simrt.Proc
	stopT   int64
	stopped bool
}

const aeLate = int64(120e6)

func runAE(sc *Scenario, trace bool) *Result {
	w := simrt.NewWorld(sc.Seed, sc.K)
	if trace {
		w.EnableTrace()
	}
	res := &Result{Deaths: map[string]int{}}
	a := &aeRun{sc: sc, w: w, res: res, timers: map[int]*aeTimer{}, byID: map[int64]*aeTimer{}, conns: map[int]*aeConn{}, todo: map[string][]AEOp{}}
	p := w.NewProc()
	a.proc = p
	var faults []*simrt.Fault
	if len(sc.Epochs) > 0 {
		faults = sc.Epochs[0].Faults
	}
	w.SetFaults(faults, func(*simrt.Fault) {})
	for _, op := range sc.AE {
		op := op
		if op.In == "" {
			w.After(op.AtUs*1000, func() { a.envOp(op) })
		} else {
			a.todo[op.In] = append(a.todo[op.In], op)
		}
	}
	w.OnEpollWait = func(_ *simrt.Proc, msec int) {
		a.waits++
		if a.stopped {
			return
		}
		if !a.bs {
			a.res.add("hook", "wait %d was entered without running the before-sleep hook first", a.waits)
		}
		a.bs = false
	}
	w.Start(p, "loop", func() {
		simrt.ResetGlobals()
		mlog.InitLogger(&config.Config{})
		el, err := ae.NewEventLoop()
		if err != nil {
			res.add("harness", "NewEventLoop: %v", err)
			return
		}
		a.el = el
		el.SetBeforeSleepProc(func(el2 *ae.EventLoop) {
			a.bs = true
			if el2 != el {
				res.add("hook", "the before-sleep hook got another event loop")
			}
			a.perform("bs")
		})
		a.perform("bs")
		a.mainErr = el.Main()
		a.done = true
	})
	var tick func()
	tick = func() {
		if p.Dead || a.done {
			return
		}
		a.watch()
		w.After(1e6, tick)
	}
	w.After(1e6, tick)
	over := w.Run(func() bool { return p.Dead || a.done || w.Now > sc.AEEnd*1000 }, sc.AEEnd*1000+1)
	_ = over
	if !p.Dead && !a.done {
		a.watch()
		a.stopped = true
		a.el.Stop()
		w.Run(func() bool { return p.Dead || a.done }, w.Now+3e9)
		if !p.Dead && !a.done {
			res.add("hang", "the loop does not end within 3 simulated seconds of Stop")
		}
	} else if a.done && !p.Dead {
		res.add("stopped", "the loop ended on its own: %v", a.mainErr)
	}
	if a.done && a.mainErr != nil {
		res.add("stopped", "Main ended with %v", a.mainErr)
	}
	if p.Dead {
		res.add("crash", "the process died: %s %s [%s]", p.Exit, p.Msg, simrt.TrimStack(p.Stack))
	}
	if len(p.Strays) > 0 {
		res.add("stray", "operations on descriptors that were not open: %s", strings.Join(p.Strays, "; "))
	}
	for _, t := range a.timers {
		if t.live && t.once && t.fires == 0 && w.Now-t.added > (t.ivl+200)*1e6+a.busy {
			res.add("late", "one-shot timer %d never ran", t.label)
		}
	}
	res.Counts = append(res.Counts, w.OpCounts())
	res.Deaths["none"]++
	res.Stats = w.Stats
	res.SimNs = w.Now
	res.Trace = w.Trace
	res.Ops = a.calls
	res.Acked = a.calls
	w.Close()
	res.Hash = w.Hash()
	res.Sched = mx(w.ScheduleHash(), res.Hash)
	for _, f := range faults {
		res.Planned++
		if f.Fired() {
			res.FaultN++
		}
	}
	return res
}

// perform runs the script steps bound to a place whose time has come.
func (a *aeRun) perform(place string) {
	l := a.todo[place]
	for len(l) > 0 && l[0].AtUs*1000 <= a.w.Now {
		op := l[0]
		l = l[1:]
		a.todo[place] = l
		a.do(op, place)
		l = a.todo[place]
	}
}

func (a *aeRun) do(op AEOp, place string) {
	w := a.w
	el := a.el
	switch op.Do {
	case "addtimer":
		if a.timers[op.T] != nil {
			return
		}
		t := &aeTimer{id: a.nextID, label: op.T, once: op.Once, ivl: op.Ms, added: w.Now, last: w.Now, live: true}
		a.nextID++
		a.timers[op.T] = t
		a.byID[t.id] = t
		mask := ae.TypeTimeEventNormal
		if op.Once {
			mask = ae.TypeTimeEventOnce
		}
		if err := el.AddTimeEvent(mask, op.Ms, a.onTimer, t); err != nil {
			a.res.add("api", "AddTimeEvent failed: %v", err)
		}
	case "rmtimer":
		t := a.timers[op.T]
		if t == nil {
			return
		}
		err := el.RemoveTimeEvent(t.id)
		// removing a one-shot timer from inside its own callback may find it gone already or not
		own := place == fmt.Sprintf("t%d", t.label) && t.once
		if t.live && err != nil && !own {
			a.res.add("api", "RemoveTimeEvent of the registered timer %d failed: %v", t.label, err)
		}
		if !t.live && err == nil && !own {
			a.res.add("api", "RemoveTimeEvent of timer %d succeeded although it was gone", t.label)
		}
		if t.live {
			t.live = false
			t.removedT = w.Now
		}
	case "busy":
		a.busy += op.Ms * 1e6
		simrt.Sleep(op.Ms * 1e6)
	case "open":
		if c := a.conns[op.F]; c != nil && c.open {
			return
		}
		fd, c := w.Net.AttachConn(a.proc, func([]byte) {}, func(string) {})
		a.conns[op.F] = &aeConn{label: op.F, fd: socket.FD(fd), c: c, open: true}
	case "reg":
		c := a.conns[op.F]
		if c == nil || !c.open {
			return
		}
		r := &aeReg{conn: c, fd: c.fd, w: op.W, mode: op.Mode, hot: -1}
		mask := ae.TypeFileEventReadable
		old := c.r
		if op.W {
			mask = ae.TypeFileEventWritable
			old = c.w
		}
		exists := old != nil && old.live
		inj := a.injected()
		err := el.AddFileEvent(c.fd, mask, a.onFile, r)
		if a.injected() != inj {
			if err == nil {
				a.res.add("api", "AddFileEvent reported success although epoll_ctl failed")
			}
			return
		}
		if exists {
			if err == nil {
				a.res.add("api", "a second registration of the same direction was accepted")
				old.live = false
			} else {
				return
			}
		} else if err != nil {
			a.res.add("api", "AddFileEvent failed: %v", err)
			return
		}
		r.live = true
		if op.W {
			c.w = r
		} else {
			c.r = r
		}
	case "unreg":
		c := a.conns[op.F]
		if c == nil || !c.open {
			return
		}
		mask, r := ae.TypeFileEventReadable, c.r
		if op.W {
			mask, r = ae.TypeFileEventWritable, c.w
		}
		live := r != nil && r.live
		inj := a.injected()
		err := el.RemoveFileEvent(c.fd, mask)
		if a.injected() != inj && live {
			if err != nil { // refused by the kernel: ask again; whether the first try removed it is not specified
				_ = el.RemoveFileEvent(c.fd, mask)
			}
			r.live = false
			return
		}
		if live && err != nil {
			a.res.add("api", "RemoveFileEvent failed: %v", err)
		}
		if !live && err == nil {
			a.res.add("api", "RemoveFileEvent succeeded without a registration")
		}
		if r != nil {
			r.live = false
		}
	case "close":
		c := a.conns[op.F]
		if c == nil || !c.open {
			return
		}
		if c.r != nil && c.r.live {
			a.do(AEOp{Do: "unreg", F: op.F}, place)
		}
		if c.w != nil && c.w.live {
			a.do(AEOp{Do: "unreg", F: op.F, W: true}, place)
		}
		c.open = false
		if err := c.fd.Close(); err != nil {
			a.res.add("api", "Close failed: %v", err)
		}
	}
}

func (a *aeRun) injected() int {
	n := 0
	for k, v := range a.w.Stats {
		if strings.HasPrefix(k, "fault.err.epctl") || strings.HasPrefix(k, "fault.err.epadd") {
			n += v
		}
	}
	return n
}

func (a *aeRun) onTimer(el *ae.EventLoop, id int64, data any) {
	w := a.w
	a.bs = false
	a.calls++
	t, _ := data.(*aeTimer)
	if t == nil || t.id != id || el != a.el {
		a.res.add("data", "timer callback with id %d got the data of another timer", id)
		return
	}
	w.Log("timer-cb", id, int64(t.fires), "")
	if !t.live {
		a.res.add("removed", "timer %d ran although it had been removed or was done", t.label)
		return
	}
	if t.once && t.fires > 0 {
		a.res.add("twice", "one-shot timer %d ran again", t.label)
	}
	if d := w.Now - t.last; d < (t.ivl-1)*1e6 {
		a.res.add("early", "timer %d with interval %d ms ran after %.3f ms", t.label, t.ivl, float64(d)/1e6)
	}
	t.fires++
	t.begin = w.Now
	if t.once {
		t.live = false
	}
	a.inCb = true
	a.perform(fmt.Sprintf("t%d", t.label))
	a.inCb = false
	t.last = t.begin
}

func (a *aeRun) onFile(el *ae.EventLoop, fd socket.FD, data any) {
	w := a.w
	a.bs = false
	a.calls++
	r, _ := data.(*aeReg)
	if r == nil || el != a.el {
		a.res.add("data", "file handler called with wrong data")
		return
	}
	dir := "r"
	if r.w {
		dir = "w"
	}
	w.Log("file-cb", int64(fd), int64(r.conn.label), dir)
	if !r.live {
		a.res.add("removed", "the %s handler of connection %d (fd %d) was called after its registration was removed", dir, r.conn.label, fd)
		return
	}
	if fd != r.fd {
		a.res.add("data", "handler of fd %d was called for fd %d", r.fd, fd)
		return
	}
	c := r.conn.c
	if r.w && !c.Writable() {
		a.res.add("notready", "the write handler of connection %d was called while it was not writable", r.conn.label)
	}
	if !r.w && !c.Readable() {
		a.res.add("notready", "the read handler of connection %d was called while there was nothing to read", r.conn.label)
	}
	r.n++
	r.hot = -1
	a.inCb = true
	defer func() { a.inCb = false }()
	a.perform(fmt.Sprintf("f%d%s", r.conn.label, dir))
	if !r.conn.open || !r.live {
		return
	}
	if r.mode == 3 { // once
		a.do(AEOp{Do: "unreg", F: r.conn.label, W: r.w}, "")
	}
	if r.w {
		if r.mode != 2 {
			n := 700
			if r.mode == 1 {
				n = 5
			}
			_, _ = fd.Write(make([]byte, n))
		}
		return
	}
	n := 0
	switch r.mode {
	case 0, 3:
		n = 1 << 16
	case 1:
		n = 3
	}
	if n > 0 {
		k, err := fd.Read(make([]byte, n))
		if err == nil && k == 0 || err != nil && c.Reset0() {
			// the peer has gone: the owner closes
			a.do(AEOp{Do: "close", F: r.conn.label}, "")
		}
	}
}

func (a *aeRun) envOp(op AEOp) {
	w := a.w
	switch op.Do {
	case "jump":
		w.JumpWall(op.Ms * 1e6)
		return
	}
	c := a.conns[op.F]
	if c == nil || !c.open {
		return
	}
	switch op.Do {
	case "send":
		c.c.Send(make([]byte, op.N))
	case "stall":
		c.c.SetReading(false)
	case "resume":
		c.c.SetReading(true)
	case "hangup":
		c.c.Close()
	case "reset":
		c.c.Reset()
	}
}

// watch looks for timers and ready registrations that are not served.
func (a *aeRun) watch() {
	w := a.w
	for i := 0; i < len(a.timers)+64; i++ {
		t := a.byID[int64(i)]
		if t == nil {
			break
		}
		if t.live && !a.inCb && w.Now-t.last > t.ivl*1e6+aeLate+a.busy {
			a.res.add("late", "timer %d with interval %d ms has not run for %.1f ms", t.label, t.ivl, float64(w.Now-t.last)/1e6)
			t.last = w.Now + 1e9
		}
	}
	for i := 0; i < 32; i++ {
		c := a.conns[i]
		if c == nil || !c.open {
			continue
		}
		for _, r := range []*aeReg{c.r, c.w} {
			if r == nil || !r.live {
				continue
			}
			ready := c.c.Readable()
			if r.w {
				ready = c.c.Writable()
			}
			if !ready {
				r.hot = -1
				continue
			}
			if r.hot < 0 {
				r.hot = w.Now
			}
			if !a.inCb && w.Now-r.hot > aeLate+a.busy {
				a.res.add("starved", "the ready connection %d was not served for %.1f ms", c.label, float64(w.Now-r.hot)/1e6)
				r.hot = w.Now + 1e9
			}
		}
	}
}
