package simrt

import (
	"runtime"
	"runtime/debug"
	"syscall"
)

// ---------------------------------------------------------------- operation classes and faults

type Class int

const (
	OpFOpen Class = iota
	OpFRead
	OpFWrite
	OpFSync
	OpFClose
	OpFRename
	OpFUnlink
	OpFStat
	OpFTrunc
	OpExec
	OpAccept
	OpRead
	OpWrite
	OpEpWait
	OpEpCtl
	OpEpAdd // the epctl calls that register a descriptor
	OpClose
	OpSock
	OpFS   // any disk operation that can change what is on disk (open-create, write, sync, rename, unlink, truncate, mv steps)
	OpRWFS // the same, counted from the last creation of a file other than the log
	OpAny  // any system call
	numClasses
)

var classNames = [...]string{"fopen", "fread", "fwrite", "fsync", "fclose", "frename", "funlink", "fstat", "ftrunc", "exec",
	"accept", "read", "write", "epwait", "epctl", "epadd", "close", "sock", "fs", "rwfs", "any"}

func (c Class) String() string { return classNames[c] }

func ClassByName(s string) Class {
	for i, n := range classNames {
		if n == s {
			return Class(i)
		}
	}
	return -1
}

func (c Class) mutatesDisk() bool {
	switch c {
	case OpFOpen, OpFWrite, OpFSync, OpFRename, OpFUnlink, OpFTrunc, OpExec, OpFClose:
		return true
	}
	return false
}

// Disk tells whether the class is about files.
func (c Class) Disk() bool { return c >= 0 && (c <= OpExec || c == OpFS || c == OpRWFS) }

func (c Class) disk() bool { return c <= OpExec }

// Fault is one planned fault of a scenario. It fires once, at the Nth operation of class On
// (1-based, counted over the whole run), or at simulated time AtMs when On is empty.
type Fault struct {
	Kind  string `json:"kind"` // kill | power | err | short | stall | jump | reset | stop | netstall
	On    string `json:"on,omitempty"`
	Nth   int    `json:"nth,omitempty"`
	After bool   `json:"after,omitempty"` // fire after the operation took effect instead of before
	Err   string `json:"err,omitempty"`   // errno name for err
	Arg   int64  `json:"arg,omitempty"`   // short: bytes kept; stall: ms; jump: ms
	AtMs  int64  `json:"at_ms,omitempty"`
	Len   int    `json:"len,omitempty"` // err, stall: how many consecutive operations are hit (default 1)
	Bg    bool   `json:"bg,omitempty"`  // only operations of goroutines other than the one running the event loop

	class Class
	fired bool
	left  int
	seen  int
}

func (f *Fault) Fired() bool { return f.fired }

var errnos = map[string]syscall.Errno{"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EINTR": syscall.EINTR,
	"EAGAIN": syscall.EAGAIN, "ENOMEM": syscall.ENOMEM, "EMFILE": syscall.EMFILE, "ECONNABORTED": syscall.ECONNABORTED,
	"ETIMEDOUT": syscall.ETIMEDOUT, "EACCES": syscall.EACCES, "ECONNRESET": syscall.ECONNRESET, "EPIPE": syscall.EPIPE,
	"ENOBUFS": syscall.ENOBUFS, "EDQUOT": syscall.EDQUOT,
	"EADDRINUSE": syscall.EADDRINUSE, "EINVAL": syscall.EINVAL}

// SetFaults installs the plan. handler receives time-triggered environment faults (everything but kill, power, err, short, stall).
func (w *World) SetFaults(fs []*Fault, handler func(*Fault)) {
	w.faults = nil
	w.faultGen++
	gen := w.faultGen
	w.opCount = [numClasses]int{}
	w.rwOn = false
	for _, f := range fs {
		f.fired = false
		f.seen = 0
		f.left = f.Len
		if f.left == 0 {
			f.left = 1
		}
		if f.On == "" {
			f := f
			w.After(f.AtMs*1e6, func() {
				if w.faultGen != gen || w.LiveProc() == nil {
					return
				}
				f.fired = true
				switch f.Kind {
				case "kill", "power":
					if p := w.LiveProc(); p != nil {
						w.Count("fault." + f.Kind)
						p.die(w, f.Kind, "", "")
					}
				case "jump":
					w.JumpWall(f.Arg * 1e6)
				default:
					handler(f)
				}
			})
			continue
		}
		f.class = ClassByName(f.On)
		w.faults = append(w.faults, f)
	}
}

// OpCounts gives the operations per class since the faults were last set.
func (w *World) OpCounts() map[string]int {
	o := map[string]int{}
	for i, n := range w.opCount {
		if n > 0 {
			o[classNames[i]] = n
		}
	}
	return o
}

// FSPowerLoss drops everything that is not on stable storage (no process may be running).
func (w *World) FSPowerLoss() { w.FS.powerLoss() }

func (w *World) LiveProc() *Proc {
	for _, p := range w.Procs {
		if !p.Dead {
			return p
		}
	}
	return nil
}

// dieHere ends the current process from one of its own tasks.
func (w *World) dieHere(kind, msg string) {
	t := w.cur
	t.Proc.die(w, kind, msg, string(debug.Stack()))
	t.killed = true
	runtime.Goexit()
}

type opCtx struct {
	w     *World
	class Class
	Err   syscall.Errno
	Short int64 // -1 = none
	after *Fault
	dead  bool
}

// op is the prologue of every system call: time passes, other tasks and the environment may run,
// planned faults fire.
func (w *World) op(c Class, detail string) opCtx {
	x := opCtx{w: w, class: c, Short: -1}
	t := w.cur
	if t == nil { // harness context
		return x
	}
	if t.killed {
		t.killOps++
		if t.killOps > 10000 {
			t.st = tsDone
			w.sched <- struct{}{}
			select {}
		}
		x.dead = true
		return x
	}
	spin = 0
	w.opsTotal++
	var lat int64
	if c == OpFSync {
		lat = w.rngIO.Range(w.K.FsyncNs/10, w.K.FsyncNs)
	} else if c.disk() {
		lat = w.rngIO.Range(w.K.FsOpNs/10, w.K.FsOpNs)
	} else {
		lat = w.rngIO.Range(w.K.NetOpNs/10, w.K.NetOpNs)
	}
	w.advance(lat + 200)
	if w.K.PreemptMean > 0 && len(w.tasks) > 1 {
		w.yieldMaybe()
	}
	w.opCount[c]++
	w.opCount[OpAny]++
	if c == OpEpAdd {
		w.opCount[OpEpCtl]++
	}
	if c.mutatesDisk() {
		w.opCount[OpFS]++
		if w.rwOn {
			w.opCount[OpRWFS]++
		}
	}
	w.Log(classNames[c], int64(t.ID), 0, detail)
	for _, f := range w.faults {
		if f.fired && f.left <= 0 {
			continue
		}
		if f.class != c && !(f.class == OpAny) && !(f.class == OpEpCtl && c == OpEpAdd) && !(f.class == OpFS && c.mutatesDisk()) && !(f.class == OpRWFS && w.rwOn && c.mutatesDisk()) {
			continue
		}
		n := w.opCount[f.class]
		if f.Bg {
			if w.loopTask == nil || w.loopTask == t || w.loopTask.Proc != t.Proc {
				continue
			}
			f.seen++
			n = f.seen
		}
		if !f.fired && n < f.Nth {
			continue
		}
		if f.fired && f.Kind != "err" && f.Kind != "stall" {
			continue
		}
		f.fired = true
		f.left--
		switch f.Kind {
		case "kill", "power":
			if f.After {
				x.after = f
			} else {
				w.Count("fault." + f.Kind)
				w.dieHere(f.Kind, "before "+classNames[c])
			}
		case "err":
			x.Err = errnos[f.Err]
			if x.Err == syscall.EMFILE {
				w.LastEmfile = w.Now
			}
			w.Count("fault.err." + classNames[c] + "." + f.Err)
			w.Log("inject", int64(x.Err), 0, classNames[c])
		case "short":
			x.Short = f.Arg
			w.Log("inject-short", f.Arg, 0, classNames[c])
			w.Count("fault.short." + classNames[c])
		case "stall":
			w.Count("fault.stall." + classNames[c])
			w.advance(f.Arg * 1e6)
		case "jump":
			w.JumpWall(f.Arg * 1e6)
		}
	}
	return x
}

// end is the epilogue: a crash planned for after the operation fires here.
func (x *opCtx) end() {
	if x.after != nil && !x.dead {
		x.w.Count("fault." + x.after.Kind)
		x.w.dieHere(x.after.Kind, "after "+classNames[x.class])
	}
}

// ---------------------------------------------------------------- processes and descriptors

type FDesc struct {
	ln       *Listener
	sock     *Sock
	ep       *Epoll
	file     *OFile
	nonblock bool
}

type Sock struct { // not yet listening socket or an accepted / connected endpoint
	bound bool
	ip    [4]byte
	port  int
	reuse bool
	conn  *Conn
}

type Proc struct {
	ID        int
	Dead      bool
	Exit      string // kill | power | panic | exit | spin | stopped
	Msg       string
	Stack     string
	DiedAt    int64
	DiedSeq   uint64
	fds       []*FDesc // index = fd
	fdOwner   map[int]string
	Files     map[*OFile]bool
	OnDeath   func(p *Proc)
	CloseErrs int // close/IO on a descriptor that is not open
	Strays    []string
	sigs      []sigReg
	sigIgn    map[int]bool
}

func (w *World) NewProc() *Proc {
	p := &Proc{ID: len(w.Procs) + 1, fds: make([]*FDesc, 3, 64), Files: map[*OFile]bool{}}
	for i := 0; i < 3; i++ {
		p.fds[i] = &FDesc{}
	}
	w.Procs = append(w.Procs, p)
	w.FS.redirty()
	w.Log("proc", int64(p.ID), 0, "")
	return p
}

// Start runs fn as the main task of p.
func (w *World) Start(p *Proc, name string, fn func()) *Task { return w.spawn(p, name, fn) }

func (p *Proc) die(w *World, kind, msg, stack string) {
	if p.Dead {
		return
	}
	p.Dead = true
	p.Exit = kind
	p.Msg = msg
	p.Stack = stack
	p.DiedAt = w.Now
	w.Seq++
	p.DiedSeq = w.Seq
	w.Log("death", int64(p.ID), 0, kind+" "+msg)
	for fd, d := range p.fds {
		if d == nil || fd < 3 {
			continue
		}
		if d.ln != nil {
			w.Net.closeListener(d.ln)
		}
		if d.sock != nil && d.sock.conn != nil {
			d.sock.conn.serverDied(kind == "power")
		}
	}
	w.FS.procGone(p)
	if kind == "power" {
		w.FS.powerLoss()
	}
	if p.OnDeath != nil {
		p.OnDeath(p)
	}
}

// Kill ends the process from outside (harness or environment event).
func (p *Proc) Kill(w *World, kind, msg string) { p.die(w, kind, msg, "") }

// ExitHere is os.Exit.
func ExitHere(code int, msg string) {
	w := W
	if w == nil || w.cur == nil {
		panic("exit outside a simulated process: " + msg)
	}
	if w.cur.killed {
		runtime.Goexit()
	}
	w.dieHere("exit", msg)
}

// OpenFDs counts descriptors above 2, by kind.
func (p *Proc) OpenFDs() (socks, files, eps, listeners int) {
	for fd, d := range p.fds {
		if fd < 3 || d == nil {
			continue
		}
		switch {
		case d.ln != nil:
			listeners++
		case d.ep != nil:
			eps++
		case d.file != nil:
			files++
		default:
			socks++
		}
	}
	return
}

func (p *Proc) alloc(w *World, d *FDesc) (int, syscall.Errno) {
	limit := w.K.FdShort
	if limit == 0 {
		limit = 1024
	}
	for i := 3; i < limit; i++ {
		if i >= len(p.fds) {
			p.fds = append(p.fds, d)
			return i, 0
		}
		if p.fds[i] == nil {
			p.fds[i] = d
			return i, 0
		}
	}
	w.LastEmfile = w.Now
	return -1, syscall.EMFILE
}

func (p *Proc) get(fd int) *FDesc {
	if fd < 0 || fd >= len(p.fds) {
		return nil
	}
	return p.fds[fd]
}

func (p *Proc) stray(w *World, what string, fd int) {
	w.Count("sys.badfd")
	if len(p.Strays) < 20 {
		p.Strays = append(p.Strays, what)
	}
	p.CloseErrs++
	_ = fd
}

func (p *Proc) release(w *World, fd int) syscall.Errno {
	d := p.get(fd)
	if d == nil || fd < 3 {
		return syscall.EBADF
	}
	p.fds[fd] = nil
	// closing removes the descriptor from every epoll set
	for _, e := range p.fds {
		if e != nil && e.ep != nil {
			e.ep.del(fd)
		}
	}
	switch {
	case d.ln != nil:
		w.Net.closeListener(d.ln)
	case d.sock != nil && d.sock.conn != nil:
		d.sock.conn.serverClose()
	case d.file != nil:
		delete(p.Files, d.file)
	}
	return 0
}

// ---------------------------------------------------------------- epoll

type epReg struct {
	fd   int
	ev   syscall.EpollEvent
	mark uint64 // last activity already reported (edge triggered)
	dis  bool   // disabled after EPOLLONESHOT
}

type Epoll struct{ regs []*epReg }

func (e *Epoll) find(fd int) *epReg {
	for _, r := range e.regs {
		if r.fd == fd {
			return r
		}
	}
	return nil
}

func (e *Epoll) del(fd int) bool {
	for i, r := range e.regs {
		if r.fd == fd {
			e.regs = append(e.regs[:i:i], e.regs[i+1:]...)
			return true
		}
	}
	return false
}

const epET = 1 << 31

func (p *Proc) pollMask(d *FDesc) (mask uint32, activity uint64) {
	switch {
	case d.ln != nil:
		if len(d.ln.backlog) > 0 {
			mask |= syscall.EPOLLIN
		}
		return mask, d.ln.activity
	case d.sock != nil && d.sock.conn != nil:
		return d.sock.conn.pollMask(), d.sock.conn.activity
	case d.sock != nil:
		return syscall.EPOLLOUT | syscall.EPOLLHUP, 0
	}
	return 0, 0
}

func SysEpollCreate() (int, error) {
	w := W
	x := w.op(OpSock, "epoll_create")
	if x.dead {
		return -1, syscall.EBADF
	}
	if x.Err != 0 {
		return -1, x.Err
	}
	fd, e := w.cur.Proc.alloc(w, &FDesc{ep: &Epoll{}})
	if e != 0 {
		return -1, e
	}
	return fd, nil
}

func SysEpollCtl(epfd, op, fd int, ev *syscall.EpollEvent) error {
	w := W
	class := OpEpCtl
	if op == syscall.EPOLL_CTL_ADD {
		class = OpEpAdd
	}
	x := w.op(class, "")
	if x.dead {
		return syscall.EBADF
	}
	p := w.cur.Proc
	ed := p.get(epfd)
	d := p.get(fd)
	if ed == nil || d == nil {
		p.stray(w, "epoll_ctl", fd)
		return syscall.EBADF
	}
	if ed.ep == nil || fd == epfd {
		return syscall.EINVAL
	}
	if x.Err != 0 && op != syscall.EPOLL_CTL_DEL {
		return x.Err
	}
	if d.file != nil || fd < 3 {
		return syscall.EPERM
	}
	r := ed.ep.find(fd)
	w.Log("epoll_ctl", int64(op), int64(fd), "")
	switch op {
	case syscall.EPOLL_CTL_ADD:
		if r != nil {
			return syscall.EEXIST
		}
		ed.ep.regs = append(ed.ep.regs, &epReg{fd: fd, ev: *ev})
	case syscall.EPOLL_CTL_MOD:
		if r == nil {
			return syscall.ENOENT
		}
		r.ev = *ev
		r.mark = 0
		r.dis = false
	case syscall.EPOLL_CTL_DEL:
		if r == nil {
			return syscall.ENOENT
		}
		ed.ep.del(fd)
	default:
		return syscall.EINVAL
	}
	x.end()
	return nil
}

type readyEv struct {
	r    *epReg
	mask uint32
	act  uint64
}

func (p *Proc) epReady(e *Epoll, buf []readyEv) []readyEv {
	for _, r := range e.regs {
		if r.dis {
			continue
		}
		d := p.get(r.fd)
		if d == nil {
			continue
		}
		m, act := p.pollMask(d)
		m &= r.ev.Events | syscall.EPOLLHUP | syscall.EPOLLERR
		if m == 0 {
			continue
		}
		if r.ev.Events&epET != 0 && r.mark == act+1 {
			continue
		}
		buf = append(buf, readyEv{r, m, act})
	}
	return buf
}

func SysEpollWait(epfd int, events []syscall.EpollEvent, msec int) (int, error) {
	w := W
	x := w.op(OpEpWait, "")
	if x.dead {
		return -1, syscall.EBADF
	}
	p := w.cur.Proc
	w.loopTask = w.cur
	ed := p.get(epfd)
	if ed == nil {
		p.stray(w, "epoll_wait", epfd)
		return -1, syscall.EBADF
	}
	if ed.ep == nil || len(events) == 0 {
		return -1, syscall.EINVAL
	}
	if x.Err != 0 {
		return -1, x.Err
	}
	deadline := never
	if msec >= 0 {
		deadline = w.Now + int64(msec)*1e6
	}
	if w.noise(w.K.Eintr) {
		w.Count("fault.eintr.epoll_wait")
		// interrupted somewhere during the wait
		if msec != 0 {
			d := w.rngIO.Range(0, 3e6)
			if w.Now+d < deadline {
				w.block(nil, w.Now+d)
			}
		}
		return -1, syscall.EINTR
	}
	if w.OnEpollWait != nil {
		w.OnEpollWait(p, msec)
	}
	var arr [32]readyEv
	rs := p.epReady(ed.ep, arr[:0])
	if len(rs) == 0 && deadline > w.Now {
		w.block(func() bool {
			if p.get(epfd) != ed {
				return true
			}
			var a [4]readyEv
			return len(p.epReady(ed.ep, a[:0])) > 0
		}, deadline)
		if p.get(epfd) != ed {
			return 0, nil
		}
		rs = p.epReady(ed.ep, arr[:0])
	}
	if len(rs) > len(events) { // as Linux does: what is reported goes to the end of the queue
		rs = rs[:len(events)]
		for _, r := range rs {
			for i, x := range ed.ep.regs {
				if x == r.r {
					ed.ep.regs = append(append(ed.ep.regs[:i:i], ed.ep.regs[i+1:]...), x)
					break
				}
			}
		}
	}
	if w.K.EpollShuffle {
		for i := len(rs) - 1; i > 0; i-- {
			j := w.rngIO.Intn(i + 1)
			rs[i], rs[j] = rs[j], rs[i]
		}
	}
	n := 0
	for _, r := range rs {
		if n >= len(events) {
			break
		}
		ev := r.r.ev
		ev.Events = r.mask
		if r.r.ev.Events&epET != 0 {
			r.r.mark = r.act + 1
		}
		if r.r.ev.Events&syscall.EPOLLONESHOT != 0 {
			r.r.dis = true
		}
		events[n] = ev
		n++
		w.Log("ready", int64(r.r.fd), int64(r.mask), "")
	}
	x.end()
	return n, nil
}

func (w *World) noise(p float64) bool {
	if p <= 0 || w.NoiseOff {
		return false
	}
	return w.rngIO.Float() < p
}
