// Package simrt is the simulator: scheduler, clocks, kernel, network and disk.
//
// Exactly one goroutine runs at a time: either the scheduler (World.Run's caller) or one task.
// Every decision is drawn from PRNG streams derived from one seed.
package simrt

import (
	"container/heap"
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- PRNG

type RNG struct{ s uint64 }

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// NewRNG derives an independent stream from a seed and a name.
func NewRNG(seed uint64, name string) *RNG {
	h := seed
	for i := 0; i < len(name); i++ {
		h = mix(h ^ uint64(name[i])*0x100000001b3)
	}
	return &RNG{mix(h)}
}

func (r *RNG) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	x := r.s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func (r *RNG) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

func (r *RNG) Range(lo, hi int64) int64 {
	if hi <= lo {
		return lo
	}
	return lo + int64(r.U64()%uint64(hi-lo+1))
}

func (r *RNG) Float() float64 { return float64(r.U64()>>11) / (1 << 53) }

func (r *RNG) Chance(p float64) bool { return p > 0 && r.Float() < p }

// Int63/Uint64/Seed make RNG a math/rand Source64.
func (r *RNG) Int63() int64   { return int64(r.U64() >> 1) }
func (r *RNG) Uint64() uint64 { return r.U64() }
func (r *RNG) Seed(int64)     {}

// ---------------------------------------------------------------- events

type event struct {
	at  int64
	seq uint64
	fn  func()
}
type eventHeap []event

func (h eventHeap) Len() int { return len(h) }
func (h eventHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h eventHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i] }
func (h *eventHeap) Push(x any)   { *h = append(*h, x.(event)) }
func (h *eventHeap) Pop() any {
	o := *h
	e := o[len(o)-1]
	o[len(o)-1] = event{}
	*h = o[:len(o)-1]
	return e
}

// ---------------------------------------------------------------- tasks

type taskState uint8

const (
	tsRunnable taskState = iota
	tsBlocked
	tsDone
)

type Task struct {
	ID       int
	Name     string
	Proc     *Proc
	resume   chan struct{}
	st       taskState
	pred     func() bool
	deadline int64
	killed   bool
	killOps  int
	weight   int
	parked   bool // waits for the environment only: no reason to look for preemptions
}

const never = int64(1) << 62

// Knobs are the per-run tunables of the environment (all part of the scenario).
type Knobs struct {
	// scheduling
	PreemptMean int     `json:"preempt_mean,omitempty"` // statements between preemptions when several tasks can run; 0 = never
	Desched     float64 `json:"desched,omitempty"`      // chance that a preempted task is paused when no other one can run
	// latency (ns)
	NetOpNs      int64   `json:"net_op_ns,omitempty"`
	FsOpNs       int64   `json:"fs_op_ns,omitempty"`
	FsyncNs      int64   `json:"fsync_ns,omitempty"`     // max; min is a tenth
	NetLatNs     int64   `json:"net_lat_ns,omitempty"`   // max one-way latency; min is a tenth
	FragP        float64 `json:"frag_p,omitempty"`       // chance that a segment is split further
	FragMax      int     `json:"frag_max,omitempty"`     // max piece size when splitting
	SndBuf       int     `json:"sndbuf,omitempty"`       // server side socket send buffer
	DrainMax     int     `json:"drain_max,omitempty"`    // max bytes moved to the client per delivery
	ShortRead    float64 `json:"short_read,omitempty"`   // socket read returns fewer bytes than available
	ShortWrite   float64 `json:"short_write,omitempty"`  // socket write takes fewer bytes than room
	Eintr        float64 `json:"eintr,omitempty"`        // EINTR on socket read/write/epoll_wait
	Eagain       float64 `json:"eagain,omitempty"`       // spurious EAGAIN on socket read/write
	FileShort    float64 `json:"file_short,omitempty"`   // short file reads
	RandBias     float64 `json:"rand_bias,omitempty"`    // chance that a random number is small (buggify)
	TmpOther     bool    `json:"tmp_other,omitempty"`    // temp dir on another filesystem
	StrictNames  bool    `json:"strict_names,omitempty"` // syncing a file does not make its name durable
	DiskCap      int64   `json:"disk_cap,omitempty"`     // bytes; 0 = unlimited
	EpollShuffle bool    `json:"epoll_shuffle,omitempty"`
	FdShort      int     `json:"fd_short,omitempty"` // descriptor limit (0 = 1024)
	FlushTx      bool    `json:"flush_tx,omitempty"` // kernel-held replies reach the client even when the process dies
}

// LogEntry is a log message of the process: one it tried to log (no path) or one that reached a file.
type LogEntry struct{ Path, Level, Msg string }

type World struct {
	LogOn  bool // record log messages
	Logged []LogEntry

	Now     int64 // monotonic ns
	wallOff int64 // wall = Now + wallOff
	jumps   []wallSeg
	Seq     uint64
	Seed    uint64
	K       Knobs

	rngSched, rngIO, rngRand *RNG

	evq   eventHeap
	evSeq uint64

	tasks  []*Task
	chanw  []*chanWaiter
	cur    *Task
	sched  chan struct{}
	taskID int
	stop   func() bool

	pauses      int
	preemptLeft int
	spin0       int64

	FS    *FS
	Net   *Net
	Procs []*Proc

	faults   []*Fault
	faultGen int
	opCount  [numClasses]int
	rwCount  int  // disk ops since a file other than the log was last created
	rwOn     bool // such a file was created
	loopTask *Task
	// LastEmfile is when a descriptor was last refused.
	LastEmfile int64
	NoiseOff   bool // probabilistic faults are off (quiesce phase)

	Stats    map[string]int
	traceOn  bool
	Trace    []string
	hash     uint64 // hash of the event log
	TraceN   int
	Overrun  string // set when a budget was exceeded (e.g. spin)
	switches uint64 // hash of scheduling decisions
	opsTotal int

	OnEpollWait func(p *Proc, msec int)
}

type wallSeg struct {
	from int64 // mono time from which off applies
	off  int64
}

// W is the current world; nil outside simulations.
var W *World

var (
	spin      int64
	preemptOn bool
)

const spinLimit = 40_000_000

// WallBase is the simulated wall clock at world start.
const WallBase = int64(1_700_000_000) * 1e9

func NewWorld(seed uint64, k Knobs) *World {
	w := &World{Seed: seed, K: k, sched: make(chan struct{}), Stats: map[string]int{}, hash: 14695981039346656037}
	w.rngSched = NewRNG(seed, "sched")
	w.rngIO = NewRNG(seed, "io")
	w.rngRand = NewRNG(seed, "rand")
	w.wallOff = WallBase + NewRNG(seed, "wall").Range(0, 999)*1e6
	w.jumps = []wallSeg{{0, w.wallOff}}
	w.FS = newFS(w)
	w.Net = newNet(w)
	w.preemptLeft = 1 << 30
	W = w
	spin = 0
	preemptOn = false
	return w
}

func (w *World) EnableTrace() { w.traceOn = true }

// Log appends to the event log (hashed always, kept as text when tracing).
func (w *World) Log(kind string, a, b int64, s string) {
	h := w.hash
	for i := 0; i < len(kind); i++ {
		h = (h ^ uint64(kind[i])) * 1099511628211
	}
	h = (h ^ uint64(w.Now)) * 1099511628211
	h = (h ^ uint64(a)) * 1099511628211
	h = (h ^ uint64(b)) * 1099511628211
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	w.hash = h
	w.TraceN++
	if w.traceOn && len(w.Trace) < 20000 {
		t := "-"
		if w.cur != nil {
			t = w.cur.Name
		}
		if len(s) > 200 {
			s = s[:200] + "..."
		}
		w.Trace = append(w.Trace, fmt.Sprintf("%12.6fms %-14s %-14s %d %d %q", float64(w.Now)/1e6, t, kind, a, b, s))
	}
}

func (w *World) Hash() uint64         { return w.hash }
func (w *World) ScheduleHash() uint64 { return w.switches }
func (w *World) Count(s string)       { w.Stats[s]++ }

// ---- clocks

func (w *World) Wall() int64 { return w.Now + w.wallOff }

func (w *World) JumpWall(d int64) {
	w.wallOff += d
	w.jumps = append(w.jumps, wallSeg{w.Now, w.wallOff})
	w.Log("walljump", d, 0, "")
	if d < 0 {
		w.Count("fault.clock_back")
	} else {
		w.Count("fault.clock_fwd")
	}
}

// WallRange gives the minimum and maximum wall clock shown during the monotonic interval [t1,t2].
func (w *World) WallRange(t1, t2 int64) (int64, int64) {
	lo, hi := never, int64(-never)
	for i, s := range w.jumps {
		end := never
		if i+1 < len(w.jumps) {
			end = w.jumps[i+1].from
		}
		a, b := t1, t2
		if s.from > a {
			a = s.from
		}
		if end < b {
			b = end
		}
		if a > b {
			continue
		}
		if a+s.off < lo {
			lo = a + s.off
		}
		if b+s.off > hi {
			hi = b + s.off
		}
	}
	return lo, hi
}

// ---- scheduler

func (w *World) After(d int64, fn func()) {
	if d < 0 {
		d = 0
	}
	w.evSeq++
	heap.Push(&w.evq, event{w.Now + d, w.evSeq, fn})
}

func (w *World) spawn(p *Proc, name string, fn func()) *Task {
	w.taskID++
	t := &Task{ID: w.taskID, Name: name, Proc: p, resume: make(chan struct{}), deadline: never,
		weight: []int{1, 1, 4, 16}[w.rngSched.Intn(4)]}
	w.tasks = append(w.tasks, t)
	w.Log("spawn", int64(t.ID), 0, name)
	w.updatePreempt()
	go func() {
		<-t.resume
		defer func() {
			if r := recover(); r != nil && !t.killed && !p.Dead {
				st := string(debug.Stack())
				p.die(w, "panic", fmt.Sprint(r), st)
			}
			t.st = tsDone
			w.sched <- struct{}{}
		}()
		if t.killed {
			return
		}
		fn()
	}()
	return t
}

// Go starts a new task in the current process (the rewritten go statement).
func Go(fn func()) {
	w := W
	if w == nil || w.cur == nil {
		panic("simrt.Go outside a simulated task")
	}
	if w.cur.killed {
		return
	}
	w.spawn(w.cur.Proc, fmt.Sprintf("bg%d", w.taskID+1), fn)
	w.Count("sched.goroutine")
	w.yieldMaybe()
}

// resumeTask runs t until it hands control back.
func (w *World) resumeTask(t *Task) {
	w.cur = t
	t.resume <- struct{}{}
	<-w.sched
	w.cur = nil
	if t.st == tsDone {
		w.removeTask(t)
	}
}

func (w *World) removeTask(t *Task) {
	for i, x := range w.tasks {
		if x == t {
			w.tasks = append(w.tasks[:i], w.tasks[i+1:]...)
			break
		}
	}
	w.updatePreempt()
}

// handoff gives control to the scheduler and waits to be resumed. Must run in task context.
func (w *World) handoff() {
	t := w.cur
	w.sched <- struct{}{}
	<-t.resume
	if t.killed {
		runtime.Goexit()
	}
	t.st = tsRunnable
	t.pred = nil
	t.deadline = never
}

func (w *World) block(pred func() bool, deadline int64) {
	t := w.cur
	if t.killed {
		return
	}
	t.st = tsBlocked
	t.pred = pred
	t.deadline = deadline
	w.handoff()
}

func (w *World) ready(t *Task) bool {
	switch t.st {
	case tsRunnable:
		return true
	case tsBlocked:
		return t.deadline <= w.Now || (t.pred != nil && t.pred())
	}
	return false
}

func (w *World) updatePreempt() {
	n := 0
	for _, t := range w.tasks {
		if !t.parked {
			n++
		}
	}
	preemptOn = n > 1 && w.K.PreemptMean > 0
	if preemptOn && w.preemptLeft > 1<<20 {
		w.preemptLeft = w.drawPreempt()
	}
}

func (w *World) drawPreempt() int {
	m := w.K.PreemptMean
	return 1 + w.rngSched.Intn(2*m)
}

// P is the preemption point inserted before every statement of the code under test.
func P() {
	spin++
	if preemptOn || spin > spinLimit {
		pSlow()
	}
}

func pSlow() {
	w := W
	if w == nil || w.cur == nil || w.cur.killed {
		return
	}
	if spin > spinLimit {
		spin = 0
		w.dieHere("spin", "no progress: endless loop without any system call")
	}
	w.preemptLeft--
	if w.preemptLeft > 0 {
		return
	}
	w.preemptLeft = w.drawPreempt()
	// is anybody else able to run?
	for _, t := range w.tasks {
		if t != w.cur && w.ready(t) {
			w.Count("sched.preempt")
			w.cur.st = tsRunnable
			w.Log("preempt", int64(w.cur.ID), 0, "")
			w.handoff()
			return
		}
	}
	// otherwise the operating system may take the processor away until somebody is, or for a while
	if w.K.Desched > 0 && w.pauses < 2000 && w.rngSched.Chance(w.K.Desched) {
		w.pauses++
		until := w.Now + 1000<<w.rngSched.Intn(9)
		if w.rngSched.Chance(.6) {
			for _, t := range w.tasks {
				if t != w.cur && t.Proc == w.cur.Proc && t.st == tsBlocked && !t.parked && t.deadline > w.Now && t.deadline < w.Now+5_000_000 {
					until = t.deadline
					break
				}
			}
		}
		w.Count("sched.pause")
		w.Log("pause", int64(w.cur.ID), until-w.Now, "")
		w.block(nil, until)
	}
}

func (w *World) yieldMaybe() {
	if len(w.tasks) > 1 && w.rngSched.Chance(0.5) {
		w.cur.st = tsRunnable
		w.handoff()
	}
}

// Yield lets other tasks run.
func Yield() {
	w := W
	if w == nil || w.cur == nil || w.cur.killed {
		return
	}
	w.cur.st = tsRunnable
	w.handoff()
}

// advance lets d ns pass in task context.
func (w *World) advance(d int64) {
	target := w.Now + d
	if len(w.evq) == 0 || w.evq[0].at > target {
		alone := true
		for _, t := range w.tasks {
			if t != w.cur && (t.st == tsRunnable || t.deadline <= target || t.pred != nil) {
				alone = false
				break
			}
		}
		if alone {
			w.Now = target
			return
		}
	}
	w.block(nil, target)
}

// Sleep blocks the current task for d ns.
func Sleep(d int64) {
	w := W
	if w.cur == nil || w.cur.killed {
		return
	}
	if d < 0 {
		d = 0
	}
	w.block(nil, w.Now+d)
}

// Run drives the simulation until stop() holds, nothing can happen any more, or sim time reaches maxT.
// It reports whether stop() held.
func (w *World) Run(stop func() bool, maxT int64) bool {
	for {
		if stop() {
			return true
		}
		if w.Now >= maxT {
			return false
		}
		for len(w.evq) > 0 && w.evq[0].at <= w.Now {
			e := heap.Pop(&w.evq).(event)
			e.fn()
			w.reap()
			if stop() {
				return true
			}
		}
		total := 0
		var cand [16]*Task
		n := 0
		for _, t := range w.tasks {
			if n < len(cand) && w.ready(t) {
				cand[n] = t
				n++
				total += t.weight
			}
		}
		if n > 0 {
			t := cand[0]
			if n > 1 {
				x := w.rngSched.Intn(total)
				for i := 0; i < n; i++ {
					x -= cand[i].weight
					if x < 0 {
						t = cand[i]
						break
					}
				}
				w.switches = mix(w.switches ^ uint64(t.ID))
				w.Count("sched.choice")
			}
			w.resumeTask(t)
			w.reap()
			continue
		}
		next := never
		if len(w.evq) > 0 {
			next = w.evq[0].at
		}
		for _, t := range w.tasks {
			if t.st == tsBlocked && t.deadline < next {
				next = t.deadline
			}
		}
		if next == never {
			return false
		}
		if next > maxT {
			w.Now = maxT
			return false
		}
		w.Now = next
	}
}

// reap unwinds the tasks of dead processes.
func (w *World) reap() {
	for {
		var victim *Task
		for _, t := range w.tasks {
			if t.Proc.Dead && t.st != tsDone {
				victim = t
				break
			}
		}
		if victim == nil {
			return
		}
		victim.killed = true
		w.resumeTask(victim)
		if victim.st != tsDone {
			w.removeTask(victim) // stuck in a deferred call: abandoned
		}
	}
}

// Close unwinds everything; the world must not be used afterwards.
func (w *World) Close() {
	for _, p := range w.Procs {
		if !p.Dead {
			p.Dead = true
		}
	}
	w.reap()
	W = nil
}

// MapKeys returns the keys of m in a seeded order (the rewritten range over a map).
func MapKeys[K comparable, V any](m map[K]V) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	strs := make(map[K]string, len(m))
	for _, k := range keys {
		strs[k] = fmt.Sprintf("%T:%v", k, k)
	}
	sort.Slice(keys, func(i, j int) bool { return strs[keys[i]] < strs[keys[j]] })
	if W != nil {
		for i := len(keys) - 1; i > 0; i-- {
			j := W.rngRand.Intn(i + 1)
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
	return keys
}

// Rand is the source behind the code under test's math/rand.
func Rand() uint64 {
	w := W
	if w == nil {
		return 4
	}
	if w.K.RandBias > 0 && w.rngRand.Float() < w.K.RandBias {
		// small in the bits that matter to the usual reductions, still varying
		return w.rngRand.U64() & 0x0000_0fff_0fff_0fff
	}
	return w.rngRand.U64()
}

// MonoWall returns simulated monotonic and wall clocks for the time shim.
func MonoWall() (mono, wall int64) {
	w := W
	if w == nil {
		return 0, WallBase
	}
	return w.Now, w.Wall()
}

// Waiter support for shims (sync, timers).
func BlockUntil(pred func() bool) {
	w := W
	if w == nil || w.cur == nil {
		panic("simrt: blocking outside a simulated task")
	}
	if w.cur.killed {
		runtime.Goexit()
	}
	if pred() {
		return
	}
	w.block(pred, never)
}

func TrimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i, l := range lines {
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.Contains(l, "metis") && !strings.Contains(l, "verifsim") {
			loc := ""
			if i+1 < len(lines) {
				loc = strings.TrimSpace(lines[i+1])
				if j := strings.LastIndex(loc, "/"); j >= 0 {
					loc = loc[j+1:]
				}
				if j := strings.Index(loc, " "); j >= 0 {
					loc = loc[:j]
				}
			}
			if j := strings.Index(l, "("); j > 0 {
				l = l[:j]
			}
			if j := strings.LastIndex(l, "/"); j >= 0 {
				l = l[j+1:]
			}
			out = append(out, l+"@"+loc)
		}
		if len(out) >= 5 {
			break
		}
	}
	return strings.Join(out, " < ")
}

// ---- timers of the code under test

type TimerHandle struct {
	live bool
}

// Stop cancels the timer and reports whether it was pending.
func (h *TimerHandle) Stop() bool {
	l := h.live
	h.live = false
	return l
}

// StartTimer fires after d (and then every period): f in its own task, or notify in place.
func StartTimer(d, period int64, f, notify func()) *TimerHandle {
	w := W
	h := &TimerHandle{live: true}
	if w == nil || w.cur == nil {
		return h
	}
	p := w.cur.Proc
	var fire func()
	fire = func() {
		if !h.live || p.Dead {
			return
		}
		if period > 0 {
			w.After(period, fire)
		} else {
			h.live = false
		}
		w.Log("timer", 0, 0, "")
		if f != nil {
			w.spawn(p, fmt.Sprintf("timer%d", w.taskID+1), f)
		} else {
			notify()
		}
	}
	w.After(d, fire)
	return h
}

// Unwinding reports whether the current task belongs to a process that has died (its deferred calls are running).
func Unwinding() bool { return W != nil && W.cur != nil && W.cur.killed }

var resets []func()

// OnReset registers the function that brings a package's variables back to what they are when a process starts.
func OnReset(f func()) { resets = append(resets, f) }

// ResetGlobals runs at the start of every simulated process.
func ResetGlobals() {
	for _, f := range resets {
		f()
	}
}
