package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"syscall"

	metis "github.com/IfanTsai/metis/cmd"

	"verifsim/shim/viper"
	"verifsim/simrt"
)

// Viol is one violation found in a run.
type Viol struct {
	Class string
	Msg   string
}

type Result struct {
	Viol    []Viol
	Incon   bool // the checker ran out of budget
	Ops     int  // client operations with a reply
	Acked   int
	Deaths  map[string]int
	Stats   map[string]int
	Hash    uint64
	Sched   uint64
	SimNs   int64
	Counts  []map[string]int // operations per class and epoch (for fault placement)
	Nodes   int
	Trace   []string
	Hist    *Hist
	FaultN  int // planned faults that fired
	Planned int
	Notes   []string
}

func (r *Result) add(class, f string, a ...any) {
	if len(r.Viol) < 40 {
		r.Viol = append(r.Viol, Viol{class, fmt.Sprintf(f, a...)})
	}
}

func (r *Result) hasClass(cl []string) *Viol {
	for i := range r.Viol {
		for _, c := range cl {
			if r.Viol[i].Class == c {
				return &r.Viol[i]
			}
		}
	}
	return nil
}

// ---- engine

const (
	hangNs = int64(15e9)
	idle1  = int64(20e6)
)

type Engine struct {
	sc     *Scenario
	w      *simrt.World
	res    *Result
	ei     int
	ep     *Epoch
	p      *simrt.Proc
	stopRq bool
	stopT  int64   // when it was last asked to stop
	outage bool    // the power failed after an orderly stop
	cfg    Cfg     // of the current life
	ends   []int64 // when each life ended
	bootT  int64
	actors []*actor
	pend   int   // actors not done
	last   int64 // last progress
	calm   int64 // no injected disturbance after this time so far
	stage  int   // 0 start dump, 1 workload, 2 idle, 3 end dump, 4 over
	ended  bool
	hist   *Hist
	sess   []*sessRun
	netErr bool // errors were injected into network calls: lost connections are expected
	dskErr bool
	bootOK bool
	rw     *rwWatch
}

type sessRun struct {
	s      *Sess
	a      *actor
	conn   *simrt.Conn
	sent   []sentCmd
	closed string // how it ended for the client
	self   bool   // the client ended it
	dead   bool   // the server process died
	ended  int64
}

type sentCmd struct {
	args []string
	off  int64 // stream offset of its end
	none bool  // no reply belongs to it
}

type actor struct {
	e       *Engine
	c       *Client
	idx     int
	name    string
	i       int
	waited  bool
	run     *sessRun
	up      bool // connected
	buf     []byte
	scan    replyScan
	got     int
	want    int
	done    bool
	started bool
	dump    bool
	q       []Op // dump: queue of operations
	onReply func(args []string, r Reply)
	retry   int64
	stalled bool
	gaveUp  string
	gen     int
	ep      int
	preAuth bool
	sentAt  []int64 // per command on this connection
	slow    int64   // longest time it did not read
}

const delayNs = int64(5e9)

// RunScenario executes a scenario once.
func RunScenario(sc *Scenario, trace bool) *Result {
	if sc.Kind == "ae" {
		return runAE(sc, trace)
	}
	w := simrt.NewWorld(sc.Seed, sc.K)
	if trace {
		w.EnableTrace()
	}
	res := &Result{Deaths: map[string]int{}}
	e := &Engine{sc: sc, w: w, res: res, hist: &Hist{}, cfg: sc.Cfg}
	if sc.Cfg.AOF {
		w.FS.LogPath = sc.Cfg.Name
	}
	epochs := sc.Epochs
	if sc.Final == "" {
		epochs = append(append([]*Epoch(nil), epochs...), &Epoch{End: "none"})
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if s, ok := r.(string); ok && strings.HasPrefix(s, "harness: ") {
					res.add("harness", "%s", s)
					return
				}
				panic(r)
			}
		}()
		for i, ep := range epochs {
			if !e.runEpoch(i, ep, i == len(epochs)-1) {
				break
			}
		}
	}()
	w.NoiseOff = true
	e.buildHistory()
	for _, ep := range sc.Epochs {
		for _, f := range ep.Faults {
			res.Planned++
			if f.Fired() {
				res.FaultN++
			}
		}
	}
	res.Stats = w.Stats
	res.SimNs = w.Now
	res.Trace = w.Trace
	w.Close()
	res.Hash = w.Hash()
	res.Sched = w.ScheduleHash()
	res.Hist = e.hist
	e.check()
	return res
}

func (e *Engine) boot() {
	if e.ep.Cfg != nil {
		e.cfg = *e.ep.Cfg
	}
	e.hist.Cfg = append(e.hist.Cfg, e.cfg)
	e.stopRq = false
	e.w.Net.Listens = nil
	e.w.LogOn, e.w.Logged = e.sc.has("logging"), nil
	e.p = e.w.NewProc()
	e.bootT = e.w.Now
	e.bootOK = false
	// the program itself: it reads its configuration file and runs until a signal tells it to stop
	path, text := e.cfg.file()
	viper.Put(path, []byte(text))
	for i := range e.ep.Edits {
		e.edit(e.p, path, &e.ep.Edits[i], e.ep.Edits[i].AtMs*1e6)
	}
	e.w.Start(e.p, "main", func() {
		simrt.ResetGlobals()
		os.Args = []string{"metis", "-c", path}
		metis.Execute()
		simrt.ExitHere(0, "stopped")
	})
}

// edit changes the configuration file of the running server.
func (e *Engine) edit(p *simrt.Proc, path string, d *Edit, after int64) {
	e.w.After(after, func() {
		switch {
		case e.p != p || p.Dead:
		case !e.bootOK:
			e.edit(p, path, d, 3e6)
		default:
			viper.Put(path, []byte(d.Text))
			e.w.Count("fault.config_edit")
			e.w.Start(p, "viper", func() { viper.Changed(path) })
		}
	})
}

// stopSignal asks the server to stop.
func (e *Engine) stopSignal() {
	e.stopRq = true
	e.stopT = e.w.Now
	sig := syscall.SIGTERM
	if e.sc.Seed>>uint(e.ei%8)&1 == 1 {
		sig = syscall.SIGINT
	}
	e.w.Signal(e.p, sig)
}

func (e *Engine) port() int {
	if e.cfg.Port != 0 {
		return int(e.cfg.Port)
	}
	return 6379
}

func (e *Engine) ip(i int) [4]byte {
	if i < len(e.w.Net.LocalIPs) {
		return e.w.Net.LocalIPs[i]
	}
	return e.w.Net.LocalIPs[0]
}

func (e *Engine) runEpoch(i int, ep *Epoch, lastEp bool) bool {
	w := e.w
	e.ei, e.ep = i, ep
	e.actors = nil
	e.sess = nil
	e.ended = false
	w.NoiseOff = false
	w.K.DiskCap = ep.DiskCap
	w.SetFaults(ep.Faults, e.envFault)
	e.hist.Sess = append(e.hist.Sess, nil)
	e.hist.Kind = append(e.hist.Kind, "")
	e.boot()
	e.last = w.Now
	e.calm = w.Now
	if ep.NoiseMs > 0 {
		p := e.p
		w.After(ep.NoiseMs*1e6, func() {
			if e.p == p && !p.Dead {
				w.NoiseOff = true
				e.last = w.Now
			}
		})
	}
	if ep.StopUs > 0 {
		p := e.p
		w.After(ep.StopUs*1000, func() {
			if e.p == p && !p.Dead && !e.stopRq {
				if !e.bootOK {
					w.Count("probe.stop_at_start")
				}
				e.stopSignal()
				w.Count("fault.stop")
			}
		})
	}
	e.rw = nil
	if e.sc.has("size") || e.sc.has("rewrite") || e.sc.has("logfile") {
		e.watchLog()
	}
	e.stage = 0
	startDump := i > 0 && !ep.NoDump && e.cfg.AOF
	if startDump {
		e.addDump("start")
	} else {
		e.startClients()
	}
	stop := func() bool { return e.p.Dead || e.stage == 4 }
	for !stop() {
		ok := w.Run(stop, w.Now+50e6)
		if ok {
			break
		}
		if e.w.Now-e.last > hangNs && e.stage < 4 && e.stage != 2 {
			e.hang()
			break
		}
	}
	exit, hung := e.p.Exit, false
	if !e.p.Dead {
		switch ep.End {
		case "kill", "power":
			e.p.Kill(w, ep.End, "end of epoch")
			w.Count("fault." + ep.End)
			exit = ep.End
		case "stop":
			e.stopSignal()
			w.Run(func() bool { return e.p.Dead }, w.Now+5e9)
			if !e.p.Dead {
				w.Count("sys.stop_hung")
				if e.sc.has("stop") && !e.hasFault("stall") {
					e.res.add("stop", "epoch %d: the server is still running 5 simulated seconds after it was asked to stop", e.ei)
				}
				e.p.Kill(w, "kill", "did not stop")
				hung = true
			}
			exit = "stop"
			w.Count("fault.stop")
			if x := e.p.Exit; (x == "panic" || x == "spin") && !e.deathAllowed() {
				e.res.add("crash", "epoch %d: the server died while it stopped: %s %s [%s]", e.ei, x, e.p.Msg, simrt.TrimStack(e.p.Stack))
			}
		case "none":
			exit = "none"
		}
	} else if e.stopRq && exit != "kill" && exit != "power" {
		if (exit == "panic" || exit == "spin") && !e.deathAllowed() {
			e.res.add("crash", "epoch %d: the server died while it stopped: %s %s [%s]", e.ei, exit, e.p.Msg, simrt.TrimStack(e.p.Stack))
		}
		exit = "stop"
	}
	e.outage = exit == "stop" && ep.Outage && !hung
	if e.outage {
		w.FSPowerLoss()
		w.Count("fault.power_after_stop")
		exit = "power"
	}
	e.res.Deaths[exit]++
	e.res.Counts = append(e.res.Counts, w.OpCounts())
	e.finishEpoch(exit)
	switch exit {
	case "panic", "exit", "spin":
		kind := "crash"
		if !e.bootOK && e.ei > 0 {
			kind = "bootfail"
		}
		if e.deathAllowed() {
			w.Count("probe.failstop")
			e.bootOK = true
			if e.dskErr {
				// what the disk refused is not on it: only what was synced counts from here on
				e.p.Dead = true
				w.FSPowerLoss()
				exit = "power"
			}
		} else {
			e.res.add(kind, "epoch %d: the server died: %s %s [%s]", e.ei, e.p.Exit, e.p.Msg, simrt.TrimStack(e.p.Stack))
			e.hist.Kind[i] = exit
			return false
		}
	}
	if exit == "none" || lastEp {
		return false
	}
	e.hist.Kind[i] = exit
	// downtime
	w.NoiseOff = true
	w.Run(func() bool { return false }, w.Now+1e6+ep.DownMs*1e6)
	if ep.CutPm > 0 {
		e.cutLog(i, ep.CutPm)
	}
	if ep.JumpMs != 0 {
		w.JumpWall(ep.JumpMs * 1e6)
	}
	return true
}

func (e *Engine) deathAllowed() bool {
	for _, f := range e.ep.Faults {
		if !f.Fired() {
			continue
		}
		if f.Kind == "err" || f.Kind == "short" {
			if f.Err == "EMFILE" && e.bootOK {
				continue
			}
			switch f.On {
			case "fopen", "fread", "fwrite", "fsync", "fclose", "frename", "funlink", "fstat", "ftrunc", "exec", "fs", "rwfs":
				return true
			case "sock":
				return true
			case "epctl", "epadd", "any":
				if !e.bootOK {
					return true
				}
			}
		}
	}
	if e.sc.has("bind") && !e.bindLocal() {
		return true
	}
	return e.w.Stats["fault.enospc"] > 0
}

func (e *Engine) hasFault(kind string) bool {
	for _, f := range e.ep.Faults {
		if f.Kind == kind {
			return true
		}
	}
	return false
}

// bindLocal tells whether the configured address is one of this machine.
func (e *Engine) bindLocal() bool {
	if e.cfg.Bind == "0.0.0.0" {
		return true
	}
	for i := range e.w.Net.LocalIPs {
		if e.cfg.Bind == e.ipStr(i) {
			return true
		}
	}
	return false
}

// bindIP is the index of an address at which the server can be reached.
func (e *Engine) bindIP() int {
	for i := range e.w.Net.LocalIPs {
		if e.cfg.Bind == e.ipStr(i) {
			return i
		}
	}
	return 0
}

func (e *Engine) ipStr(i int) string {
	ip := e.ip(i)
	return fmt.Sprintf("%d.%d.%d.%d", ip[0], ip[1], ip[2], ip[3])
}

func (e *Engine) cutLog(i, pm int) {
	d, ok := e.w.FS.Peek(e.cfg.Name)
	if !ok {
		return
	}
	n := len(d) * pm / 1000
	if pm >= 1000 || n > len(d) {
		n = len(d)
	}
	e.w.Log("cut", int64(len(d)), int64(n), "")
	if n < len(d) {
		e.w.Count("fault.torn_log")
	}
	e.w.FS.Put(e.cfg.Name, d[:n])
	// what survives: replies written when the log was not longer than the cut
	for _, s := range e.hist.Sess[i] {
		for _, o := range s.Ops {
			o.Must = o.End != inf && o.Log <= int64(n)
		}
	}
}

func (e *Engine) hang() {
	var who []string
	for _, a := range e.actors {
		if !a.done {
			who = append(who, a.desc())
		}
	}
	cl := "hang"
	if !e.bootOK && e.ei > 0 {
		cl = "bootfail"
	}
	e.res.add(cl, "epoch %d: no progress for %d simulated seconds; waiting: %s", e.ei, hangNs/1e9, strings.Join(who, "; "))
	e.stage = 4
}

func (a *actor) desc() string {
	s := fmt.Sprintf("%s step %d, %d replies of %d", a.name, a.i, a.got, a.want)
	if a.run == nil || !a.up {
		s += " (not connected)"
	}
	return s
}

// envFault performs time-triggered faults of the environment.
func (e *Engine) envFault(f *simrt.Fault) {
	w := e.w
	e.last = w.Now
	switch f.Kind {
	case "netstall":
		w.Net.Partition = true
		w.Count("fault.partition")
		w.After(f.Arg*1e6, func() { w.Net.Partition = false; e.last = w.Now })
	case "stop":
		e.stopSignal()
		w.Count("fault.stop")
	case "reset":
		n := 0
		for _, s := range e.sess {
			if !s.conn.Closed() {
				n++
			}
		}
		if n > 0 {
			k := int(f.Arg) % n
			for _, s := range e.sess {
				if !s.conn.Closed() {
					if k == 0 {
						s.self = true
						s.conn.Reset()
						s.a.lost("injected reset")
						return
					}
					k--
				}
			}
		}
	}
}

// ---- stages of an epoch

func (e *Engine) startClients() {
	e.stage = 1
	e.pend = 0
	e.last = e.w.Now
	for i := range e.ep.Clients {
		c := &e.ep.Clients[i]
		a := &actor{e: e, ep: e.ei, c: c, idx: i, name: fmt.Sprintf("client %d", i)}
		e.actors = append(e.actors, a)
		e.pend++
		e.w.After(c.StartUs*1000, a.start)
	}
	if e.pend == 0 {
		e.allDone()
	}
}

func (e *Engine) actorDone(a *actor) {
	if a.done {
		return
	}
	a.done = true
	e.last = e.w.Now
	if a.dump {
		if a.run != nil && a.up {
			a.run.self = true
			a.run.conn.Close()
			a.up = false
		}
		if a.name == "dump at start" {
			e.startClients()
		} else {
			e.quiesce()
		}
		return
	}
	e.pend--
	if e.pend == 0 && e.stage == 1 {
		e.allDone()
	}
}

func (e *Engine) allDone() {
	e.stage = 2
	d := e.ep.IdleMs*1e6 + idle1
	if e.ep.IdleMs < 0 {
		d = 0
	}
	p := e.p
	e.w.After(d, func() {
		if e.p != p || p.Dead {
			return
		}
		e.last = e.w.Now
		if e.sc.has("fd") {
			e.w.NoiseOff = true
			e.closeAll()
			var poll func()
			n := 0
			poll = func() {
				if e.p != p || p.Dead {
					return
				}
				e.last = e.w.Now
				if n++; e.checkFDs(n >= 60) || n >= 60 {
					e.after()
					return
				}
				e.w.After(500e6, poll) // the network may still be delivering
			}
			e.w.After(200e6, poll)
			return
		}
		e.after()
	})
}

func (e *Engine) after() {
	if e.ep.DumpEnd {
		e.stage = 3
		e.addDump("end")
		return
	}
	e.quiesce()
}

func (e *Engine) quiesce() { e.stage = 4 }

func (e *Engine) closeAll() {
	for _, s := range e.sess {
		if !s.conn.Closed() {
			s.self = true
			s.conn.Close()
		}
	}
	for _, a := range e.actors {
		a.up = false
	}
}

// checkFDs tells whether no descriptor is left over; with report set, what is left over is a violation.
func (e *Engine) checkFDs(report bool) bool {
	socks, _, eps, lns := e.p.OpenFDs()
	if !report || socks == 0 && eps == 1 && lns == 1 {
		return socks == 0 && eps == 1 && lns == 1
	}
	if socks != 0 {
		e.res.add("fd", "epoch %d: %d client descriptors are still open after every client has gone", e.ei, socks)
	}
	if eps != 1 || lns != 1 {
		e.res.add("fd", "epoch %d: %d epoll and %d listening descriptors", e.ei, eps, lns)
	}
	return false
}

func (e *Engine) addDump(name string) {
	a := &actor{e: e, ep: e.ei, c: &Client{Window: 1, Auth: e.cfg.Pass, IP: e.bindIP()}, dump: true, name: "dump at " + name, idx: -1}
	e.actors = append(e.actors, a)
	dbs := e.sc.DumpDB
	if len(dbs) == 0 {
		dbs = []int{0}
	}
	sel := -1
	var probe func(db int, key string)
	sub := func(db int, op ...string) {
		if sel != db {
			a.q = append(a.q, Op{A: bstrs("select", fmt.Sprint(db))})
			sel = db
		}
		a.q = append(a.q, Op{A: bstrs(op...)})
	}
	type pk struct {
		db   int
		key  string
		step int
	}
	var pending []pk // commands whose reply decides how to go on, in order
	next := map[int][]string{0: {"get"}, 1: {"lrange", "0", "-1"}, 2: {"hkeys"}, 3: {"smembers"}, 4: {"zrange", "0", "100000", "withscores"}}
	ask := func(db int, key string, step int) {
		n := next[step]
		sub(db, append([]string{n[0], key}, n[1:]...)...)
		pending = append(pending, pk{db, key, step})
	}
	probe = func(db int, key string) { ask(db, key, 0) }
	keysDB := append([]int(nil), dbs...)
	for _, db := range dbs {
		if len(e.sc.Keys) > 0 {
			for _, k := range e.sc.Keys {
				probe(db, string(k))
			}
		} else {
			sub(db, "keys", "*")
		}
	}
	a.onReply = func(args []string, r Reply) {
		switch args[0] {
		case "keys":
			db := keysDB[0]
			keysDB = keysDB[1:]
			var ks []string
			for _, x := range r.Arr {
				ks = append(ks, x.S)
			}
			sort.Strings(ks)
			for _, k := range ks {
				probe(db, k)
			}
		case "get", "lrange", "hkeys", "smembers", "zrange":
			p := pending[0]
			pending = pending[1:]
			if r.K == '-' {
				if p.step < 4 {
					ask(p.db, p.key, p.step+1)
				}
				return
			}
			if !r.Null {
				sub(p.db, "ttl", p.key)
			}
			switch args[0] {
			case "lrange":
				sub(p.db, "llen", p.key)
			case "hkeys":
				for _, x := range r.Arr {
					sub(p.db, "hget", p.key, x.S)
				}
				sub(p.db, "hlen", p.key)
			case "smembers":
				sub(p.db, "scard", p.key)
			case "zrange":
				sub(p.db, "zcard", p.key)
			}
		}
	}
	e.w.After(1000, a.start)
}

// ---- client actors

func (a *actor) start() {
	if a.stale() {
		return
	}
	a.started = true
	a.connect()
}

func (a *actor) stale() bool { return a.ep != a.e.ei || a.e.p.Dead }

func (a *actor) connect() {
	e := a.e
	if a.stale() || a.done {
		return
	}
	s := &Sess{Ep: e.ei, Client: a.idx, Name: a.name, T: e.w.Now}
	r := &sessRun{s: s, a: a}
	a.gen++
	a.run = r
	a.up = false
	a.buf, a.scan = nil, replyScan{}
	a.got, a.want = 0, 0
	a.sentAt, a.stalled = nil, false
	ip := e.ip(a.c.IP)
	proc := e.p
	r.conn = e.w.Net.Dial(ip, e.port(), func() {
		if a.run != r || a.done || a.stale() {
			return
		}
		a.up = true
		e.last = e.w.Now
		a.preAuth = a.c.Auth != ""
		a.pump()
	}, func(b []byte) {
		if a.run == r && !a.stale() {
			e.bootOK = true
			a.data(b)
		}
	}, func(kind string) {
		r.closed = kind
		r.ended = e.w.Now
		if proc.Dead {
			r.dead = true
		}
		if a.run == r {
			a.lost(kind)
		}
	})
	s.Conn = r.conn.ID
	e.sess = append(e.sess, r)
}

// lost: the connection is over; go on with the next step on a new one.
func (a *actor) lost(kind string) {
	e := a.e
	a.up = false
	if a.done || a.stale() {
		return
	}
	if kind == "refused" {
		for i, s := range e.sess {
			if s == a.run {
				e.sess = append(e.sess[:i], e.sess[i+1:]...)
				break
			}
		}
		if e.sc.has("bind") && e.bootOK && e.w.Now-e.bootT > 300e6 {
			a.gaveUp = "refused"
			e.actorDone(a)
			return
		}
		e.w.After(2e6, func() { a.reconnect() })
		return
	}
	if a.i >= a.nOps() && !a.dump {
		e.actorDone(a)
		return
	}
	e.w.After(1e6, func() { a.reconnect() })
}

func (a *actor) reconnect() {
	if a.done || a.stale() || a.up {
		return
	}
	if a.dump && a.gen > 0 && a.want > 0 {
		// a dump that lost its connection starts over
		a.e.addDumpAgain(a)
		return
	}
	a.connect()
}

func (e *Engine) addDumpAgain(a *actor) {
	a.done = true
	e.addDump(strings.TrimPrefix(a.name, "dump at "))
}

func (a *actor) nOps() int {
	if a.dump {
		return len(a.q)
	}
	return len(a.c.Ops)
}

func (a *actor) op(i int) *Op {
	if a.dump {
		return &a.q[i]
	}
	return &a.c.Ops[i]
}

func (a *actor) pump() {
	e := a.e
	if a.done || !a.up || a.stale() {
		return
	}
	var out []byte
	flush := func() {
		if len(out) > 0 {
			a.run.conn.Send(out)
			out = nil
		}
	}
	base := a.run.conn.Sent()
	send := func(b []byte, args []string, none bool) {
		out = append(out, b...)
		a.run.sent = append(a.run.sent, sentCmd{args, base + int64(len(out)), none})
		if !none {
			a.want++
			a.sentAt = append(a.sentAt, e.w.Now)
		}
		if !a.c.Join && !a.dump {
			flush()
			base = a.run.conn.Sent()
		}
	}
	if a.preAuth {
		a.preAuth = false
		args := []string{"auth", string(a.c.Auth)}
		send([]byte(encode(args)), args, false)
	}
	for a.i < a.nOps() {
		op := a.op(a.i)
		if (op.Us > 0 || op.AtUs > 0) && !a.waited {
			wait := op.Us * 1000
			if op.AtUs > 0 {
				wait = max(simrt.WallBase+op.AtUs*1000-e.w.Wall(), 0)
			}
			flush()
			a.waited = true
			if t := e.w.Now + wait; t > e.last {
				e.last = t
			}
			e.w.After(wait, a.pump)
			return
		}
		if op.Do != "" {
			flush()
			if op.Do == "sync" {
				if a.got < a.want {
					a.unstall()
					return
				}
				a.next()
				continue
			}
			a.next()
			e.last = e.w.Now
			switch op.Do {
			case "close", "reset", "abort", "reconnect":
				if op.Do == "reconnect" && a.got < a.want && !a.c.Hostile {
					a.i--
					a.waited = true
					a.unstall()
					return
				}
				a.run.self = true
				switch op.Do {
				case "close", "reconnect":
					a.run.conn.Close()
				case "reset":
					a.run.conn.Reset()
				case "abort":
					a.run.conn.Abort(syscall.ETIMEDOUT)
				}
				a.up = false
				if a.i >= a.nOps() {
					e.actorDone(a)
					return
				}
				e.w.After(1e6, func() { a.reconnect() })
				return
			case "stall":
				a.stalled = true
				a.run.conn.SetReading(false)
			case "resume":
				a.stalled = false
				a.run.conn.SetReading(true)
			}
			continue
		}
		if a.c.Window > 0 && a.want-a.got >= a.c.Window && !a.c.Hostile && !a.stalled {
			flush()
			return
		}
		a.next()
		e.last = e.w.Now
		if len(op.A) == 0 {
			send([]byte(op.Raw), nil, true)
			continue
		}
		args := strs(op.A)
		wire := e.sc.recase(args, a.i)
		if op.Blk {
			send([]byte("$"+strconv.Itoa(len(wire[0]))+"\r\n"+wire[0]+"\r\n"), args, false)
		} else if op.Inl {
			send([]byte("+"+strings.Join(wire, " ")+"\r\n"), args, false)
		} else {
			send([]byte(encode(wire)), args, false)
		}
	}
	flush()
	if a.got >= a.want || a.c.Hostile {
		e.actorDone(a)
		return
	}
	a.unstall()
}

// unstall lets a client that has to wait for replies read again.
func (a *actor) unstall() {
	if a.stalled {
		a.stalled = false
		a.run.conn.SetReading(true)
	}
}

func (a *actor) next() {
	a.i++
	a.waited = false
}

func (a *actor) data(b []byte) {
	e := a.e
	if a.done && !a.dump {
		return
	}
	e.last = e.w.Now
	if a.c.Hostile {
		return
	}
	a.buf = append(a.buf, b...)
	for a.scan.complete(a.buf) {
		r, n, err := parseReply(a.buf)
		if err != nil {
			a.buf, a.scan = nil, replyScan{}
			return // reported from the history
		}
		if n == 0 {
			break
		}
		a.buf = a.buf[n:]
		a.scan = replyScan{}
		if a.c.Window == 1 && !a.dump && a.got < len(a.sentAt) && e.sc.has("delay") {
			if d := e.w.Now - a.sentAt[a.got]; d > delayNs {
				e.res.add("delay", "epoch %d %s: the reply to command %d took %.1f simulated seconds", e.ei, a.name, a.got, float64(d)/1e9)
			}
		}
		// find the command it answers
		k := 0
		for _, s := range a.run.sent {
			if s.none {
				continue
			}
			if k == a.got {
				if a.onReply != nil {
					a.onReply(s.args, r)
				}
				break
			}
			k++
		}
		a.got++
	}
	a.pump()
}

// ---- history

func (e *Engine) finishEpoch(exit string) {
	end := e.w.Now
	if e.p.Dead {
		end = e.p.DiedAt
	}
	for _, r := range e.sess {
		if r.a.c.Hostile {
			continue
		}
		s := r.s
		out := r.conn.Out
		rep := 0
		wi, ri := 0, 0
		var off int64
		bad := false
		for ci, c := range r.sent {
			for ri < len(r.conn.Reads) && r.conn.Reads[ri].Off < c.off {
				ri++
			}
			if ri >= len(r.conn.Reads) {
				break // never fully delivered
			}
			if c.none {
				continue
			}
			o := &OpRec{Args: c.args, Start: r.conn.Reads[ri].Seq, T0: r.conn.Reads[ri].T, End: inf, T1: end, Dump: r.a.dump}
			if !bad {
				x, n, err := parseReply(out)
				if err != nil {
					e.res.add("framing", "epoch %d %s: reply %d (to %s): %v", e.ei, s.Name, rep, cmdStr(c.args), err)
					bad = true
				} else if n > 0 {
					out = out[n:]
					off += int64(n)
					rep++
					for wi < len(r.conn.Writes) && r.conn.Writes[wi].Off < off {
						wi++
					}
					if wi < len(r.conn.Writes) {
						mk := r.conn.Writes[wi]
						o.End, o.T1, o.Log = mk.Seq, mk.T, mk.Log
						if mk.Seq < o.Start {
							e.res.add("framing", "epoch %d %s: reply %d was sent before the server had read the command %s", e.ei, s.Name, rep, cmdStr(c.args))
							o.Start = mk.Seq
							bad = true
						}
						o.Reply = &x
					}
				} else {
					bad = true
				}
			}
			_ = ci
			s.Ops = append(s.Ops, o)
			e.res.Ops++
			if o.End != inf {
				e.res.Acked++
			}
		}
		if !bad && len(out) > 0 {
			e.res.add("framing", "epoch %d %s: %d bytes that answer no command: %q", e.ei, s.Name, len(out), clip(out))
		}
		if r.closed != "" && r.closed != "refused" && !r.self && !r.dead && !e.netErr && !e.stopRq && !e.closeOK() {
			e.res.add("closed", "epoch %d %s: the server closed the connection (%s) after %d replies", e.ei, s.Name, r.closed, rep)
		}
		e.hist.Sess[e.ei] = append(e.hist.Sess[e.ei], s)
	}
	if e.sc.has("fd") && (exit == "none" || exit == "kill" || exit == "power") {
		if len(e.p.Strays) > 0 {
			e.res.add("stray", "epoch %d: %d operations on descriptors that were not open or not its own: %s", e.ei, len(e.p.Strays), e.p.Strays[0])
		}
	}
	if e.sc.has("bind") {
		for _, a := range e.actors {
			addr := e.ipStr(a.c.IP)
			want := e.cfg.Bind == "0.0.0.0" || e.cfg.Bind == addr
			if want && a.gaveUp != "" && !e.sockFault() {
				e.res.add("bind", "bound to %s:%d, but %s:%d refuses connections", e.cfg.Bind, e.port(), addr, e.port())
			}
			if !want && a.got > 0 {
				e.res.add("bind", "bound to %s:%d, but the server answers on %s:%d", e.cfg.Bind, e.port(), addr, e.port())
			}
		}
	}
	if e.sc.has("bind") {
		for _, l := range e.w.Net.Listens {
			if a := fmt.Sprintf("%d.%d.%d.%d", l.IP[0], l.IP[1], l.IP[2], l.IP[3]); a != e.cfg.Bind || l.Port != e.port() {
				e.res.add("bind", "configured for %s:%d, but the server listens on %s:%d", e.cfg.Bind, e.port(), a, l.Port)
			}
		}
	}
	if e.sc.has("logfile") && e.bootOK && exit != "power" {
		n, acked := e.w.FS.Size(e.cfg.Name), false
		for _, s := range e.hist.Sess[e.ei] {
			for _, o := range s.Ops {
				acked = acked || o.Reply != nil && o.Reply.K == '+' && len(o.Args) == 3 && strings.EqualFold(o.Args[0], "set")
			}
		}
		switch {
		case e.cfg.AOF && (n < 0 || n == 0 && acked && (e.rw == nil || e.rw.maxSize == 0)): // a rewrite may leave an empty log
			e.res.add("logfile", "epoch %d: appendonly is on, but %s does not hold the log (files: %v)", e.ei, e.cfg.Name, e.w.FS.Names())
		case !e.cfg.AOF && len(e.w.FS.Names()) > 0:
			e.res.add("logfile", "epoch %d: appendonly is off, but there are files: %v", e.ei, e.w.FS.Names())
		}
	}
	if e.sc.has("logging") {
		e.judgeLogged()
	}
	if e.rw != nil {
		e.rw.finish(e)
	}
	e.setMust(exit)
}

var logLevels = map[string]int{"debug": 1, "info": 2, "warn": 3, "error": 4, "dpanic": 5, "panic": 6, "fatal": 7}

// judgeLogged: exactly the messages of the configured level and above are in the configured log file.
func (e *Engine) judgeLogged() {
	min := logLevels[e.cfg.Level]
	if min == 0 {
		min = logLevels["info"]
	}
	path := e.cfg.logFile()
	var tried, got []string
	for _, l := range e.w.Logged {
		n := logLevels[l.Level]
		x := l.Level + ": " + l.Msg
		switch {
		case l.Path == "" && n >= min && path != "":
			tried = append(tried, x)
		case l.Path == "":
		case l.Path != path:
			e.res.add("logging", "epoch %d: the log file is configured as %q, but %q is written to %q", e.ei, path, x, l.Path)
			return
		case n < min:
			e.res.add("logging", "epoch %d: the configured log level is %q, but %q is written", e.ei, e.cfg.Level, x)
			return
		default:
			got = append(got, x)
		}
	}
	e.w.Stats["probe.logged"] += len(got)
	for i, x := range tried {
		if i >= len(got) || got[i] != x {
			e.res.add("logging", "epoch %d: %q is missing from the log file %q at log level %q", e.ei, x, path, e.cfg.Level)
			return
		}
	}
}

func (e *Engine) sockFault() bool {
	for _, f := range e.ep.Faults {
		if f.Fired() && f.On == "sock" {
			return true
		}
	}
	return false
}

func (e *Engine) closeOK() bool {
	for _, f := range e.ep.Faults {
		if f.Fired() && (f.Kind == "err" || f.Kind == "short") {
			switch f.On {
			case "accept", "read", "write", "epwait", "epctl", "epadd", "close", "sock", "any":
				return true
			}
		}
	}
	return e.w.Stats["fault.emfile"] > 0
}

// setMust marks what has to survive the way the epoch ended.
func (e *Engine) setMust(exit string) {
	kind := exit
	if (exit == "panic" || exit == "exit" || exit == "spin") && e.deathAllowed() && e.syncFault() {
		kind = "power"
		e.dskErr = true
	} else {
		e.dskErr = false
	}
	T := e.w.Now
	if e.p.Dead {
		T = e.p.DiedAt
	}
	e.ends = append(e.ends, T)
	acked := false
	for _, s := range e.hist.Sess[e.ei] {
		for _, o := range s.Ops {
			acked = acked || o.End != inf
		}
	}
	for _, s := range e.hist.Sess[e.ei] {
		for _, o := range s.Ops {
			if o.End == inf {
				continue
			}
			switch {
			case !e.cfg.AOF:
			case e.outage: // an orderly stop has synced the log
				o.Must = o.T1 <= e.stopT
			case kind == "power" && e.cfg.Fsync == "always":
				o.Must = true
			case kind == "power" && e.cfg.Fsync == "everysec":
				o.Must = o.T1 <= T-2e9-e.slack()
			case kind == "power":
			default:
				o.Must = true
			}
		}
	}
	if kind != "power" {
		return
	}
	// A server that answers has synced everything it found (unless it never syncs). What an earlier one had not synced when it
	// died may be gone otherwise: it survived that death in the page cache only.
	synced := acked && (e.cfg.Fsync != "no" || e.outage)
	for ep := e.ei - 1; ep >= 0 && !synced; ep-- {
		fsync := e.hist.Cfg[ep].Fsync
		acked := false
		for _, s := range e.hist.Sess[ep] {
			for _, o := range s.Ops {
				acked = acked || o.End != inf
				if fsync == "no" || fsync == "everysec" && o.T1 > e.ends[ep]-2e9-e.slack() {
					o.Must = false
				}
			}
		}
		synced = acked && fsync != "no"
	}
}

func (e *Engine) slack() int64 { return e.sc.K.FsyncNs*2 + 100e6 }

func (e *Engine) syncFault() bool {
	for k := range e.w.Stats {
		if strings.HasPrefix(k, "fault.err.fsync") {
			return true
		}
	}
	return false
}

func (e *Engine) buildHistory() { e.hist.walls(e.w) }

// ---- verdict over the history

const linBudget = 60000

func (e *Engine) check() {
	res := e.res
	for _, v := range res.Viol {
		if v.Class == "framing" || v.Class == "harness" {
			return
		}
	}
	if e.sc.has("nolin") {
		return
	}
	ndb := e.cfg.DBs
	if ndb <= 0 {
		ndb = 16
	}
	last := len(e.hist.Sess) - 1
	tol := false
	for _, ep := range e.sc.Epochs {
		if ep.DiskCap > 0 {
			tol = true
		}
		for _, f := range ep.Faults {
			if f.Fired() && (f.Kind == "err" || f.Kind == "short") && simrt.ClassByName(f.On).Disk() {
				tol = true
			}
		}
	}
	r := linearize(e.hist, ndb, string(e.cfg.Pass), last, 1000, tol, linBudget)
	res.Nodes += r.nodes
	if r.ok {
		return
	}
	if r.inconclusive {
		res.Incon = true
		return
	}
	// which part is at fault?
	if last > 0 {
		for ep := 0; ep <= last; ep++ {
			r2 := linearize(e.hist, ndb, string(e.cfg.Pass), ep, 1000, tol, linBudget)
			if r2.inconclusive {
				res.Incon = true
				return
			}
			if !r2.ok {
				class := "live"
				if ep > 0 && e.dumpFails(ep, ndb, tol) {
					class = "recover"
				}
				res.add(class, "no order of the operations explains the replies: %s", r2.msg)
				return
			}
		}
	}
	res.add("live", "no order of the operations explains the replies: %s", r.msg)
}

// dumpFails tells whether the read-back at the start of the epoch alone cannot be explained.
func (e *Engine) dumpFails(ep, ndb int, tol bool) bool {
	h := &Hist{Kind: e.hist.Kind}
	for i := 0; i <= ep; i++ {
		h.Sess = append(h.Sess, e.hist.Sess[i])
	}
	var d []*Sess
	for _, s := range e.hist.Sess[ep] {
		if s.Name == "dump at start" {
			d = append(d, s)
		}
	}
	if len(d) == 0 {
		return true
	}
	h.Sess[ep] = d
	r := linearize(h, ndb, string(e.cfg.Pass), ep, 1000, tol, linBudget)
	return !r.ok
}
