package main

import "strconv"

// rwWatch observes the log file from outside: its size over time, and when it is replaced or shrinks (a rewrite).
type rwWatch struct {
	bootSize int64
	base     int64 // size right after the last rewrite seen in this life of the server; -1: none yet
	size     int64
	ino      int
	maxSize  int64
	baseHi   int64 // the largest size seen shortly after that rewrite
	settle   int64
	swaps    int
	asked    int // BGREWRITEAOF replies seen before a swap counts
	bad      []string
	swapT    int64
	overT    int64 // since when the trigger condition has held
	side0    int   // files beside the log at start
	side     int
	hist     []int64 // the last sizes of the log
	from     int64   // size of the log shortly before the running rewrite began
	bound    int64   // what a dump of the dataset can take at most; 0: unknown
}

// dumpBound gives an upper limit for the size of a dump of any dataset the scenario can produce (0: none is known).
func dumpBound(s *Scenario) int64 {
	type kf struct{ k, f string }
	keys := map[string]bool{}
	flds := map[kf]int{}
	dbs := map[string]bool{"": true}
	for _, ep := range s.Epochs {
		for _, c := range ep.Clients {
			for _, o := range c.Ops {
				a := strs(o.A)
				if len(a) < 3 {
					if len(a) == 2 && a[0] == "select" {
						dbs[a[1]] = true
					}
					continue
				}
				keys[a[1]] = true
				put := func(f string, n int) { flds[kf{a[1], f}] = max(flds[kf{a[1], f}], n) }
				switch a[0] {
				case "set":
					put("", len(a[2]))
				case "setex":
					if len(a) > 3 {
						put("", len(a[3]))
					}
				case "hset":
					for i := 2; i+1 < len(a); i += 2 {
						put(a[i], len(a[i])+len(a[i+1]))
					}
				case "sadd":
					for _, f := range a[2:] {
						put(f, len(f))
					}
				case "zadd":
					for i := 2; i+1 < len(a); i += 2 {
						x, _ := strconv.ParseFloat(a[i], 64)
						put(a[i+1], len(a[i+1])+len(strconv.FormatFloat(x, 'f', -1, 64)))
					}
				case "lpush", "rpush":
					return 0
				}
			}
		}
	}
	n := int64(0)
	for k := range keys {
		n += int64(2*len(k) + 150)
	}
	for f, m := range flds {
		n += int64(m + len(f.k) + 70)
	}
	return (n + 50) * int64(len(dbs))
}

func (e *Engine) watchLog() {
	w := e.w
	p := e.p
	r := &rwWatch{base: -1, overT: -1}
	e.rw = r
	r.bootSize = w.FS.Size(e.cfg.Name)
	r.size = r.bootSize
	r.ino = w.FS.InodeID(e.cfg.Name)
	r.side0 = max(len(w.FS.Names())-1, 0)
	r.side = r.side0
	r.bound = dumpBound(e.sc)
	w.FS.OnChange = func() {
		if e.p == p && !p.Dead {
			r.sample(e)
		}
	}
}

// sample is called after every change in the filesystem.
func (r *rwWatch) sample(e *Engine) {
	w := e.w
	n := w.FS.Size(e.cfg.Name)
	if n < 0 {
		return
	}
	ino := w.FS.InodeID(e.cfg.Name)
	side := len(w.FS.Names()) - 1
	if side > r.side {
		r.from = n
		if len(r.hist) > 0 {
			r.from = r.hist[0] // the snapshot may be a little older than the file
		}
		if e.sc.has("size") && side > r.side0+1 {
			e.res.add("size", "epoch %d: two rewrites run at a time: %v", e.ei, w.FS.Names())
		}
	}
	r.side = side
	if n != r.size {
		if len(r.hist) >= 40 {
			r.hist = r.hist[1:]
		}
		r.hist = append(r.hist, r.size)
	}
	switch {
	case r.ino == 0:
		r.ino = ino
	case ino != r.ino || n < r.size:
		if !e.bootOK && ino == r.ino && r.swaps == 0 {
			r.bootSize = n // a torn tail is cut off at start
			break
		}
		r.swaps++
		r.swapT = w.Now
		w.Count("probe.rewrite_done")
		if e.sc.has("size") && !e.asksRewrite() {
			r.judgeAuto(e)
		}
		if grown := r.size - r.from; e.sc.has("size") && r.bound > 0 && n > r.bound+grown {
			e.res.add("size", "epoch %d: the rewritten log has %d bytes, but no dataset of this scenario takes more than %d and %d bytes were logged since the rewrite began",
				e.ei, n, r.bound, grown)
		}
		r.hist = r.hist[:0]
		r.base = n
		r.baseHi = n
		r.settle = w.Now + 5e6 + 20*(e.sc.K.FsOpNs+e.sc.K.FsyncNs)
		r.ino = ino
		r.overT = -1
	}
	if r.base >= 0 && w.Now <= r.settle {
		r.baseHi = max(r.baseHi, n) // what was written meanwhile may be added after the switch
	}
	r.size = n
	r.maxSize = max(r.maxSize, n)
	if !r.due(e) {
		r.overT = -1
	} else if r.overT < 0 {
		r.overT = w.Now
	}
}

func (e *Engine) asksRewrite() bool {
	for i := range e.ep.Clients {
		for _, o := range e.ep.Clients[i].Ops {
			if len(o.A) == 1 && len(o.A[0]) == len("bgrewriteaof") {
				return true
			}
		}
	}
	return false
}

// judgeAuto: an automatic rewrite has just replaced a log that was r.size long.
func (r *rwWatch) judgeAuto(e *Engine) {
	c := e.cfg
	base := r.base
	if base < 0 {
		base = r.bootSize
	}
	switch {
	case c.Pct == 0:
		e.res.add("size", "epoch %d: the log was rewritten although automatic rewrites are off", e.ei)
	case r.size < int64(c.Min):
		e.res.add("size", "epoch %d: the log was rewritten at %d bytes, not above the minimum of %d", e.ei, r.size, c.Min)
	case base > 0 && r.size*100/base-100 < int64(c.Pct):
		e.res.add("size", "epoch %d: the log was rewritten at %d bytes, %d%% more than the %d after the last rewrite or at start (configured: %d%%)", e.ei, r.size, r.size*100/base-100, base, c.Pct)
	}
}

// due: a rewrite has to run. Before the first rewrite in this life only a log at least twice the growth counts as due, measured from
// the size at boot.
func (r *rwWatch) due(e *Engine) bool {
	c := e.cfg
	if c.Pct == 0 || r.size <= int64(c.Min) {
		return false
	}
	base := r.baseHi
	if r.base < 0 {
		base = r.bootSize
	}
	if base == 0 {
		base = 1
	}
	return r.size*100/base-100 >= int64(c.Pct)
}

func (r *rwWatch) finish(e *Engine) {
	w := e.w
	if !e.p.Dead { // a power loss also changes files
		r.sample(e)
	}
	if e.p.Dead && e.p.Exit != "kill" && e.p.Exit != "power" {
		return
	}
	if e.sc.has("size") && r.overT >= 0 && w.Now-r.overT > 1e9 {
		e.res.add("size", "epoch %d: the log has been %d bytes for %.1f simulated seconds without a rewrite (size after the last rewrite or at start: %d, minimum %d, growth %d%%)",
			e.ei, r.size, float64(w.Now-r.overT)/1e9, max(r.base, r.bootSize), e.cfg.Min, e.cfg.Pct)
	}
	if e.sc.has("size") {
		// each life of the server may leave at most the one temporary file of a rewrite it was killed in
		if left := len(w.FS.Names()) - 1; left > e.ei+1 && r.swaps > 0 {
			e.res.add("size", "epoch %d: %d files are left over after %d rewrites: %v", e.ei, left, r.swaps, w.FS.Names())
		}
	}
	if e.sc.has("rewrite") {
		// the last acknowledged request for a rewrite must have been followed by one
		var last int64 = -1
		for _, s := range e.hist.Sess[e.ei] {
			for _, o := range s.Ops {
				// with the log on and no password there is no reason to refuse it
				if o.Args[0] == "bgrewriteaof" && len(o.Args) == 1 && o.End != inf && o.Reply != nil && (o.Reply.K == '+' || e.cfg.AOF && e.cfg.Pass == "") && o.T0 > last {
					last = o.T0
				}
			}
		}
		if last >= 0 && w.Now-last > 3e9 && r.swapT < last && w.LastEmfile < last-90e6 {
			e.res.add("rewrite", "epoch %d: a rewrite was requested %.1f simulated seconds ago and the log was never replaced", e.ei, float64(w.Now-last)/1e9)
		}
	}
}
