package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifsim/simrt"
)

// Replay is the file a violation is reported with.
type Replay struct {
	Property string    `json:"property"`
	Class    string    `json:"class"`
	Message  string    `json:"message"`
	Plan     int       `json:"plan"`
	Variant  int       `json:"variant"`
	RunSeed  uint64    `json:"run_seed"`
	Hash     string    `json:"event_hash"`
	Fatal    bool      `json:"fatal,omitempty"` // the run ends the simulator process itself (fatal runtime error)
	Shrunk   string    `json:"shrunk"`
	Scenario *Scenario `json:"scenario"`
	Trace    []string  `json:"trace,omitempty"`
}

type line struct {
	T     string
	Plan  int
	Var   int
	Rep   *Replay
	Stats *wstats
	Msg   string
}

type wstats struct {
	Plans, Runs, Nontrivial, Incon int
	SimNs                          int64
	Ops, Acked, Nodes              int
	Recheck, RecheckBad            int
	Fired, Planned                 int
	Deaths, Stats                  map[string]int
	Hashes, Scheds                 []uint64
	Samples                        []string
	Max                            float64
}

func planSeed(seed uint64, prop string, i int) uint64 {
	return simrt.NewRNG(seed^uint64(i)*0x9e3779b97f4a7c15, "plan "+prop).U64()
}

func makePlan(prop string, seed uint64, i int, thorough bool) (*gen, *Plan) {
	g := &gen{RNG: simrt.NewRNG(planSeed(seed, prop, i), "gen"), prop: prop, thorough: thorough}
	p := profiles[prop].Gen(g)
	if renamed[prop] && g.p(.12) {
		g.rename(p)
	}
	if len(p.Sc.AE) == 0 && g.p(.25) {
		p.Sc.Case = pick(g, "up", "mix")
	}
	if earlyStop[prop] && g.p(.03) { // some life is stopped while it starts or soon after
		p.Sc.Epochs[g.Intn(len(p.Sc.Epochs))].StopUs = int64(g.logspread(1, 20_000))
	}
	return g, p
}

// earlyStop has the properties decided by histories, which tell what survives any end of a life.
var earlyStop = map[string]bool{"C01": true, "C03": true, "C04": true, "C05": true, "C06": true, "C07": true, "C08": true,
	"C10": true, "C15": true, "C16": true, "C17": true, "C20": true}

// runPlan calls f with every run of a plan until it returns false.
func runPlan(prop string, seed uint64, i int, thorough bool, before func(v int), f func(v int, sc *Scenario, r *Result) bool) {
	g, p := makePlan(prop, seed, i, thorough)
	before(0)
	base := RunScenario(p.Sc, false)
	if !f(0, p.Sc, base) {
		return
	}
	n := p.N
	if thorough && n > 0 {
		n *= 3
	}
	for v := 1; v <= n; v++ {
		sc := p.Sc.clone()
		vg := &gen{RNG: simrt.NewRNG(g.U64(), "vary"), prop: prop, thorough: thorough}
		if !p.Vary(vg, sc, base) {
			continue
		}
		before(v)
		if !f(v, sc, RunScenario(sc, false)) {
			return
		}
	}
}

func worker(prop string, seed uint64, k, n int, budget time.Duration, thorough bool, from int, one bool) {
	pr := profiles[prop]
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	last, slow := time.Now(), os.Getenv("METISIM_SLOW") != ""
	emit := func(l *line) {
		if err := enc.Encode(l); err != nil {
			os.Exit(4)
		}
		out.Flush()
	}
	st := &wstats{Deaths: map[string]int{}, Stats: map[string]int{}}
	hashes, scheds := map[uint64]bool{}, map[uint64]bool{}
	t0 := time.Now()
	stop := false
	minPlans := 6
	for i := from + k; !stop; i += n {
		el := time.Since(t0)
		if one && st.Plans > 0 {
			break
		}
		if el > budget && (st.Plans >= minPlans || el > 4*budget) {
			break
		}
		emit(&line{T: "plan", Plan: i})
		st.Plans++
		runPlan(prop, seed, i, thorough, func(v int) {
			if one {
				emit(&line{T: "run", Plan: i, Var: v})
			}
		}, func(v int, sc *Scenario, r *Result) bool {
			st.Runs++
			if d := time.Since(last); slow && d > 2*time.Second { // for work on the simulator itself
				fmt.Fprintf(os.Stderr, "plan %d variant %d: %.1f s, %d checker nodes, %d simulated ms, %d ops\n", i, v, d.Seconds(), r.Nodes, r.SimNs/1e6, r.Ops)
			}
			last = time.Now()
			st.SimNs += r.SimNs
			st.Ops += r.Ops
			st.Acked += r.Acked
			st.Nodes += r.Nodes
			st.Fired += r.FaultN
			st.Planned += r.Planned
			if r.Incon {
				st.Incon++
			}
			for k, v := range r.Deaths {
				st.Deaths[k] += v
			}
			for k, v := range r.Stats {
				st.Stats[k] += v
			}
			scheds[r.Sched] = true
			if r.Acked >= 2 && (r.Planned == 0 || r.FaultN > 0) {
				if !hashes[r.Hash] {
					hashes[r.Hash] = true
					if len(st.Samples) < 2 && (st.Runs > 3 || r.FaultN > 0) {
						st.Samples = append(st.Samples, sample(i, v, sc, r))
					}
				}
			}
			if v := r.hasClass([]string{"harness"}); v != nil {
				emit(&line{T: "error", Plan: i, Msg: v.Msg})
				stop = true
				return false
			}
			if vi := r.hasClass(pr.Classes); vi != nil {
				emit(&line{T: "viol", Plan: i, Var: v, Rep: &Replay{Property: prop, Class: vi.Class, Message: vi.Msg, Plan: i, Variant: v, RunSeed: seed, Hash: fmt.Sprintf("%016x", r.Hash), Scenario: sc}})
				stop = true
				return false
			}
			if st.Runs%40 == 1 {
				st.Recheck++
				if r2 := RunScenario(sc, false); r2.Hash != r.Hash {
					st.RecheckBad++
					emit(&line{T: "nondet", Plan: i, Var: v, Msg: fmt.Sprintf("%016x %016x", r.Hash, r2.Hash)})
				}
			}
			return time.Since(t0) < 4*budget+5*time.Second
		})
	}
	for h := range hashes {
		st.Hashes = append(st.Hashes, h)
	}
	for h := range scheds {
		st.Scheds = append(st.Scheds, h)
	}
	emit(&line{T: "stats", Stats: st})
}

func sample(i, v int, sc *Scenario, r *Result) string {
	b, _ := json.Marshal(sc)
	s := string(b)
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return fmt.Sprintf("plan %d variant %d, event hash %016x, %d replies, ends %v: %s", i, v, r.Hash, r.Acked, r.Deaths, s)
}

func main() {
	debug.SetGCPercent(400)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: metisim check|worker|replay|shrink|gen ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "quick or thorough")
	seed := fs.Uint64("seed", 1, "seed")
	budget := fs.Duration("budget", 0, "search time")
	nw := fs.Int("workers", 0, "worker processes")
	k := fs.Int("k", 0, "worker index")
	from := fs.Int("from", 0, "first plan")
	one := fs.Bool("one", false, "run one plan only")
	verif := fs.String("verif", "/verif", "verif directory")
	trace := fs.Bool("trace", false, "print the trace")
	class := fs.String("class", "", "violation class")
	out := fs.String("out", "", "output file")
	vr := fs.Int("variant", 0, "variant")
	hist := fs.Bool("hist", false, "print the history")
	_ = fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "check":
		os.Exit(check(*prop, *tier, *seed, *budget, *nw, *verif))
	case "worker":
		if f := os.Getenv("METISIM_PROF"); f != "" { // for work on the simulator itself
			if w, err := os.Create(f); err == nil {
				_ = pprof.StartCPUProfile(w)
				defer pprof.StopCPUProfile()
			}
		}
		worker(*prop, *seed, *k, *nw, *budget, *tier == "thorough", *from, *one)
	case "replay":
		os.Exit(replay(fs.Arg(0), *trace, *hist))
	case "shrink":
		doShrink(fs.Arg(0), *out, *class, *budget)
	case "gen":
		runPlanGen(*prop, *seed, *from, *vr, *tier == "thorough", *out)
	default:
		os.Exit(2)
	}
}

func runPlanGen(prop string, seed uint64, i, v int, thorough bool, out string) {
	runPlan(prop, seed, i, thorough, func(int) {}, func(w int, sc *Scenario, r *Result) bool {
		if w != v {
			return true
		}
		rep := &Replay{Property: prop, Plan: i, Variant: v, RunSeed: seed, Hash: fmt.Sprintf("%016x", r.Hash), Scenario: sc}
		if len(r.Viol) > 0 {
			rep.Class, rep.Message = r.Viol[0].Class, r.Viol[0].Msg
		}
		writeReplay(out, rep)
		return false
	})
}

func writeReplay(path string, rep *Replay) {
	b, err := json.MarshalIndent(rep, "", " ")
	if err != nil {
		panic(err)
	}
	if path == "" {
		fmt.Println(string(b))
		return
	}
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func readReplay(path string) *Replay {
	b, err := os.ReadFile(path)
	if err == nil {
		rep := &Replay{}
		if err = json.Unmarshal(b, rep); err == nil && rep.Scenario != nil {
			return rep
		}
	}
	fmt.Fprintln(os.Stderr, "cannot read", path, err)
	os.Exit(2)
	return nil
}

// replay runs a file again: exit 1 when the violation shows, 0 when it does not.
func replay(path string, trace, hist bool) int {
	rep := readReplay(path)
	r := RunScenario(rep.Scenario, true)
	if trace {
		for _, t := range r.Trace {
			fmt.Println(t)
		}
	}
	if hist && r.Hist != nil {
		for e, ss := range r.Hist.Sess {
			fmt.Printf("epoch %d, ended by %s\n", e, r.Hist.Kind[e])
			for _, s := range ss {
				fmt.Printf("  %s connection %d\n", s.Name, s.Conn)
				for _, o := range s.Ops {
					fmt.Printf("    %10.3fms-%10.3fms must=%v %s -> %s\n", float64(o.T0)/1e6, float64(o.T1)/1e6, o.Must, cmdStr(o.Args), o.Reply.String())
				}
			}
		}
	}
	for _, v := range r.Viol {
		fmt.Printf("%s: %s\n", v.Class, v.Msg)
	}
	fmt.Printf("event hash %016x, recorded %s; deaths %v\n", r.Hash, rep.Hash, r.Deaths)
	pr := profiles[rep.Property]
	cl := []string{rep.Class}
	if pr != nil && rep.Class == "" {
		cl = pr.Classes
	}
	if v := r.hasClass(cl); v != nil {
		fmt.Printf("REPRODUCED %s\n", v.Class)
		if fmt.Sprintf("%016x", r.Hash) == rep.Hash {
			fmt.Println("IDENTICAL")
		}
		return 1
	}
	return 0
}

func doShrink(in, out, class string, budget time.Duration) {
	rep := readReplay(in)
	if class == "" {
		class = rep.Class
	}
	before := size(rep.Scenario)
	sc, runs := shrink(rep.Scenario, class, budget)
	r := RunScenario(sc, true)
	v := r.hasClass([]string{class})
	if v == nil {
		os.Exit(3)
	}
	rep.Scenario = sc
	rep.Message = v.Msg
	rep.Hash = fmt.Sprintf("%016x", r.Hash)
	rep.Shrunk = fmt.Sprintf("from %s to %s in %d runs", before, size(sc), runs)
	rep.Trace = r.Trace
	if n := len(rep.Trace); n > 400 {
		rep.Trace = append([]string{fmt.Sprintf("(the last 400 of %d events; metisim replay -trace prints all)", n)}, rep.Trace[n-400:]...)
	}
	writeReplay(out, rep)
}

func size(sc *Scenario) string {
	ops, faults, cl := len(sc.AE), 0, 0
	for _, e := range sc.Epochs {
		faults += len(e.Faults)
		for _, c := range e.Clients {
			cl++
			ops += len(c.Ops)
		}
	}
	return fmt.Sprintf("%d epochs, %d clients, %d steps, %d planned faults", len(sc.Epochs), cl, ops, faults)
}

// ---- driver

func self() string {
	p, err := os.Executable()
	if err != nil {
		panic(err)
	}
	return p
}

func check(prop, tier string, seed uint64, budget time.Duration, nw int, verif string) int {
	pr := profiles[prop]
	if pr == nil {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 2
	}
	if nw == 0 {
		nw = runtime.NumCPU()
		if nw > 8 {
			nw = 8
		}
	}
	if budget == 0 {
		budget = 40 * time.Second
		switch prop { // much simulated time per run
		case "C03", "C09", "C10", "C21":
			budget = 60 * time.Second
		}
		if tier == "thorough" {
			budget = 9 * time.Minute
		}
	}
	t0 := time.Now()
	replays := filepath.Join(verif, "replays")
	_ = os.MkdirAll(replays, 0o755)
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	var (
		mu     sync.Mutex
		viol   *Replay
		errs   []string
		stats  []*wstats
		nondet int
		cmds   []*exec.Cmd
	)
	killAll := func() {
		for _, c := range cmds {
			if c != nil && c.Process != nil {
				_ = c.Process.Kill()
			}
		}
	}
	var wg sync.WaitGroup
	cmds = make([]*exec.Cmd, nw)
	type dead struct{ plan int }
	var deads []dead
	for i := 0; i < nw; i++ {
		i := i
		c := exec.Command(self(), "worker", "-prop", prop, "-seed", fmt.Sprint(seed), "-k", fmt.Sprint(i), "-workers", fmt.Sprint(nw), "-budget", budget.String(), "-tier", tier)
		c.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
		se := &tail{}
		c.Stderr = se
		so, err := c.StdoutPipe()
		if err == nil {
			err = c.Start()
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		cmds[i] = c
		wg.Add(1)
		go func() {
			defer wg.Done()
			lastPlan := -1
			var wd *time.Timer
			hung := false
			limit := 100 * time.Second
			wd = time.AfterFunc(limit, func() { mu.Lock(); hung = true; mu.Unlock(); _ = c.Process.Kill() })
			rd := bufio.NewReaderSize(so, 1<<20)
			finished := false
			for {
				b, err := rd.ReadBytes('\n')
				if len(b) > 0 {
					wd.Reset(limit)
					var l line
					if json.Unmarshal(b, &l) == nil {
						mu.Lock()
						switch l.T {
						case "plan":
							lastPlan = l.Plan
						case "viol":
							if viol == nil {
								viol = l.Rep
								mu.Unlock()
								killAll()
								mu.Lock()
							}
							finished = true
						case "error":
							errs = append(errs, l.Msg)
							finished = true
						case "nondet":
							nondet++
							errs2 := fmt.Sprintf("plan %d variant %d is not deterministic: %s", l.Plan, l.Var, l.Msg)
							fmt.Fprintln(os.Stderr, errs2)
						case "stats":
							stats = append(stats, l.Stats)
							finished = true
						}
						mu.Unlock()
					}
				}
				if err != nil {
					break
				}
			}
			wd.Stop()
			werr := c.Wait()
			mu.Lock()
			defer mu.Unlock()
			if viol == nil && !finished {
				if hung {
					errs = append(errs, fmt.Sprintf("worker %d gave no sign for %v in plan %d", i, limit, lastPlan))
				} else {
					errs = append(errs, fmt.Sprintf("worker %d died in plan %d: %v: %s", i, lastPlan, werr, se.String()))
				}
				deads = append(deads, dead{lastPlan})
			}
		}()
	}
	wg.Wait()
	if viol == nil && len(deads) > 0 {
		// a fatal runtime error (stack overflow, deadlock, endless loop) of the code under test ends the worker: find the run
		for _, d := range deads {
			if rep := isolate(prop, tier, seed, d.plan, pr); rep != nil {
				viol = rep
				break
			}
		}
	}
	rc := 0
	var msg string
	if viol != nil {
		rc, msg = report(viol, replays, prop, tier)
	} else if len(errs) > 0 {
		for _, e := range errs {
			fmt.Fprintln(os.Stderr, "error:", e)
		}
		rc = 2
	}
	writeEvidence(verif, prop, tier, seed, stats, viol, nondet, time.Since(t0), nw)
	if msg != "" {
		fmt.Println(msg)
	}
	return rc
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 3000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	s := string(t.b)
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

// isolate re-runs a plan that killed its worker, run by run.
func isolate(prop, tier string, seed uint64, plan int, pr *Profile) *Replay {
	has := false
	for _, c := range pr.Classes {
		has = has || c == "crash"
	}
	if !has || plan < 0 {
		return nil
	}
	c := exec.Command(self(), "worker", "-prop", prop, "-seed", fmt.Sprint(seed), "-k", "0", "-workers", "1", "-budget", "1s", "-tier", tier, "-from", fmt.Sprint(plan), "-one")
	c.Env = append(os.Environ(), "GOTRACEBACK=single")
	se := &tail{}
	c.Stderr = se
	so, _ := c.StdoutPipe()
	if c.Start() != nil {
		return nil
	}
	wd := time.AfterFunc(60*time.Second, func() { _ = c.Process.Kill() })
	rd := bufio.NewReaderSize(so, 1<<20)
	v := -1
	done := false
	for {
		b, err := rd.ReadBytes('\n')
		var l line
		if len(b) > 0 && json.Unmarshal(b, &l) == nil {
			switch l.T {
			case "run":
				v = l.Var
			case "stats":
				done = true
			case "viol":
				return l.Rep
			}
		}
		if err != nil {
			break
		}
	}
	wd.Stop()
	_ = c.Wait()
	if done || v < 0 {
		return nil
	}
	text := se.String()
	if !strings.Contains(text, "IfanTsai/metis") {
		return nil // not in the code under test
	}
	// regenerate the scenario without running it: only the base run's counts are needed for variants
	rep := &Replay{Property: prop, Class: "crash", Message: "fatal error: " + firstLines(text, 12), Plan: plan, Variant: v, RunSeed: seed, Fatal: true}
	g, p := makePlan(prop, seed, plan, tier == "thorough")
	sc := p.Sc
	if v > 0 {
		base := RunScenario(p.Sc, false)
		for i := 1; i <= v; i++ {
			sc = p.Sc.clone()
			vg := &gen{RNG: simrt.NewRNG(g.U64(), "vary"), prop: prop, thorough: tier == "thorough"}
			p.Vary(vg, sc, base)
		}
	}
	rep.Scenario = sc
	return rep
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

// report shrinks, verifies in a fresh process, and names the replay file.
func report(v *Replay, dir, prop, tier string) (int, string) {
	raw := filepath.Join(dir, fmt.Sprintf(".%s-%d-raw.json", prop, os.Getpid()))
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-%d.json", prop, v.Class, v.Plan, v.Variant))
	writeReplay(raw, v)
	defer os.Remove(raw)
	line := fmt.Sprintf("VIOLATION property=%s replay=%s", prop, path)
	if v.Fatal {
		v.Shrunk = "not shrunk: the run ends the simulator process"
		writeReplay(path, v)
		fmt.Printf("%s: %s\n", v.Class, v.Message)
		return 1, line
	}
	b := 20 * time.Second
	if tier == "thorough" {
		b = 60 * time.Second
	}
	sh := exec.Command(self(), "shrink", "-class", v.Class, "-budget", b.String(), "-out", path, raw)
	sh.Stderr = os.Stderr
	wd := time.AfterFunc(4*b, func() {
		if sh.Process != nil {
			_ = sh.Process.Kill()
		}
	})
	err := sh.Run()
	wd.Stop()
	if err != nil {
		v.Shrunk = "not shrunk: " + err.Error()
		writeReplay(path, v)
	}
	for try := 0; try < 3; try++ {
		o, _ := exec.Command(self(), "replay", path).CombinedOutput()
		if strings.Contains(string(o), "REPRODUCED") {
			fmt.Print(string(o))
			if !strings.Contains(string(o), "IDENTICAL") {
				fmt.Println("note: the violation shows again, but the event log differs")
			}
			return 1, line
		}
		if err == nil && try == 0 {
			writeReplay(path, v) // fall back to the unshrunk run
		}
	}
	fmt.Fprintf(os.Stderr, "error: the violation does not show again in a fresh process: %s: %s (%s)\n", v.Class, v.Message, path)
	return 2, ""
}

// ---- evidence

func writeEvidence(verif, prop, tier string, seed uint64, stats []*wstats, viol *Replay, nondet int, wall time.Duration, nw int) {
	tot := &wstats{Deaths: map[string]int{}, Stats: map[string]int{}}
	hs, sc := map[uint64]bool{}, map[uint64]bool{}
	for _, s := range stats {
		tot.Plans += s.Plans
		tot.Runs += s.Runs
		tot.Incon += s.Incon
		tot.SimNs += s.SimNs
		tot.Ops += s.Ops
		tot.Acked += s.Acked
		tot.Nodes += s.Nodes
		tot.Recheck += s.Recheck
		tot.RecheckBad += s.RecheckBad
		tot.Fired += s.Fired
		tot.Planned += s.Planned
		for k, v := range s.Deaths {
			tot.Deaths[k] += v
		}
		for k, v := range s.Stats {
			tot.Stats[k] += v
		}
		for _, h := range s.Hashes {
			hs[h] = true
		}
		for _, h := range s.Scheds {
			sc[h] = true
		}
		if len(tot.Samples) < 3 {
			tot.Samples = append(tot.Samples, s.Samples...)
		}
	}
	if len(tot.Samples) > 3 {
		tot.Samples = tot.Samples[:3]
	}
	faults, probes := map[string]int{}, map[string]int{}
	for k, v := range tot.Stats {
		if strings.HasPrefix(k, "fault.") {
			faults[strings.TrimPrefix(k, "fault.")] = v
		} else {
			probes[k] = v
		}
	}
	hours := wall.Hours()
	nv := 0
	if viol != nil {
		nv = 1
		if len(tot.Samples) == 0 {
			tot.Samples = append(tot.Samples, "violation: "+viol.Message)
		}
	}
	if tot.Samples == nil {
		tot.Samples = []string{}
	}
	pr := profiles[prop]
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall.Seconds()), "violations": nv,
		"coverage": map[string]any{
			"evaluations": tot.Runs, "distinct_nontrivial": len(hs),
			"rule": "A case is one simulated run: a generated workload, configuration, environment and fault plan under one seed (" + rules[prop] + "). " +
				"It is non-trivial when at least two replies (or event-loop callbacks) were observed and, if faults were planned, at least one fired; two runs are distinct when the hashes of their complete event logs differ.",
			"samples":                      tot.Samples,
			"plans":                        tot.Plans,
			"seeds_per_hour":               int(float64(tot.Runs) / hours),
			"runs_per_hour":                int(float64(tot.Runs) / hours),
			"simulated_seconds":            round(float64(tot.SimNs) / 1e9),
			"commands_with_reply":          tot.Acked,
			"commands_read_by_the_server":  tot.Ops,
			"checker_nodes":                tot.Nodes,
			"checker_gave_up":              tot.Incon,
			"planned_faults":               tot.Planned,
			"planned_faults_fired":         tot.Fired,
			"faults_injected":              faults,
			"process_ends":                 tot.Deaths,
			"probes":                       probes,
			"distinct_schedules":           len(sc),
			"schedule_measure":             "hash of the sequence of scheduling decisions (which task runs, at which preemption point) of a run",
			"determinism_rechecks":         tot.Recheck,
			"determinism_recheck_failures": nondet,
			"worker_processes":             nw,
			"violation_classes":            pr.Classes,
			"real_code":                    "packages server, database, datastruct, ae, socket of the working tree, source-rewritten at build time (statement-level preemption points; go, channels, select, map order; syscall, os, os/exec, time, sync, math/rand imports redirected)",
			"stubs":                        "Linux kernel (epoll, TCP sockets, descriptors), disk, clock, scheduler, randomness, mv(1), process life cycle, clients; log/ output and config parsing are bypassed",
		},
		"assumptions": []string{
			"the simulated kernel, TCP and file system behave like Linux in the calls metis uses; a power loss keeps, per file, the synced content plus any in-order prefix of later writes (the last one possibly torn), and directory operations not yet synced may be lost",
			"preemption happens between statements, not inside them; the race detector's memory model is not simulated",
			"sampled, not exhaustive: absence of a violation covers the runs made",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	var fk []string
	for k, v := range faults {
		fk = append(fk, k+"="+strconv.Itoa(v))
	}
	sort.Strings(fk)
	fmt.Printf("%s %s seed %d: %d runs (%d distinct non-trivial) of %d plans, %.0f simulated s, %d replies, checker gave up %d times, %.1f s; faults: %s\n",
		prop, tier, seed, tot.Runs, len(hs), tot.Plans, float64(tot.SimNs)/1e9, tot.Acked, tot.Incon, wall.Seconds(), strings.Join(fk, " "))
}

func round(f float64) float64 { return float64(int64(f*100)) / 100 }
