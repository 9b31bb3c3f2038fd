package main

import (
	"fmt"
	"math"
	"slices"
	"strconv"
	"strings"

	"verifsim/simrt"
)

// Profile says how cases for a property are made and what counts against it.
type Profile struct {
	Classes []string // violation classes that break this property
	Gen     func(g *gen) *Plan
}

// Plan is one base scenario and how to vary it (fault placement needs the operation counts of the base run).
type Plan struct {
	Sc   *Scenario
	Vary func(g *gen, sc *Scenario, base *Result) bool
	N    int
}

type gen struct {
	*simrt.RNG
	prop     string
	thorough bool
	val      int
	cfg      *Cfg
}

func (g *gen) p(x float64) bool      { return g.Chance(x) }
func (g *gen) in(lo, hi int) int     { return int(g.Range(int64(lo), int64(hi))) }
func pick[T any](g *gen, xs ...T) T  { return xs[g.Intn(len(xs))] }
func (g *gen) us(lo, hi int64) int64 { return g.Range(lo, hi) }
func op(a ...string) Op              { return Op{A: bstrs(a...)} }
func think(us int64, a ...string) Op { return Op{A: bstrs(a...), Us: us} }
func (g *gen) sub(name string) *gen {
	return &gen{RNG: simrt.NewRNG(g.U64(), name), prop: g.prop, thorough: g.thorough}
}
func addEpoch(s *Scenario, e *Epoch) *Epoch { s.Epochs = append(s.Epochs, e); return e }

// logspread draws from lo..hi with small values more likely.
func (g *gen) logspread(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	x := math.Exp(g.Float() * math.Log(float64(hi-lo+1)))
	n := lo + int(x) - 1
	if n > hi {
		n = hi
	}
	return n
}

func (g *gen) knobs() simrt.Knobs {
	k := simrt.Knobs{
		PreemptMean:  pick(g, 0, 2, 10, 50, 400, 3000),
		NetOpNs:      int64(g.logspread(300, 20000)),
		FsOpNs:       int64(g.logspread(1000, 300000)),
		FsyncNs:      int64(g.logspread(20_000, 8_000_000)),
		NetLatNs:     int64(g.logspread(5_000, 1_500_000)),
		EpollShuffle: g.p(.6),
		TmpOther:     g.p(.4),
		FlushTx:      g.p(.5),
		StrictNames:  g.p(.5),
		Desched:      pick(g, 0, 0, .05, .3, 1),
	}
	if g.p(.35) {
		k.FragP = pick(g, .1, .5, 1)
		k.FragMax = pick(g, 1, 3, 17, 200, 3000)
	}
	if g.p(.3) {
		k.ShortRead = pick(g, .05, .3)
	}
	if g.p(.3) {
		k.Eintr = pick(g, .02, .15)
	}
	if g.p(.25) {
		k.Eagain = pick(g, .02, .15)
	}
	if g.p(.3) {
		k.ShortWrite = pick(g, .05, .4)
	}
	if g.p(.4) {
		k.FileShort = pick(g, .05, .3, .8)
	}
	if g.p(.3) {
		k.RandBias = pick(g, .1, .4)
	}
	return k
}

func (g *gen) base(kind string) *Scenario {
	g.cfg = &Cfg{}
	s := &Scenario{Prop: g.prop, Kind: "server", Seed: g.U64() >> 1, K: g.knobs()}
	s.Cfg = Cfg{DBs: pick(g, 1, 2, 3, 4, 16), AOF: true, Fsync: pick(g, "always", "everysec", "no"),
		Name: pick(g, "appendonly.aof", "/data/appendonly.aof", "data.aof"), Pct: 0, Min: 64 << 20}
	return s
}

// ---- values and keys

func (g *gen) value() string {
	g.val++
	id := "v" + strconv.Itoa(g.val)
	switch {
	case g.p(.72):
		return id
	case g.p(.3):
		return id + pick(g, "\r\n", "\x00", "\r", "\n", " ", "$5\r\nhello\r\n", "*1\r\n", "\xff\xfe", "\r\n$-1", "é")
	case g.p(.25):
		return ""
	case g.p(.5):
		return id + strings.Repeat(pick(g, "x", "\r\n", "ab\n"), g.logspread(10, 300))
	default:
		return id + strings.Repeat("y", g.logspread(100, 6000))
	}
}

// pat draws a pattern for KEYS: everything or a regular expression.
func (g *gen) pat() string {
	if g.p(.6) {
		return "*"
	}
	return pick(g, "^k", "k1", "[0-9]$", "0|2", ".", "", "^$", "(", "[", "^[a-s]0", "s\\d+", "^k[0-9]$", "1*", "?", "K", "(?i)K1", "a**")
}

func (g *gen) num() string { return strconv.Itoa(g.in(-3, 8)) }

func (g *gen) score() string {
	switch g.Intn(8) {
	case 0:
		return strconv.Itoa(g.in(-1000, 1000))
	case 1:
		return strconv.FormatFloat(float64(g.in(-50, 50))/8, 'g', -1, 64)
	case 2:
		return pick(g, "0", "-0", "1e3", "1.5e-7", "123456789012", "inf", "-inf", "+5", "0.1", "1e100")
	case 3: // closer than any tolerance, larger than any integer type
		return pick(g, "1", "1.0000000000000002", "1.0000000001", "0.9999999999999999", "1e-10", "-1e-10", "5e-324", "0.3", "0.30000000000000004",
			"9007199254740992", "9007199254740993", "9007199254740994", "1.7976931348623157e308", "-1.7976931348623157e308", "9223372036854775807", "2e19", "2147483648", "-2147483649", "4294967296")
	}
	return strconv.Itoa(g.in(0, 6))
}

// bound draws a bound of a range of scores.
func (g *gen) bound() string {
	if g.p(.06) {
		return pick(g, "nan", "NaN", "-nan", "(1", "[1", "", "infinity", "-Infinity")
	}
	return g.score()
}

// wl generates commands over a key space.
type wl struct {
	g      *gen
	kinds  string // which of s h l e z
	nkeys  int
	nflds  int
	ttl    float64
	reads  float64
	mixed  float64 // chance of a command of the wrong type
	multi  int     // elements per multi-element command
	plain  bool    // plain short values
	odd    float64 // chance of a malformed command
	prefix string
	uniq   int
	last   map[string]string // the last value set
}

func (w *wl) key(kind byte) string {
	return w.prefix + string(kind) + strconv.Itoa(w.g.Intn(w.nkeys))
}

func (w *wl) fld() string {
	if w.g.p(.05) && !w.plain {
		return pick(w.g, "", "\r\n", "f\x00", " ", "a b")
	}
	if w.g.p(.03) && !w.plain {
		return w.key(pick(w.g, byte('s'), 'h', 'e', 'z', 'l')) // a member named like a key
	}
	return "f" + strconv.Itoa(w.g.Intn(w.nflds))
}

func (w *wl) val() string {
	if w.plain {
		w.g.val++
		return "v" + strconv.Itoa(w.g.val)
	}
	return w.g.value()
}

// rank gives an index into a sorted set of about n members.
func (g *gen) rank(n int) string {
	switch g.Intn(12) {
	case 0:
		return pick(g, "9223372036854775807", "9223372036854775806", "4294967295", "4294967296", "2147483647", "2147483648")
	case 1:
		return strconv.Itoa(-1 - g.Intn(3))
	}
	return strconv.Itoa(g.Intn(n + 1))
}

func (g *gen) unixIn(lo, hi int) string {
	return strconv.FormatInt(simrt.WallBase/1e9+int64(g.in(lo, hi)), 10)
}

func (w *wl) n() int { return 1 + w.g.Intn(w.multi) }

// next gives the next command, now and then a malformed one.
func (w *wl) next() Op {
	o := w.plainNext()
	if g := w.g; w.odd > 0 && g.p(w.odd) && o.A[0] != "del" { // the arguments of DEL are keys
		if w.prefix != "" && o.A[0][0] == 's' && string(o.A[0]) != "set" && len(o.A) > 2 && strings.HasPrefix(string(o.A[2]), w.prefix) {
			return o // so are these, and strange ones belong to somebody else
		}
		return g.odd(o)
	}
	return o
}

// odd alters a command: a strange argument, one too many, one too few.
func (g *gen) odd(o Op) Op {
	a := append([]BStr(nil), o.A...)
	tok := BStr(pick(g, "", "nan", "abc", "1.5", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "inf", "-inf", "1e3", "+1", "-0", "0x1p4", " 1", "1 ", "withscore", "WITHSCORESX", "limit", "exat", "1_0", "01"))
	switch n := g.Intn(4); {
	case n == 0 && len(a) > 1:
		a = a[:len(a)-1]
	case n == 1 || len(a) < 3:
		a = append(a, tok)
	default:
		a[2+g.Intn(len(a)-2)] = tok
	}
	o.A = a
	return o
}

func (w *wl) plainNext() Op {
	g := w.g
	kind := w.kinds[g.Intn(len(w.kinds))]
	key := w.key(kind)
	if g.p(w.mixed) {
		key = w.key("shlez"[g.Intn(5)])
	}
	if g.p(w.ttl) {
		switch g.Intn(7) {
		case 0:
			return op("expire", key, strconv.Itoa(g.in(1, 4)))
		case 1:
			return op("ttl", key)
		case 2, 3:
			if kind == 's' {
				if g.p(.4) {
					return op("set", key, w.val(), pick(g, "exat", "EXAT"), pick(g, g.unixIn(1, 5), g.unixIn(100, 100000)))
				}
				return op("setex", key, strconv.Itoa(pick(g, g.in(1, 4), g.in(100, 100000))), w.val())
			}
			return op("expire", key, strconv.Itoa(g.in(1, 4)))
		case 4:
			return op("expireat", key, pick(g, g.unixIn(1, 6), g.unixIn(-3, 3), g.unixIn(100, 100000)))
		case 5:
			if g.p(.3) {
				return op("expire", key, pick(g, "9223372036854775807", "-9223372036854775808", "9300000000000000", "1e3", "", "12x", "4000000000000"))
			}
			return op("ttl", key)
		default:
			return op("expire", key, strconv.Itoa(g.in(100, 100000)))
		}
	}
	if g.p(.025) {
		a := []string{"del", key}
		for g.p(.4) {
			a = append(a, w.key(w.kinds[g.Intn(len(w.kinds))]))
		}
		return op(a...)
	}
	rd := g.p(w.reads)
	switch kind {
	case 's':
		if rd {
			return op("get", key)
		}
		if w.plain {
			return op("set", key, w.val())
		}
		v, ok := w.last[key]
		if !ok || g.p(.9) { // else the value it has already
			v = w.val()
		}
		if w.last == nil {
			w.last = map[string]string{}
		}
		w.last[key] = v
		return op("set", key, v)
	case 'h':
		if rd {
			switch g.Intn(5) {
			case 0:
				return op("hkeys", key)
			case 1:
				return op("hlen", key)
			case 2:
				return op("hexists", key, w.fld())
			}
			return op("hget", key, w.fld())
		}
		if g.p(.25) {
			a := []string{"hdel", key}
			for i := w.n(); i > 0; i-- {
				a = append(a, w.fld())
			}
			return op(a...)
		}
		a := []string{"hset", key}
		for i := w.n(); i > 0; i-- {
			a = append(a, w.fld(), w.val())
		}
		return op(a...)
	case 'l':
		if rd {
			switch g.Intn(4) {
			case 0:
				return op("llen", key)
			case 1:
				return op("lindex", key, g.num())
			case 2:
				return op("lrange", key, "0", "-1")
			}
			return op("lrange", key, g.num(), g.num())
		}
		if g.p(.35) {
			return op(pick(g, "lpop", "rpop"), key)
		}
		a := []string{pick(g, "lpush", "rpush"), key}
		for i := w.n(); i > 0; i-- {
			a = append(a, w.val())
		}
		return op(a...)
	case 'e':
		if rd {
			switch g.Intn(5) {
			case 0:
				return op("scard", key)
			case 1:
				return op("sismember", key, w.fld())
			case 2:
				a := []string{pick(g, "sinter", "sunion", "sdiff"), key}
				for i := 1 + g.Intn(2); i > 0; i-- {
					a = append(a, w.key('e'))
				}
				return op(a...)
			}
			return op("smembers", key)
		}
		if g.p(.4) {
			if g.p(.5) {
				return op("spop", key)
			}
			a := []string{"srem", key}
			for i := w.n(); i > 0; i-- {
				a = append(a, w.fld())
			}
			return op(a...)
		}
		a := []string{"sadd", key}
		for i := w.n(); i > 0; i-- {
			a = append(a, w.fld())
		}
		return op(a...)
	default:
		if rd {
			switch g.Intn(6) {
			case 0:
				return op("zcard", key)
			case 1:
				return op("zscore", key, w.fld())
			case 2:
				return op("zcount", key, g.score(), g.score())
			case 3:
				o := op("zrangebyscore", key, g.score(), g.score())
				if g.p(.5) {
					o.A = append(o.A, "withscores")
				}
				return o
			case 4:
				return op("zrange", key, "0", "100000", "withscores")
			}
			o := op("zrange", key, g.rank(5), g.rank(w.nflds))
			if g.p(.3) {
				o.A = append(o.A, "WITHSCORES")
			}
			return o
		}
		switch {
		case g.p(.12):
			s := g.in(0, 4)
			if g.p(.15) {
				return op("zremrangebyrank", key, strconv.Itoa(s+1), g.rank(5))
			}
			return op("zremrangebyrank", key, strconv.Itoa(s), strconv.Itoa(s+g.in(0, 2)))
		case g.p(.1):
			s := g.in(0, 5)
			return op("zremrangebyscore", key, strconv.Itoa(s), strconv.Itoa(s+g.in(0, 1)))
		case g.p(.25):
			a := []string{"zrem", key}
			for i := w.n(); i > 0; i-- {
				a = append(a, w.fld())
			}
			return op(a...)
		}
		a := []string{"zadd", key}
		for i := w.n(); i > 0; i-- {
			a = append(a, g.score(), w.fld())
		}
		return op(a...)
	}
}

func (g *gen) simpleWL(prefix string) *wl {
	kinds := "shlez"
	if g.p(.5) {
		kinds = pick(g, "s", "sl", "h", "l", "e", "z", "she", "lz")
	}
	return &wl{g: g, kinds: kinds, nkeys: g.in(1, 4), nflds: g.in(2, 8), reads: pick(g, 0, .1, .3), multi: pick(g, 1, 3, 6), mixed: pick(g, 0, 0, .05), ttl: pick(g, 0, 0, .06), odd: pick(g, 0, 0, .04), prefix: prefix}
}

func (g *gen) script(w *wl, n int) []Op {
	var o []Op
	for i := 0; i < n; i++ {
		x := w.next()
		if g.p(.1) {
			x.Us = g.us(10, 5000)
		}
		o = append(o, x)
	}
	return o
}

// withSelects sprinkles SELECTs into a script.
func (g *gen) withSelects(ops []Op, dbs int, p float64) []Op {
	if dbs < 2 {
		return ops
	}
	var o []Op
	for _, x := range ops {
		if g.p(p) {
			o = append(o, op("select", strconv.Itoa(g.Intn(dbs))))
		}
		o = append(o, x)
	}
	return o
}

func insertAt(ops []Op, i int, x ...Op) []Op {
	o := append([]Op(nil), ops[:i]...)
	o = append(o, x...)
	return append(o, ops[i:]...)
}

func allDBs(n int) []int {
	if n > 6 {
		n = 6
	}
	o := make([]int, n)
	for i := range o {
		o[i] = i
	}
	return o
}

func (g *gen) clients(n int, f func(i int) []Op) []Client {
	var cs []Client
	for i := 0; i < n; i++ {
		c := Client{StartUs: g.us(0, 3000), Window: pick(g, 1, 1, 1, 2, 5), Ops: f(i)}
		cs = append(cs, c)
	}
	return cs
}

// sharedDB spreads over few databases and dumps them.
func (g *gen) useDBs(s *Scenario) int {
	n := 1
	if g.p(.35) {
		n = s.Cfg.DBs
		if n > 3 {
			n = 3
		}
	}
	s.DumpDB = allDBs(n)
	return n
}

// crashPoint chooses the place of a crash in an epoch from the operation counts.
func (g *gen) crashPoint(c map[string]int, kind string, classes ...string) *simrt.Fault {
	for try := 0; try < 6; try++ {
		cl := classes[g.Intn(len(classes))]
		if n := c[cl]; n > 0 {
			return &simrt.Fault{Kind: kind, On: cl, Nth: 1 + g.Intn(n), After: g.p(.5)}
		}
	}
	return nil
}

// slowBg makes the disk slow for what runs in the background (a rewrite).
func (g *gen) slowBg(ep *Epoch, hi int) {
	ep.Faults = append(ep.Faults, &simrt.Fault{Kind: "stall", On: pick(g, "fs", "fs", "fwrite", "fsync"), Bg: true, Nth: g.in(1, 12), Arg: int64(g.in(50, hi)), Len: pick(g, 1, 1, 2)})
}

// ---- durability

func genC01(g *gen) *Plan {
	s := g.base("")
	s.Cfg.Fsync = "always"
	nd := g.useDBs(s)
	if g.p(.2) {
		s.Cfg.Pct, s.Cfg.Min = uint(pick(g, 10, 50, 100)), uint(pick(g, 200, 1000))
	}
	ne := g.in(1, 3)
	for e := 0; e < ne; e++ {
		ep := addEpoch(s, &Epoch{End: "power", DownMs: int64(g.in(0, 5))})
		ep.Clients = g.clients(g.in(1, 3), func(i int) []Op {
			w := g.simpleWL("")
			ops := g.withSelects(g.script(w, g.in(3, 18)), nd, .25)
			if g.p(.12) {
				ops = insertAt(ops, g.Intn(len(ops)), op("bgrewriteaof"))
			}
			return ops
		})
		if g.p(.3) {
			ep.IdleMs = int64(g.in(0, 40))
		}
	}
	return &Plan{Sc: s, N: 6, Vary: func(g *gen, sc *Scenario, base *Result) bool {
		hit := false
		for i, ep := range sc.Epochs {
			if i < len(base.Counts) && (i == 0 || g.p(.6)) {
				if f := g.crashPoint(base.Counts[i], "power", "fs", "fs", "write", "any", "fsync", "fwrite", "read"); f != nil {
					ep.Faults = append(ep.Faults, f)
					hit = true
				}
			}
		}
		return hit
	}}
}

func genC02(g *gen) *Plan {
	s := g.base("")
	nd := g.useDBs(s)
	big := g.p(.12)
	if big && s.K.FragMax > 0 && s.K.FragMax < 500 {
		s.K.FragMax = 500
	}
	if g.p(.2) {
		s.Cfg.Pct, s.Cfg.Min = uint(pick(g, 10, 50, 100)), uint(pick(g, 200, 1000))
	}
	ne := g.in(1, 3)
	for e := 0; e < ne; e++ {
		ep := addEpoch(s, &Epoch{End: pick(g, "kill", "kill", "stop"), DownMs: int64(g.in(0, 5))})
		if g.p(.1) {
			ep.StopUs = int64(g.logspread(1, 20_000))
		}
		ep.Clients = g.clients(g.in(1, 3), func(i int) []Op {
			w := g.simpleWL("")
			ops := g.withSelects(g.script(w, g.in(3, 18)), nd, .25)
			if g.p(.12) {
				ops = insertAt(ops, g.Intn(len(ops)), op("bgrewriteaof"))
			}
			if big {
				for j := g.in(1, 3); j > 0; j-- {
					ops = insertAt(ops, g.Intn(len(ops)), pick(g, op("set", "sbig", g.bigValue()), op("rpush", "lbig", g.bigValue(), "x")))
				}
			}
			return ops
		})
		if g.p(.2) {
			ep.IdleMs = int64(g.in(0, 1500))
		}
	}
	return &Plan{Sc: s, N: 6, Vary: func(g *gen, sc *Scenario, base *Result) bool {
		hit := false
		for i, ep := range sc.Epochs {
			if i < len(base.Counts) && (i == 0 || g.p(.6)) {
				if g.p(.15) {
					ep.Faults = append(ep.Faults, &simrt.Fault{Kind: "stop", AtMs: int64(g.in(1, 60))})
					hit = true
				} else if f := g.crashPoint(base.Counts[i], "kill", "fs", "fs", "write", "write", "any", "fwrite", "read", "epwait"); f != nil {
					ep.Faults = append(ep.Faults, f)
					hit = true
				}
			}
		}
		return hit
	}}
}

func genC03(g *gen) *Plan {
	s := g.base("")
	s.Cfg.Fsync = "everysec"
	s.K.FsyncNs = int64(g.logspread(20_000, 5_000_000))
	if s.K.PreemptMean == 2 {
		s.K.PreemptMean = 30
	}
	s.DumpDB = allDBs(1)
	if g.p(.3) {
		s.Cfg.Pct, s.Cfg.Min = uint(pick(g, 10, 50, 100)), uint(pick(g, 200, 1000))
	}
	if g.p(.2) {
		s.Cfg.Fsync = "no" // an orderly stop syncs the log all the same
	}
	ne := g.in(1, 2)
	for e := 0; e < ne; e++ {
		ep := addEpoch(s, &Epoch{End: "power", DownMs: int64(g.in(0, 5))})
		if e+1 < ne && g.p(.2) {
			ep.End = "kill" // what the next life finds may not be on disk yet
		}
		if s.Cfg.Fsync == "no" || g.p(.25) {
			ep.End, ep.Outage = "stop", true
		}
		ep.Clients = g.clients(g.in(1, 2), func(i int) []Op {
			w := g.simpleWL("")
			w.reads = .1
			var ops []Op
			for b := g.in(1, 5); b > 0; b-- {
				burst := g.script(w, g.in(1, 5))
				if g.p(.7) {
					burst[0].Us = g.us(1000, 2_600_000)
				}
				if g.p(.15) {
					burst = append(burst, op("bgrewriteaof"))
				}
				if g.p(.5) { // steady stream
					for j := range burst {
						burst[j].Us += g.us(1000, 400_000)
					}
				}
				ops = append(ops, burst...)
			}
			return ops
		})
		ep.IdleMs = int64(pick(g, 0, 100, 900, 1500, 2300, 2600, 3500, 5000))
		if ep.Outage && g.p(.3) { // stopped when a sync has just begun
			c := &ep.Clients[0]
			o := op("set", "sq", g.value())
			o.Us = g.us(1_000_500, 2_500_000)
			c.Ops = append(c.Ops, o)
			ep.IdleMs = -1
			s.K.FsyncNs = int64(g.logspread(1_000_000, 20_000_000))
			continue
		}
		if g.p(.12) { // a rewrite replaces the file while a sync of it has begun, and life goes on
			c := &ep.Clients[0]
			w := g.simpleWL("")
			w.reads = 0
			o, rw := op("set", "sq", g.value()), op("bgrewriteaof")
			o.Us, rw.Us = g.us(1_000_500, 1_200_000), g.us(200, 20_000)
			pre := []Op{op("set", "sq", "q"), o, rw}
			for j := g.in(4, 12); j > 0; j-- {
				o := w.next()
				o.Us = g.us(50_000, 900_000)
				pre = append(pre, o)
			}
			c.Ops = append(pre, c.Ops...)
			ep.Faults = append(ep.Faults, &simrt.Fault{Kind: "stall", On: "fsync", Bg: true, Nth: 1, Arg: int64(g.in(10, 150))})
			continue
		}
		if g.p(.25) { // a rewrite that takes seconds, with writes all the time
			ep.Faults = append(ep.Faults, &simrt.Fault{Kind: "stall", On: "fwrite", Bg: true, Nth: g.in(1, 3), Arg: int64(g.in(2200, 6000))})
			c := &ep.Clients[0]
			c.Ops = append([]Op{op("set", "sq", "q"), op("rpush", "lq", "a", "b"), op("bgrewriteaof")}, c.Ops...)
			w := g.simpleWL("")
			w.reads = 0
			for j := g.in(8, 25); j > 0; j-- {
				o := w.next()
				o.Us = g.us(50_000, 400_000)
				c.Ops = append(c.Ops, o)
			}
		}
		if g.p(.1) {
			ep.Faults = append(ep.Faults, &simrt.Fault{Kind: "jump", AtMs: int64(g.in(100, 2000)), Arg: int64(pick(g, -100000, -3000, 3000, 100000))})
		}
	}
	return &Plan{Sc: s, N: 3, Vary: func(g *gen, sc *Scenario, base *Result) bool {
		for i, ep := range sc.Epochs {
			if i == 0 || g.p(.5) {
				kind := "power"
				if ep.Outage {
					kind = "stop"
				}
				ep.Faults = append(ep.Faults, &simrt.Fault{Kind: kind, AtMs: int64(g.in(20, 7000))})
			}
		}
		return true
	}}
}

func genC04(g *gen) *Plan {
	s := g.base("")
	s.K.DiskCap = 0
	nd := g.useDBs(s)
	ne := g.in(2, 4)
	for e := 0; e < ne; e++ {
		ep := addEpoch(s, &Epoch{End: pick(g, "kill", "kill", "stop"), DownMs: int64(g.in(0, 3))})
		if e > 0 && g.p(.15) { // crash again before anything is written
			continue
		}
		ep.Clients = g.clients(g.in(1, 2), func(i int) []Op {
			w := g.simpleWL("")
			w.reads = .05
			n := g.in(1, 10)
			if e == 0 {
				n = g.in(2, 14)
			}
			ops := g.withSelects(g.script(w, n), nd, .25)
			if g.p(.08) {
				ops = insertAt(ops, g.Intn(len(ops)+1), op("set", "s0", g.bigValue()))
			}
			if g.p(.15) {
				ops = insertAt(ops, g.Intn(len(ops)+1), op("setex", "sx", strconv.Itoa(g.in(50, 1000)), g.value()))
			}
			return ops
		})
	}
	s.Epochs[0].End = "kill"
	return &Plan{Sc: s, N: 8, Vary: func(g *gen, sc *Scenario, base *Result) bool {
		sc.Epochs[0].CutPm = g.in(1, 999)
		for i, ep := range sc.Epochs {
			if i > 0 && i < len(base.Counts) && g.p(.5) {
				if f := g.crashPoint(base.Counts[i], "kill", "fs", "any", "fread", "write"); f != nil {
					ep.Faults = append(ep.Faults, f)
				}
			}
		}
		return true
	}}
}

// bulkLoad fills keys quickly.
func (g *gen) bulkLoad(w *wl, sizes int) []Op {
	var ops []Op
	for _, k := range w.kinds {
		kind := byte(k)
		for i := 0; i < w.nkeys; i++ {
			key := w.prefix + string(kind) + strconv.Itoa(i)
			n := g.logspread(1, sizes)
			switch kind {
			case 's':
				ops = append(ops, op("set", key, w.val()))
				continue
			case 'h', 'e', 'z', 'l':
				for n > 0 {
					m := g.in(1, 90)
					if m > n {
						m = n
					}
					var a []string
					switch kind {
					case 'h':
						a = []string{"hset", key}
						for j := 0; j < m; j++ {
							a = append(a, "f"+strconv.Itoa(n-j), w.val())
						}
					case 'e':
						a = []string{"sadd", key}
						for j := 0; j < m; j++ {
							a = append(a, "f"+strconv.Itoa(n-j))
						}
					case 'z':
						a = []string{"zadd", key}
						for j := 0; j < m; j++ {
							a = append(a, g.score(), "f"+strconv.Itoa(n-j))
						}
					case 'l':
						a = []string{pick(g, "lpush", "rpush"), key}
						for j := 0; j < m; j++ {
							a = append(a, w.val())
						}
					}
					ops = append(ops, op(a...))
					n -= m
				}
			}
		}
	}
	return ops
}

func (g *gen) rewriteScenario(big bool) *Scenario {
	s := g.base("")
	s.K.PreemptMean = pick(g, 1, 3, 10, 40, 200)
	nd := g.useDBs(s)
	if g.p(.35) {
		s.Cfg.Pct, s.Cfg.Min = uint(pick(g, 10, 50, 100)), uint(pick(g, 300, 2000))
	}
	ne := g.in(1, 2)
	size := 40
	if big {
		size = pick(g, 10, 70, 200)
	}
	for e := 0; e < ne; e++ {
		ep := addEpoch(s, &Epoch{End: pick(g, "kill", "stop"), DownMs: int64(g.in(0, 5))})
		w := g.simpleWL("")
		w.nkeys = g.in(1, 3)
		w.nflds = pick(g, 4, size)
		w.ttl = pick(g, 0, 0, .1)
		w.reads = .15
		ep.Clients = g.clients(g.in(1, 3), func(i int) []Op {
			var ops []Op
			if i == 0 {
				ops = g.withSelects(g.bulkLoad(w, size), nd, .15)
			}
			more := g.withSelects(g.script(w, g.in(4, 25)), nd, .2)
			if i == 0 || g.p(.4) {
				more = insertAt(more, g.Intn(len(more)/2+1), op("bgrewriteaof"))
				if g.p(.3) {
					more = insertAt(more, g.Intn(len(more)+1), op("bgrewriteaof"))
				}
			}
			if g.p(.3) {
				for j := range more {
					more[j].Us = g.us(0, 300)
				}
			}
			return append(ops, more...)
		})
		if g.p(.15) {
			ep.Clients[g.Intn(len(ep.Clients))].Ops = g.growth(pick(g, 6, 20, 70))
		}
		ep.IdleMs = int64(pick(g, 0, 2, 30, 30, 200))
		if g.p(.2) {
			g.slowBg(ep, 1500)
		}
	}
	return s
}

// growth makes the tables of keys and of deadlines cross resizes, in one direction or the other, during a rewrite.
func (g *gen) growth(n int) []Op {
	var ops []Op
	key := func() string { return "g" + strconv.Itoa(g.Intn(2*n)) }
	for i := 0; i < n; i++ {
		k := "g" + strconv.Itoa(i)
		switch g.Intn(4) {
		case 0:
			ops = append(ops, op("setex", k, "1000", g.value()))
		case 1:
			ops = append(ops, op("rpush", k, g.value()))
		default:
			ops = append(ops, op("set", k, g.value()))
		}
		if g.p(.5) {
			ops = append(ops, op("expire", k, strconv.Itoa(g.in(100, 9999))))
		}
	}
	ops = append(ops, op("bgrewriteaof"))
	for i := g.in(n/2, 2*n); i > 0; i-- {
		switch k := key(); g.Intn(8) {
		case 0, 1:
			ops = append(ops, op("setex", k, strconv.Itoa(g.in(100, 9999)), g.value()))
		case 2, 3:
			ops = append(ops, op("set", k, g.value()), op("expire", k, strconv.Itoa(g.in(100, 9999))))
		case 4:
			ops = append(ops, op("expire", k, strconv.Itoa(g.in(100, 9999))))
		case 5:
			ops = append(ops, op("ttl", k))
		case 6:
			ops = append(ops, op("set", k, g.value()))
		default:
			ops = append(ops, op("del", k))
		}
	}
	return ops
}

func genC05(g *gen) *Plan {
	s := g.rewriteScenario(true)
	return &Plan{Sc: s, N: 3, Vary: func(g *gen, sc *Scenario, base *Result) bool {
		sc.Seed = g.U64() >> 1
		sc.K.PreemptMean = pick(g, 1, 2, 5, 20, 100, 500)
		sc.K.FsOpNs = int64(g.logspread(500, 2_000_000))
		sc.K.FsyncNs = int64(g.logspread(20_000, 8_000_000))
		return true
	}}
}

func genC06(g *gen) *Plan {
	s := g.rewriteScenario(false)
	for _, ep := range s.Epochs {
		ep.IdleMs = max(ep.IdleMs, 30)
	}
	return &Plan{Sc: s, N: 10, Vary: func(g *gen, sc *Scenario, base *Result) bool {
		hit := false
		for i, ep := range sc.Epochs {
			if i >= len(base.Counts) || i > 0 && g.p(.5) {
				continue
			}
			kind := "kill"
			if sc.Cfg.Fsync == "always" && g.p(.75) || i == 0 && g.p(.3) {
				kind = "power"
				ep.End = "power"
			}
			if n := base.Counts[i]["fopen"]; i == 0 && n > 3 && g.p(.15) { // a rewrite finds no descriptor and is given up
				f := &simrt.Fault{Kind: "err", On: "fopen", Nth: 4 + g.Intn(n-3), Err: pick(g, "EMFILE", "ENFILE"), Len: pick(g, 1, 1, 2)}
				ep.Faults = append(ep.Faults, f)
				hit = true
				for j := range ep.Clients { // a later one must not bring back what the first one collected
					o := ep.Clients[j].Ops
					ep.Clients[j].Ops = insertAt(o, len(o)-g.Intn(len(o)/3+1), think(g.us(0, 5000), "bgrewriteaof"))
				}
				continue
			}
			if g.p(.25) {
				if n := base.Counts[i]["rwfs"]; n > 0 {
					f := &simrt.Fault{Kind: "err", On: "rwfs", Nth: 1 + g.Intn(n), Err: pick(g, "EIO", "ENOSPC", "EDQUOT"), Len: pick(g, 1, 1, 3)}
					if g.p(.3) {
						f = &simrt.Fault{Kind: "short", On: "rwfs", Nth: f.Nth, Arg: int64(g.in(0, 40))}
					}
					ep.Faults = append(ep.Faults, f)
					hit = true
					continue
				}
			}
			if f := g.crashPoint(base.Counts[i], kind, "rwfs", "rwfs", "rwfs", "frename", "exec", "funlink"); f != nil {
				ep.Faults = append(ep.Faults, f)
				hit = true
			}
		}
		return hit
	}}
}

func genC07(g *gen) *Plan {
	s := g.base("")
	s.K.FragP = 0
	s.K.Eintr, s.K.Eagain, s.K.ShortRead, s.K.ShortWrite = 0, 0, 0, 0
	nd := g.useDBs(s)
	ne := g.in(2, 4)
	for e := 0; e < ne; e++ {
		ep := addEpoch(s, &Epoch{End: pick(g, "stop", "kill"), DownMs: int64(g.in(0, 5))})
		ep.Clients = g.clients(g.in(1, 2), func(i int) []Op {
			w := g.simpleWL("")
			w.ttl = pick(g, 0, .08)
			w.nflds = pick(g, 3, 30, 200)
			w.multi = pick(g, 1, 4, 40)
			w.mixed = .04
			var ops []Op
			if g.p(.35) {
				ops = g.bulkLoad(w, pick(g, 30, 200, 600))
			}
			ops = append(ops, g.script(w, g.in(5, 40))...)
			if g.p(.25) { // long values, larger than any buffer on the way
				ops = insertAt(ops, g.Intn(len(ops)+1), op("set", "s0", g.bigValue()), op("rpush", "l0", g.bigValue(), "t"))
			}
			if g.p(.1) {
				ops = append(ops, g.longList("l9", g.in(1000, 2600))...)
			}
			if g.p(.2) {
				ops = insertAt(ops, g.Intn(len(ops)+1), op("zadd", "z0", g.score(), "m"), op("zadd", "z0", "x", "m"), op("zadd", "z0", "1", "p", "bad", "q"), op("hset", "h0", "a"),
					op("lpush", "s0", "x"), op("expire", "nokey", "100"), op("rpush", "nokey", "1"), op("expire", "s0", "abc"), op("expireat", "s0", strconv.FormatInt(simrt.WallBase/1e9+int64(g.in(100, 5000)), 10)))
			}
			return g.withSelects(ops, nd, .1)
		})
		ep.IdleMs = int64(pick(g, 0, 0, 1200))
	}
	return &Plan{Sc: s, N: 0}
}

func (g *gen) bigValue() string {
	n := pick(g, 4000, 4096, 8192, 16000, 65530, 65536, 66000, 140000)
	n += g.in(-3, 3)
	g.val++
	return "B" + strconv.Itoa(g.val) + strings.Repeat(pick(g, "z", "\r\n", "q\x00"), n/2)
}

func (g *gen) longList(key string, n int) []Op {
	var ops []Op
	for n > 0 {
		m := pick(g, 1, 7, 100, 300)
		if m > n {
			m = n
		}
		a := []string{pick(g, "rpush", "rpush", "lpush"), key}
		for i := 0; i < m; i++ {
			g.val++
			a = append(a, strconv.Itoa(g.val))
		}
		if g.p(.15) { // an element like any other
			a[2+g.Intn(m)] = pick(g, "", "", "\r\n", "-1", "nil", a[2])
		}
		ops = append(ops, op(a...))
		n -= m
	}
	return ops
}

func genC08(g *gen) *Plan {
	s := g.base("")
	s.Cfg.DBs = pick(g, 2, 3, 16, 16, 120)
	n := min(s.Cfg.DBs, 4)
	s.DumpDB = allDBs(n)
	if s.Cfg.DBs > n { // numbers of more than one digit
		for _, d := range []int{9, 10, 11, s.Cfg.DBs - 1, g.Intn(s.Cfg.DBs)} {
			if g.p(.4) && !slices.Contains(s.DumpDB, d) {
				s.DumpDB = append(s.DumpDB, d)
			}
		}
		for i := range s.DumpDB {
			j := g.Intn(i + 1)
			s.DumpDB[i], s.DumpDB[j] = s.DumpDB[j], s.DumpDB[i]
		}
	}
	db := func() string { return strconv.Itoa(s.DumpDB[g.Intn(min(n, len(s.DumpDB)))]) }
	if g.p(.3) {
		s.Cfg.Pct, s.Cfg.Min = uint(pick(g, 10, 50, 100)), uint(pick(g, 100, 600))
	}
	ne := g.in(1, 3)
	for e := 0; e < ne; e++ {
		ep := addEpoch(s, &Epoch{End: pick(g, "kill", "stop"), DownMs: int64(g.in(0, 5))})
		ep.Clients = g.clients(g.in(1, 4), func(i int) []Op {
			w := g.simpleWL("")
			w.nkeys = g.in(1, 2)
			w.plain = true
			w.reads = .4
			ops := g.script(w, g.in(3, 16))
			var o []Op
			if g.p(.7) {
				o = append(o, op("select", db()))
			}
			for _, x := range ops {
				if g.p(.15) {
					o = append(o, op("select", pick(g, db(), db(), strconv.Itoa(s.Cfg.DBs), "-1", "x", "99999999999999999999")))
				}
				if g.p(.05) {
					o = append(o, op(pick(g, "randomget", "keys"))) // arity differs: one of them is an error
				}
				if g.p(.08) {
					o = append(o, op("keys", g.pat()))
				}
				if g.p(.12) {
					o = append(o, op("bgrewriteaof"))
				}
				o = append(o, x)
			}
			return o
		})
		ep.IdleMs = int64(pick(g, 0, 20))
		ep.DumpEnd = g.p(.3)
	}
	return &Plan{Sc: s, N: 3, Vary: func(g *gen, sc *Scenario, base *Result) bool {
		sc.Seed = g.U64() >> 1
		for i, ep := range sc.Epochs {
			if i < len(base.Counts) && g.p(.5) {
				if f := g.crashPoint(base.Counts[i], "kill", "fs", "any"); f != nil {
					ep.Faults = append(ep.Faults, f)
				}
			}
		}
		return true
	}}
}

// ---- expiry

// ttlScript works on few keys around their deadlines.
func (g *gen) ttlScript(n int, nk int, prefix string) []Op {
	var ops []Op
	kinds := "shlez"
	for i := 0; i < n; i++ {
		kind := kinds[g.Intn(5)]
		key := prefix + string(kind) + strconv.Itoa(g.Intn(nk))
		w := &wl{g: g, kinds: string(kind), nkeys: nk, nflds: 4, reads: .5, multi: 3, plain: true, prefix: prefix}
		switch g.Intn(9) {
		case 0, 1:
			ops = append(ops, op("expire", key, strconv.Itoa(g.in(1, 3))))
		case 2:
			if kind == 's' {
				ops = append(ops, op("setex", key, strconv.Itoa(g.in(1, 3)), w.val()))
			} else {
				ops = append(ops, op(pick(g, "expire", "expireat"), key, pick(g, "1", "2", "500", "0", "-1", "-1000")))
			}
		case 3:
			ops = append(ops, op("ttl", key))
		case 4:
			ops = append(ops, op("keys", g.pat()))
		default:
			ops = append(ops, w.next())
		}
		x := &ops[len(ops)-1]
		switch g.Intn(6) {
		case 0:
			x.Us = g.us(1000, 1_300_000)
		case 1:
			x.Us = 1_000_000 + g.us(-4000, 6000)
		case 2:
			x.Us = g.us(10, 20000)
		}
	}
	return ops
}

func genC09(g *gen) *Plan {
	s := g.base("")
	s.Cfg.AOF = g.p(.4)
	s.Final = "none"
	s.K.NetLatNs = int64(g.logspread(5_000, 300_000))
	ep := addEpoch(s, &Epoch{End: "kill", DumpEnd: g.p(.5)})
	s.DumpDB = []int{0}
	two := g.p(.25) // the same keys in two databases
	if two {
		s.Cfg.DBs = max(s.Cfg.DBs, 2)
		s.DumpDB = []int{0, 1}
	}
	ep.Clients = g.clients(g.in(1, 3), func(i int) []Op {
		ops := g.ttlScript(g.in(4, 22), g.in(1, 3), "")
		if two {
			ops = g.withSelects(ops, 2, .2)
		}
		if g.p(.15) { // many keys with deadlines
			var pre []Op
			for j := g.in(20, 150); j > 0; j-- {
				pre = append(pre, op("setex", "x"+strconv.Itoa(j), strconv.Itoa(g.in(1, 2)), "1"))
			}
			ops = append(pre, ops...)
		}
		if g.p(.2) {
			ops = append(ops, op("set", "s0", "p"), op("ttl", "s0"), op("expireat", "s0", strconv.FormatInt(simrt.WallBase/1e9+int64(g.in(-5, 12)), 10)), op("ttl", "s0"), op("get", "s0"))
		}
		return ops
	})
	if g.p(.12) { // more keys with one deadline than are removed at a time, watched closely when it comes
		n := g.in(120, 450)
		at := g.unixIn(1, 2)
		var ops []Op
		for j := 0; j < n; j++ {
			ops = append(ops, op("set", "y"+strconv.Itoa(j), "1", "exat", at))
		}
		ops = append(ops, op("set", "z", "2"))
		first := true
		for j := g.in(20, 60); j > 0; j-- {
			o := op("randomget")
			switch g.Intn(8) {
			case 0:
				o = op("keys", "*")
			case 1, 2:
				o = op(pick(g, "get", "ttl"), "y"+strconv.Itoa(g.Intn(n)))
			case 3:
				o = op("rpush", "y"+strconv.Itoa(g.Intn(n)), "a")
			}
			if first {
				t, _ := strconv.ParseInt(at, 10, 64)
				o.AtUs = (t-simrt.WallBase/1e9)*1e6 + g.us(-3000, 2000)
				first = false
			} else if g.p(.1) {
				o.Us = g.us(10, 1500)
			}
			ops = append(ops, o)
		}
		ep.Clients = append(ep.Clients, Client{StartUs: g.us(0, 1000), Window: pick(g, 0, 0, 3), Ops: ops})
	} else if g.p(.15) {
		ep.Faults = append(ep.Faults, &simrt.Fault{Kind: "jump", AtMs: int64(g.in(50, 3000)), Arg: int64(pick(g, 500, 2000, 3600_000))})
	}
	return &Plan{Sc: s, N: 0}
}

// massExpiry: so many keys share a deadline that the server needs a while to find them all; the log is
// rewritten around that moment and the server dies soon after.
func massExpiry(g *gen, s *Scenario) *Plan {
	off := simrt.NewRNG(s.Seed, "wall").Range(0, 999)
	n := g.logspread(150, 1200)
	at := 2000 - off // ms after the start
	when := strconv.FormatInt(simrt.WallBase/1e9+2, 10)
	var ops []Op
	for i := 0; i < n; i++ {
		k := "m" + strconv.Itoa(i)
		switch g.Intn(8) {
		case 0:
			ops = append(ops, op("hset", k, "f", "v"), op("expireat", k, when))
		case 1:
			ops = append(ops, op("set", k, "v"))
		case 2:
			ops = append(ops, op("rpush", k, "v"), op("expireat", k, when))
		default:
			ops = append(ops, op("set", k, "v", "exat", when))
		}
	}
	s.K.FsOpNs = int64(pick(g, 500, 5000, 20000))
	ep := addEpoch(s, &Epoch{End: "kill", DownMs: int64(pick(g, 1, 10, 800))})
	ep.Clients = []Client{{Window: 200, Ops: ops},
		{StartUs: at*1000 - g.us(0, 25_000), Window: 1, Ops: []Op{op("bgrewriteaof")}}}
	if g.p(.4) {
		ep.Clients = append(ep.Clients, Client{StartUs: at*1000 + g.us(0, 30_000), Window: 1, Ops: []Op{op("set", "m0", "new"), op("ttl", "m1"), op("get", "m2")}})
	}
	s.DumpDB = []int{0}
	return &Plan{Sc: s, N: 2, Vary: func(g *gen, sc *Scenario, base *Result) bool {
		sc.Epochs[0].Faults = append(sc.Epochs[0].Faults, &simrt.Fault{Kind: pick(g, "kill", "stop"), AtMs: at + int64(g.logspread(1, 120))})
		return true
	}}
}

func genC10(g *gen) *Plan {
	s := g.base("")
	s.DumpDB = []int{0}
	if g.p(.12) {
		return massExpiry(g, s)
	}
	if g.p(.25) {
		s.Cfg.Pct, s.Cfg.Min = uint(pick(g, 10, 50, 100)), uint(pick(g, 100, 600))
	}
	ne := g.in(2, 4)
	for e := 0; e < ne; e++ {
		ep := addEpoch(s, &Epoch{End: pick(g, "kill", "stop"), DownMs: int64(pick(g, 1, 10, 800, 1500, 3200))})
		ep.Clients = g.clients(g.in(1, 2), func(i int) []Op {
			ops := g.ttlScript(g.in(2, 12), g.in(1, 2), "")
			if g.p(.35) {
				ops = insertAt(ops, g.Intn(len(ops)+1), op("bgrewriteaof"))
			}
			if g.p(.25) {
				ops = insertAt(ops, g.Intn(len(ops)+1), op("expireat", pick(g, "s0", "l0"), strconv.FormatInt(simrt.WallBase/1e9+int64(g.in(-2, 14)), 10)))
			}
			if g.p(.2) {
				ops = append(ops, op("set", "t0", "x"), op("expire", "t0", strconv.Itoa(g.in(20, 100000))))
			}
			return ops
		})
		ep.IdleMs = int64(pick(g, 0, 0, 15, 1100))
		if g.p(.3) { // a dump that takes long enough for deadlines to pass meanwhile
			k := pick(g, "s0", "t0", "l0", "z0", "h0")
			mk := map[byte]Op{'s': op("set", k, "1"), 't': op("set", k, "2"), 'l': op("rpush", k, "a", "b"), 'z': op("zadd", k, "1", "a"), 'h': op("hset", k, "f", "v")}[k[0]]
			c := &ep.Clients[0]
			c.Ops = append(c.Ops, mk, op("expire", k, strconv.Itoa(g.in(1, 3))), think(g.us(0, 900_000), "bgrewriteaof"))
			if g.p(.5) {
				c.Ops = append(c.Ops, think(g.us(0, 3_000_000), "ttl", k), mk)
			}
			ep.Faults = append(ep.Faults, &simrt.Fault{Kind: "stall", On: "fwrite", Bg: true, Nth: g.in(1, 6), Arg: int64(g.in(300, 3500))})
			ep.IdleMs = int64(pick(g, 15, 3700))
		}
		if g.p(.08) {
			ep.JumpMs = int64(pick(g, 1000, 5000, 100000))
		}
	}
	return &Plan{Sc: s, N: 2, Vary: func(g *gen, sc *Scenario, base *Result) bool {
		for i, ep := range sc.Epochs {
			if i < len(base.Counts) && g.p(.5) {
				if g.p(.5) {
					ep.Faults = append(ep.Faults, &simrt.Fault{Kind: "kill", AtMs: int64(g.in(5, 4000))})
				} else if f := g.crashPoint(base.Counts[i], "kill", "fs", "any", "write"); f != nil {
					ep.Faults = append(ep.Faults, f)
				}
			}
		}
		return true
	}}
}

// ---- protocol

func (g *gen) wildArg() string {
	g.val++
	id := strconv.Itoa(g.val)
	switch g.Intn(10) {
	case 0:
		return ""
	case 1:
		return "\r\n"
	case 2:
		return id + "\r\n$3\r\nfoo\r\n"
	case 3:
		return id + "\x00\x00"
	case 4:
		return id + strings.Repeat("a", g.logspread(1, 5000))
	case 5:
		return id + "*2\r\n"
	case 6:
		return "\r" + id
	case 7:
		return id + "\n"
	}
	return "w" + id
}

func genC11(g *gen) *Plan {
	s := g.base("")
	s.Cfg.AOF = g.p(.25)
	s.Final = "none"
	s.DumpDB = []int{0}
	s.K.FragP = pick(g, 0, .3, 1, 1)
	s.K.FragMax = pick(g, 1, 2, 5, 30, 500, 5000)
	if g.p(.4) {
		s.K.ShortRead = pick(g, .1, .5)
	}
	ep := addEpoch(s, &Epoch{End: "kill", DumpEnd: true})
	total := 0
	nc := g.in(1, 3)
	for i := 0; i < nc; i++ {
		c := Client{StartUs: g.us(0, 2000), Window: pick(g, 0, 0, 1, 3, 20), Join: g.p(.6)}
		n := g.logspread(2, 60)
		for j := 0; j < n; j++ {
			var o Op
			k := fmt.Sprintf("c%d:%d", i, g.Intn(4))
			switch g.Intn(9) {
			case 0:
				o = op("get", k)
			case 1:
				o = op("rpush", "L"+k, g.wildArg(), g.wildArg(), g.wildArg())
			case 2:
				o = op("lrange", "L"+k, "0", "-1")
			case 3:
				o = op("ping")
			case 4:
				o = op("set", k+g.wildArg(), g.wildArg())
			case 5:
				if g.p(.3) {
					o = op(pick(g, "nosuch", "x"+g.wildArg(), "-"+g.wildArg()), g.wildArg())
				} else {
					o = op("hset", "H"+k, g.wildArg(), g.wildArg())
				}
			case 6:
				if g.p(.5) {
					o = Op{A: bstrs(pick(g, "set "+k+" inl"+strconv.Itoa(j), "get "+k, "ping")), Inl: true}
					o.A = bstrs(strings.Split(string(o.A[0]), " ")...)
				} else {
					o = op("SET", k, g.wildArg())
				}
			default:
				o = op("set", k, g.wildArg())
			}
			if g.p(.02) && total < 200000 { // more arguments than any table of them
				a := []string{"rpush", "L" + k}
				for m := pick(g, 60, 130, 520, 1030, 2050) + g.in(-3, 3); m > 0; m-- {
					a = append(a, strconv.Itoa(m))
					total += 10
				}
				o = op(a...)
			} else if g.p(.004) && total < 200000 { // arguments by the ten thousand
				a := []string{"del"}
				for m := pick(g, 9000, 17_000, 33_000, 66_000); m > 0; m-- {
					a = append(a, pick(g, "", "a", "\r\n"))
					total += 8
				}
				o = op(append(a, k)...)
				s.K.FragP, s.K.ShortRead = min(s.K.FragP, .3), 0
				s.K.FragMax = pick(g, 0, 30_000)
			} else if g.p(.04) && total < 200000 {
				v := g.bigValue()
				total += len(v)
				o = op("set", k, v)
			}
			if g.p(.05) {
				o = Op{A: bstrs(pick(g, "ping", "PING", "nosuch", "x"+g.wildArg())), Blk: true}
			}
			if g.p(.004) && total < 200000 { // beyond any buffer of a connection
				v := "M" + strconv.Itoa(j) + strings.Repeat(pick(g, "z", "\r\n", "q\x00"), g.in(500_000, 2_200_000)/2)
				total += len(v)
				o = op("set", k, v)
				s.K.FragP, s.K.ShortRead = min(s.K.FragP, .3), 0
				s.K.FragMax = pick(g, 0, 30_000, 300_000)
			}
			if g.p(.05) { // nothing to execute and nothing to reply
				c.Ops = append(c.Ops, Op{Raw: BStr(pick(g, "\r\n", "\r\n\r\n", "*0\r\n", "*-1\r\n"))})
			}
			if c.Window > 0 && g.p(.1) || g.p(.03) {
				o.Us = g.us(10, 4000)
			}
			c.Ops = append(c.Ops, o)
		}
		if g.p(.35) {
			// an incomplete command must have no effect
			full := encode([]string{"set", fmt.Sprintf("c%d:0", i), pick(g, "never", "", "ne\r\nver")})
			c.Ops = append(c.Ops, Op{Raw: BStr(full[:g.in(1, len(full)-1)])}, Op{Do: pick(g, "close", "reset", "close"), Us: g.us(100, 9000)})
		} else if g.p(.2) {
			// completed later
			full := encode([]string{"set", fmt.Sprintf("c%d:1", i), g.wildArg()})
			_ = full
		}
		ep.Clients = append(ep.Clients, c)
	}
	return &Plan{Sc: s, N: 3, Vary: func(g *gen, sc *Scenario, base *Result) bool {
		sc.Seed = g.U64() >> 1
		sc.K.FragP = pick(g, .3, 1)
		sc.K.FragMax = pick(g, 1, 2, 3, 8, 60, 4096)
		if total > 400_000 {
			sc.K.FragP, sc.K.FragMax = .3, pick(g, 0, 30_000, 300_000)
		} else if sc.K.FragMax < 8 && base.Ops > 0 && total > 20000 {
			sc.K.FragMax = 500
		}
		return true
	}}
}

func genC12(g *gen) *Plan {
	s := g.base("")
	s.Cfg.AOF = g.p(.2)
	s.Final = "none"
	s.DumpDB = []int{0}
	s.K.SndBuf = pick(g, 1, 16, 100, 1000, 5000, 60000)
	s.K.DrainMax = pick(g, 0, 1, 50, 700, 5000)
	if g.p(.6) {
		s.K.ShortWrite = pick(g, .1, .5)
	}
	if g.p(.4) {
		s.K.Eagain = pick(g, .05, .3)
	}
	maxRep := 4000
	if s.K.SndBuf < 100 || s.K.DrainMax > 0 && s.K.DrainMax < 50 {
		maxRep = 150
	} else if g.p(.15) { // replies of many tens of kilobytes
		maxRep = pick(g, 20_000, 70_000)
		s.K.SndBuf = pick(g, 1000, 5000, 60000)
	}
	s.Checks = append(s.Checks, "delay")
	ep := addEpoch(s, &Epoch{End: "kill"})
	nc := g.in(1, 4)
	for i := 0; i < nc; i++ {
		c := Client{StartUs: g.us(0, 2000), Window: pick(g, 0, 0, 1, 5, 40), Join: g.p(.5)}
		pre := fmt.Sprintf("c%d", i)
		n := g.logspread(2, 40)
		size := 0
		c.Ops = append(c.Ops, op("rpush", pre+"l", g.sized(g.logspread(1, maxRep)), "b", "c"))
		stalled := false
		for j := 0; j < n && size < 60*maxRep; j++ {
			switch g.Intn(8) {
			case 0:
				v := g.sized(g.logspread(1, maxRep))
				size += len(v)
				c.Ops = append(c.Ops, op("set", pre, v), op("get", pre))
			case 1, 2:
				size += maxRep
				c.Ops = append(c.Ops, op("lrange", pre+"l", "0", "-1"))
			case 3:
				c.Ops = append(c.Ops, op("rpush", pre+"l", g.sized(g.logspread(1, maxRep/4+1))))
			case 4:
				c.Ops = append(c.Ops, op(pick(g, "nosuch", "x"+g.wildArg())), op("get", "none"))
				if g.p(.5) {
					w := &wl{g: g, kinds: "z", nkeys: 1, nflds: 4, reads: .6, multi: 3, odd: .3, prefix: pre}
					for n := g.in(1, 4); n > 0; n-- {
						c.Ops = append(c.Ops, w.next())
					}
				}
			case 5:
				if !stalled && g.p(.6) && c.Window == 0 {
					c.Ops = append(c.Ops, Op{Do: "stall"})
					stalled = true
				} else if stalled {
					c.Ops = append(c.Ops, Op{Do: "resume", Us: g.us(100, 9_000_000)})
					stalled = false
				}
			default:
				c.Ops = append(c.Ops, think(g.us(0, 300), "get", pre))
			}
		}
		if c.Window == 0 && g.p(.04) && maxRep > 1000 { // replies queue up by the thousand
			if !stalled {
				c.Ops = append(c.Ops, Op{Do: "stall"})
				stalled = true
			}
			if g.p(.5) {
				for k := g.in(1000, 7000); k > 0; k-- {
					c.Ops = append(c.Ops, op(pick(g, "ping", "get", "ping"), pre)) // half of them an error
					if len(c.Ops)%2 == 0 {
						c.Ops[len(c.Ops)-1] = op("ping")
					}
				}
			} else {
				a := []string{"rpush", pre + "m"}
				for k := g.in(1000, 4000); k > 0; k-- {
					a = append(a, strconv.Itoa(k))
				}
				c.Ops = append(c.Ops, op(a...))
				for k := g.in(1, 4); k > 0; k-- {
					c.Ops = append(c.Ops, op("lrange", pre+"m", "0", "-1"))
				}
			}
		}
		if stalled {
			c.Ops = append(c.Ops, Op{Do: "resume", Us: g.us(100, 9_000_000)})
		}
		ep.Clients = append(ep.Clients, c)
	}
	return &Plan{Sc: s, N: 2, Vary: func(g *gen, sc *Scenario, base *Result) bool {
		sc.Seed = g.U64() >> 1
		if maxRep > 1000 {
			sc.K.SndBuf = pick(g, 100, 300, 3000, 20000)
		}
		return true
	}}
}

func (g *gen) sized(n int) string {
	g.val++
	s := strconv.Itoa(g.val) + ":"
	for len(s) < n {
		s += "0123456789\r\nabcdefghijklmnopqrstuvwxyz"
	}
	return s
}

// garbage makes hostile input.
func (g *gen) garbage() []Op {
	raw := func(s string) Op { return Op{Raw: BStr(s)} }
	huge := pick(g, "1125899906842624", "9223372036854775807", "-9223372036854775808", "99999999999999999999", "-1", "-2", "4611686018427387904")
	switch g.Intn(16) {
	case 0:
		return []Op{raw("*" + huge + "\r\n")}
	case 1:
		return []Op{raw("*2\r\n$" + huge + "\r\nfoo\r\n$1\r\na\r\n")}
	case 2:
		return []Op{raw("$" + huge + "\r\nfoo\r\n")}
	case 3:
		return []Op{raw(pick(g, "\r\n", "\r\n\r\n", " \r\n", "\n", "\r", "+\r\n", "x\r\n", "\x00\r\n"))}
	case 4:
		b := make([]byte, g.logspread(1, 3000))
		for i := range b {
			b[i] = byte(g.U64())
			if g.p(.1) {
				b[i] = "*$\r\n019-:+ "[g.Intn(11)]
			}
		}
		return []Op{raw(string(b))}
	case 5:
		return []Op{raw("*3\r\n$3\r\nset\r\n$1\r\n"), {Do: pick(g, "close", "reset", "abort"), Us: g.us(0, 3000)}}
	case 6:
		return []Op{raw(pick(g, "*\r\n", "*a\r\n", "$\r\n", "$x\r\n", "*1\r\nabc\r\n", "*1\r\n$3\r\nabcdef\r\n", "*1\r\n$\r\n", "*0\r\n", "*-1\r\n", "$0\r\n", "$0\r\n\r\n", "*1\r\n$0\r\n\r\n", "*1\r\n\r\n", "*1\r\n$-1\r\n", "*2\r\n$4\r\nkeys\r\n$-1\r\n"))}
	case 7:
		return []Op{raw(strings.Repeat("A", g.in(60000, 140000)))}
	case 8:
		return []Op{raw("*1\r\n" + strings.Repeat("$", 70000))}
	case 9:
		return []Op{raw("*1\r\n$" + strings.Repeat("1", g.in(1, 400)) + "\r\n")}
	}
	if g.p(.08) { // patterns that take forever in a matcher that backtracks
		k := strings.Repeat("a", g.in(20, 400))
		return []Op{op("set", k, ""), op("keys", pick(g, strings.Repeat("a*", g.in(8, 30))+"b", "(a*)*b", "(a|a)*b", "^(a+)+$b", strings.Repeat(".*", g.in(8, 30))+"b",
			strings.Repeat("a?", 30)+strings.Repeat("a", 30)+"b", strings.Repeat("*a", 15)+"b", "(a|aa)+$b")), op("del", k)}
	}
	// valid framing, odd commands
	names := []string{"ping", "keys", "del", "randomget", "select", "auth", "bgrewriteaof", "expire", "expireat", "ttl", "set", "setex", "get", "hset", "hget", "hdel", "hexists", "hkeys", "hlen",
		"lpush", "rpush", "lpop", "rpop", "llen", "lindex", "lrange", "sadd", "srem", "spop", "scard", "sismember", "smembers", "sdiff", "sinter", "sunion",
		"zadd", "zrange", "zrangebyscore", "zrem", "zremrangebyrank", "zremrangebyscore", "zcard", "zcount", "zscore", "SET", "", "nosuch", "\x00"}
	var out []Op
	for i := g.in(1, 6); i > 0; i-- {
		n := names[g.Intn(len(names))]
		a := []string{n}
		k := g.in(0, 5)
		if ar := cmds[n]; ar != 0 && g.p(.7) {
			if ar < 0 {
				ar = -ar
			}
			k = ar - 1
			if g.p(.3) {
				k++
			}
		}
		for j := 0; j < k; j++ {
			switch g.Intn(7) {
			case 5: // what is special to parsers of patterns, numbers and formats
				a = append(a, pick(g, "(", "[", "a)", "*", "**", "+", "?", "{", "a{2,1}", "a{1001}", "(a{100}){100}", "(?P<", "(?i)K", "\\", "[z-a]", "[[:x:]]", "%s%d%n", "%!(NOVERB)", "\xff\xfe", "\xe2\x28\xa1",
					strings.Repeat("(", g.logspread(1, 3000)), "1e-400", "-0", "+1", "Infinity", "0x1p-2", "1_0", "٣", "\u202e", "withscores", "WITHSCORES", "exat", "limit"))
			case 6:
				b := make([]byte, g.in(1, 20))
				for i := range b {
					b[i] = byte(g.U64())
				}
				a = append(a, string(b))
			case 0:
				a = append(a, huge)
			case 1:
				a = append(a, pick(g, "0", "-1", "1", "-100", "100", "nan", "inf", "-inf", "1e400", "0x10", "", "1.5", " 1"))
			case 2:
				a = append(a, g.wildArg())
			default:
				a = append(a, "hk"+string("shlez"[g.Intn(5)]))
			}
		}
		out = append(out, Op{A: bstrs(a...)})
	}
	return out
}

func genC13(g *gen) *Plan {
	s := g.base("")
	s.Cfg.AOF = g.p(.5)
	s.Cfg.Fsync = "no"
	s.Final = "none"
	if s.K.FragMax > 0 && s.K.FragMax < 200 {
		s.K.FragMax = 200
	}
	s.Checks = []string{"delay"}
	ep := addEpoch(s, &Epoch{End: "kill", DumpEnd: true})
	for i := 0; i < 3; i++ {
		for _, k := range "slhez" {
			s.Keys = append(s.Keys, BStr(fmt.Sprintf("vic%c%d", k, i)))
		}
	}
	nv := g.in(1, 2)
	for i := 0; i < nv; i++ {
		w := g.simpleWL("vic")
		w.nkeys = g.in(1, 3)
		w.reads = .5
		c := Client{StartUs: g.us(0, 3000), Window: 1, Ops: g.script(w, g.in(5, 20))}
		if g.p(.3) {
			c.Ops = insertAt(c.Ops, g.Intn(len(c.Ops)+1), op("x"+g.wildArg(), "a"))
		}
		for j := range c.Ops {
			c.Ops[j].Us = g.us(0, 3000)
		}
		ep.Clients = append(ep.Clients, c)
	}
	nh := g.in(1, 3)
	for i := 0; i < nh; i++ {
		c := Client{StartUs: g.us(0, 5000), Window: 0, Hostile: true, Join: g.p(.3)}
		if g.p(.5) { // some state for the commands to work on
			w := &wl{g: g, kinds: "shlez", nkeys: 1, nflds: 4, reads: .1, multi: 3, prefix: "h"}
			for j := 0; j < 5; j++ {
				o := w.next()
				o.A[1] = BStr("hk" + string(o.A[1][len("h")]))
				c.Ops = append(c.Ops, o)
			}
		}
		for j := g.in(1, 6); j > 0; j-- {
			ops := g.garbage()
			if g.p(.5) {
				ops[0].Us = g.us(0, 4000)
			}
			c.Ops = append(c.Ops, ops...)
			if g.p(.3) {
				c.Ops = append(c.Ops, Op{Do: pick(g, "reconnect", "close", "reset", "abort"), Us: g.us(0, 2000)})
			}
		}
		ep.Clients = append(ep.Clients, c)
	}
	return &Plan{Sc: s, N: 0}
}

// ---- semantics

func genC14(g *gen) *Plan {
	s := g.base("")
	s.Cfg.AOF = g.p(.3)
	s.Final = "none"
	s.DumpDB = []int{0}
	ep := addEpoch(s, &Epoch{End: "kill", DumpEnd: true})
	n := g.in(1, 6)
	kinds := pick(g, "shlez", "shlez", "s", "h", "l", "e", "z", "ez", "sl")
	ep.Clients = g.clients(n, func(i int) []Op {
		w := &wl{g: g, kinds: kinds, nkeys: g.in(1, 3), nflds: g.in(2, 9), reads: .5, multi: pick(g, 1, 4, 8), mixed: pick(g, 0, .1), plain: g.p(.6), odd: pick(g, 0, .05)}
		var ops []Op
		if strings.Contains(kinds, "e") && g.p(.15) { // sets of very different sizes
			w.nflds = g.in(10, 60)
			for n := g.in(1, 2); n > 0; n-- {
				a := []string{"sadd", w.key('e')}
				for i := 0; i < w.nflds; i++ {
					a = append(a, "f"+strconv.Itoa(i))
				}
				ops = append(ops, op(a...))
			}
		}
		for j := g.in(4, 120/n); j > 0; j-- {
			switch {
			case g.p(.04):
				ops = append(ops, op("keys", g.pat()))
			case g.p(.04):
				ops = append(ops, op("randomget"))
			case g.p(.02):
				ops = append(ops, op("zadd", w.key('z'), "1", "a", "nan", "b"), op("zadd", w.key('z'), "1"), op("hset", w.key('h'), "a"))
			case g.p(.03):
				ops = append(ops, op(pick(g, "sunion", "sinter", "sdiff"), "missing", w.key('e'), w.key('e')))
			default:
				ops = append(ops, w.next())
			}
		}
		return ops
	})
	return &Plan{Sc: s, N: 2, Vary: func(g *gen, sc *Scenario, base *Result) bool {
		sc.Seed = g.U64() >> 1
		sc.K.NetLatNs = int64(g.logspread(5_000, 1_000_000))
		return true
	}}
}

func (g *gen) deep(s *Scenario) { // long single-key histories: keep the environment cheap
	s.K.FragP, s.K.Eintr, s.K.Eagain, s.K.ShortRead, s.K.ShortWrite = 0, 0, 0, 0, 0
	s.K.NetLatNs = 20000
	s.K.PreemptMean = pick(g, 0, 50, 500)
}

func genC15(g *gen) *Plan {
	s := g.base("")
	g.deep(s)
	s.Cfg.AOF = g.p(.5)
	s.DumpDB = []int{0}
	if !s.Cfg.AOF {
		s.Final = "none"
	}
	ne := 1
	if s.Cfg.AOF && g.p(.5) {
		ne = 2
	}
	for e := 0; e < ne; e++ {
		ep := addEpoch(s, &Epoch{End: pick(g, "stop", "kill"), DumpEnd: true, IdleMs: 20})
		ep.Clients = append(ep.Clients, Client{Window: 1, Ops: g.listScript("l0", pick(g, 3, 20, 200, 1100, 2300, 3300))})
		if g.p(.4) {
			ep.Clients = append(ep.Clients, Client{Window: 1, Ops: g.listScript(pick(g, "l0", "l1"), pick(g, 3, 20, 200, 1100))})
		}
		if s.Cfg.AOF && g.p(.6) {
			for i := range ep.Clients {
				o := ep.Clients[i].Ops
				ep.Clients[i].Ops = insertAt(o, len(o)/2+g.Intn(len(o)/2+1), op("bgrewriteaof"))
			}
		}
	}
	return &Plan{Sc: s}
}

func (g *gen) listScript(key string, size int) []Op {
	ops := g.longList(key, size)
	L := size
	num := func() string {
		switch g.Intn(6) {
		case 0:
			return strconv.Itoa(-1 - g.Intn(L+3))
		case 1:
			return strconv.Itoa(pick(g, 0, 1, 2, 1022, 1023, 1024, 1025, 2047, 2048, 2049))
		case 2:
			return strconv.Itoa(L + g.in(-2, 3))
		case 3:
			return strconv.Itoa(-g.in(1, 4))
		}
		return strconv.Itoa(g.Intn(L + 1))
	}
	for i := g.in(5, 40); i > 0; i-- {
		switch g.Intn(9) {
		case 0, 1:
			ops = append(ops, op("lindex", key, num()))
		case 2:
			ops = append(ops, op("lrange", key, num(), num()))
		case 3:
			ops = append(ops, op("llen", key))
		case 4:
			c := pick(g, "lpop", "rpop")
			n := pick(g, 1, 3, 30)
			look := 0.0
			if L > 900 && g.p(.15) { // about a page, with lookups in between
				n, look = g.in(400, 1300), pick(g, 0, .01, .1)
			}
			for j := n; j > 0; j-- {
				ops = append(ops, op(c, key))
				if g.p(look) {
					ops = append(ops, op("lindex", key, num()))
				}
			}
		case 5:
			s := g.Intn(L + 1)
			ops = append(ops, op("lrange", key, strconv.Itoa(s), strconv.Itoa(s+g.in(0, 20))))
		case 6:
			ops = append(ops, g.longList(key, g.in(1, 40))...)
		case 7:
			ops = append(ops, op("lrange", key, "0", "-1"))
		case 8:
			if g.p(.15) { // drain completely
				c := pick(g, "lpop", "rpop", "mixed")
				n := L
				if n > 1400 {
					n = 1400
				}
				for j := 0; j < n; j++ {
					d := c
					if d == "mixed" {
						d = pick(g, "lpop", "rpop")
					}
					ops = append(ops, op(d, key))
				}
			}
		}
	}
	return append(ops, op("lrange", key, "0", "-1"))
}

func genC16(g *gen) *Plan {
	s := g.base("")
	g.deep(s)
	s.Cfg.AOF = g.p(.5)
	s.DumpDB = []int{0}
	if !s.Cfg.AOF {
		s.Final = "none"
	}
	s.K.RandBias = pick(g, 0, .2)
	ep := addEpoch(s, &Epoch{End: pick(g, "stop", "kill"), DumpEnd: true, IdleMs: 20})
	n := g.in(1, 2)
	for i := 0; i < n; i++ {
		kind := pick(g, 'h', 'e', 'k')
		size := pick(g, 5, 20, 70, 140, 300)
		var ops []Op
		key := string(kind) + "0"
		cur := 0
		bulk := false
		if i == 0 && g.p(.12) { // thousands of entries
			size, bulk = pick(g, 1000, 2200, 5000), true
		}
		for steps := g.in(10, 60); steps > 0; steps-- {
			m := g.in(1, 6)
			if bulk && kind == 'k' {
				m = g.in(1, 60)
			} else if bulk {
				m = g.in(1, pick(g, 6, 60, 700))
			}
			switch g.Intn(8) {
			case 0, 1, 2:
				switch kind {
				case 'h':
					a := []string{"hset", key}
					for j := 0; j < m; j++ {
						a = append(a, "f"+strconv.Itoa(cur%size), strconv.Itoa(cur))
						cur++
					}
					ops = append(ops, op(a...))
				case 'e':
					a := []string{"sadd", key}
					for j := 0; j < m; j++ {
						a = append(a, "f"+strconv.Itoa(cur%size))
						cur++
					}
					ops = append(ops, op(a...))
				default:
					for j := 0; j < m; j++ {
						if g.p(.1) {
							ops = append(ops, op("setex", "k"+strconv.Itoa(cur%size), "1", strconv.Itoa(cur)))
						} else {
							ops = append(ops, op("set", "k"+strconv.Itoa(cur%size), strconv.Itoa(cur)))
						}
						cur++
					}
				}
			case 3:
				f := "f" + strconv.Itoa(g.Intn(size))
				switch kind {
				case 'h':
					ops = append(ops, op("hdel", key, f, "f"+strconv.Itoa(g.Intn(size))))
				case 'e':
					ops = append(ops, op(pick(g, "srem", "srem", "spop"), key))
					if string(ops[len(ops)-1].A[0]) == "srem" {
						ops[len(ops)-1].A = append(ops[len(ops)-1].A, BStr(f))
					}
				default:
					ops = append(ops, op("expire", "k"+strconv.Itoa(g.Intn(size)), "1"))
				}
			case 4, 5:
				switch kind {
				case 'h':
					ops = append(ops, op("hkeys", key), op("hlen", key))
				case 'e':
					ops = append(ops, op("smembers", key), op("scard", key))
				default:
					ops = append(ops, op("keys", g.pat()), op("randomget"))
				}
			case 6:
				f := "f" + strconv.Itoa(g.Intn(size))
				switch kind {
				case 'h':
					ops = append(ops, op("hget", key, f), op("hexists", key, f))
				case 'e':
					ops = append(ops, op("sismember", key, f), op(pick(g, "sinter", "sunion", "sdiff"), key, "e1"), op("sadd", "e1", f))
				default:
					ops = append(ops, op("get", "k"+strconv.Itoa(g.Intn(size))))
				}
			case 7:
				if g.p(.5) && s.Cfg.AOF {
					ops = append(ops, op("bgrewriteaof"))
				} else if kind == 'k' && g.p(.4) {
					ops = append(ops, think(1_050_000, "keys", "*"))
				} else if kind == 'e' && g.p(.3) {
					for j := g.in(2, 12); j > 0; j-- {
						ops = append(ops, op("spop", key))
					}
				}
			}
		}
		ep.Clients = append(ep.Clients, Client{Window: 1, Ops: ops})
	}
	return &Plan{Sc: s, N: 1, Vary: func(g *gen, sc *Scenario, base *Result) bool {
		sc.Seed = g.U64() >> 1
		return true
	}}
}

func genC17(g *gen) *Plan {
	s := g.base("")
	g.deep(s)
	s.Cfg.AOF = g.p(.35)
	s.DumpDB = []int{0}
	if !s.Cfg.AOF {
		s.Final = "none"
	}
	s.K.RandBias = pick(g, 0, .3, .6)
	ep := addEpoch(s, &Epoch{End: pick(g, "stop", "kill"), DumpEnd: true, IdleMs: 20})
	n := g.in(1, 2)
	nf := pick(g, 3, 8, 25, 120)
	for i := 0; i < n; i++ {
		w := &wl{g: g, kinds: "z", nkeys: 1, nflds: nf, reads: .45, multi: pick(g, 1, 5, 20), plain: true, odd: pick(g, 0, .04)}
		if i == 0 && g.p(.08) { // thousands of elements
			nf = 3000
			w.nflds, w.multi = nf, 400
		}
		var ops []Op
		for j := g.in(8, 60); j > 0; j-- {
			switch {
			case g.p(.06):
				s := g.Intn(nf)
				ops = append(ops, op("zremrangebyrank", "z0", strconv.Itoa(s), pick(g, strconv.Itoa(s+g.in(-1, 6)), strconv.Itoa(s+g.in(-1, 6)), strconv.Itoa(s+g.in(-1, 6)), g.rank(nf))))
			case g.p(.06):
				ops = append(ops, op(pick(g, "zremrangebyscore", "zremrangebyscore", "zcount"), "z0", g.bound(), g.bound()))
			case g.p(.1):
				ops = append(ops, op("zrangebyscore", "z0", "-inf", "inf", "withscores"))
			case g.p(.08):
				s := g.Intn(nf)
				ops = append(ops, op("zrange", "z0", strconv.Itoa(s), pick(g, strconv.Itoa(s+g.in(-1, nf)), strconv.Itoa(s+g.in(-1, nf)), g.rank(nf)), "withscores"))
			case s.Cfg.AOF && g.p(.04):
				ops = append(ops, op("bgrewriteaof"))
			default:
				ops = append(ops, w.next())
			}
		}
		ep.Clients = append(ep.Clients, Client{Window: 1, Ops: ops})
	}
	return &Plan{Sc: s, N: 1, Vary: func(g *gen, sc *Scenario, base *Result) bool {
		sc.Seed = g.U64() >> 1
		sc.K.RandBias = pick(g, 0, .3, .6)
		return true
	}}
}

// ---- access, connections

func genC18(g *gen) *Plan {
	s := g.base("")
	s.Cfg.AOF = g.p(.3)
	s.Final = "none"
	s.Cfg.Pass = BStr(pick(g, "secret", "p w", "x", "längs", "a\r\nb", "correct-horse-battery-staple", strings.Repeat("0123456789abcdef", 1<<g.Intn(5))+"z", " pad ", "tail\x00nul"))
	guess := func() string {
		p := string(s.Cfg.Pass)
		switch g.Intn(4) {
		case 0:
			return p[:g.Intn(len(p))]
		case 1: // differs in one byte
			b := []byte(p)
			b[g.Intn(len(b))] ^= 1 << g.Intn(7)
			return string(b)
		case 2:
			return pick(g, " "+p, p+" ", p+"\x00", p+p, p+"\n", strings.TrimSpace(p)+"!", "'"+p+"'")
		}
		return pick(g, "wrong", "", p+"x", p[:len(p)-1], strings.ToUpper(p)+"?", "\x00", strings.Title(p)+"é")
	}
	s.DumpDB = []int{0}
	ep := addEpoch(s, &Epoch{End: "kill", DumpEnd: true})
	n := g.in(1, 4)
	for i := 0; i < n; i++ {
		c := Client{StartUs: g.us(0, 4000), Window: pick(g, 0, 1, 4), Join: g.p(.4)}
		w := g.simpleWL("")
		w.reads = .5
		for j := g.in(4, 24); j > 0; j-- {
			switch {
			case g.p(.12):
				c.Ops = append(c.Ops, op("auth", string(s.Cfg.Pass)))
			case g.p(.12):
				c.Ops = append(c.Ops, op(pick(g, "auth", "AUTH", "Auth"), guess()))
			case g.p(.12):
				c.Ops = append(c.Ops, Op{Do: pick(g, "reconnect", "reconnect", "reset", "close")})
			case g.p(.05):
				c.Ops = append(c.Ops, op("auth"), op("auth", "a", "b"), op("ping"), op("keys", "*"), op("select", "0"))
			case g.p(.04):
				c.Ops = append(c.Ops, op("bgrewriteaof"), op("randomget"))
			case g.p(.1): // commands that do not exist, or not with that many arguments
				switch g.Intn(4) {
				case 0:
					c.Ops = append(c.Ops, op(pick(g, "nosuch", "", "authx", "aut", "auth ", "AUTH\r\n", "hello", "quit", "acl", "config", "debug", "flushall", "x"+g.wildArg()), string(s.Cfg.Pass)))
				case 1:
					c.Ops = append(c.Ops, op(pick(g, "nosuch", "a", "auth auth", "reset")))
				case 2:
					c.Ops = append(c.Ops, op(pick(g, "get", "set", "hset", "zadd", "select", "keys", "expire", "del", "bgrewriteaof", "auth")))
				default:
					c.Ops = append(c.Ops, op(pick(g, "get", "ping", "select", "keys", "randomget", "ttl", "auth"), "s0", string(s.Cfg.Pass), "x"))
				}
			case g.p(.08): // the other forms of a request
				o := Op{A: bstrs(pick(g, "randomget", "ping", "RANDOMGET")), Blk: true}
				if g.p(.6) {
					o = Op{A: bstrs(strings.Split(pick(g, "get s0", "keys *", "set s0 x", "del s0 h0", "randomget", "select 1", "select 0"), " ")...), Inl: true}
				}
				c.Ops = append(c.Ops, o)
			default:
				o := w.next()
				if g.p(.2) {
					o.A[0] = BStr(strings.ToUpper(string(o.A[0])))
				}
				if g.p(.2) {
					o.Us = g.us(0, 3000)
				}
				c.Ops = append(c.Ops, o)
			}
		}
		ep.Clients = append(ep.Clients, c)
	}
	return &Plan{Sc: s, N: 2, Vary: func(g *gen, sc *Scenario, base *Result) bool {
		sc.Seed = g.U64() >> 1
		return true
	}}
}

func genC19(g *gen) *Plan {
	s := g.base("")
	s.Cfg.AOF = g.p(.5)
	s.Final = "none"
	s.DumpDB = allDBs(2)
	s.Cfg.DBs = 4
	s.K.EpollShuffle = g.p(.7)
	s.K.SndBuf = pick(g, 0, 50, 2000)
	s.Checks = []string{"fd", "delay"}
	ep := addEpoch(s, &Epoch{End: "kill"})
	ns := g.in(1, 2)
	for i := 0; i < ns; i++ { // well-behaved
		w := g.simpleWL("n")
		w.reads = .4
		c := Client{StartUs: g.us(0, 3000), Window: pick(g, 1, 3), Ops: g.withSelects(g.script(w, g.in(5, 25)), 2, .1)}
		for j := range c.Ops {
			c.Ops[j].Us = g.us(0, 1500)
		}
		ep.Clients = append(ep.Clients, c)
	}
	nc := g.in(1, 5)
	for i := 0; i < nc; i++ { // come and go
		c := Client{StartUs: g.us(0, 4000), Window: pick(g, 0, 0, 2), Join: g.p(.5)}
		w := g.simpleWL("d")
		w.reads = .4
		w.plain = g.p(.5)
		for j := g.in(2, 8); j > 0; j-- {
			if g.p(.3) {
				c.Ops = append(c.Ops, op("select", strconv.Itoa(g.Intn(3))))
			}
			c.Ops = append(c.Ops, g.script(w, g.in(0, 6))...)
			if g.p(.25) {
				c.Ops = append(c.Ops, op("rpush", "dbig", g.sized(g.logspread(100, 8000))), op("lrange", "dbig", "0", "-1"))
			}
			if g.p(.2) {
				c.Ops = append(c.Ops, Op{Do: "stall"}, op("lrange", "dbig", "0", "-1"))
			}
			if g.p(.4) {
				full := encode([]string{"set", "ds" + strconv.Itoa(g.Intn(3)), g.value()})
				c.Ops = append(c.Ops, Op{Raw: BStr(full[:g.in(1, len(full)-1)])})
			}
			c.Ops = append(c.Ops, Op{Do: pick(g, "close", "reset", "abort", "close"), Us: pick(g, 0, g.us(0, 200), g.us(0, 4000))})
		}
		ep.Clients = append(ep.Clients, c)
	}
	if g.p(.12) { // a connection that cannot be registered
		ep.Faults = append(ep.Faults, &simrt.Fault{Kind: "err", On: "epadd", Nth: g.in(2, 8), Err: pick(g, "ENOMEM", "ENOSPC"), Len: g.in(1, 3)})
	}
	if g.p(.08) { // a crowd
		for i := g.in(30, 280); i > 0; i-- {
			c := Client{StartUs: g.us(0, 3000), Window: 1, Ops: []Op{op("select", strconv.Itoa(g.Intn(3))),
				{A: bstrs("get", "n"+strconv.Itoa(g.Intn(3))), Us: g.us(0, 4000)}}}
			if g.p(.6) {
				c.Ops = append(c.Ops, Op{Do: pick(g, "close", "reset", "abort"), Us: g.us(0, 4000)})
				if g.p(.3) {
					c.Ops = append(c.Ops, op("get", "n0"))
				}
			}
			ep.Clients = append(ep.Clients, c)
		}
	}
	return &Plan{Sc: s, N: 3, Vary: func(g *gen, sc *Scenario, base *Result) bool {
		sc.Seed = g.U64() >> 1
		sc.K.NetLatNs = int64(g.logspread(3_000, 1_000_000))
		sc.K.NetOpNs = int64(g.logspread(300, 60_000))
		return true
	}}
}

// ---- faults

func genC20(g *gen) *Plan {
	s := g.base("")
	s.DumpDB = []int{0}
	if g.p(.3) {
		s.Cfg.Pct, s.Cfg.Min = uint(pick(g, 10, 50, 100)), uint(pick(g, 200, 1000))
	}
	ne := g.in(1, 3)
	for e := 0; e < ne; e++ {
		ep := addEpoch(s, &Epoch{End: "kill", DownMs: int64(g.in(0, 5))})
		if s.Cfg.Fsync == "always" && g.p(.5) {
			ep.End = "power"
		}
		ep.Clients = g.clients(g.in(1, 2), func(i int) []Op {
			w := g.simpleWL("")
			ops := g.script(w, g.in(3, 16))
			if g.p(.2) {
				ops = insertAt(ops, g.Intn(len(ops)), op("bgrewriteaof"))
			}
			return ops
		})
		if s.Cfg.Fsync == "everysec" {
			ep.IdleMs = int64(pick(g, 0, 1200))
		}
	}
	return &Plan{Sc: s, N: 6, Vary: func(g *gen, sc *Scenario, base *Result) bool {
		hit := false
		for i, ep := range sc.Epochs {
			if i >= len(base.Counts) || i > 0 && g.p(.4) {
				continue
			}
			c := base.Counts[i]
			switch {
			case g.p(.15):
				ep.DiskCap = int64(g.in(30, 1500))
				hit = true
			case g.p(.3) && c["fwrite"] > 0:
				ep.Faults = append(ep.Faults, &simrt.Fault{Kind: "short", On: "fwrite", Nth: 1 + g.Intn(c["fwrite"]), Arg: int64(g.in(0, 60))})
				hit = true
			default:
				cl := pick(g, "fwrite", "fwrite", "fsync", "fsync", "fs", "fs", "fopen", "fstat", "fread", "frename", "fclose", "ftrunc")
				if n := c[cl]; n > 0 {
					ep.Faults = append(ep.Faults, &simrt.Fault{Kind: "err", On: cl, Nth: 1 + g.Intn(n), Err: pick(g, "EIO", "ENOSPC", "EDQUOT"), Len: pick(g, 1, 1, 2, 100)})
					hit = true
				}
			}
		}
		return hit
	}}
}

func genC21(g *gen) *Plan {
	s := g.base("")
	s.DumpDB = []int{0}
	s.Final = "none"
	s.Checks = []string{"rewrite", "stop"}
	s.K.Eintr = pick(g, 0, .1, .4)
	s.K.Eagain = pick(g, 0, .1, .4)
	if s.K.PreemptMean == 2 {
		s.K.PreemptMean = 20
	}
	s.Cfg.AOF = g.p(.8)
	ep := addEpoch(s, &Epoch{End: pick(g, "kill", "stop")})
	if g.p(.06) {
		ep.StopUs = int64(g.logspread(1, 20_000))
	}
	ep.NoiseMs = int64(pick(g, 50, 400, 2000))
	nc := g.in(1, 4)
	for i := 0; i < nc; i++ {
		c := Client{StartUs: g.us(0, 5000), Window: pick(g, 1, 1, 3)}
		w := g.simpleWL("")
		w.ttl = .1
		c.Ops = g.script(w, g.in(4, 20))
		for j := range c.Ops {
			if g.p(.3) {
				c.Ops[j].Us = g.us(0, 300_000)
			}
		}
		if g.p(.4) {
			c.Ops = insertAt(c.Ops, g.Intn(len(c.Ops)), Op{Do: pick(g, "reconnect", "reset", "close")})
		}
		if s.Cfg.AOF && g.p(.4) {
			c.Ops = insertAt(c.Ops, g.Intn(len(c.Ops)), op("bgrewriteaof"))
		}
		// after the episode
		c.Ops = append(c.Ops, think(g.us(2_000_000, 4_000_000), "ping"), op("set", "s0", "after"), op("get", "s0"))
		ep.Clients = append(ep.Clients, c)
	}
	if s.Cfg.AOF && g.p(.5) {
		ep.Clients[0].Ops = append(ep.Clients[0].Ops, op("bgrewriteaof"))
		if g.p(.5) {
			ep.Clients[0].Ops = append(ep.Clients[0].Ops, think(200_000, "set", "s1", "x"))
		}
		ep.IdleMs = 4500
	}
	if g.p(.5) { // a key has to go away without being touched: KEYS must not show it
		ep.Clients[0].Ops = append(ep.Clients[0].Ops, op("setex", "gone", "1", "x"), think(1_400_000, "keys", "*"))
	}
	nf := g.in(0, 3)
	for i := 0; i < nf; i++ {
		at := int64(g.in(1, 2000))
		switch g.Intn(7) {
		case 6:
			ep.Faults = append(ep.Faults, &simrt.Fault{Kind: "err", On: "epadd", Nth: g.in(2, 5), Err: pick(g, "ENOMEM", "ENOSPC"), Len: g.in(1, 2)})
		case 0:
			ep.Faults = append(ep.Faults, &simrt.Fault{Kind: "netstall", AtMs: at, Arg: int64(g.in(10, 3000))})
		case 1, 2:
			ep.Faults = append(ep.Faults, &simrt.Fault{Kind: "jump", AtMs: at, Arg: int64(pick(g, -3600_000, -86400_000, -5000, -100, 100, 5000, 3600_000))})
		case 3:
			ep.Faults = append(ep.Faults, &simrt.Fault{Kind: "stall", On: pick(g, "fsync", "fwrite", "fs", "epwait"), Nth: g.in(1, 12), Arg: int64(g.in(5, 2500))})
		case 4:
			ep.Faults = append(ep.Faults, &simrt.Fault{Kind: "reset", AtMs: at, Arg: int64(g.Intn(4))})
		case 5:
			ep.Faults = append(ep.Faults, &simrt.Fault{Kind: "err", On: "accept", Nth: g.in(1, 3), Err: pick(g, "EMFILE", "ECONNABORTED", "EINTR", "ENOBUFS", "ENOMEM"), Len: pick(g, 1, 5)})
		}
	}
	if g.p(.2) { // a disk that is slow all the time
		s.K.FsOpNs = int64(g.logspread(300_000, 6_000_000))
	}
	if g.p(.35) { // a rewrite finds no descriptor, a later one has to complete
		s.Cfg.AOF = true
		ep.Faults = append(ep.Faults, &simrt.Fault{Kind: "err", On: "fopen", Nth: 3 + g.in(1, 3), Err: "EMFILE", Len: g.in(1, 3)})
		c := &ep.Clients[0]
		c.Ops = insertAt(c.Ops, g.Intn(len(c.Ops)-3), op("bgrewriteaof"), think(g.us(0, 60_000), "set", "s2", "y"))
		if g.p(.5) {
			c.Ops = insertAt(c.Ops, g.Intn(len(c.Ops)-3), op("bgrewriteaof"))
		}
		c.Ops = append(c.Ops, think(g.us(100_000, 400_000), "bgrewriteaof"), think(50_000, "set", "s1", "x"))
		ep.IdleMs = 4500
	}
	if g.p(.4) {
		s.K.FdShort = g.in(7, 9)
		s.K.NetOpNs = int64(g.logspread(5_000, 30_000)) // the server retries accept in a loop until a descriptor is free
		if s.Cfg.AOF {
			s.K.FdShort = g.in(8, 10)
		}
		for i := range ep.Clients {
			ep.Clients[i].Ops = append(ep.Clients[i].Ops, Op{Do: "close"})
		}
	}
	return &Plan{Sc: s, N: 1, Vary: func(g *gen, sc *Scenario, base *Result) bool {
		sc.Seed = g.U64() >> 1
		return true
	}}
}

func genC22(g *gen) *Plan {
	s := g.base("")
	g.deep(s)
	s.K.PreemptMean = pick(g, 5, 50, 500)
	s.Final = "none"
	s.Checks = []string{"size", "nolin"}
	s.Cfg.Pct = uint(pick(g, 0, 20, 50, 100, 100, 200))
	s.Cfg.Min = uint(pick(g, 0, 300, 1500, 6000))
	if g.p(.2) {
		s.Cfg.Min = 64 << 20
	}
	ne := g.in(1, 2)
	churn, big := g.p(.12), g.p(.15)
	if big { // logs of hundreds of kilobytes
		ne = g.in(1, 3)
		s.Cfg.Min = uint(pick(g, 0, 1500, 66_000, 150_000, 300_000))
		s.K.FsOpNs = min(s.K.FsOpNs, 20_000)
	}
	for e := 0; e < ne; e++ {
		ep := addEpoch(s, &Epoch{End: "kill", IdleMs: int64(pick(g, 0, 1300)), NoDump: true})
		ep.Clients = g.clients(g.in(1, 2), func(i int) []Op {
			w := g.simpleWL("")
			w.reads = 0
			w.kinds = pick(g, "s", "sh", "ez", "s")
			w.plain = g.p(.5)
			ops := g.script(w, g.logspread(20, 200))
			if churn { // the dataset is empty now and then, and at the end
				for j := range ops {
					k := "k" + strconv.Itoa(g.Intn(2))
					ops[j] = op("set", k, strings.Repeat("v", g.logspread(1, 200)))
					if j%2 == 1 {
						ops[j] = op("del", "k0", "k1")
					}
				}
				ops = append(ops, op("del", "k0", "k1"))
			}
			if big {
				for j := range ops {
					if a := strs(ops[j].A); len(a) > 2 && a[0] == "set" {
						ops[j] = op("set", a[1], strings.Repeat("b", g.logspread(1000, 60_000)))
					}
				}
			}
			for j := range ops {
				ops[j].Us = pick(g, 0, 0, g.us(0, 3000))
			}
			if g.p(.3) {
				ops[g.Intn(len(ops))].Us = 1_300_000
			}
			if g.p(.15) {
				ops = insertAt(ops, g.Intn(len(ops)), op("bgrewriteaof"))
			}
			return ops
		})
	}
	return &Plan{Sc: s}
}

// ---- event loop

func genAE(timers bool) func(g *gen) *Plan {
	return func(g *gen) *Plan {
		s := &Scenario{Prop: g.prop, Kind: "ae", Seed: g.U64() >> 1}
		s.K = g.knobs()
		s.K.PreemptMean = 0
		s.K.NetOpNs = int64(g.logspread(10_000, 400_000)) // a handler may be called without end
		s.K.Eintr = pick(g, 0, .1, .4)
		end := int64(g.logspread(100, 2500)) * 1000
		s.AEEnd = end
		nt, nf := g.in(0, 3), g.in(1, 6)
		if timers {
			nt, nf = g.in(1, 6), g.in(0, 3)
		}
		add := func(o AEOp) { s.AE = append(s.AE, o) }
		place := func() string {
			switch {
			case nt > 0 && g.p(.4):
				return fmt.Sprintf("t%d", g.Intn(nt))
			case nf > 0 && g.p(.6):
				return fmt.Sprintf("f%d%s", g.Intn(nf), pick(g, "r", "r", "w"))
			}
			return "bs"
		}
		for t := 0; t < nt; t++ {
			add(AEOp{In: pick(g, "bs", "bs", place()), AtUs: pick(g, 0, g.us(0, end/2)), Do: "addtimer", T: t, Ms: int64(pick(g, 1, 2, 5, 20, 50, 100, 333)), Once: g.p(.4)})
			if o := &s.AE[len(s.AE)-1]; o.Once && g.p(.15) {
				o.Ms = 0 // due at once
			}
		}
		for f := 0; f < nf; f++ {
			at := pick(g, 0, g.us(0, end/3))
			add(AEOp{In: "bs", AtUs: at, Do: "open", F: f})
			if g.p(.85) {
				add(AEOp{In: "bs", AtUs: at, Do: "reg", F: f, Mode: pick(g, 0, 0, 1)})
			}
			if g.p(.4) {
				add(AEOp{In: "bs", AtUs: at, Do: "reg", F: f, W: true, Mode: pick(g, 0, 1, 3, 3)})
			}
			for i := g.in(1, 10); i > 0; i-- {
				add(AEOp{AtUs: at + g.us(100, end-at), Do: pick(g, "send", "send", "send", "stall", "resume", "hangup", "reset"), F: f, N: g.logspread(1, 400)})
			}
		}
		nd := g.in(2, 14)
		for i := 0; i < nd; i++ {
			in := place()
			at := g.us(0, end)
			switch g.Intn(9) {
			case 0, 1:
				add(AEOp{In: in, AtUs: at, Do: "rmtimer", T: g.Intn(nt + 1)})
			case 2:
				add(AEOp{In: in, AtUs: at, Do: "addtimer", T: nt + g.Intn(4), Ms: int64(pick(g, 1, 2, 5, 20, 100)), Once: g.p(.5)})
			case 3:
				add(AEOp{In: in, AtUs: at, Do: "busy", Ms: int64(pick(g, 1, 5, 30, 200))})
			case 4:
				add(AEOp{In: in, AtUs: at, Do: "unreg", F: g.Intn(nf + 1), W: g.p(.4)})
			case 5:
				add(AEOp{In: in, AtUs: at, Do: "reg", F: g.Intn(nf + 1), W: g.p(.5), Mode: pick(g, 0, 1, 3)})
			case 6:
				f := g.Intn(nf + 1)
				add(AEOp{In: in, AtUs: at, Do: "close", F: f})
				if g.p(.6) {
					add(AEOp{In: in, AtUs: at, Do: "open", F: nf + 1 + g.Intn(3)})
					if g.p(.7) {
						add(AEOp{In: in, AtUs: at, Do: "reg", F: nf + 1 + g.Intn(3), W: g.p(.3)})
					}
				} else if g.p(.5) {
					add(AEOp{In: in, AtUs: at, Do: "open", F: f})
					add(AEOp{In: in, AtUs: at, Do: "reg", F: f, W: g.p(.3)})
				}
			case 7:
				add(AEOp{AtUs: at, Do: "jump", Ms: int64(pick(g, -3600_000, -2000, -50, 50, 2000, 3600_000))})
			case 8:
				add(AEOp{AtUs: at, Do: "send", F: g.Intn(nf + 4), N: g.logspread(1, 300)})
			}
		}
		// steps of one place run in order of time
		sortAE(s.AE)
		ep := addEpoch(s, &Epoch{})
		if g.p(.15) {
			ep.Faults = append(ep.Faults, &simrt.Fault{Kind: "err", On: "epctl", Nth: g.in(1, 10), Err: pick(g, "ENOMEM", "EINTR")})
		}
		return &Plan{Sc: s, N: 2, Vary: func(g *gen, sc *Scenario, base *Result) bool {
			sc.Seed = g.U64() >> 1
			sc.K.NetLatNs = int64(g.logspread(3_000, 1_000_000))
			return true
		}}
	}
}

func sortAE(o []AEOp) {
	for i := 1; i < len(o); i++ {
		for j := i; j > 0 && o[j].AtUs < o[j-1].AtUs; j-- {
			o[j], o[j-1] = o[j-1], o[j]
		}
	}
}

// ---- address

func genC25(g *gen) *Plan {
	s := g.base("")
	s.Cfg.AOF = false
	s.Final = "none"
	s.Checks = []string{"bind", "nolin"}
	s.Cfg.Bind = pick(g, "127.0.0.1", "0.0.0.0", "10.0.0.5", "192.168.7.9", "127.0.0.1", "10.0.0.5", "10.200.30.40", "172.16.0.1")
	s.Cfg.Port = uint16(pick(g, 6379, 1, 80, 255, 256, 1234, 7001, 32768, 40000, 65535))
	ne := pick(g, 1, 1, 2, 3)
	for e := 0; e < ne; e++ {
		ep := addEpoch(s, &Epoch{End: pick(g, "kill", "kill", "stop"), DownMs: int64(pick(g, 0, 1, 1000, 70_000))})
		if g.p(.3) { // whatever fails while the socket is set up, it must not end up on another address
			ep.Faults = append(ep.Faults, &simrt.Fault{Kind: "err", On: "sock", Nth: g.in(1, 4), Err: pick(g, "EACCES", "EADDRINUSE", "EINTR", "ENOBUFS", "EINVAL", "ENOMEM"), Len: g.in(1, 3)})
		}
		for i := 0; i < 3; i++ {
			ep.Clients = append(ep.Clients, Client{StartUs: g.us(0, 3000), Window: 1, IP: i, Ops: []Op{op("ping"), op("set", "a", "b"), op("get", "a")}})
		}
	}
	return &Plan{Sc: s}
}

// ---- configuration

func (g *gen) minStr() (uint, string) {
	switch g.Intn(7) {
	case 0:
		n := uint(g.in(1, 8))
		return n << 10, strconv.Itoa(int(n)) + pick(g, "kb", "KB", "Kb", "kB", " kb")
	case 1:
		n := uint(g.in(1, 64))
		return n << 20, strconv.Itoa(int(n)) + pick(g, "mb", "MB", "Mb")
	case 2:
		n := uint(g.in(1, 3))
		return n << 30, strconv.Itoa(int(n)) + pick(g, "gb", "GB")
	case 3:
		n := uint(g.in(100, 6000))
		return n, strconv.Itoa(int(n)) + pick(g, "b", "B")
	case 4:
		n := uint(g.in(100, 6000))
		return n, strconv.Itoa(int(n)) // a string, no unit
	case 5:
		return uint(g.in(100, 6000)), "" // a number
	}
	return 0, ""
}

func (g *gen) config(c *Cfg) {
	c.Format = pick(g, "toml", "toml", "yaml", "json")
	c.Level = pick(g, "", "debug", "info", "warn", "error")
	c.Log = pick(g, "", "", "-", "metis.log", "/var/log/metis.log", "logs/a b/x")
	c.Order = g.U64() >> 1
	c.Fsync = pick(g, "always", "always", "everysec", "no")
	c.Pct = uint(pick(g, 0, 20, 50, 100, 200))
	c.Min, c.MinStr = g.minStr()
	c.Pass = BStr(pick(g, "", "", "secret", "p w", "1234", "true", "#x", "a=b", "längs", "q\"uote\\", " pad ", "tab\t", "MiXed", "0x1f", "$HOME", "${x}", "~", "null"))
	c.Bind = pick(g, "127.0.0.1", "0.0.0.0", "10.0.0.5", "192.168.7.9")
	c.Port = uint16(pick(g, 6379, 6380, 1, 80, 1234, 40000, 65535))
}

// badConfig damages the text of a configuration file.
func (g *gen) badConfig(text string) string {
	switch g.Intn(6) {
	case 0:
		return text[:g.Intn(len(text)+1)]
	case 1:
		return ""
	case 2:
		b := []byte(text)
		for i := g.in(1, 4); i > 0; i-- {
			b[g.Intn(len(b))] = byte(g.Intn(256))
		}
		return string(b)
	}
	v := pick(g, "70000", "-1", "99999999999999999999", "\"many\"", "\"\"", "true", "1.5", "[1, 2]", "[]", "\"1gb\"", "0")
	k := pick(g, "port", "databases", "bind", "appendonly", "appendfilename", "appendfsync", "auto-aof-rewrite-percentage", "auto-aof-rewrite-min-size", "requirepass", "loglevel")
	sep := "\n"
	if strings.HasPrefix(text, "{") {
		k, sep = jstr(k), ","
	}
	lines := strings.Split(strings.TrimSuffix(strings.Trim(text, "{}\n"), "\n"), sep)
	for i, l := range lines {
		if j := strings.IndexAny(l[min(len(k), len(l)):], ":="); strings.HasPrefix(l, k) && j >= 0 {
			lines[i] = l[:len(k)+j+1] + " " + v
		}
	}
	if sep == "," {
		return "{" + strings.Join(lines, sep) + "}"
	}
	return strings.Join(lines, sep) + "\n"
}

// genC27: as for C26, and the file is edited while the server runs.
func genC27(g *gen) *Plan {
	p := genC26(g)
	for e, ep := range p.Sc.Epochs {
		cfg := p.Sc.Cfg
		for _, x := range p.Sc.Epochs[:e+1] {
			if x.Cfg != nil {
				cfg = *x.Cfg
			}
		}
		at := int64(g.in(0, 60))
		for n := g.in(1, 3); n > 0; n-- {
			c := cfg
			if g.p(.7) {
				c.DBs = pick(g, 1, 2, 16, 40)
				c.AOF = g.p(.5)
				c.Name = pick(g, cfg.Name, "other.aof", "/data/new/log", "")
				g.config(&c)
				c.Format = cfg.Format
			}
			_, text := c.file()
			if g.p(.6) {
				ep.Edits = append(ep.Edits, Edit{at, BStr(g.badConfig(text))})
				at += int64(g.in(1, 40))
			}
			if g.p(.8) {
				ep.Edits = append(ep.Edits, Edit{at, BStr(text)})
			}
			at += int64(g.in(1, 600))
		}
		for i := range ep.Clients { // some requests come after the edits, some connections too
			c := &ep.Clients[i]
			if g.p(.25) {
				c.StartUs += g.us(0, at*1000+50_000)
			}
			for k := g.in(1, 3); k > 0 && len(c.Ops) > 0; k-- {
				c.Ops[g.Intn(len(c.Ops))].Us = g.us(0, at*1000+50_000)
			}
		}
	}
	return p
}

func genC26(g *gen) *Plan {
	s := g.base("")
	s.Checks = []string{"bind", "size", "logfile", "logging"}
	s.Cfg.DBs = pick(g, 1, 2, 3, 15, 16, 17, 40)
	s.Cfg.AOF = g.p(.8)
	s.Cfg.Name = pick(g, "appendonly.aof", "/data/appendonly.aof", "data.aof", "/data/sub/log", "sub/x.aof", "./y.aof", "a b.aof")
	g.config(&s.Cfg)
	s.DumpDB = []int{0}
	if s.Cfg.DBs > 1 {
		s.DumpDB = append(s.DumpDB, s.Cfg.DBs-1)
	}
	ne := 1
	if s.Cfg.AOF {
		ne = g.in(1, 3)
	} else {
		s.Final = "none"
	}
	cfg := s.Cfg
	for e := 0; e < ne; e++ {
		ep := addEpoch(s, &Epoch{End: pick(g, "kill", "stop", "power"), IdleMs: int64(pick(g, 0, 50, 1300)), DownMs: int64(pick(g, 0, 5, 700))})
		if e > 0 && g.p(.6) { // the file was edited
			n := cfg.DBs
			old := cfg
			g.config(&cfg)
			if g.p(.5) {
				cfg.DBs = n + g.in(0, 4)
			}
			if g.p(.5) {
				cfg.Pass = old.Pass
			}
			c := cfg
			ep.Cfg = &c
		}
		addr := map[string]int{"127.0.0.1": 0, "10.0.0.5": 1, "192.168.7.9": 2}
		ep.Clients = g.clients(g.in(1, 3), func(i int) []Op {
			w := g.simpleWL("")
			w.ttl, w.reads = 0, .1
			var ops []Op
			if cfg.Pass != "" {
				if g.p(.2) {
					ops = append(ops, op("get", "s0"), op("auth", "wrong"))
				}
				ops = append(ops, op("auth", string(cfg.Pass)))
			} else if g.p(.1) {
				ops = append(ops, op("auth", "any"))
			}
			for _, n := range []int{cfg.DBs, cfg.DBs - 1, -1, 16, 0} {
				if g.p(.4) {
					ops = append(ops, op("select", strconv.Itoa(n)), op("set", "s1", "in"+strconv.Itoa(n)), op("get", "s1"))
				}
			}
			ops = append(ops, op("select", pick(g, "0", "0", strconv.Itoa(cfg.DBs-1))))
			return append(ops, g.script(w, g.logspread(3, 60))...)
		})
		for i := range ep.Clients {
			ep.Clients[i].IP = addr[cfg.Bind]
			if cfg.Bind == "0.0.0.0" {
				ep.Clients[i].IP = g.Intn(3)
			}
		}
		if g.p(.3) {
			c := Client{StartUs: g.us(0, 3000), Window: 1, IP: g.Intn(3), Ops: []Op{op("ping")}}
			ep.Clients = append(ep.Clients, c)
		}
	}
	return &Plan{Sc: s}
}

var profiles = map[string]*Profile{
	"C01": {Gen: genC01, Classes: []string{"recover", "bootfail", "crash"}},
	"C02": {Gen: genC02, Classes: []string{"recover", "bootfail", "crash"}},
	"C03": {Gen: genC03, Classes: []string{"recover", "bootfail", "crash"}},
	"C04": {Gen: genC04, Classes: []string{"recover", "bootfail", "crash"}},
	"C05": {Gen: genC05, Classes: []string{"recover", "bootfail", "live", "crash", "hang", "closed"}},
	"C06": {Gen: genC06, Classes: []string{"recover", "bootfail"}},
	"C07": {Gen: genC07, Classes: []string{"recover", "bootfail", "crash"}},
	"C08": {Gen: genC08, Classes: []string{"live", "recover", "bootfail", "crash"}},
	"C09": {Gen: genC09, Classes: []string{"live", "crash"}},
	"C10": {Gen: genC10, Classes: []string{"recover", "bootfail", "crash", "live"}},
	"C11": {Gen: genC11, Classes: []string{"framing", "hang", "live", "closed", "crash"}},
	"C12": {Gen: genC12, Classes: []string{"framing", "hang", "live", "closed", "crash", "delay"}},
	"C13": {Gen: genC13, Classes: []string{"crash", "hang", "live", "closed", "framing", "delay"}},
	"C14": {Gen: genC14, Classes: []string{"live", "framing", "crash", "hang", "closed"}},
	"C15": {Gen: genC15, Classes: []string{"live", "crash", "hang", "recover", "bootfail", "closed"}},
	"C16": {Gen: genC16, Classes: []string{"live", "crash", "hang", "recover", "bootfail", "closed"}},
	"C17": {Gen: genC17, Classes: []string{"live", "crash", "hang", "recover", "bootfail", "closed"}},
	"C18": {Gen: genC18, Classes: []string{"live", "framing", "crash", "hang", "closed"}},
	"C19": {Gen: genC19, Classes: []string{"fd", "stray", "live", "crash", "framing", "hang", "closed", "delay"}},
	"C20": {Gen: genC20, Classes: []string{"recover", "bootfail", "crash", "live"}},
	"C21": {Gen: genC21, Classes: []string{"hang", "rewrite", "crash", "delay", "live", "stop", "closed"}},
	"C22": {Gen: genC22, Classes: []string{"size", "crash"}},
	"C23": {Gen: genAE(true), Classes: []string{"early", "late", "twice", "removed", "data", "api", "stopped", "hang", "crash", "hook"}},
	"C24": {Gen: genAE(false), Classes: []string{"removed", "data", "notready", "starved", "api", "stray", "stopped", "hang", "crash"}},
	"C25": {Gen: genC25, Classes: []string{"bind", "bootfail", "crash", "hang"}},
	"C26": {Gen: genC26, Classes: []string{"bind", "size", "logfile", "logging", "live", "recover", "bootfail", "crash", "hang", "closed", "framing"}},
	"C27": {Gen: genC27, Classes: []string{"bind", "size", "logfile", "logging", "live", "recover", "bootfail", "crash", "hang", "closed", "framing"}},
}

// ---- names

// renamed has plans in which the names of the generators (k1, f20, ...) become long ones that differ in little, or ones
// that differ in case, blanks or control characters only.
var renamed = map[string]bool{"C01": true, "C02": true, "C04": true, "C05": true, "C06": true, "C07": true, "C08": true, "C09": true, "C10": true,
	"C14": true, "C15": true, "C16": true, "C17": true}

var variants = []string{"", " ", "\x00", "\n", "\r\n", "x", "X", "xx", "x\x00", "\xc3"}

func (g *gen) rename(p *Plan) {
	n := 0
	for _, e := range p.Sc.Epochs {
		for _, c := range e.Clients {
			n += len(c.Ops)
		}
	}
	long := pick(g, 1, 15, 31, 63, 127, 254, 255)
	if n < 100 {
		long = pick(g, long, long, 511, 1023, 4095)
	}
	if k := p.Sc.K; k.FragP > 0 && k.FragMax < 200 {
		long = min(long, 63) // a byte at a time, that takes long enough
	}
	fill := strings.Repeat(pick(g, "n", "-", "0"), long)
	var f func(s string) string
	like := false
	switch g.Intn(4) {
	case 3: // members and fields named like their key
		like = true
		f = func(s string) string { return s }
	case 0:
		f = func(s string) string { return fill + s }
	case 1:
		f = func(s string) string { return s + fill }
	default:
		f = func(s string) string {
			i := len(s)
			for i > 0 && s[i-1] >= '0' && s[i-1] <= '9' {
				i--
			}
			if i != len(s)-1 {
				return s
			}
			return s[:i] + variants[s[i]-'0']
		}
	}
	keys, fields := g.p(.8), like || g.p(.6)
	for _, e := range p.Sc.Epochs {
		for i := range e.Clients {
			c := &e.Clients[i]
			for j := range c.Ops {
				o := &c.Ops[j]
				if o.Inl || o.Blk || len(o.A) < 2 || c.Hostile {
					continue
				}
				a := append([]BStr(nil), o.A...)
				do := func(from, step int) {
					for k := from; k < len(a); k += step {
						if like && from > 1 {
							if n := len(a[k]); n > 0 && (a[k][n-1] == '0' || a[k][n-1] == '3') {
								a[k] = a[1]
							}
							continue
						}
						a[k] = BStr(f(string(a[k])))
					}
				}
				cmd := strings.ToLower(string(a[0]))
				switch cmd {
				case "ping", "select", "auth", "bgrewriteaof", "keys", "randomget":
					continue
				case "del", "sinter", "sunion", "sdiff":
					if keys {
						do(1, 1)
					}
				default:
					if keys {
						do(1, len(a))
					}
					if fields {
						switch cmd {
						case "hset":
							do(2, 2)
						case "hget", "hdel", "hexists", "sadd", "srem", "sismember", "zrem", "zscore":
							do(2, 1)
						case "zadd":
							do(3, 2)
						}
					}
				}
				o.A = a
			}
		}
	}
}
