package main

import (
	"fmt"
	"sort"
	"strings"

	"verifsim/simrt"
)

const inf = ^uint64(0)

// OpRec is one command as seen at the server's socket.
type OpRec struct {
	Args   []string
	Start  uint64 // the server had read its last byte
	End    uint64 // the server had written the last byte of the reply (inf: never)
	T0, T1 int64  // the same as simulated times
	Reply  *Reply
	Log    int64 // size of the log when the reply was written
	Must   bool  // has to survive the end of its epoch
	wlo    int64
	whi    int64
	wmax   int64
	Dump   bool
}

// Sess is the history of one connection.
type Sess struct {
	Ep, Client, Conn int
	Name             string
	Ops              []*OpRec
	T                int64
}

type Hist struct {
	Sess [][]*Sess // per epoch
	Kind []string  // how each epoch ended
	Cfg  []Cfg     // what each was configured with
}

type lin struct {
	h        *Hist
	m        *Model
	nodes    int
	budget   int
	pos      [][]int
	st       [][]*sessState
	memo     []map[memoKey]bool // per epoch: visited nodes
	feas     []map[memoKey]bool
	cuts     []map[uint64]bool // per epoch: states tried as the recovered state
	widen    int64
	lastAck  [][]int // per session: number of operations up to the last one with a reply
	lastMust [][]int
	only     int // highest epoch to check
	path     []step
	best     int
	bestMsg  string
	bestEp   int
	cutEp    int
}

type step struct {
	s, mark int
	ch      []int
}

type memoKey struct{ a, b uint64 }

func (l *lin) key(e int) memoKey {
	a, b := uint64(7), l.m.h
	for i, p := range l.pos[e] {
		a = mx(a, uint64(p)+uint64(i)<<32)
		b = mx(b, uint64(l.st[e][i].db)<<1|b2u(l.st[e][i].auth))
	}
	return memoKey{a, b}
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

type linResult struct {
	ok           bool
	inconclusive bool
	nodes        int
	msg          string
	ep           int
}

// linearize decides whether the history up to epoch only can be explained.
func linearize(h *Hist, ndb int, pass string, only int, widen int64, tol bool, budget int) linResult {
	l := &lin{h: h, m: newModel(ndb, pass), budget: budget, widen: widen, only: only, best: -1}
	l.m.tol = tol
	for e := range h.Sess {
		l.pos = append(l.pos, make([]int, len(h.Sess[e])))
		var st []*sessState
		var la, lm []int
		for _, s := range h.Sess[e] {
			st = append(st, &sessState{})
			a, b := 0, 0
			for i, o := range s.Ops {
				if o.End != inf {
					a = i + 1
				}
				if o.Must {
					b = i + 1
				}
			}
			la = append(la, a)
			lm = append(lm, b)
		}
		l.lastAck = append(l.lastAck, la)
		l.lastMust = append(l.lastMust, lm)
		l.st = append(l.st, st)
		l.memo = append(l.memo, map[memoKey]bool{})
		l.feas = append(l.feas, map[memoKey]bool{})
		l.cuts = append(l.cuts, map[uint64]bool{})
	}
	ok := l.epoch(0)
	r := linResult{ok: ok, nodes: l.nodes, msg: l.bestMsg, ep: l.bestEp}
	if !ok && l.nodes >= l.budget {
		r.inconclusive = true
	}
	return r
}

func (l *lin) epoch(e int) bool {
	if e > l.only || e >= len(l.h.Sess) {
		return true
	}
	if e > 0 {
		if l.cuts[e][l.m.h] {
			return false
		}
		l.cuts[e][l.m.h] = true
		// memo of this epoch depends only on state reached, which the hash covers
	}
	mk := l.m.mark()
	if e > 0 && l.widen > 0 {
		l.m.widen(l.widen)
	}
	for i := range l.pos[e] {
		l.pos[e][i] = 0
		*l.st[e][i] = sessState{}
	}
	sp := l.path
	l.path = nil
	_, ok := l.dfs(e)
	l.path = sp
	if !ok {
		l.m.rollback(mk)
	}
	return ok
}

// allDone: every acknowledged operation of the epoch is placed; must: every operation that has to survive is.
func (l *lin) status(e int) (done, must bool) {
	done, must = true, true
	for i := range l.h.Sess[e] {
		p := l.pos[e][i]
		if p < l.lastAck[e][i] {
			done = false
		}
		if p < l.lastMust[e][i] {
			must = false
		}
	}
	return
}

// dfs explores from the current node. feasible: the live history can be completed from here; ok: everything is explained.
func (l *lin) dfs(e int) (feasible, ok bool) {
	if l.nodes >= l.budget {
		return false, false
	}
	k := l.key(e)
	if l.memo[e][k] {
		return l.feas[e][k], false
	}
	l.memo[e][k] = true
	l.nodes++
	done, must := l.status(e)
	last := e >= l.only || e+1 >= len(l.h.Sess)
	if done {
		feasible = true
		if last {
			return true, true
		}
	}
	type cnd struct {
		s   int
		key uint64
	}
	var buf [24]cnd
	cand := buf[:0]
	ss := l.h.Sess[e]
	m1, m2, m1s := inf, inf, -1 // two smallest ends of next operations
	for i, s := range ss {
		if p := l.pos[e][i]; p < len(s.Ops) {
			en := s.Ops[p].End
			if m1s < 0 || en < m1 {
				m2 = m1
				m1, m1s = en, i
			} else if en < m2 {
				m2 = en
			}
		}
	}
	for i, s := range ss {
		if p := l.pos[e][i]; p < len(s.Ops) {
			o := s.Ops[p]
			lim := m1
			if i == m1s {
				lim = m2
			}
			if o.Start <= lim {
				kk := o.Start
				if o.End == inf {
					kk += 1 << 62 // operations without a reply come last
				}
				cand = append(cand, cnd{i, kk})
			}
		}
	}
	sort.Slice(cand, func(a, b int) bool { return cand[a].key < cand[b].key })
	if done && !last && must && len(l.path) > 0 {
		// first the whole history survived, without the operations that got no reply
		if l.tryCut(e) {
			return true, true
		}
		// then quickly back along this path, before other orders are explored
		if l.quick(e) {
			return true, true
		}
	}
	for _, c := range cand {
		i := c.s
		o := ss[i].Ops[l.pos[e][i]]
		l.m.ch, l.m.cn = l.m.ch[:0], l.m.cn[:0]
		var ch, cn []int
		for first := true; ; first = false {
			if !first {
				// next choice vector
				j := len(ch) - 1
				for j >= 0 && ch[j]+1 >= cn[j] {
					j--
				}
				if j < 0 {
					break
				}
				ch = append([]int(nil), ch[:j+1]...)
				ch[j]++
				cn = append([]int(nil), cn[:j+1]...)
			}
			mk := l.m.mark()
			l.m.ch, l.m.cn, l.m.ci = append([]int(nil), ch...), append([]int(nil), cn...), 0
			good := l.applyOp(e, i, o)
			ch, cn = l.m.ch, l.m.cn
			if good {
				l.pos[e][i]++
				l.path = append(l.path, step{i, mk, append([]int(nil), ch...)})
				f, k2 := l.dfs(e)
				if k2 {
					return true, true
				}
				l.path = l.path[:len(l.path)-1]
				l.pos[e][i]--
				feasible = feasible || f
			} else {
				l.note(e, i, o)
			}
			l.m.rollback(mk)
			if l.nodes >= l.budget {
				return feasible, false
			}
		}
	}
	if feasible && must && !last {
		if l.tryCut(e) {
			return true, true
		}
	}
	l.feas[e][k] = feasible
	return feasible, false
}

func (l *lin) applyOp(e, i int, o *OpRec) bool {
	if e < len(l.h.Cfg) {
		l.m.ndb, l.m.pass = l.h.Cfg[e].dbs(), string(l.h.Cfg[e].Pass)
	}
	l.m.wlo, l.m.whi, l.m.wmax = o.wlo, o.whi, o.wmax
	return l.m.apply(l.st[e][i], o.Args, o.Reply)
}

func (l *lin) note(e, i int, o *OpRec) {
	d := e * 1000000
	for _, p := range l.pos[e] {
		d += p
	}
	if d > l.best {
		l.best = d
		l.bestEp = e
		l.bestMsg = fmt.Sprintf("epoch %d %s op %d: %s replied %s, expected %s", e, l.h.Sess[e][i].Name, l.pos[e][i], cmdStr(o.Args), o.Reply.String(), l.m.wants)
	}
}

// tryCut continues with the next epoch from the current state.
func (l *lin) tryCut(e int) bool {
	return l.epoch(e + 1)
}

// quick tries the prefixes of the current path as the recovered state, longest first, and restores the state if none fits.
func (l *lin) quick(e int) bool {
	pos := append([]int(nil), l.pos[e]...)
	path := l.path
	n := len(path)
	k := n
	for k > 0 {
		st := path[k-1]
		l.m.rollback(st.mark)
		l.pos[e][st.s]--
		k--
		if _, must := l.status(e); !must {
			break
		}
		if l.tryCut(e) {
			return true
		}
		if l.nodes >= l.budget {
			break
		}
	}
	// redo
	for ; k < n; k++ {
		st := path[k]
		o := l.h.Sess[e][st.s].Ops[l.pos[e][st.s]]
		path[k].mark = l.m.mark()
		l.m.ch, l.m.ci = append([]int(nil), st.ch...), 0
		l.m.cn = make([]int, len(st.ch))
		if !l.applyOp(e, st.s, o) {
			panic("checker: redo failed")
		}
		l.pos[e][st.s]++
	}
	for i := range pos {
		if pos[i] != l.pos[e][i] {
			panic("checker: redo went elsewhere")
		}
	}
	return false
}

func cmdStr(a []string) string {
	var p []string
	for i, x := range a {
		if i > 8 {
			p = append(p, fmt.Sprintf("...(%d args)", len(a)))
			break
		}
		if i == 0 {
			p = append(p, strings.ToUpper(x))
		} else {
			p = append(p, q(x))
		}
	}
	return strings.Join(p, " ")
}

func (h *Hist) walls(w *simrt.World) {
	for _, ep := range h.Sess {
		for _, s := range ep {
			for _, o := range s.Ops {
				a, b := w.WallRange(o.T0, o.T1)
				_, c := w.WallRange(0, o.T1)
				o.wlo, o.whi, o.wmax = a/1e6, b/1e6, c/1e6
			}
		}
	}
}
