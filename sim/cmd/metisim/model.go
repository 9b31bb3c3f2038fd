package main

import (
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// The reference model: plain maps, with an undo log so that the checker can search, and a hash of the whole state.

func hs(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	h ^= h >> 32
	h *= 0xd6e8feb86659fd93
	h ^= h >> 32
	return h
}

func mx(a, b uint64) uint64 {
	x := a*0x9e3779b97f4a7c15 + b
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	return x ^ (x >> 31)
}

const polyB = uint64(0x9e3779b97f4a7c15) // odd: invertible modulo 2^64

var polyInv = func() uint64 {
	x := polyB
	for i := 0; i < 6; i++ {
		x *= 2 - polyB*x
	}
	return x
}()

var polyPow = []uint64{1}

func pw(n int) uint64 {
	for len(polyPow) <= n {
		polyPow = append(polyPow, polyPow[len(polyPow)-1]*polyB)
	}
	return polyPow[n]
}

type mval struct {
	kind byte // s l h e z
	str  string
	list []string
	hash map[string]string
	set  map[string]bool
	zset map[string]float64
	h    uint64 // content hash
	dl   bool   // has a deadline
	lo   int64  // the deadline is within [lo,hi], wall ms
	hi   int64
	gen  int // bumped on content changes (cache key)

	sorted []string // zset cache
	sgen   int
}

type mkey struct {
	db  int
	key string
}

type Model struct {
	ndb   int
	pass  string
	dbs   []map[string]*mval
	h     uint64
	undo  []func()
	wlo   int64 // wall ms range of the operation being applied
	whi   int64
	wmax  int64 // highest wall clock shown so far
	tol   bool  // error replies without effect are tolerated (disk faults)
	ch    []int // choices
	cn    []int
	ci    int
	over  bool // a choice was too wide
	why   string
	wants string
}

type sessState struct {
	db   int
	auth bool
}

func newModel(ndb int, pass string) *Model {
	m := &Model{ndb: ndb, pass: pass, dbs: make([]map[string]*mval, ndb)}
	for i := range m.dbs {
		m.dbs[i] = map[string]*mval{}
	}
	return m
}

func (m *Model) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if m.ci == len(m.ch) {
		m.ch = append(m.ch, 0)
		m.cn = append(m.cn, n)
	}
	c := m.ch[m.ci]
	m.ci++
	return c
}

func (m *Model) mark() int { return len(m.undo) }
func (m *Model) rollback(k int) {
	for len(m.undo) > k {
		f := m.undo[len(m.undo)-1]
		m.undo = m.undo[:len(m.undo)-1]
		f()
	}
}

func (v *mval) hashOf(db int, key string) uint64 {
	x := mx(mx(hs(key)+uint64(db)*7919, uint64(v.kind)), v.h)
	if v.dl {
		x = mx(x, uint64(v.lo)*31+uint64(v.hi))
	}
	return x
}

// touch brackets a change of a value: XOR the old hash out, change, XOR the new hash in; undo restores via back.
func (m *Model) touch(db int, key string, v *mval, change, back func()) {
	o := v.hashOf(db, key)
	change()
	n := v.hashOf(db, key)
	m.h ^= o ^ n
	m.undo = append(m.undo, func() {
		back()
		m.h ^= o ^ n
	})
}

func (m *Model) put(db int, key string, v *mval) {
	old := m.dbs[db][key]
	oh := m.h
	if old != nil {
		m.h ^= old.hashOf(db, key)
	}
	if v != nil {
		m.h ^= v.hashOf(db, key)
		m.dbs[db][key] = v
	} else {
		delete(m.dbs[db], key)
	}
	m.undo = append(m.undo, func() {
		m.h = oh
		if old != nil {
			m.dbs[db][key] = old
		} else {
			delete(m.dbs[db], key)
		}
	})
}

func (m *Model) del(db int, key string) {
	if m.dbs[db][key] != nil {
		m.put(db, key, nil)
	}
}

func (m *Model) setDL(db int, key string, v *mval, dl bool, lo, hi int64) {
	od, ol, oh := v.dl, v.lo, v.hi
	m.touch(db, key, v, func() { v.dl, v.lo, v.hi = dl, lo, hi }, func() { v.dl, v.lo, v.hi = od, ol, oh })
}

// alive: 1 sure, 0 sure expired, 2 unknown.
func (m *Model) alive(v *mval) int {
	if !v.dl {
		return 1
	}
	if m.wmax < v.lo {
		return 1
	}
	if m.wlo > v.hi {
		return 0
	}
	return 2
}

func (m *Model) sawAlive(db int, key string, v *mval) {
	if m.wlo > v.lo {
		h := v.hi
		if h < m.wlo {
			h = m.wlo
		}
		m.setDL(db, key, v, true, m.wlo, h)
	}
}

// get resolves the key as seen by the operation.
func (m *Model) get(db int, key string) *mval {
	v := m.dbs[db][key]
	if v == nil {
		return nil
	}
	switch m.alive(v) {
	case 1:
		return v
	case 0:
		m.del(db, key)
		return nil
	}
	if m.choose(2) == 0 {
		m.sawAlive(db, key, v)
		return v
	}
	m.del(db, key)
	return nil
}

// widen is applied to every deadline at a restart: a record may hold whole seconds.
func (m *Model) widen(ms int64) {
	for d := range m.dbs {
		for k, v := range m.dbs[d] {
			if v.dl {
				m.setDL(d, k, v, true, v.lo-ms, v.hi)
			}
		}
	}
}

// ---- content changes

func (m *Model) pushBack(db int, k string, v *mval, s string) {
	ol, oh := v.list, v.h
	m.touch(db, k, v, func() {
		v.h += hs(s) * pw(len(ol))
		v.list = append(ol[:len(ol):len(ol)], s)
		v.gen++
	}, func() { v.list, v.h = ol, oh })
}

func (m *Model) pushFront(db int, k string, v *mval, s string) {
	ol, oh := v.list, v.h
	m.touch(db, k, v, func() {
		n := make([]string, len(ol)+1)
		n[0] = s
		copy(n[1:], ol)
		v.list = n
		v.h = v.h*polyB + hs(s)
		v.gen++
	}, func() { v.list, v.h = ol, oh })
}

func (m *Model) popFront(db int, k string, v *mval) string {
	s := v.list[0]
	if len(v.list) == 1 {
		m.del(db, k)
		return s
	}
	ol, oh := v.list, v.h
	m.touch(db, k, v, func() {
		v.list = ol[1:]
		v.h = (v.h - hs(s)) * polyInv
	}, func() { v.list, v.h = ol, oh })
	return s
}

func (m *Model) popBack(db int, k string, v *mval) string {
	n := len(v.list)
	s := v.list[n-1]
	if n == 1 {
		m.del(db, k)
		return s
	}
	ol, oh := v.list, v.h
	m.touch(db, k, v, func() {
		v.list = ol[: n-1 : n-1]
		v.h -= hs(s) * pw(n-1)
	}, func() { v.list, v.h = ol, oh })
	return s
}

func (m *Model) hset(db int, k string, v *mval, f, s string) bool {
	o, had := v.hash[f]
	if had && o == s {
		return false
	}
	oh := v.h
	m.touch(db, k, v, func() {
		if had {
			v.h ^= mx(hs(f), hs(o))
		}
		v.h ^= mx(hs(f), hs(s))
		v.hash[f] = s
	}, func() {
		v.h = oh
		if had {
			v.hash[f] = o
		} else {
			delete(v.hash, f)
		}
	})
	return !had
}

func (m *Model) hdel(db int, k string, v *mval, f string) bool {
	o, had := v.hash[f]
	if !had {
		return false
	}
	oh := v.h
	m.touch(db, k, v, func() {
		v.h ^= mx(hs(f), hs(o))
		delete(v.hash, f)
	}, func() { v.h = oh; v.hash[f] = o })
	if len(v.hash) == 0 {
		m.del(db, k)
	}
	return true
}

func (m *Model) sadd(db int, k string, v *mval, s string) bool {
	if v.set[s] {
		return false
	}
	m.touch(db, k, v, func() { v.set[s] = true; v.h ^= hs(s) }, func() { delete(v.set, s); v.h ^= hs(s) })
	return true
}

func (m *Model) srem(db int, k string, v *mval, s string) bool {
	if !v.set[s] {
		return false
	}
	m.touch(db, k, v, func() { delete(v.set, s); v.h ^= hs(s) }, func() { v.set[s] = true; v.h ^= hs(s) })
	if len(v.set) == 0 {
		m.del(db, k)
	}
	return true
}

func fh(f float64) uint64 {
	if f == 0 {
		f = 0 // negative zero equals zero
	}
	return math.Float64bits(f)
}

func (m *Model) zset(db int, k string, v *mval, s string, f float64) bool {
	o, had := v.zset[s]
	if had && o == f {
		return false
	}
	oh := v.h
	m.touch(db, k, v, func() {
		if had {
			v.h ^= mx(hs(s), fh(o))
		}
		v.h ^= mx(hs(s), fh(f))
		v.zset[s] = f
		v.sorted = nil
	}, func() {
		v.h = oh
		v.sorted = nil
		if had {
			v.zset[s] = o
		} else {
			delete(v.zset, s)
		}
	})
	return !had
}

func (m *Model) zrem(db int, k string, v *mval, s string) bool {
	o, had := v.zset[s]
	if !had {
		return false
	}
	oh := v.h
	m.touch(db, k, v, func() {
		v.h ^= mx(hs(s), fh(o))
		delete(v.zset, s)
		v.sorted = nil
	}, func() { v.h = oh; v.zset[s] = o; v.sorted = nil })
	if len(v.zset) == 0 {
		m.del(db, k)
	}
	return true
}

func (v *mval) order() []string {
	if v.sorted == nil {
		o := make([]string, 0, len(v.zset))
		for k := range v.zset {
			o = append(o, k)
		}
		sort.Slice(o, func(i, j int) bool {
			a, b := v.zset[o[i]], v.zset[o[j]]
			if a != b {
				return a < b
			}
			return o[i] < o[j]
		})
		v.sorted = o
	}
	return v.sorted
}

func newVal(kind byte) *mval {
	v := &mval{kind: kind}
	switch kind {
	case 'h':
		v.hash = map[string]string{}
	case 'e':
		v.set = map[string]bool{}
	case 'z':
		v.zset = map[string]float64{}
	}
	return v
}

// ---- applying operations

func isErr(r *Reply) bool { return r != nil && r.K == '-' }

// bad notes a mismatch; the result is always false.
func (m *Model) bad(want string) bool {
	m.wants = want
	return false
}

func (m *Model) wantErr(r *Reply) bool {
	if r == nil || isErr(r) {
		return true
	}
	return m.bad("an error")
}

func (m *Model) wantInt(r *Reply, n int64) bool {
	if r == nil || (r.K == ':' && r.N == n) {
		return true
	}
	return m.bad(":" + strconv.FormatInt(n, 10))
}

func (m *Model) wantStr(r *Reply, s string) bool {
	if r == nil || (r.K == '$' && !r.Null && r.S == s) {
		return true
	}
	return m.bad("$" + q(s))
}

func (m *Model) wantNull(r *Reply) bool {
	if r == nil || (r.Null && (r.K == '$' || r.K == '*')) {
		return true
	}
	return m.bad("nil")
}

func (m *Model) wantEmpty(r *Reply) bool {
	if r == nil || (r.Null && (r.K == '$' || r.K == '*')) || (r.K == '*' && len(r.Arr) == 0) {
		return true
	}
	return m.bad("an empty result")
}

func (m *Model) wantPlus(r *Reply, s string) bool {
	if r == nil || (r.K == '+' && r.S == s) {
		return true
	}
	return m.bad("+" + s)
}

func (m *Model) wantNonErr(r *Reply) bool {
	if r == nil || !isErr(r) {
		return true
	}
	return m.bad("no error")
}

func (m *Model) wantList(r *Reply, l []string) bool {
	if r == nil {
		return true
	}
	if len(l) == 0 {
		return m.wantEmpty(r)
	}
	if r.K == '*' && !r.Null && len(r.Arr) == len(l) {
		ok := true
		for i, x := range r.Arr {
			if x.K != '$' || x.Null || x.S != l[i] {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return m.bad(listStr(l))
}

func listStr(l []string) string {
	var p []string
	for i, x := range l {
		if i >= 12 {
			p = append(p, "...("+strconv.Itoa(len(l))+" in all)")
			break
		}
		p = append(p, q(x))
	}
	return "[" + strings.Join(p, " ") + "]"
}

func (m *Model) wantSet(r *Reply, in func(string) bool, n int) bool {
	if r == nil {
		return true
	}
	if n == 0 {
		return m.wantEmpty(r)
	}
	if r.K != '*' || r.Null || len(r.Arr) != n {
		return m.bad("a set of " + strconv.Itoa(n))
	}
	seen := map[string]bool{}
	for _, x := range r.Arr {
		if x.K != '$' || x.Null || !in(x.S) || seen[x.S] {
			return m.bad("a set of " + strconv.Itoa(n) + " without " + q(x.S) + " (wrong or twice)")
		}
		seen[x.S] = true
	}
	return true
}

func sameScore(s string, f float64) bool {
	g, err := strconv.ParseFloat(s, 64)
	return err == nil && g == f
}

func (m *Model) wantZ(r *Reply, v *mval, l []string, scores bool) bool {
	if r == nil {
		return true
	}
	if len(l) == 0 {
		return m.wantEmpty(r)
	}
	if !scores {
		return m.wantList(r, l)
	}
	if r.K == '*' && len(r.Arr) == 2*len(l) {
		ok := true
		for i, x := range l {
			if r.Arr[2*i].S != x || r.Arr[2*i].K != '$' || !sameScore(r.Arr[2*i+1].S, v.zset[x]) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	var w []string
	for i, x := range l {
		if i > 12 {
			break
		}
		w = append(w, x+"="+strconv.FormatFloat(v.zset[x], 'g', -1, 64))
	}
	return m.bad(listStr(w))
}

// wrong: the value is there but of another kind.
func wrong(v *mval, kind byte) bool { return v != nil && v.kind != kind }

func pint(s string) (int64, bool) {
	n, err := strconv.ParseInt(s, 10, 64)
	return n, err == nil
}

// psec parses a number of seconds. What cannot be counted in milliseconds is refused.
func psec(s string) (int64, bool) {
	n, ok := pint(s)
	return n, ok && n < 4e15 && n > -4e15
}

// apply performs args on the session; r is the observed reply (nil: unknown). False: the reply does not fit.
func (m *Model) apply(ss *sessState, a []string, r *Reply) bool {
	if m.tol && isErr(r) && m.choose(2) == 1 {
		return true
	}
	if len(a) == 0 {
		return true
	}
	name := strings.ToLower(a[0])
	sp, ok := cmds[name]
	if !ok {
		return m.wantErr(r)
	}
	if (sp > 0 && len(a) != sp) || len(a) < -sp {
		return m.wantErr(r)
	}
	if m.pass != "" && !ss.auth && name != "auth" {
		return m.wantErr(r)
	}
	db := ss.db
	switch name {
	case "ping":
		return m.wantPlus(r, "PONG")
	case "auth":
		old := *ss
		m.undo = append(m.undo, func() { *ss = old })
		if m.pass == "" || m.pass == a[1] {
			ss.auth = true
			return m.wantPlus(r, "OK")
		}
		ss.auth = false
		return m.wantErr(r)
	case "select":
		n, ok := pint(a[1])
		if !ok || n < 0 || n >= int64(m.ndb) {
			return m.wantErr(r)
		}
		old := *ss
		m.undo = append(m.undo, func() { *ss = old })
		ss.db = int(n)
		return m.wantPlus(r, "OK")
	case "bgrewriteaof":
		return r == nil || r.K == '+' || r.K == '-'
	case "keys":
		return m.keys(db, a, r)
	case "randomget":
		return m.randomget(db, r)
	case "set":
		v := newVal('s')
		v.str, v.h = a[2], hs(a[2])
		if len(a) == 5 && strings.EqualFold(a[3], "exat") {
			n, ok := psec(a[4])
			if !ok {
				return m.wantErr(r)
			}
			v.dl, v.lo, v.hi = true, n*1000, n*1000
		}
		m.put(db, a[1], v)
		return m.wantPlus(r, "OK")
	case "del":
		n := int64(0)
		for _, k := range a[1:] {
			if m.get(db, k) != nil {
				m.del(db, k)
				n++
			}
		}
		return m.wantInt(r, n)
	case "setex":
		n, ok := psec(a[2])
		if !ok {
			return m.wantErr(r)
		}
		v := newVal('s')
		v.str, v.h = a[3], hs(a[3])
		v.dl, v.lo, v.hi = true, m.wlo+n*1000, m.whi+n*1000
		m.put(db, a[1], v)
		return m.wantPlus(r, "OK")
	case "sinter", "sunion", "sdiff":
		return m.setop(db, name, a, r)
	}
	v := m.get(db, a[1])
	switch name {
	case "expire", "expireat":
		n, ok := psec(a[2])
		if !ok {
			return m.wantErr(r)
		}
		if v != nil {
			if name == "expire" {
				m.setDL(db, a[1], v, true, m.wlo+n*1000, m.whi+n*1000)
			} else {
				m.setDL(db, a[1], v, true, n*1000, n*1000)
			}
		}
		return m.wantNonErr(r)
	case "ttl":
		if v == nil {
			return m.wantInt(r, -2)
		}
		if !v.dl {
			return m.wantInt(r, -1)
		}
		if r == nil {
			return true
		}
		lo := (v.lo-m.whi)/1000 - 1
		hi := (v.hi-m.wlo)/1000 + 1
		if r.K == ':' && r.N >= lo && r.N <= hi && r.N >= 0 {
			return true
		}
		return m.bad("a ttl in " + strconv.FormatInt(lo, 10) + ".." + strconv.FormatInt(hi, 10))
	case "get":
		if wrong(v, 's') {
			return m.wantErr(r)
		}
		if v == nil {
			return m.wantNull(r)
		}
		return m.wantStr(r, v.str)

	// ---- hashes
	case "hset":
		if len(a)%2 != 0 || wrong(v, 'h') {
			return m.wantErr(r)
		}
		if v == nil {
			v = newVal('h')
			m.put(db, a[1], v)
		}
		n := int64(0)
		for i := 2; i < len(a); i += 2 {
			if m.hset(db, a[1], v, a[i], a[i+1]) {
				n++
			}
		}
		return m.wantInt(r, n)
	case "hget":
		if wrong(v, 'h') {
			return m.wantErr(r)
		}
		if v != nil {
			if s, ok := v.hash[a[2]]; ok {
				return m.wantStr(r, s)
			}
		}
		return m.wantNull(r)
	case "hdel":
		if wrong(v, 'h') {
			return m.wantErr(r)
		}
		n := int64(0)
		if v != nil {
			for _, f := range a[2:] {
				if m.hdel(db, a[1], v, f) {
					n++
				}
			}
		}
		return m.wantInt(r, n)
	case "hexists":
		if wrong(v, 'h') {
			return m.wantErr(r)
		}
		n := int64(0)
		if v != nil {
			if _, ok := v.hash[a[2]]; ok {
				n = 1
			}
		}
		return m.wantInt(r, n)
	case "hkeys":
		if wrong(v, 'h') {
			return m.wantErr(r)
		}
		if v == nil {
			return m.wantEmpty(r)
		}
		return m.wantSet(r, func(s string) bool { _, ok := v.hash[s]; return ok }, len(v.hash))
	case "hlen":
		if wrong(v, 'h') {
			return m.wantErr(r)
		}
		if v == nil {
			return m.wantInt(r, 0)
		}
		return m.wantInt(r, int64(len(v.hash)))

	// ---- lists
	case "lpush", "rpush":
		if wrong(v, 'l') {
			return m.wantErr(r)
		}
		if v == nil {
			v = newVal('l')
			m.put(db, a[1], v)
		}
		for _, s := range a[2:] {
			if name == "lpush" {
				m.pushFront(db, a[1], v, s)
			} else {
				m.pushBack(db, a[1], v, s)
			}
		}
		return m.wantInt(r, int64(len(v.list)))
	case "lpop", "rpop":
		if wrong(v, 'l') {
			return m.wantErr(r)
		}
		if v == nil {
			return m.wantNull(r)
		}
		if name == "lpop" {
			return m.wantStr(r, m.popFront(db, a[1], v))
		}
		return m.wantStr(r, m.popBack(db, a[1], v))
	case "llen":
		if wrong(v, 'l') {
			return m.wantErr(r)
		}
		if v == nil {
			return m.wantInt(r, 0)
		}
		return m.wantInt(r, int64(len(v.list)))
	case "lindex":
		n, ok := pint(a[2])
		if wrong(v, 'l') {
			return m.wantErr(r)
		}
		if v == nil {
			return !ok && isErr(r) || m.wantNull(r)
		}
		if !ok {
			return m.wantErr(r)
		}
		L := int64(len(v.list))
		if n < 0 {
			n += L
		}
		if n < 0 || n >= L {
			return m.wantNull(r)
		}
		return m.wantStr(r, v.list[n])
	case "lrange":
		if wrong(v, 'l') {
			return m.wantErr(r)
		}
		s, ok1 := pint(a[2])
		e, ok2 := pint(a[3])
		if !ok1 || !ok2 {
			if v == nil && (r == nil || !isErr(r)) {
				return m.wantEmpty(r)
			}
			return m.wantErr(r)
		}
		if v == nil {
			return m.wantEmpty(r)
		}
		L := int64(len(v.list))
		if s < 0 {
			s += L
		}
		if e < 0 {
			e += L
		}
		if s < 0 { // out of range start: empty or clamped
			if r == nil || r.Null || (r.K == '*' && len(r.Arr) == 0) {
				return true
			}
			s = 0
		}
		if e >= L {
			e = L - 1
		}
		if s > e || s >= L {
			return m.wantEmpty(r)
		}
		return m.wantList(r, v.list[s:e+1])

	// ---- sets
	case "sadd":
		if wrong(v, 'e') {
			return m.wantErr(r)
		}
		if v == nil {
			v = newVal('e')
			m.put(db, a[1], v)
		}
		n := int64(0)
		for _, s := range a[2:] {
			if m.sadd(db, a[1], v, s) {
				n++
			}
		}
		return m.wantInt(r, n)
	case "srem":
		if wrong(v, 'e') {
			return m.wantErr(r)
		}
		n := int64(0)
		if v != nil {
			for _, s := range a[2:] {
				if m.srem(db, a[1], v, s) {
					n++
				}
			}
		}
		return m.wantInt(r, n)
	case "spop":
		if wrong(v, 'e') {
			return m.wantErr(r)
		}
		if v == nil {
			return m.wantNull(r)
		}
		if r != nil {
			if r.K != '$' || r.Null || !v.set[r.S] {
				return m.bad("a member")
			}
			return m.srem(db, a[1], v, r.S)
		}
		mem := make([]string, 0, len(v.set))
		for s := range v.set {
			mem = append(mem, s)
		}
		sort.Strings(mem)
		m.srem(db, a[1], v, mem[m.choose(len(mem))])
		return true
	case "scard":
		if wrong(v, 'e') {
			return m.wantErr(r)
		}
		if v == nil {
			return m.wantInt(r, 0)
		}
		return m.wantInt(r, int64(len(v.set)))
	case "sismember":
		if wrong(v, 'e') {
			return m.wantErr(r)
		}
		if v != nil && v.set[a[2]] {
			return m.wantInt(r, 1)
		}
		return m.wantInt(r, 0)
	case "smembers":
		if wrong(v, 'e') {
			return m.wantErr(r)
		}
		if v == nil {
			return m.wantEmpty(r)
		}
		return m.wantSet(r, func(s string) bool { return v.set[s] }, len(v.set))

	// ---- sorted sets
	case "zadd":
		if len(a)%2 != 0 {
			return m.wantErr(r)
		}
		bad := wrong(v, 'z')
		sc := make([]float64, 0, 4)
		for i := 2; i < len(a); i += 2 {
			f, err := strconv.ParseFloat(a[i], 64)
			if err != nil || math.IsNaN(f) {
				bad = true
			}
			sc = append(sc, f)
		}
		if bad {
			return m.wantErr(r)
		}
		if v == nil {
			v = newVal('z')
			m.put(db, a[1], v)
		}
		n := int64(0)
		for i, f := range sc {
			if m.zset(db, a[1], v, a[3+2*i], f) {
				n++
			}
		}
		return m.wantInt(r, n)
	case "zcard":
		if wrong(v, 'z') {
			return m.wantErr(r)
		}
		if v == nil {
			return m.wantInt(r, 0)
		}
		return m.wantInt(r, int64(len(v.zset)))
	case "zscore":
		if wrong(v, 'z') {
			return m.wantErr(r)
		}
		if v != nil {
			if f, ok := v.zset[a[2]]; ok {
				if r == nil || ((r.K == '+' || r.K == '$') && !r.Null && sameScore(r.S, f)) {
					return true
				}
				return m.bad("score " + strconv.FormatFloat(f, 'g', -1, 64))
			}
		}
		return m.wantNull(r)
	case "zrem":
		if wrong(v, 'z') {
			return m.wantErr(r)
		}
		n := int64(0)
		if v != nil {
			for _, s := range a[2:] {
				if m.zrem(db, a[1], v, s) {
					n++
				}
			}
		}
		return m.wantInt(r, n)
	case "zrange", "zremrangebyrank":
		s, ok1 := pint(a[2])
		e, ok2 := pint(a[3])
		if !ok1 || !ok2 || wrong(v, 'z') {
			return m.wantErr(r)
		}
		rem := name != "zrange"
		if v == nil {
			if rem {
				return m.wantInt(r, 0)
			}
			return len(a) > 4 && isErr(r) || m.wantEmpty(r)
		}
		o := v.order()
		L := int64(len(o))
		if e >= L {
			e = L - 1
		}
		if s < 0 || e < 0 || s > e {
			o = nil
		} else {
			o = o[s : e+1]
		}
		if rem {
			for _, x := range append([]string(nil), o...) {
				m.zrem(db, a[1], v, x)
			}
			return m.wantInt(r, int64(len(o)))
		}
		if len(a) > 4 && !strings.EqualFold(a[4], "withscores") {
			return m.wantErr(r)
		}
		return m.wantZ(r, v, o, len(a) > 4)
	case "zrangebyscore", "zremrangebyscore", "zcount":
		lo, e1 := strconv.ParseFloat(a[2], 64)
		hi, e2 := strconv.ParseFloat(a[3], 64)
		if e1 != nil || e2 != nil || wrong(v, 'z') {
			return m.wantErr(r)
		}
		if (math.IsNaN(lo) || math.IsNaN(hi)) && isErr(r) { // otherwise nothing is in the range
			return true
		}
		var o []string
		if v != nil {
			for _, x := range v.order() {
				if f := v.zset[x]; f >= lo && f <= hi {
					o = append(o, x)
				}
			}
		}
		switch name {
		case "zcount":
			return m.wantInt(r, int64(len(o)))
		case "zrangebyscore":
			opt := len(a) > 4 && !strings.EqualFold(a[4], "withscores")
			if v == nil {
				return opt && isErr(r) || m.wantEmpty(r)
			}
			if opt {
				return m.wantErr(r)
			}
			return m.wantZ(r, v, o, len(a) > 4)
		}
		for _, x := range o {
			m.zrem(db, a[1], v, x)
		}
		return m.wantInt(r, int64(len(o)))
	}
	return true
}

var (
	reMu    sync.Mutex
	reCache = map[string]*regexp.Regexp{}
)

func compile(p string) (*regexp.Regexp, error) {
	reMu.Lock()
	defer reMu.Unlock()
	if r := reCache[p]; r != nil {
		return r, nil
	}
	r, err := regexp.Compile(p)
	if err == nil && len(reCache) < 1000 {
		reCache[p] = r
	}
	return r, err
}

func (m *Model) keys(db int, a []string, r *Reply) bool {
	if r == nil {
		return true
	}
	var re *regexp.Regexp
	if a[1] != "*" {
		var err error
		if re, err = compile(a[1]); err != nil {
			if isErr(r) {
				return true
			}
			for _, v := range m.dbs[db] { // without keys there is nothing to match
				if m.alive(v) == 1 {
					return m.bad("an error")
				}
			}
			return len(r.Arr) == 0
		}
	}
	if isErr(r) {
		return m.bad("no error")
	}
	got := map[string]bool{}
	for _, x := range r.Arr {
		if got[x.S] || x.K != '$' {
			return m.bad("no key twice: " + q(x.S))
		}
		got[x.S] = true
	}
	ks := make([]string, 0, len(m.dbs[db]))
	for k := range m.dbs[db] {
		if re == nil || re.MatchString(k) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		v := m.dbs[db][k]
		switch m.alive(v) {
		case 1:
			if !got[k] {
				return m.bad("key " + q(k) + " in it")
			}
		case 0:
			if got[k] {
				return m.bad("no expired key " + q(k))
			}
			m.del(db, k)
		default:
			if got[k] {
				m.sawAlive(db, k, v)
			} else {
				m.del(db, k)
			}
		}
		delete(got, k)
	}
	for k := range got {
		return m.bad("no key " + q(k))
	}
	return true
}

func (m *Model) randomget(db int, r *Reply) bool {
	if r == nil {
		return true
	}
	if r.Null {
		for k, v := range m.dbs[db] {
			if m.alive(v) == 1 {
				return m.bad("a key, such as " + q(k))
			}
		}
		ks := make([]string, 0)
		for k := range m.dbs[db] {
			ks = append(ks, k)
		}
		for _, k := range ks {
			m.del(db, k)
		}
		return true
	}
	v := m.dbs[db][r.S]
	if r.K != '$' || v == nil || m.alive(v) == 0 {
		return m.bad("an existing key")
	}
	if m.alive(v) == 2 {
		m.sawAlive(db, r.S, v)
	}
	return true
}

func (m *Model) setop(db int, name string, a []string, r *Reply) bool {
	res := map[string]bool{}
	missing, bad, badAfterMissing := false, false, false
	for i, k := range a[1:] {
		v := m.get(db, k)
		if wrong(v, 'e') {
			if missing {
				badAfterMissing = true
			} else {
				bad = true
			}
			continue
		}
		if v == nil {
			// an absent key may end the evaluation of SINTER, and of SDIFF when it comes first
			if name == "sinter" || (name == "sdiff" && i == 0) {
				missing = true
			}
		}
		in := func(s string) bool { return v != nil && v.set[s] }
		switch {
		case i == 0 || name == "sunion":
			if v != nil {
				for s := range v.set {
					res[s] = true
				}
			}
		case name == "sinter":
			for s := range res {
				if !in(s) {
					delete(res, s)
				}
			}
		default:
			for s := range res {
				if in(s) {
					delete(res, s)
				}
			}
		}
	}
	if bad {
		return m.wantErr(r)
	}
	if missing {
		res = nil
	}
	if badAfterMissing && isErr(r) {
		return true
	}
	return m.wantSet(r, func(s string) bool { return res[s] }, len(res))
}

var cmds = map[string]int{
	"ping": 1, "select": 2, "auth": 2, "bgrewriteaof": 1, "expire": 3, "expireat": 3, "ttl": 2, "keys": 2, "del": -2,
	"set": -3, "setex": 4, "get": 2, "randomget": 1, "hset": -4, "hget": 3, "hdel": -3, "hexists": 3, "hkeys": 2, "hlen": 2,
	"lpush": -3, "rpush": -3, "lpop": 2, "rpop": 2, "llen": 2, "lindex": 3, "lrange": -4,
	"sadd": -3, "srem": -3, "spop": 2, "scard": 2, "sismember": 3, "smembers": 2, "sdiff": -3, "sinter": -3, "sunion": -3,
	"zadd": -4, "zrange": -4, "zrangebyscore": -4, "zrem": -3, "zremrangebyrank": -4, "zremrangebyscore": -4,
	"zcard": 2, "zcount": 4, "zscore": 3,
}

var writeCmds = map[string]bool{"set": true, "del": true, "setex": true, "expire": true, "expireat": true, "hset": true, "hdel": true,
	"lpush": true, "rpush": true, "lpop": true, "rpop": true, "sadd": true, "srem": true, "spop": true, "zadd": true,
	"zrem": true, "zremrangebyrank": true, "zremrangebyscore": true}
