package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	"verifsim/simrt"
)

// BStr is a byte string that survives JSON: every byte is one Latin-1 rune.
type BStr string

func (b BStr) MarshalJSON() ([]byte, error) {
	r := make([]rune, len(b))
	for i := 0; i < len(b); i++ {
		r[i] = rune(b[i])
	}
	return json.Marshal(string(r))
}

func (b *BStr) UnmarshalJSON(d []byte) error {
	var s string
	if err := json.Unmarshal(d, &s); err != nil {
		return err
	}
	o := make([]byte, 0, len(s))
	for _, r := range s {
		if r > 255 {
			return fmt.Errorf("rune out of range")
		}
		o = append(o, byte(r))
	}
	*b = BStr(o)
	return nil
}

// Op is one step of a client script: a command, raw bytes, or an action.
type Op struct {
	A    []BStr `json:"a,omitempty"`     // command and arguments
	Raw  BStr   `json:"raw,omitempty"`   // bytes sent as they are
	Do   string `json:"do,omitempty"`    // close | reset | abort | stall | resume | sync (wait for all replies) | reconnect
	Us   int64  `json:"us,omitempty"`    // think time before the step
	AtUs int64  `json:"at_us,omitempty"` // or: the moment of the wall clock, counted from its base
	Ign  bool   `json:"ign,omitempty"`   // the reply is not checked against the model
	Inl  bool   `json:"inl,omitempty"`   // send as an inline request
	Blk  bool   `json:"blk,omitempty"`   // send as a single bulk string
}

// Client is one scripted client.
type Client struct {
	StartUs int64 `json:"start_us,omitempty"`
	Window  int   `json:"window,omitempty"`  // outstanding commands; 0 = unlimited
	Join    bool  `json:"join,omitempty"`    // commands ready at the same time go out in one piece
	Hostile bool  `json:"hostile,omitempty"` // anything may happen to this client; its replies are not examined
	IP      int   `json:"ip,omitempty"`      // index of the local address it connects to
	Auth    BStr  `json:"auth,omitempty"`
	Ops     []Op  `json:"ops"`
}

// Epoch is one life of the server process.
type Epoch struct {
	Clients []Client       `json:"clients,omitempty"`
	Faults  []*simrt.Fault `json:"faults,omitempty"`
	End     string         `json:"end"`               // how it ends when nothing ends it earlier: kill | power | stop
	IdleMs  int64          `json:"idle_ms,omitempty"` // idle time after the clients are done
	DownMs  int64          `json:"down_ms,omitempty"` // time until the next start
	CutPm   int            `json:"cut_pm,omitempty"`  // afterwards cut the log to this many permille (1..1000)
	JumpMs  int64          `json:"jump_ms,omitempty"` // wall clock jump while down
	StopUs  int64          `json:"stop_us,omitempty"` // the server is asked to stop so long after its start, which may be before it is ready
	Outage  bool           `json:"outage,omitempty"`  // the power fails after an orderly stop
	Edits   []Edit         `json:"edits,omitempty"`   // of the configuration file while the server runs
	NoDump  bool           `json:"no_dump,omitempty"`
	DumpEnd bool           `json:"dump_end,omitempty"` // read everything back when the clients are done
	NoiseMs int64          `json:"noise_ms,omitempty"` // probabilistic faults stop after this time (0: never)
	DiskCap int64          `json:"disk_cap,omitempty"`
	Cfg     *Cfg           `json:"cfg,omitempty"` // the configuration from this life on differs
}

// Edit replaces the content of the configuration file.
type Edit struct {
	AtMs int64 `json:"at_ms"`
	Text BStr  `json:"text"`
}

type Cfg struct {
	DBs    int    `json:"dbs"`
	AOF    bool   `json:"aof"`
	Fsync  string `json:"fsync"`
	Name   string `json:"name"`
	Pct    uint   `json:"pct,omitempty"`
	Min    uint   `json:"min,omitempty"`
	Pass   BStr   `json:"pass,omitempty"`
	Bind   string `json:"bind,omitempty"`
	Port   uint16 `json:"port,omitempty"`
	Format string `json:"format,omitempty"`   // of the configuration file: toml (default), yaml, json
	MinStr string `json:"min_str,omitempty"`  // how the minimum size is written
	Level  string `json:"loglevel,omitempty"` // loglevel
	Order  uint64 `json:"order,omitempty"`    // of the lines
	Log    string `json:"log,omitempty"`      // logfile ("": ./logs/redis.log, "-": none)
}

func (c *Cfg) dbs() int {
	if c.DBs <= 0 {
		return 16
	}
	return c.DBs
}

func jstr(s string) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	if err := e.Encode(s); err != nil {
		panic(err)
	}
	return strings.TrimSpace(b.String())
}

func (c *Cfg) logFile() string {
	switch c.Log {
	case "":
		return "./logs/redis.log"
	case "-":
		return ""
	}
	return c.Log
}

// file gives the configuration file of a server.
func (c *Cfg) file() (path, text string) {
	bind, port := c.Bind, c.Port
	if bind == "" {
		bind = "127.0.0.1"
	}
	if port == 0 {
		port = 6379
	}
	min := c.MinStr
	if min == "" {
		min = strconv.FormatUint(uint64(c.Min), 10)
	} else {
		min = jstr(min)
	}
	kv := [][2]string{{"bind", jstr(bind)}, {"port", strconv.Itoa(int(port))}, {"databases", strconv.Itoa(c.DBs)}, {"appendonly", strconv.FormatBool(c.AOF)},
		{"appendfilename", jstr(c.Name)}, {"appendfsync", jstr(c.Fsync)}, {"auto-aof-rewrite-percentage", strconv.FormatUint(uint64(c.Pct), 10)},
		{"auto-aof-rewrite-min-size", min}}
	if f := c.logFile(); f != "" {
		kv = append(kv, [2]string{"logfile", jstr(f)})
	}
	if c.Pass != "" {
		kv = append(kv, [2]string{"requirepass", jstr(string(c.Pass))})
	}
	if c.Level != "" {
		kv = append(kv, [2]string{"loglevel", jstr(c.Level)})
	}
	if c.Order != 0 {
		r := simrt.NewRNG(c.Order, "lines")
		for i := len(kv) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			kv[i], kv[j] = kv[j], kv[i]
		}
	}
	var b strings.Builder
	switch c.Format {
	case "", "toml":
		for _, x := range kv {
			b.WriteString(x[0] + " = " + x[1] + "\n")
		}
		return "/etc/metis/config.toml", b.String()
	case "yaml":
		for _, x := range kv {
			b.WriteString(x[0] + ": " + x[1] + "\n")
		}
		return "/etc/metis/metis.yaml", b.String()
	default:
		for i, x := range kv {
			b.WriteString([]string{"{", ","}[min1(i)] + jstr(x[0]) + ":" + x[1])
		}
		return "/etc/metis/metis.conf.json", b.String() + "}"
	}
}

func min1(i int) int {
	if i > 1 {
		return 1
	}
	return i
}

type Scenario struct {
	Prop   string      `json:"prop"`
	Kind   string      `json:"kind"` // server | ae
	Seed   uint64      `json:"seed"`
	Cfg    Cfg         `json:"cfg"`
	K      simrt.Knobs `json:"knobs"`
	Epochs []*Epoch    `json:"epochs,omitempty"`
	Final  string      `json:"final,omitempty"` // "": restart and dump at the end; "none": no final epoch
	DumpDB []int       `json:"dump_dbs,omitempty"`
	Keys   []BStr      `json:"keys,omitempty"` // dump only these keys (hostile profiles)
	AE     []AEOp      `json:"ae,omitempty"`
	AEEnd  int64       `json:"ae_end_us,omitempty"`
	Checks []string    `json:"checks,omitempty"` // extra checks
	Case   string      `json:"case,omitempty"`   // how clients write command names: "" lower case | "up" | "mix"
	Note   string      `json:"note,omitempty"`
}

func (s *Scenario) clone() *Scenario {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	o := &Scenario{}
	if err := json.Unmarshal(b, o); err != nil {
		panic(err)
	}
	return o
}

func (s *Scenario) has(c string) bool {
	for _, x := range s.Checks {
		if x == c {
			return true
		}
	}
	return false
}

// recase returns the command as it is sent: names of commands are not case sensitive.
func (s *Scenario) recase(a []string, n int) []string {
	if s.Case == "" || len(a) == 0 {
		return a
	}
	up := strings.ToUpper(a[0])
	if len(up) != len(a[0]) || strings.ToLower(up) != a[0] {
		return a
	}
	if s.Case == "mix" {
		b := []byte(a[0])
		for i := range b {
			if (n+i*i)%3 != 0 {
				b[i] = up[i]
			}
		}
		up = string(b)
		if n%5 == 0 {
			up = a[0]
		}
	}
	return append([]string{up}, a[1:]...)
}

func encode(a []string) string {
	var sb strings.Builder
	sb.WriteString("*" + strconv.Itoa(len(a)) + "\r\n")
	for _, x := range a {
		sb.WriteString("$" + strconv.Itoa(len(x)) + "\r\n")
		sb.WriteString(x)
		sb.WriteString("\r\n")
	}
	return sb.String()
}

func strs(a []BStr) []string {
	o := make([]string, len(a))
	for i, x := range a {
		o[i] = string(x)
	}
	return o
}

func bstrs(a ...string) []BStr {
	o := make([]BStr, len(a))
	for i, x := range a {
		o[i] = BStr(x)
	}
	return o
}

// ---- replies

type Reply struct {
	K    byte // + - : $ *
	S    string
	N    int64
	Arr  []Reply
	Null bool
}

func (r *Reply) String() string {
	if r == nil {
		return "(no reply)"
	}
	switch r.K {
	case '+', '-':
		return string(r.K) + q(r.S)
	case ':':
		return fmt.Sprintf(":%d", r.N)
	case '$':
		if r.Null {
			return "(nil)"
		}
		return "$" + q(r.S)
	case '*':
		if r.Null {
			return "(nil array)"
		}
		var p []string
		for i := range r.Arr {
			if i >= 12 {
				p = append(p, fmt.Sprintf("...%d more", len(r.Arr)-i))
				break
			}
			p = append(p, r.Arr[i].String())
		}
		return "[" + strings.Join(p, " ") + "]"
	}
	return "?"
}

func q(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%q...(%d bytes)", s[:60], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// replyScan finds out, without starting over, whether a growing buffer holds a whole reply
// (or something parseReply has to judge).
type replyScan struct {
	pos  int     // everything before has been understood
	nl   int     // no line end before this offset
	left []int64 // elements still missing of each open array
}

func (s *replyScan) complete(b []byte) bool {
	for {
		if s.pos >= len(b) {
			return false
		}
		k := s.nl
		if k < s.pos {
			k = s.pos
		}
		for k+1 < len(b) && !(b[k] == '\r' && b[k+1] == '\n') {
			k++
		}
		s.nl = k
		c := b[s.pos]
		if c != '+' && c != '-' && c != ':' && c != '$' && c != '*' {
			return true
		}
		if k+1 >= len(b) {
			return (c == ':' || c == '$' || c == '*') && len(b)-s.pos > 32
		}
		n := k + 2
		switch c {
		case '$':
			num, e := strconv.ParseInt(string(b[s.pos+1:k]), 10, 64)
			if e != nil || num > 1<<30 {
				return true
			}
			if num >= 0 {
				if len(b) < n+int(num)+2 {
					return false
				}
				n += int(num) + 2
			}
		case '*':
			num, e := strconv.ParseInt(string(b[s.pos+1:k]), 10, 64)
			if e != nil || num > 1<<24 {
				return true
			}
			if num > 0 {
				s.pos = n
				s.left = append(s.left, num)
				continue
			}
		}
		s.pos = n
		for len(s.left) > 0 {
			s.left[len(s.left)-1]--
			if s.left[len(s.left)-1] > 0 {
				break
			}
			s.left = s.left[:len(s.left)-1]
		}
		if len(s.left) == 0 {
			return true
		}
	}
}

// parseReply reads one reply strictly. n = 0: incomplete.
func parseReply(b []byte) (r Reply, n int, err error) {
	if len(b) == 0 {
		return r, 0, nil
	}
	i := -1
	for j := 0; j+1 < len(b); j++ {
		if b[j] == '\r' && b[j+1] == '\n' {
			i = j
			break
		}
	}
	switch b[0] {
	case '+', '-', ':', '$', '*':
	default:
		return r, 0, fmt.Errorf("reply starts with %q", clip(b))
	}
	if i < 0 {
		if (b[0] == ':' || b[0] == '$' || b[0] == '*') && len(b) > 32 {
			return r, 0, fmt.Errorf("endless header %q", clip(b))
		}
		return r, 0, nil
	}
	line := string(b[1:i])
	r.K = b[0]
	n = i + 2
	switch r.K {
	case '+', '-':
		r.S = line
		return r, n, nil
	}
	num, e := strconv.ParseInt(line, 10, 64)
	if e != nil {
		return r, 0, fmt.Errorf("bad number in %q", clip(b[:i]))
	}
	r.N = num
	switch r.K {
	case ':':
		return r, n, nil
	case '$':
		if num == -1 {
			r.Null = true
			return r, n, nil
		}
		if num < 0 || num > 1<<30 {
			return r, 0, fmt.Errorf("bad bulk length %d", num)
		}
		if len(b) < n+int(num)+2 {
			return r, 0, nil
		}
		r.S = string(b[n : n+int(num)])
		if b[n+int(num)] != '\r' || b[n+int(num)+1] != '\n' {
			return r, 0, fmt.Errorf("bulk %q not terminated", clip(b))
		}
		return r, n + int(num) + 2, nil
	case '*':
		if num == -1 {
			r.Null = true
			return r, n, nil
		}
		if num < 0 || num > 1<<24 {
			return r, 0, fmt.Errorf("bad array length %d", num)
		}
		for k := int64(0); k < num; k++ {
			x, m, e := parseReply(b[n:])
			if e != nil {
				return r, 0, e
			}
			if m == 0 {
				return r, 0, nil
			}
			r.Arr = append(r.Arr, x)
			n += m
		}
		return r, n, nil
	}
	return r, 0, nil
}

func clip(b []byte) []byte {
	if len(b) > 40 {
		return b[:40]
	}
	return b
}
