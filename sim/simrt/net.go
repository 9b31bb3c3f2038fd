package simrt

import (
	"fmt"
	"syscall"
)

// Net is the simulated TCP network between the server process and the client actors.
type Net struct {
	w         *World
	listeners []*Listener
	Listens   []LAddr // every address ever listened on
	Conns     []*Conn
	LocalIPs  [][4]byte
	Partition bool          // nothing is delivered in either direction while set
	linger    map[int]int64 // ports with connections which the server closed first, and until when
}

// LAddr is an address listened on.
type LAddr struct {
	IP   [4]byte
	Port int
}

func newNet(w *World) *Net {
	return &Net{w: w, LocalIPs: [][4]byte{{127, 0, 0, 1}, {10, 0, 0, 5}, {192, 168, 7, 9}}}
}

type Listener struct {
	ip       [4]byte
	port     int
	max      int
	backlog  []*Conn
	activity uint64
	closed   bool
}

// Mark records at which point the server had read/written up to byte offset Off.
type Mark struct {
	Off int64
	T   int64
	Seq uint64
	Log int64 // size of the log at that moment
}

// Conn is one TCP connection between a client actor and the server.
type Conn struct {
	ID  int
	w   *World
	rng *RNG

	// client -> server
	inflight []func() // segments on their way
	lastArr  int64    // arrival time of the last segment
	rx       []byte
	rxFin    bool
	rst      bool // the client reset the connection
	soErr    syscall.Errno
	rstSeen  bool
	queuedIn int64 // bytes sent by the client
	rxTotal  int64 // bytes the server has read

	// server -> client
	tx       []byte
	txTotal  int64 // bytes the server has written
	sndCap   int
	draining bool
	reading  bool // client is willing to read
	srvShut  bool // server closed; deliver tx then FIN
	srvGone  bool // connection is over for the server
	cliGone  bool // connection is over for the client
	accepted bool

	activity uint64
	Reads    []Mark
	Writes   []Mark
	Out      []byte // everything the server has written, whether or not it reached the client
	FD       int
	port     int

	OnConnect func()
	OnData    func([]byte)
	OnClose   func(kind string) // fin | rst | refused
}

func (n *Net) closeListener(l *Listener) {
	if l.closed {
		return
	}
	l.closed = true
	for i, x := range n.listeners {
		if x == l {
			n.listeners = append(n.listeners[:i:i], n.listeners[i+1:]...)
			break
		}
	}
	for _, c := range l.backlog {
		c.serverReset()
	}
	l.backlog = nil
}

func (w *World) netLat(r *RNG) int64 { return r.Range(w.K.NetLatNs/10, w.K.NetLatNs) + 1000 }

func match(l *Listener, ip [4]byte, port int) bool {
	return l.port == port && (l.ip == [4]byte{} || l.ip == ip)
}

// Dial starts a connection attempt by a client actor. The callbacks run as environment events.
func (n *Net) Dial(ip [4]byte, port int, onConnect func(), onData func([]byte), onClose func(string)) *Conn {
	w := n.w
	c := &Conn{ID: len(n.Conns) + 1, w: w, reading: true, OnConnect: onConnect, OnData: onData, OnClose: onClose, FD: -1, port: port}
	c.rng = NewRNG(w.Seed, fmt.Sprintf("conn%d", c.ID))
	c.sndCap = w.K.SndBuf
	if c.sndCap <= 0 {
		c.sndCap = 1 << 16
	}
	n.Conns = append(n.Conns, c)
	w.After(w.netLat(c.rng), func() {
		for _, l := range n.listeners {
			if match(l, ip, port) && len(l.backlog) < l.max {
				l.backlog = append(l.backlog, c)
				l.activity++
				w.Log("syn", int64(c.ID), 0, "")
				w.After(w.netLat(c.rng), func() {
					if !c.cliGone && c.OnConnect != nil {
						c.OnConnect()
					}
				})
				return
			}
		}
		c.srvGone = true
		w.After(w.netLat(c.rng), func() { c.clientEnd("refused") })
	})
	return c
}

func (c *Conn) clientEnd(kind string) {
	if c.cliGone {
		return
	}
	c.cliGone = true
	c.w.Log("client-end", int64(c.ID), 0, kind)
	if c.OnClose != nil {
		c.OnClose(kind)
	}
}

// Sent is the total number of bytes the client has sent.
func (c *Conn) Sent() int64 { return c.queuedIn }

// Closed reports whether the connection is over for the client.
func (c *Conn) Closed() bool { return c.cliGone }

// ServerHolds reports whether the server process still has the descriptor open.
func (c *Conn) ServerHolds() bool { return c.accepted && !c.srvGone }

// Send queues bytes from the client; cuts gives explicit segment ends (may be nil).
func (c *Conn) Send(b []byte) {
	if c.cliGone {
		return
	}
	w := c.w
	c.queuedIn += int64(len(b))
	b = append([]byte(nil), b...)
	for len(b) > 0 {
		n := len(b)
		if w.K.FragP > 0 && !w.NoiseOff && c.rng.Chance(w.K.FragP) {
			m := w.K.FragMax
			if m < 1 {
				m = 1
			}
			if k := 1 + c.rng.Intn(m); k < n {
				n = k
				w.Count("net.segment_cut")
			}
		}
		seg := b[:n:n]
		b = b[n:]
		c.deliver(func() {
			c.rx = append(c.rx, seg...)
			c.activity++
			w.Log("rx", int64(c.ID), int64(len(seg)), "")
		})
	}
}

func (c *Conn) deliver(fn func()) {
	w := c.w
	at := w.Now + w.netLat(c.rng)
	if at <= c.lastArr {
		at = c.lastArr
		if c.rng.Chance(0.5) {
			at += c.rng.Range(0, w.K.NetLatNs/4)
		}
	}
	c.lastArr = at
	c.inflight = append(c.inflight, fn)
	var try func()
	try = func() {
		if w.Net.Partition {
			w.After(1e6, try)
			return
		}
		fn := c.inflight[0] // what was held back by a partition arrives in order too
		c.inflight = c.inflight[1:]
		if !c.srvGone || !c.accepted {
			fn()
		}
	}
	w.After(at-w.Now, try)
}

// Close is an orderly close by the client (FIN; later server writes are answered with RST).
func (c *Conn) Close() {
	if c.cliGone {
		return
	}
	c.cliGone = true
	c.w.Log("client-close", int64(c.ID), 0, "")
	c.deliver(func() { c.rxFin = true; c.activity++; c.tx = nil })
}

// Reset aborts the connection from the client side.
func (c *Conn) Reset() {
	if c.cliGone {
		return
	}
	c.cliGone = true
	c.w.Count("fault.conn_reset")
	c.w.Log("client-reset", int64(c.ID), 0, "")
	c.deliver(func() {
		c.rst = true
		c.soErr = syscall.ECONNRESET
		c.rx = nil
		c.tx = nil
		c.activity++
	})
}

// Abort is like Reset but the server sees the given error on its next operation (e.g. ETIMEDOUT).
func (c *Conn) Abort(e syscall.Errno) {
	if c.cliGone {
		return
	}
	c.cliGone = true
	c.w.Count("fault.conn_abort")
	c.deliver(func() {
		c.rst = true
		c.soErr = e
		c.rx = nil
		c.tx = nil
		c.activity++
	})
}

// SetReading makes the client stop or resume reading.
func (c *Conn) SetReading(v bool) {
	c.reading = v
	if v {
		c.scheduleDrain()
	} else {
		c.w.Count("fault.reader_stall")
	}
}

func (c *Conn) scheduleDrain() {
	if c.draining || !c.reading || c.cliGone || (len(c.tx) == 0 && !c.srvShut) {
		return
	}
	c.draining = true
	w := c.w
	w.After(w.netLat(c.rng), func() {
		c.draining = false
		if c.cliGone || !c.reading {
			return
		}
		if w.Net.Partition {
			c.draining = true
			w.After(1e6, func() { c.draining = false; c.scheduleDrain() })
			return
		}
		if len(c.tx) > 0 {
			n := len(c.tx)
			if w.K.DrainMax > 0 && n > w.K.DrainMax && !w.NoiseOff {
				n = 1 + c.rng.Intn(w.K.DrainMax)
			}
			b := c.tx[:n]
			c.tx = c.tx[n:]
			c.activity++
			if c.OnData != nil {
				c.OnData(b)
			}
		} else if c.srvShut {
			c.clientEnd("fin")
			return
		}
		c.scheduleDrain()
	})
}

// ---- server side

func (c *Conn) pollMask() uint32 {
	var m uint32
	if len(c.rx) > 0 || c.rxFin || c.rst {
		m |= syscall.EPOLLIN
	}
	if c.rst {
		m |= syscall.EPOLLOUT | syscall.EPOLLHUP
		if c.soErr != 0 {
			m |= syscall.EPOLLERR
		}
	} else {
		free := c.sndCap - len(c.tx)
		if free*3 >= c.sndCap && free > 0 {
			m |= syscall.EPOLLOUT
		}
	}
	if c.rxFin {
		m |= syscall.EPOLLRDHUP
	}
	return m
}

func (c *Conn) serverClose() {
	if c.srvGone {
		return
	}
	c.srvGone = true
	if len(c.rx) > 0 {
		c.serverResetClient()
		return
	}
	c.srvShut = true
	c.linger()
	c.scheduleDrain()
}

// linger: a connection which the server closes first stays behind (FIN-WAIT-2, TIME-WAIT).
func (c *Conn) linger() {
	if c.rxFin || c.rst || c.cliGone {
		return
	}
	n := c.w.Net
	if n.linger == nil {
		n.linger = map[int]int64{}
	}
	n.linger[c.port] = c.w.Now + 60e9
}

func (c *Conn) serverReset() {
	c.srvGone = true
	c.serverResetClient()
}

func (c *Conn) serverResetClient() {
	w := c.w
	c.tx = nil
	w.After(w.netLat(c.rng), func() { c.clientEnd("rst") })
}

func (c *Conn) serverDied(power bool) {
	if c.srvGone {
		return
	}
	c.srvGone = true
	if power {
		c.tx = nil
		c.w.Net.linger = nil
		c.w.After(c.w.netLat(c.rng), func() { c.clientEnd("rst") })
		return
	}
	if len(c.rx) > 0 && !c.w.K.FlushTx {
		c.serverResetClient()
		return
	}
	c.srvShut = true
	c.linger()
	c.scheduleDrain()
}

func (p *Proc) sockOf(w *World, fd int, what string) (*FDesc, *Sock, syscall.Errno) {
	d := p.get(fd)
	if d == nil {
		p.stray(w, what, fd)
		return nil, nil, syscall.EBADF
	}
	if d.sock == nil {
		return d, nil, syscall.ENOTSOCK
	}
	return d, d.sock, 0
}

func SysSocket(domain, typ, proto int) (int, error) {
	w := W
	x := w.op(OpSock, "socket")
	if x.dead {
		return -1, syscall.EBADF
	}
	if x.Err != 0 {
		return -1, x.Err
	}
	fd, e := w.cur.Proc.alloc(w, &FDesc{sock: &Sock{}, nonblock: typ&syscall.SOCK_NONBLOCK != 0})
	if e != 0 {
		return -1, e
	}
	return fd, nil
}

func SysSetReuse(fd int) error {
	w := W
	x := w.op(OpSock, "setsockopt")
	if x.dead {
		return syscall.EBADF
	}
	d := w.cur.Proc.get(fd)
	if d == nil {
		return syscall.EBADF
	}
	if d.sock != nil {
		d.sock.reuse = true
	}
	return nil
}

func SysBind(fd int, ip [4]byte, port int) error {
	w := W
	x := w.op(OpSock, "bind")
	if x.dead {
		return syscall.EBADF
	}
	_, s, e := w.cur.Proc.sockOf(w, fd, "bind")
	if e != 0 {
		return e
	}
	if x.Err != 0 {
		return x.Err
	}
	local := ip == [4]byte{}
	for _, l := range w.Net.LocalIPs {
		if l == ip {
			local = true
		}
	}
	if ip[0] == 127 {
		local = true
	}
	if !local {
		return syscall.EADDRNOTAVAIL
	}
	if port == 0 {
		port = 40000 + int(w.rngIO.Intn(1000))
	}
	for _, l := range w.Net.listeners {
		if l.port == port && (l.ip == ip || l.ip == [4]byte{} || ip == [4]byte{}) {
			return syscall.EADDRINUSE
		}
	}
	if !s.reuse && w.Net.linger[port] > w.Now {
		w.Count("sys.addr_in_use")
		return syscall.EADDRINUSE
	}
	if w.Net.linger[port] > w.Now {
		w.Count("probe.bind_while_lingering")
	}
	s.bound, s.ip, s.port = true, ip, port
	return nil
}

func SysListen(fd, backlog int) error {
	w := W
	x := w.op(OpSock, "listen")
	if x.dead {
		return syscall.EBADF
	}
	d, s, e := w.cur.Proc.sockOf(w, fd, "listen")
	if e != 0 {
		return e
	}
	if x.Err != 0 {
		return x.Err
	}
	if !s.bound {
		s.port = 40000 + int(w.rngIO.Intn(1000))
	}
	if backlog < 1 {
		backlog = 1
	}
	d.ln = &Listener{ip: s.ip, port: s.port, max: backlog}
	w.Net.listeners = append(w.Net.listeners, d.ln)
	w.Net.Listens = append(w.Net.Listens, LAddr{s.ip, s.port})
	w.Log("listen", int64(s.port), 0, fmt.Sprint(s.ip))
	return nil
}

// ListenerAddr gives the address a descriptor is bound to.
func ListenerAddr(fd int) (ip [4]byte, port int, ok bool) {
	w := W
	d := w.cur.Proc.get(fd)
	if d == nil {
		return
	}
	if d.ln != nil {
		return d.ln.ip, d.ln.port, true
	}
	if d.sock != nil {
		return d.sock.ip, d.sock.port, true
	}
	return
}

func SysAccept(fd int, flags int) (int, error) {
	w := W
	x := w.op(OpAccept, "")
	if x.dead {
		return -1, syscall.EBADF
	}
	p := w.cur.Proc
	d := p.get(fd)
	if d == nil {
		p.stray(w, "accept", fd)
		return -1, syscall.EBADF
	}
	if d.ln == nil {
		return -1, syscall.EINVAL
	}
	if x.Err != 0 {
		if x.Err == syscall.ECONNABORTED && len(d.ln.backlog) > 0 {
			c := d.ln.backlog[0]
			d.ln.backlog = d.ln.backlog[1:]
			c.serverReset()
		}
		return -1, x.Err
	}
	if len(d.ln.backlog) == 0 {
		if d.nonblock {
			return -1, syscall.EAGAIN
		}
		w.Count("sys.block.accept")
		ln := d.ln
		w.block(func() bool { return len(ln.backlog) > 0 || ln.closed }, never)
		if ln.closed {
			return -1, syscall.EINVAL
		}
	}
	c := d.ln.backlog[0]
	nfd, e := p.alloc(w, &FDesc{sock: &Sock{conn: c, bound: true, ip: d.ln.ip, port: d.ln.port}, nonblock: flags&syscall.SOCK_NONBLOCK != 0})
	if e != 0 {
		w.Count("fault.emfile")
		return -1, e
	}
	d.ln.backlog = d.ln.backlog[1:]
	c.accepted = true
	c.FD = nfd
	w.Log("accepted", int64(c.ID), int64(nfd), "")
	x.end()
	return nfd, nil
}

func SysSetNonblock(fd int, nb bool) error {
	w := W
	x := w.op(OpSock, "nonblock")
	if x.dead {
		return syscall.EBADF
	}
	d := w.cur.Proc.get(fd)
	if d == nil {
		w.cur.Proc.stray(w, "setnonblock", fd)
		return syscall.EBADF
	}
	if x.Err != 0 {
		return x.Err
	}
	d.nonblock = nb
	return nil
}

func SysClose(fd int) error {
	w := W
	x := w.op(OpClose, "")
	if x.dead {
		return syscall.EBADF
	}
	p := w.cur.Proc
	w.Log("close-fd", int64(fd), 0, "")
	if d := p.get(fd); d != nil && d.file != nil && fd >= 3 {
		// a raw close of a descriptor that belongs to an open file: its data stays, later use fails
		w.Count("sys.raw_close_of_file")
		p.Strays = append(p.Strays, "raw close of a file descriptor")
	}
	if e := p.release(w, fd); e != 0 {
		p.stray(w, "close", fd)
		return e
	}
	x.end()
	return nil
}

func SysRead(fd int, b []byte) (int, error) {
	w := W
	x := w.op(OpRead, "")
	if x.dead {
		return -1, syscall.EBADF
	}
	p := w.cur.Proc
	d := p.get(fd)
	if d == nil {
		p.stray(w, "read", fd)
		return -1, syscall.EBADF
	}
	if d.file != nil {
		return w.fileRead(d.file, b, &x)
	}
	if d.sock == nil || d.sock.conn == nil {
		return -1, syscall.ENOTCONN
	}
	c := d.sock.conn
	if x.Err != 0 && x.Err != syscall.ECONNRESET && x.Err != syscall.ETIMEDOUT {
		return -1, x.Err
	}
	if w.noise(w.K.Eintr) {
		w.Count("fault.eintr.read")
		return -1, syscall.EINTR
	}
	if d.nonblock && w.noise(w.K.Eagain) {
		w.Count("fault.eagain.read")
		return -1, syscall.EAGAIN
	}
	if len(c.rx) == 0 && !c.rxFin && !c.rst && len(b) > 0 {
		if d.nonblock {
			return -1, syscall.EAGAIN
		}
		w.Count("sys.block.read")
		w.block(func() bool { return len(c.rx) > 0 || c.rxFin || c.rst || p.get(fd) != d }, never)
	}
	if c.rst {
		if c.soErr != 0 {
			e := c.soErr
			c.soErr = 0
			return -1, e
		}
		return 0, nil
	}
	if len(c.rx) == 0 {
		return 0, nil // FIN (or empty buffer)
	}
	n := len(c.rx)
	if n > len(b) {
		n = len(b)
	}
	if x.Short > 0 && int(x.Short) < n {
		n = int(x.Short)
	} else if n > 1 && w.noise(w.K.ShortRead) {
		n = 1 + w.rngIO.Intn(n)
		w.Count("net.short_read")
	}
	copy(b, c.rx[:n])
	c.rx = c.rx[n:]
	c.rxTotal += int64(n)
	w.Seq++
	c.Reads = append(c.Reads, Mark{c.rxTotal, w.Now, w.Seq, 0})
	w.Log("sock-read", int64(c.ID), int64(n), "")
	x.end()
	return n, nil
}

func SysWrite(fd int, b []byte) (int, error) {
	w := W
	x := w.op(OpWrite, "")
	if x.dead {
		return -1, syscall.EBADF
	}
	p := w.cur.Proc
	d := p.get(fd)
	if d == nil {
		p.stray(w, "write", fd)
		return -1, syscall.EBADF
	}
	if d.file != nil {
		w.Count("sys.raw_write_to_file")
		p.Strays = append(p.Strays, "raw write to a file descriptor")
		return w.fileWrite(d.file, b, &x)
	}
	if d.sock == nil || d.sock.conn == nil {
		return -1, syscall.ENOTCONN
	}
	c := d.sock.conn
	if x.Err != 0 && x.Err != syscall.ECONNRESET && x.Err != syscall.EPIPE {
		return -1, x.Err
	}
	if w.noise(w.K.Eintr) {
		w.Count("fault.eintr.write")
		return -1, syscall.EINTR
	}
	if d.nonblock && w.noise(w.K.Eagain) {
		w.Count("fault.eagain.write")
		return -1, syscall.EAGAIN
	}
	if c.rst {
		if c.soErr != 0 {
			e := c.soErr
			c.soErr = 0
			return -1, e
		}
		return -1, syscall.EPIPE
	}
	if len(b) == 0 {
		return 0, nil
	}
	if c.cliGone { // the peer has closed: data is discarded, a reset comes back
		c.txTotal += int64(len(b))
		w.Seq++
		c.Out = append(c.Out, b...)
		c.Writes = append(c.Writes, Mark{c.txTotal, w.Now, w.Seq, w.FS.logSize()})
		w.After(w.netLat(c.rng), func() {
			if !c.srvGone {
				c.rst = true
				c.soErr = syscall.EPIPE
				c.activity++
			}
		})
		return len(b), nil
	}
	free := c.sndCap - len(c.tx)
	if free <= 0 {
		if d.nonblock {
			w.Count("net.sndbuf_full")
			return -1, syscall.EAGAIN
		}
		w.Count("sys.block.write")
		w.block(func() bool { return c.sndCap-len(c.tx) > 0 || c.rst || c.cliGone || p.get(fd) != d }, never)
		if c.rst || c.cliGone {
			return -1, syscall.EPIPE
		}
		free = c.sndCap - len(c.tx)
	}
	n := len(b)
	if n > free {
		n = free
		w.Count("net.partial_write")
	}
	if x.Short > 0 && int(x.Short) < n {
		n = int(x.Short)
	} else if n > 1 && d.nonblock && w.noise(w.K.ShortWrite) {
		n = 1 + w.rngIO.Intn(n)
		w.Count("net.short_write")
	}
	put := func(b []byte) {
		n := len(b)
		c.tx = append(c.tx, b...)
		c.txTotal += int64(n)
		w.Seq++
		c.Out = append(c.Out, b...)
		c.Writes = append(c.Writes, Mark{c.txTotal, w.Now, w.Seq, w.FS.logSize()})
		w.Log("sock-write", int64(c.ID), int64(n), "")
		c.scheduleDrain()
	}
	put(b[:n])
	for !d.nonblock && n < len(b) { // a blocking descriptor takes it all
		if c.sndCap-len(c.tx) <= 0 {
			w.Count("sys.block.write")
			w.block(func() bool { return c.sndCap-len(c.tx) > 0 || c.rst || c.cliGone || p.get(fd) != d }, never)
		}
		if c.rst || c.cliGone || p.get(fd) != d {
			break
		}
		m := min(len(b)-n, c.sndCap-len(c.tx))
		put(b[n : n+m])
		n += m
	}
	x.end()
	return n, nil
}

func SysShutdown(fd, how int) error {
	w := W
	x := w.op(OpSock, "shutdown")
	if x.dead {
		return syscall.EBADF
	}
	_, s, e := w.cur.Proc.sockOf(w, fd, "shutdown")
	if e != 0 {
		return e
	}
	if s == nil || s.conn == nil {
		return syscall.ENOTCONN
	}
	if how != syscall.SHUT_RD {
		s.conn.srvShut = true
		s.conn.scheduleDrain()
	}
	return nil
}

// AttachConn gives process p a server-side descriptor for a fresh connection to a client actor (for driving package ae).
func (n *Net) AttachConn(p *Proc, onData func([]byte), onClose func(string)) (int, *Conn) {
	w := n.w
	c := &Conn{ID: len(n.Conns) + 1, w: w, reading: true, OnData: onData, OnClose: onClose, accepted: true}
	c.rng = NewRNG(w.Seed, fmt.Sprintf("conn%d", c.ID))
	c.sndCap = w.K.SndBuf
	if c.sndCap <= 0 {
		c.sndCap = 1 << 16
	}
	n.Conns = append(n.Conns, c)
	fd, e := p.alloc(w, &FDesc{sock: &Sock{conn: c}, nonblock: true})
	if e != 0 {
		panic(e)
	}
	c.FD = fd
	return fd, c
}

// Readable and Writable are what epoll would report for the connection right now.
func (c *Conn) Readable() bool { return c.pollMask()&syscall.EPOLLIN != 0 }
func (c *Conn) Writable() bool { return c.pollMask()&syscall.EPOLLOUT != 0 }
func (c *Conn) RxLen() int     { return len(c.rx) }
func (c *Conn) TxLen() int     { return len(c.tx) }
func (c *Conn) Reset0() bool   { return c.rst }
