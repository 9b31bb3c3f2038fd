// Package syscall stands in for the standard package: the simulated kernel.
package syscall

import (
	"errors"
	"io"
	"syscall"

	simtime "verifsim/shim/time"
	"verifsim/simrt"
)

func EpollCreate(size int) (int, error)  { return simrt.SysEpollCreate() }
func EpollCreate1(flag int) (int, error) { return simrt.SysEpollCreate() }
func EpollCtl(epfd, op, fd int, ev *syscall.EpollEvent) error {
	return simrt.SysEpollCtl(epfd, op, fd, ev)
}
func EpollWait(epfd int, evs []syscall.EpollEvent, msec int) (int, error) {
	return simrt.SysEpollWait(epfd, evs, msec)
}
func Socket(domain, typ, proto int) (int, error) { return simrt.SysSocket(domain, typ, proto) }
func Close(fd int) error                         { return simrt.SysClose(fd) }
func Listen(fd, n int) error                     { return simrt.SysListen(fd, n) }
func Shutdown(fd, how int) error                 { return simrt.SysShutdown(fd, how) }
func Bind(fd int, sa syscall.Sockaddr) error {
	switch a := sa.(type) {
	case *syscall.SockaddrInet4:
		return simrt.SysBind(fd, a.Addr, a.Port)
	}
	return syscall.EAFNOSUPPORT
}
func Connect(fd int, sa syscall.Sockaddr) error    { return syscall.ECONNREFUSED }
func Accept(fd int) (int, syscall.Sockaddr, error) { return Accept4(fd, 0) }
func Accept4(fd, flags int) (int, syscall.Sockaddr, error) {
	n, err := simrt.SysAccept(fd, flags)
	if err != nil {
		return -1, nil, err
	}
	return n, &syscall.SockaddrInet4{Port: 50000 + n, Addr: [4]byte{127, 0, 0, 1}}, nil
}
func Getsockname(fd int) (syscall.Sockaddr, error) {
	ip, port, ok := simrt.ListenerAddr(fd)
	if !ok {
		return nil, syscall.EBADF
	}
	return &syscall.SockaddrInet4{Port: port, Addr: ip}, nil
}
func Getpeername(fd int) (syscall.Sockaddr, error) {
	return &syscall.SockaddrInet4{Port: 50000 + fd, Addr: [4]byte{127, 0, 0, 1}}, nil
}
func Read(fd int, p []byte) (int, error)  { return simrt.SysRead(fd, p) }
func Write(fd int, p []byte) (int, error) { return simrt.SysWrite(fd, p) }
func Recvfrom(fd int, p []byte, flags int) (int, syscall.Sockaddr, error) {
	n, err := simrt.SysRead(fd, p)
	return n, nil, err
}
func Sendto(fd int, p []byte, flags int, to syscall.Sockaddr) error {
	_, err := simrt.SysWrite(fd, p)
	return err
}
func SetNonblock(fd int, nb bool) error { return simrt.SysSetNonblock(fd, nb) }
func SetsockoptInt(fd, level, opt, value int) error {
	if level == syscall.SOL_SOCKET && (opt == syscall.SO_REUSEADDR || opt == 15) {
		return simrt.SysSetReuse(fd)
	}
	return nil
}
func GetsockoptInt(fd, level, opt int) (int, error)                   { return 0, nil }
func SetsockoptLinger(fd, level, opt int, l *syscall.Linger) error    { return nil }
func SetsockoptTimeval(fd, level, opt int, tv *syscall.Timeval) error { return nil }
func CloseOnExec(fd int)                                              {}
func Getpid() int                                                     { return 4242 }
func Getuid() int                                                     { return 1000 }

// ---- files by descriptor

func errno(err error) error {
	var e syscall.Errno
	if errors.As(err, &e) {
		return e
	}
	if err != nil {
		return syscall.EIO
	}
	return nil
}

func file(fd int, f func(*simrt.OFile) error) error {
	o := simrt.FileOf(fd)
	if o == nil {
		return syscall.EBADF
	}
	return errno(f(o))
}

func Fsync(fd int) error     { return file(fd, func(o *simrt.OFile) error { return o.Sync() }) }
func Fdatasync(fd int) error { return Fsync(fd) }
func Ftruncate(fd int, n int64) error {
	return file(fd, func(o *simrt.OFile) error { return o.Truncate(n) })
}
func Pwrite(fd int, p []byte, off int64) (n int, err error) {
	err = file(fd, func(o *simrt.OFile) (e error) { n, e = o.WriteAt(p, off); return })
	return
}
func Pread(fd int, p []byte, off int64) (n int, err error) {
	err = file(fd, func(o *simrt.OFile) (e error) {
		if n, e = o.ReadAt(p, off); e == io.EOF {
			e = nil
		}
		return
	})
	return
}
func Seek(fd int, off int64, whence int) (n int64, err error) {
	err = file(fd, func(o *simrt.OFile) (e error) { n, e = o.Seek(off, whence); return })
	return
}
func Open(name string, mode int, perm uint32) (int, error) {
	o, err := simrt.FSOpen(name, mode)
	if err != nil {
		return -1, errno(err)
	}
	return o.FD(), nil
}
func Unlink(name string) error                  { return errno(simrt.FSRemove(name)) }
func Rename(a, b string) error                  { return errno(simrt.FSRename(a, b)) }
func Truncate(name string, n int64) error       { return errno(simrt.FSTruncate(name, n)) }
func Flock(fd int, how int) error               { return file(fd, func(*simrt.OFile) error { return nil }) }
func Fallocate(int, uint32, int64, int64) error { return syscall.EOPNOTSUPP }
func Sync()                                     { simrt.SyncAll() }
func Umask(int) int                             { return 0o22 }
func Getrlimit(res int, l *syscall.Rlimit) error {
	*l = syscall.Rlimit{Cur: simrt.NoFile(), Max: simrt.NoFile()}
	return nil
}
func Setrlimit(int, *syscall.Rlimit) error { return nil }
func Getgid() int                          { return 1000 }
func Geteuid() int                         { return 1000 }
func Gettimeofday(tv *syscall.Timeval) error {
	*tv = syscall.NsecToTimeval(simtime.Now().UnixNano())
	return nil
}
func Time(t *syscall.Time_t) (syscall.Time_t, error) {
	n := syscall.Time_t(simtime.Now().Unix())
	if t != nil {
		*t = n
	}
	return n, nil
}
