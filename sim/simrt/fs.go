package simrt

import (
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

// FS models a journalling filesystem with a page cache. What a process reads is the volatile state. After a power loss
// each file holds what was last synced plus a prefix of what was written since (possibly cut inside a write), and the
// directory holds what the journal had committed plus a prefix of later name changes. A sync of any file on a filesystem
// commits the journal (ext4/xfs behaviour).
type FS struct {
	w        *World
	files    map[string]*Inode
	durable  map[string]*Inode
	journal  []metaOp
	nextIno  int
	dirs     map[string]bool
	LogPath  string // the append-only log, to recognise other files being created
	used     int64
	OnChange func() // something changed in a file or directory
}

type metaOp struct {
	kind string // link, unlink, rename
	a, b string
	ino  *Inode
}

type Inode struct {
	id    int
	data  []byte
	dur   []byte
	pend  []pendOp
	split bool // a failed sync has dropped some writes: dur no longer follows data
	mtime int64
	dev   int
	dir   string // a directory
}

type pendOp struct {
	trunc bool
	size  int64 // trunc: new size
	off   int64
	data  []byte
}

// OFile is an open file description.
type OFile struct {
	ino    *Inode
	path   string
	flag   int
	off    int64
	fd     int
	proc   *Proc
	closed bool
	desc   *FDesc
}

func newFS(w *World) *FS {
	return &FS{w: w, files: map[string]*Inode{}, durable: map[string]*Inode{}, dirs: map[string]bool{"/": true, "/data": true, "/tmp": true, "/data/sub": true}}
}

// Cwd of the simulated processes.
const Cwd = "/data"

func absPath(p string) string {
	if p == "" {
		return ""
	}
	if !strings.HasPrefix(p, "/") {
		p = Cwd + "/" + p
	}
	return path.Clean(p)
}

func (f *FS) dev(p string) int {
	if f.w.K.TmpOther && (p == "/tmp" || strings.HasPrefix(p, "/tmp/")) {
		return 2
	}
	return 1
}

func (f *FS) procGone(p *Proc) {
	for o := range p.Files {
		o.closed = true
	}
}

func (f *FS) addMeta(m metaOp) {
	f.journal = append(f.journal, m)
	f.w.Log("meta."+m.kind, 0, 0, m.a+" "+m.b)
	f.changed()
}

func applyMeta(root map[string]*Inode, m metaOp) {
	switch m.kind {
	case "link":
		root[m.a] = m.ino
	case "unlink":
		delete(root, m.a)
	case "rename":
		if m.ino != nil {
			delete(root, m.a)
			root[m.b] = m.ino
		}
	}
}

// commitJournal makes the changes of names on a device durable, with strict names only those of one directory.
func (f *FS) commitJournal(dev int, dir string) {
	var rest []metaOp
	for _, m := range f.journal {
		if f.dev(m.a) == dev && (dir == "" || !f.w.K.StrictNames || path.Dir(m.a) == dir || m.b != "" && path.Dir(m.b) == dir) {
			applyMeta(f.durable, m)
		} else {
			rest = append(rest, m)
		}
	}
	f.journal = rest
}

func (f *FS) powerLoss() {
	w := f.w
	// directory: a prefix of the uncommitted name changes survives
	k := 0
	if n := len(f.journal); n > 0 {
		switch w.rngIO.Intn(3) {
		case 0:
			k = 0
		case 1:
			k = n
		default:
			k = w.rngIO.Intn(n + 1)
		}
		if k < n {
			w.Stats["fault.lost_dirent"] += n - k
		}
	}
	for _, m := range f.journal[:k] {
		applyMeta(f.durable, m)
	}
	f.journal = nil
	root := map[string]*Inode{}
	names := make([]string, 0, len(f.durable))
	for n := range f.durable {
		names = append(names, n)
	}
	sort.Strings(names)
	done := map[*Inode]*Inode{}
	for _, n := range names {
		ino := f.durable[n]
		if x := done[ino]; x != nil {
			root[n] = x
			continue
		}
		d := append([]byte(nil), ino.dur...)
		j := 0
		if len(ino.pend) > 0 {
			switch w.rngIO.Intn(4) {
			case 0:
				j = 0
			case 1:
				j = len(ino.pend)
			default:
				j = w.rngIO.Intn(len(ino.pend) + 1)
			}
			if j < len(ino.pend) {
				w.Count("fault.lost_data")
			}
		}
		for _, op := range ino.pend[:j] {
			d = op.apply(d, len(op.data))
		}
		if j < len(ino.pend) && !ino.pend[j].trunc && w.rngIO.Chance(0.7) {
			op := ino.pend[j]
			d = op.apply(d, w.rngIO.Intn(len(op.data)+1))
			w.Count("fault.torn_write")
		}
		nn := &Inode{id: ino.id, data: d, dur: d[:len(d):len(d)], dev: ino.dev, mtime: ino.mtime}
		done[ino] = nn
		root[n] = nn
		w.Log("after-power", int64(len(ino.data)), int64(len(d)), n)
	}
	f.files = root
	f.durable = map[string]*Inode{}
	f.used = 0
	for n, i := range root {
		f.durable[n] = i
	}
	for _, n := range names {
		f.used += int64(len(root[n].data))
	}
}

func (op pendOp) apply(d []byte, n int) []byte {
	if op.trunc {
		if int64(len(d)) > op.size {
			return d[:op.size]
		}
		return append(d, make([]byte, op.size-int64(len(d)))...)
	}
	end := op.off + int64(n)
	if int64(len(d)) < end {
		d = append(d, make([]byte, end-int64(len(d)))...)
	}
	copy(d[op.off:end], op.data[:n])
	return d
}

func (f *FS) perr(op, p string, e error) error { return &fs.PathError{Op: op, Path: p, Err: e} }

func (f *FS) createInode(p string) *Inode {
	f.nextIno++
	ino := &Inode{id: f.nextIno, dev: f.dev(p), mtime: f.w.Now}
	f.files[p] = ino
	f.addMeta(metaOp{"link", p, "", ino})
	if f.LogPath != "" && p != absPath(f.LogPath) {
		f.w.rwOn = true
		f.w.opCount[OpRWFS] = 0
		f.w.Count("probe.side_file_created")
	}
	return ino
}

// ---- harness access (no time passes, no faults)

func (f *FS) Peek(p string) ([]byte, bool) {
	i := f.files[absPath(p)]
	if i == nil {
		return nil, false
	}
	return i.data, true
}

// Size is the length of the file, -1 when there is none.
func (f *FS) Size(p string) int64 {
	if i := f.files[absPath(p)]; i != nil {
		return int64(len(i.data))
	}
	return -1
}

func (f *FS) logSize() int64 {
	if f.LogPath == "" {
		return 0
	}
	if i := f.files[absPath(f.LogPath)]; i != nil {
		return int64(len(i.data))
	}
	return 0
}

// InodeID identifies the file currently behind a path.
func (f *FS) InodeID(p string) int {
	if i := f.files[absPath(p)]; i != nil {
		return i.id
	}
	return 0
}

// Put writes a file durably.
func (f *FS) Put(p string, data []byte) {
	p = absPath(p)
	f.nextIno++
	d := append([]byte(nil), data...)
	i := &Inode{id: f.nextIno, data: d, dur: d[:len(d):len(d)], dev: f.dev(p)}
	f.files[p] = i
	f.durable[p] = i
}

func (f *FS) Names() []string {
	var out []string
	for n := range f.files {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// ---- system calls

func FSOpen(name string, flag int) (*OFile, error) {
	w := W
	f := w.FS
	x := w.op(OpFOpen, name)
	if x.dead {
		return nil, f.perr("open", name, syscall.EBADF)
	}
	if x.Err != 0 {
		return nil, f.perr("open", name, x.Err)
	}
	p := absPath(name)
	if p == "" {
		return nil, f.perr("open", name, syscall.ENOENT)
	}
	if f.dirs[p] {
		if flag&(syscall.O_WRONLY|syscall.O_RDWR) != 0 {
			return nil, f.perr("open", name, syscall.EISDIR)
		}
		o := &OFile{path: p, flag: flag, proc: w.cur.Proc, ino: &Inode{dev: f.dev(p), dir: p}}
		return f.install(o, name)
	}
	if !f.dirs[path.Dir(p)] {
		return nil, f.perr("open", name, syscall.ENOENT)
	}
	ino := f.files[p]
	if ino == nil {
		if flag&syscall.O_CREAT == 0 {
			return nil, f.perr("open", name, syscall.ENOENT)
		}
		ino = f.createInode(p)
	} else {
		if flag&syscall.O_CREAT != 0 && flag&syscall.O_EXCL != 0 {
			return nil, f.perr("open", name, syscall.EEXIST)
		}
		if flag&syscall.O_TRUNC != 0 {
			f.truncate(ino, 0)
		}
	}
	o := &OFile{ino: ino, path: p, flag: flag, proc: w.cur.Proc}
	r, err := f.install(o, name)
	if err == nil {
		x.end()
	}
	return r, err
}

func (f *FS) install(o *OFile, name string) (*OFile, error) {
	d := &FDesc{file: o}
	fd, e := o.proc.alloc(f.w, d)
	if e != 0 {
		return nil, f.perr("open", name, e)
	}
	o.fd = fd
	o.desc = d
	o.proc.Files[o] = true
	return o, nil
}

func (o *OFile) Path() string { return o.path }
func (o *OFile) FD() int      { return o.fd }

// use resolves the descriptor behind an open file, as the kernel would: the number may have been closed or reused.
func (o *OFile) use(op string) (*OFile, error) {
	w := W
	if o.closed {
		return nil, fs.ErrClosed
	}
	d := o.proc.get(o.fd)
	if d == nil {
		o.proc.stray(w, "file "+op, o.fd)
		return nil, syscall.EBADF
	}
	if d.file == nil {
		o.proc.Strays = append(o.proc.Strays, "file operation on a reused descriptor")
		return nil, syscall.EINVAL
	}
	return d.file, nil
}

func (f *FS) space(n int64) int64 {
	if f.w.K.DiskCap == 0 || f.w.NoiseOff {
		return n
	}
	free := f.w.K.DiskCap - f.used
	if free < 0 {
		free = 0
	}
	if n > free {
		return free
	}
	return n
}

func (f *FS) changed() {
	if f.OnChange != nil {
		f.OnChange()
	}
}

func (f *FS) truncate(ino *Inode, size int64) {
	d := append([]byte(nil), ino.data...)
	op := pendOp{trunc: true, size: size}
	nd := op.apply(d, 0)
	f.used += int64(len(nd)) - int64(len(ino.data))
	ino.data = nd
	ino.pend = append(ino.pend, op)
	ino.mtime = f.w.Now
	f.changed()
}

func (w *World) fileWrite(o *OFile, b []byte, x *opCtx) (int, error) {
	f := w.FS
	if o.flag&(syscall.O_WRONLY|syscall.O_RDWR) == 0 {
		return -1, syscall.EBADF
	}
	n := int64(len(b))
	if x.Short >= 0 && x.Short < n {
		n = x.Short
	}
	if x.Err != 0 && n == int64(len(b)) {
		return -1, x.Err
	}
	ino := o.ino
	off := o.off
	if o.flag&syscall.O_APPEND != 0 {
		off = int64(len(ino.data))
	}
	grow := off + n - int64(len(ino.data))
	if grow > 0 {
		if s := f.space(grow); s < grow {
			n -= grow - s
			w.Count("fault.enospc")
			if n <= 0 {
				return -1, syscall.ENOSPC
			}
		}
	}
	op := pendOp{off: off, data: append([]byte(nil), b[:n]...)}
	old := len(ino.data)
	if off < int64(len(ino.data)) { // overwrite: keep synced views intact
		ino.data = append([]byte(nil), ino.data...)
	}
	ino.data = op.apply(ino.data, int(n))
	f.used += int64(len(ino.data) - old)
	ino.pend = append(ino.pend, op)
	ino.mtime = w.Now
	o.off = off + n
	w.Log("file-write", int64(o.fd), n, o.path)
	if o.flag&(syscall.O_SYNC|syscall.O_DSYNC) != 0 {
		f.settle(ino)
		w.Count("fs.sync_write")
	}
	f.changed()
	return int(n), nil
}

// settle makes what was written to a file durable.
func (f *FS) settle(ino *Inode) {
	if ino.split {
		d := append([]byte(nil), ino.dur...)
		for _, op := range ino.pend {
			d = op.apply(d, len(op.data))
		}
		ino.dur = d
	} else {
		ino.dur = ino.data[:len(ino.data):len(ino.data)]
	}
	ino.pend = nil
	if ino.dir != "" || !f.w.K.StrictNames {
		f.commitJournal(ino.dev, ino.dir)
	}
}

func (w *World) fileRead(o *OFile, b []byte, x *opCtx) (int, error) {
	if o.flag&syscall.O_WRONLY != 0 {
		return -1, syscall.EBADF
	}
	if x.Err != 0 {
		return -1, x.Err
	}
	if o.off >= int64(len(o.ino.data)) || len(b) == 0 {
		return 0, nil
	}
	n := copy(b, o.ino.data[o.off:])
	if x.Short > 0 && int(x.Short) < n {
		n = int(x.Short)
	} else if n > 1 && w.noise(w.K.FileShort) {
		n = 1 + w.rngIO.Intn(n)
		w.Count("fs.short_read")
	}
	o.off += int64(n)
	return n, nil
}

// Write is os.File.Write: loops over short writes until done or error.
func (o *OFile) Write(b []byte) (int, error) {
	w := W
	total := 0
	first := true
	for first || total < len(b) {
		first = false
		x := w.op(OpFWrite, o.path)
		if x.dead {
			return total, w.FS.perr("write", o.path, syscall.EBADF)
		}
		r, err := o.use("write")
		if err != nil {
			return total, w.FS.perr("write", o.path, err)
		}
		if len(b) == 0 {
			return 0, nil
		}
		if x.Err == syscall.EINTR {
			continue
		}
		n, err := w.fileWrite(r, b[total:], &x)
		if n > 0 {
			total += n
		}
		x.end()
		if err != nil {
			return total, w.FS.perr("write", o.path, err)
		}
		if x.Err != 0 { // the short part went out, then the error
			return total, w.FS.perr("write", o.path, x.Err)
		}
	}
	return total, nil
}

func (o *OFile) WriteAt(b []byte, off int64) (int, error) {
	w := W
	x := w.op(OpFWrite, o.path)
	if x.dead {
		return 0, w.FS.perr("write", o.path, syscall.EBADF)
	}
	r, err := o.use("write")
	if err != nil {
		return 0, w.FS.perr("write", o.path, err)
	}
	save := r.off
	r.off = off
	n, err := w.fileWrite(r, b, &x)
	r.off = save
	if n < 0 {
		n = 0
	}
	if err != nil {
		return n, w.FS.perr("write", o.path, err)
	}
	x.end()
	return n, nil
}

func (o *OFile) Read(b []byte) (int, error) {
	w := W
	for {
		x := w.op(OpFRead, o.path)
		if x.dead {
			return 0, w.FS.perr("read", o.path, syscall.EBADF)
		}
		r, err := o.use("read")
		if err != nil {
			return 0, w.FS.perr("read", o.path, err)
		}
		if len(b) == 0 {
			return 0, nil
		}
		n, err := w.fileRead(r, b, &x)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			return 0, w.FS.perr("read", o.path, err)
		}
		x.end()
		if n == 0 {
			return 0, io.EOF
		}
		return n, nil
	}
}

func (o *OFile) ReadAt(b []byte, off int64) (int, error) {
	w := W
	total := 0
	for total < len(b) {
		x := w.op(OpFRead, o.path)
		if x.dead {
			return total, w.FS.perr("read", o.path, syscall.EBADF)
		}
		r, err := o.use("read")
		if err != nil {
			return total, w.FS.perr("read", o.path, err)
		}
		save := r.off
		r.off = off + int64(total)
		n, err := w.fileRead(r, b[total:], &x)
		r.off = save
		if err != nil {
			return total, w.FS.perr("read", o.path, err)
		}
		if n == 0 {
			return total, io.EOF
		}
		total += n
	}
	return total, nil
}

func (o *OFile) Seek(off int64, whence int) (int64, error) {
	if _, err := o.use("seek"); err != nil {
		return 0, W.FS.perr("seek", o.path, err)
	}
	switch whence {
	case 0:
		o.off = off
	case 1:
		o.off += off
	case 2:
		o.off = int64(len(o.ino.data)) + off
	}
	return o.off, nil
}

// redirty is applied when a new process starts. A process cannot learn of a sync that failed in an earlier one and nothing
// it could do would help, so the data which that sync dropped becomes dirty again (what file systems do which keep failed
// pages dirty); within one process a failed sync stays failed.
func (f *FS) redirty() {
	names := make([]string, 0, len(f.files))
	for n := range f.files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		i := f.files[n]
		if !i.split {
			continue
		}
		i.split = false
		i.pend = []pendOp{{off: 0, data: append([]byte(nil), i.data...)}}
		if len(i.dur) > len(i.data) {
			i.pend = append(i.pend, pendOp{trunc: true, size: int64(len(i.data))})
		}
		f.w.Count("fs.redirty")
	}
}

func (o *OFile) Sync() error {
	w := W
	if o.closed {
		return fs.ErrClosed
	}
	d0 := o.desc
	x := w.op(OpFSync, o.path)
	if x.dead {
		return w.FS.perr("sync", o.path, syscall.EBADF)
	}
	// A close by another goroutine during the sync waits for it in os.File, so the description is still valid then;
	// the race that matters is a close before the sync begins.
	if o.closed {
		return w.FS.perr("sync", o.path, fs.ErrClosed)
	}
	if o.proc.get(o.fd) != d0 {
		if _, err := o.use("sync"); err != nil {
			return w.FS.perr("sync", o.path, err)
		}
	}
	if x.Err == syscall.EINTR {
		x.Err = 0
	}
	ino := o.ino
	if x.Err != 0 {
		// The kernel reports the failure once and marks the pages clean: a prefix may have reached the disk, the rest
		// never will, even if a later sync succeeds.
		j := w.rngIO.Intn(len(ino.pend) + 1)
		d := append([]byte(nil), ino.dur...)
		for _, op := range ino.pend[:j] {
			d = op.apply(d, len(op.data))
		}
		ino.dur = d
		if j < len(ino.pend) {
			ino.split = true
		}
		ino.pend = nil
		return w.FS.perr("sync", o.path, x.Err)
	}
	w.FS.settle(ino)
	w.Count("fs.sync")
	w.Log("synced", int64(len(ino.data)), 0, o.path)
	x.end()
	return nil
}

func (o *OFile) Close() error {
	w := W
	if o.closed {
		return fs.ErrClosed
	}
	if w.cur != nil && w.cur.killed {
		return nil
	}
	o.closed = true
	x := w.op(OpFClose, o.path)
	if x.dead {
		return nil
	}
	p := o.proc
	if d := p.get(o.fd); d == o.desc {
		p.fds[o.fd] = nil
		delete(p.Files, o)
	} else {
		p.stray(w, "file close", o.fd)
		if d != nil {
			p.Strays = append(p.Strays, "file close hit a reused descriptor")
			_ = p.release(w, o.fd)
		}
		return w.FS.perr("close", o.path, syscall.EBADF)
	}
	x.end()
	return nil
}

func (o *OFile) Truncate(size int64) error {
	w := W
	x := w.op(OpFTrunc, o.path)
	if x.dead {
		return w.FS.perr("truncate", o.path, syscall.EBADF)
	}
	if x.Err != 0 {
		return w.FS.perr("truncate", o.path, x.Err)
	}
	r, err := o.use("truncate")
	if err != nil {
		return w.FS.perr("truncate", o.path, err)
	}
	w.FS.truncate(r.ino, size)
	x.end()
	return nil
}

// Info is a minimal fs.FileInfo.
type Info struct {
	name string
	size int64
	dir  bool
	mod  int64
	ino  int
}

func (i Info) Name() string { return i.name }
func (i Info) Size() int64  { return i.size }
func (i Info) Mode() fs.FileMode {
	if i.dir {
		return fs.ModeDir | 0755
	}
	return 0644
}
func (i Info) ModTime() time.Time { return time.Unix(0, WallBase+i.mod) }
func (i Info) IsDir() bool        { return i.dir }
func (i Info) Sys() any           { return i.ino }

func (o *OFile) Stat() (fs.FileInfo, error) {
	w := W
	x := w.op(OpFStat, o.path)
	if x.dead {
		return nil, w.FS.perr("stat", o.path, syscall.EBADF)
	}
	if x.Err != 0 {
		return nil, w.FS.perr("stat", o.path, x.Err)
	}
	r, err := o.use("stat")
	if err != nil {
		return nil, w.FS.perr("stat", o.path, err)
	}
	return Info{name: path.Base(r.path), size: int64(len(r.ino.data)), mod: r.ino.mtime, ino: r.ino.id, dir: w.FS.dirs[r.path]}, nil
}

func FSStat(name string) (fs.FileInfo, error) {
	w := W
	x := w.op(OpFStat, name)
	if x.dead {
		return nil, w.FS.perr("stat", name, syscall.EBADF)
	}
	if x.Err != 0 {
		return nil, w.FS.perr("stat", name, x.Err)
	}
	p := absPath(name)
	if w.FS.dirs[p] {
		return Info{name: path.Base(p), dir: true}, nil
	}
	i := w.FS.files[p]
	if i == nil {
		return nil, w.FS.perr("stat", name, syscall.ENOENT)
	}
	return Info{name: path.Base(p), size: int64(len(i.data)), mod: i.mtime, ino: i.id}, nil
}

func (f *FS) renameRaw(a, b string) syscall.Errno {
	i := f.files[a]
	if i == nil {
		return syscall.ENOENT
	}
	if f.dev(a) != f.dev(b) {
		return syscall.EXDEV
	}
	if f.dirs[b] || !f.dirs[path.Dir(b)] {
		return syscall.ENOENT
	}
	if a == b {
		return 0
	}
	if old := f.files[b]; old != nil {
		f.used -= int64(len(old.data))
	}
	delete(f.files, a)
	f.files[b] = i
	f.addMeta(metaOp{"rename", a, b, i})
	return 0
}

func FSRename(a, b string) error {
	w := W
	x := w.op(OpFRename, a+" "+b)
	if x.dead {
		return &fs.PathError{Op: "rename", Path: a, Err: syscall.EBADF}
	}
	if x.Err != 0 {
		return &fs.PathError{Op: "rename", Path: a, Err: x.Err}
	}
	if e := w.FS.renameRaw(absPath(a), absPath(b)); e != 0 {
		return &fs.PathError{Op: "rename", Path: a, Err: e}
	}
	x.end()
	return nil
}

func (f *FS) unlinkRaw(p string) syscall.Errno {
	i := f.files[p]
	if i == nil {
		return syscall.ENOENT
	}
	f.used -= int64(len(i.data))
	delete(f.files, p)
	f.addMeta(metaOp{"unlink", p, "", i})
	return 0
}

func FSRemove(name string) error {
	w := W
	x := w.op(OpFUnlink, name)
	if x.dead {
		return w.FS.perr("remove", name, syscall.EBADF)
	}
	if x.Err != 0 {
		return w.FS.perr("remove", name, x.Err)
	}
	if e := w.FS.unlinkRaw(absPath(name)); e != 0 {
		return w.FS.perr("remove", name, e)
	}
	x.end()
	return nil
}

func FSTruncate(name string, size int64) error {
	w := W
	x := w.op(OpFTrunc, name)
	if x.dead {
		return w.FS.perr("truncate", name, syscall.EBADF)
	}
	if x.Err != 0 {
		return w.FS.perr("truncate", name, x.Err)
	}
	i := w.FS.files[absPath(name)]
	if i == nil {
		return w.FS.perr("truncate", name, syscall.ENOENT)
	}
	w.FS.truncate(i, size)
	x.end()
	return nil
}

func FSLink(a, b string) error {
	w := W
	x := w.op(OpFRename, a+" "+b)
	if x.dead {
		return syscall.EBADF
	}
	i := w.FS.files[absPath(a)]
	if i == nil {
		return w.FS.perr("link", a, syscall.ENOENT)
	}
	if w.FS.files[absPath(b)] != nil {
		return w.FS.perr("link", b, syscall.EEXIST)
	}
	if w.FS.dev(absPath(a)) != w.FS.dev(absPath(b)) {
		return w.FS.perr("link", b, syscall.EXDEV)
	}
	w.FS.files[absPath(b)] = i
	w.FS.addMeta(metaOp{"link", absPath(b), "", i})
	x.end()
	return nil
}

func FSMkdir(name string, all bool) error {
	f := W.FS
	p := absPath(name)
	if f.dirs[p] {
		if all {
			return nil
		}
		return f.perr("mkdir", name, syscall.EEXIST)
	}
	f.dirs[p] = true
	return nil
}

// FSReadDir gives the entries of a directory with their data.
func FSReadDir(name string) ([]fs.FileInfo, error) {
	f := W.FS
	names, err := FSList(name)
	if err != nil {
		return nil, err
	}
	p := absPath(name)
	var out []fs.FileInfo
	for _, n := range names {
		i := f.files[path.Join(p, n)]
		if i == nil {
			out = append(out, Info{name: n, dir: true})
			continue
		}
		out = append(out, Info{name: n, size: int64(len(i.data)), mod: i.mtime, ino: i.id})
	}
	return out, nil
}

// FileOf gives the open file behind a descriptor of the running process.
func FileOf(fd int) *OFile {
	if d := W.cur.Proc.get(fd); d != nil {
		return d.file
	}
	return nil
}

// NoFile is the limit of open descriptors.
func NoFile() uint64 {
	if n := W.K.FdShort; n > 0 {
		return uint64(n)
	}
	return 1024
}

// SyncAll is sync(2).
func SyncAll() {
	w := W
	x := w.op(OpFSync, "all")
	if x.dead {
		return
	}
	for _, n := range w.FS.Names() {
		w.FS.settle(w.FS.files[n])
	}
	for _, m := range w.FS.journal {
		applyMeta(w.FS.durable, m)
	}
	w.FS.journal = nil
	x.end()
}

// FSList gives the entries of a directory.
func FSList(name string) ([]string, error) {
	f := W.FS
	p := absPath(name)
	if !f.dirs[p] {
		return nil, f.perr("open", name, syscall.ENOENT)
	}
	var out []string
	for n := range f.files {
		if path.Dir(n) == p {
			out = append(out, path.Base(n))
		}
	}
	for n := range f.dirs {
		if n != "/" && path.Dir(n) == p {
			out = append(out, path.Base(n))
		}
	}
	sort.Strings(out)
	return out, nil
}

// ExecMv is the mv command: rename, or unlink + copy + unlink across filesystems, done by a child process that a death
// of the server process does not stop (a power loss does).
func ExecMv(a, b string) (ok bool) {
	w := W
	f := w.FS
	a, b = absPath(a), absPath(b)
	if b == "" || f.files[a] == nil {
		return false
	}
	if f.dirs[b] {
		b = b + "/" + path.Base(a)
	}
	finish := func() {}
	step := func(what string) (dead bool, fail bool) {
		x := w.op(OpExec, what)
		if x.dead {
			return true, false
		}
		if x.Err != 0 {
			return false, true
		}
		return false, false
	}
	_ = finish
	if f.dev(a) == f.dev(b) {
		if d, e := step("mv rename"); d || e {
			return false
		}
		return f.renameRaw(a, b) == 0
	}
	if d, e := step("mv unlink-target"); d || e {
		return false
	}
	if f.files[b] != nil {
		f.unlinkRaw(b)
	}
	if d, e := step("mv create-target"); d || e {
		return false
	}
	src := f.files[a]
	if src == nil {
		return false
	}
	f.nextIno++
	dst := &Inode{id: f.nextIno, dev: f.dev(b)}
	f.files[b] = dst
	f.addMeta(metaOp{"link", b, "", dst})
	for pos := 0; pos < len(src.data); {
		if d, e := step("mv copy"); d || e {
			return false
		}
		n := 1 + w.rngIO.Intn(len(src.data)-pos)
		op := pendOp{off: int64(pos), data: append([]byte(nil), src.data[pos:pos+n]...)}
		dst.data = op.apply(dst.data, n)
		dst.pend = append(dst.pend, op)
		pos += n
	}
	if d, e := step("mv unlink-source"); d || e {
		return false
	}
	f.unlinkRaw(a)
	return true
}
