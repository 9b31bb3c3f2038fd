// Package os stands in for the standard package: every file lives on the simulated disk.
package os

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verifsim/simrt"
)

type File struct {
	o    *simrt.OFile
	name string
}

func (f *File) ok() error {
	if f == nil {
		return os.ErrInvalid
	}
	return nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return uintptr(f.o.FD()) }
func (f *File) Write(b []byte) (int, error) {
	if err := f.ok(); err != nil {
		return 0, err
	}
	return f.o.Write(b)
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.ok(); err != nil {
		return 0, err
	}
	return f.o.WriteAt(b, off)
}
func (f *File) Read(b []byte) (int, error) {
	if err := f.ok(); err != nil {
		return 0, err
	}
	return f.o.Read(b)
}
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.ok(); err != nil {
		return 0, err
	}
	return f.o.ReadAt(b, off)
}
func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.ok(); err != nil {
		return 0, err
	}
	return f.o.Seek(off, whence)
}
func (f *File) Sync() error {
	if err := f.ok(); err != nil {
		return err
	}
	return f.o.Sync()
}
func (f *File) Close() error {
	if err := f.ok(); err != nil {
		return err
	}
	return f.o.Close()
}
func (f *File) Truncate(n int64) error {
	if err := f.ok(); err != nil {
		return err
	}
	return f.o.Truncate(n)
}
func (f *File) Stat() (fs.FileInfo, error) {
	if err := f.ok(); err != nil {
		return nil, err
	}
	return f.o.Stat()
}
func (f *File) Chmod(fs.FileMode) error     { return f.ok() }
func (f *File) SetDeadline(time.Time) error { return os.ErrNoDeadline }
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	buf := make([]byte, 32<<10)
	var t int64
	for {
		n, err := r.Read(buf)
		if n > 0 {
			m, werr := f.Write(buf[:n])
			t += int64(m)
			if werr != nil {
				return t, werr
			}
		}
		if err == io.EOF {
			return t, nil
		}
		if err != nil {
			return t, err
		}
	}
}
func (f *File) Readdirnames(int) ([]string, error)    { return simrt.FSList(f.name) }
func (f *File) ReadDir(int) ([]fs.DirEntry, error)    { return ReadDir(f.name) }
func (f *File) Readdir(int) ([]fs.FileInfo, error)    { return simrt.FSReadDir(f.name) }
func (f *File) Chown(int, int) error                  { return f.ok() }
func (f *File) SetReadDeadline(time.Time) error       { return os.ErrNoDeadline }
func (f *File) SetWriteDeadline(time.Time) error      { return os.ErrNoDeadline }
func (f *File) SyscallConn() (syscall.RawConn, error) { return nil, os.ErrInvalid }
func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{f})
}

func OpenFile(name string, flag int, _ fs.FileMode) (*File, error) {
	o, err := simrt.FSOpen(name, flag)
	if err != nil {
		return nil, err
	}
	return &File{o, name}, nil
}
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func TempDir() string { return "/tmp" }

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	if strings.ContainsRune(pattern, '/') {
		return nil, &fs.PathError{Op: "createtemp", Path: pattern, Err: errors.New("pattern contains path separator")}
	}
	for i := 0; i < 10000; i++ {
		name := dir + "/" + pre + strconv.FormatUint(simrt.Rand()&0xffffffff, 10) + suf
		if strings.HasSuffix(dir, "/") {
			name = dir + name[len(dir)+1:]
		}
		f, err := OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if errors.Is(err, os.ErrExist) {
			continue
		}
		return f, err
	}
	return nil, os.ErrExist
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	name := dir + "/" + strings.Replace(pattern, "*", "", 1) + strconv.FormatUint(simrt.Rand()&0xffffffff, 10)
	return name, simrt.FSMkdir(name, false)
}

func Remove(name string) error { return simrt.FSRemove(name) }
func RemoveAll(name string) error {
	if err := simrt.FSRemove(name); err != nil && !errors.Is(err, os.ErrNotExist) {
		return err
	}
	return nil
}
func Rename(a, b string) error {
	err := simrt.FSRename(a, b)
	var pe *fs.PathError
	if errors.As(err, &pe) {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: pe.Err}
	}
	return err
}
func Link(a, b string) error                     { return simrt.FSLink(a, b) }
func Stat(name string) (fs.FileInfo, error)      { return simrt.FSStat(name) }
func Lstat(name string) (fs.FileInfo, error)     { return simrt.FSStat(name) }
func Truncate(name string, n int64) error        { return simrt.FSTruncate(name, n) }
func Mkdir(name string, _ fs.FileMode) error     { return simrt.FSMkdir(name, false) }
func MkdirAll(name string, _ fs.FileMode) error  { return simrt.FSMkdir(name, true) }
func Chmod(string, fs.FileMode) error            { return nil }
func Chtimes(string, time.Time, time.Time) error { return nil }
func SameFile(a, b fs.FileInfo) bool {
	x, ok1 := a.Sys().(int)
	y, ok2 := b.Sys().(int)
	return ok1 && ok2 && x == y
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func ReadDir(name string) ([]fs.DirEntry, error) {
	l, err := simrt.FSReadDir(name)
	if err != nil {
		return nil, err
	}
	var out []fs.DirEntry
	for _, i := range l {
		out = append(out, fs.FileInfoToDirEntry(i))
	}
	return out, nil
}

type dirFS string

// DirFS gives a file system for the tree at a directory of the simulated disk.
func DirFS(dir string) fs.FS { return dirFS(dir) }

func (d dirFS) Open(name string) (fs.File, error) {
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "open", Path: name, Err: os.ErrInvalid}
	}
	f, err := Open(string(d) + "/" + name)
	if err != nil {
		return nil, err
	}
	return f, nil
}

func NewFile(fd uintptr, name string) *File {
	if o := simrt.FileOf(int(fd)); o != nil {
		return &File{o, name}
	}
	return nil
}

func Chown(string, int, int) error  { return nil }
func Lchown(string, int, int) error { return nil }
func Symlink(a, b string) error {
	return &os.LinkError{Op: "symlink", Old: a, New: b, Err: syscall.EPERM}
}
func Readlink(name string) (string, error) {
	return "", &fs.PathError{Op: "readlink", Path: name, Err: syscall.EINVAL}
}
func Chdir(name string) error {
	if i, err := Stat(name); err != nil || !i.IsDir() || name != simrt.Cwd {
		return &fs.PathError{Op: "chdir", Path: name, Err: syscall.EPERM}
	}
	return nil
}
func Getgid() int                     { return 1000 }
func Getegid() int                    { return 1000 }
func Getpagesize() int                { return 4096 }
func Environ() []string               { return nil }
func Setenv(string, string) error     { return nil }
func Unsetenv(string) error           { return nil }
func ExpandEnv(s string) string       { return os.Expand(s, Getenv) }
func UserHomeDir() (string, error)    { return "", errors.New("$HOME is not defined") }
func Executable() (string, error)     { return "/usr/bin/metis", nil }
func Getwd() (string, error)          { return simrt.Cwd, nil }
func Getpid() int                     { return 4242 }
func Getppid() int                    { return 1 }
func Getenv(string) string            { return "" }
func LookupEnv(string) (string, bool) { return "", false }
func Hostname() (string, error)       { return "sim", nil }
func Getuid() int                     { return 1000 }
func Geteuid() int                    { return 1000 }
func Exit(code int)                   { simrt.ExitHere(code, "os.Exit") }

var errnoUsed = syscall.EINVAL

type Signal = os.Signal

var (
	Interrupt Signal = syscall.SIGINT
	Kill      Signal = syscall.SIGKILL
)
