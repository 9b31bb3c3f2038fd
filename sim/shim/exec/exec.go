// Package exec stands in for os/exec; only mv exists as a program.
package exec

import (
	"errors"
	"io"
	"strings"

	"verifsim/simrt"
)

var ErrNotFound = errors.New("executable file not found in $PATH")

type Error struct {
	Name string
	Err  error
}

func (e *Error) Error() string { return "exec: " + e.Name + ": " + e.Err.Error() }
func (e *Error) Unwrap() error { return e.Err }

type ExitError struct{ Stderr []byte }

func (e *ExitError) Error() string { return "exit status 1" }
func (e *ExitError) ExitCode() int { return 1 }

type Cmd struct {
	Path, Dir      string
	Args, Env      []string
	Stdin          io.Reader
	Stdout, Stderr io.Writer
	res            error
}

func Command(name string, arg ...string) *Cmd {
	return &Cmd{Path: name, Args: append([]string{name}, arg...)}
}

func LookPath(f string) (string, error) {
	if f == "mv" {
		return "/bin/mv", nil
	}
	return "", &Error{f, ErrNotFound}
}

func (c *Cmd) String() string { return strings.Join(c.Args, " ") }

func (c *Cmd) Run() error {
	if c.Path != "mv" && c.Path != "/bin/mv" && c.Path != "/usr/bin/mv" {
		return &Error{c.Path, ErrNotFound}
	}
	var paths []string
	for _, a := range c.Args[1:] {
		if strings.HasPrefix(a, "-") && len(paths) == 0 {
			continue
		}
		paths = append(paths, a)
	}
	if len(paths) != 2 || !simrt.ExecMv(paths[0], paths[1]) {
		return &ExitError{}
	}
	return nil
}

func (c *Cmd) Start() error                    { c.res = c.Run(); return nil }
func (c *Cmd) Wait() error                     { return c.res }
func (c *Cmd) Output() ([]byte, error)         { return nil, c.Run() }
func (c *Cmd) CombinedOutput() ([]byte, error) { return nil, c.Run() }
