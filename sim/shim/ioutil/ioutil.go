// Package ioutil stands in for io/ioutil.
package ioutil

import (
	"io"
	"io/fs"

	sos "verifsim/shim/os"
)

var Discard = io.Discard

func ReadAll(r io.Reader) ([]byte, error)               { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser               { return io.NopCloser(r) }
func ReadFile(n string) ([]byte, error)                 { return sos.ReadFile(n) }
func WriteFile(n string, d []byte, p fs.FileMode) error { return sos.WriteFile(n, d, p) }
func TempFile(dir, pattern string) (*sos.File, error)   { return sos.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)       { return sos.MkdirTemp(dir, pattern) }
