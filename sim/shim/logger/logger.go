// Package logger stands in for the logging library: entries go nowhere, Fatal ends the simulated process. When a scenario is about the
// logging options, the library itself filters and encodes the entries, and they are recorded with the file they would have gone to.
package logger

import (
	"encoding/json"
	"io"

	"github.com/IfanTsai/go-lib/logger"
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"

	"verifsim/simrt"
)

type core struct{ zapcore.LevelEnabler }

func (c core) With([]zapcore.Field) zapcore.Core { return c }
func (c core) Check(e zapcore.Entry, ce *zapcore.CheckedEntry) *zapcore.CheckedEntry {
	if c.Enabled(e.Level) {
		return ce.AddCore(e, c)
	}
	return ce
}
func (c core) Write(e zapcore.Entry, f []zapcore.Field) error {
	s := e.Message
	for _, x := range f {
		if err, ok := x.Interface.(error); ok && err != nil {
			s += ": " + err.Error()
			break
		}
	}
	switch e.Level {
	case zapcore.FatalLevel:
		simrt.ExitHere(1, "log.Fatal: "+s)
	case zapcore.PanicLevel:
		panic("log.Panic: " + s)
	}
	return nil
}
func (c core) Sync() error { return nil }

// rec records what the server tries to log.
type rec struct{ core }

func (c rec) Enabled(zapcore.Level) bool { return true }
func (c rec) Check(e zapcore.Entry, ce *zapcore.CheckedEntry) *zapcore.CheckedEntry {
	return ce.AddCore(e, c)
}
func (c rec) Write(e zapcore.Entry, f []zapcore.Field) error {
	simrt.W.Logged = append(simrt.W.Logged, simrt.LogEntry{Level: e.Level.String(), Msg: e.Message})
	return c.core.Write(e, f)
}

type sink struct{ path string }

func (s sink) Write(b []byte) (int, error) {
	if simrt.W != nil {
		var x struct{ Level, Msg string }
		if err := json.Unmarshal(b, &x); err != nil {
			x.Level, x.Msg = "garbage", string(b)
		}
		simrt.W.Logged = append(simrt.W.Logged, simrt.LogEntry{Path: s.path, Level: x.Level, Msg: x.Msg})
	}
	return len(b), nil
}

func NewJSONLogger(opts ...Option) *zap.Logger {
	c := core{zapcore.PanicLevel}
	if simrt.W == nil || !simrt.W.LogOn {
		return zap.New(c)
	}
	// the library's cores come first: a Fatal entry has been written when the process ends
	return zap.New(zapcore.NewTee(logger.NewJSONLogger(opts...).Core(), rec{c}), zap.AddCaller())
}

func WithFilePath(p string) Option      { return logger.WithIOWriter(sink{p}) }
func WithFileRotationP(p string) Option { return logger.WithIOWriter(sink{p}) }
func WithEnableConsole() Option         { return logger.WithTimeLayout(logger.DefaultTimeLayout) }
func WithIOWriter(w io.Writer) Option   { return logger.WithIOWriter(w) }
