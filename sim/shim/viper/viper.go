// Package viper passes through to the real viper, which reads its files from memory and is told when they change.
package viper

import (
	"github.com/fsnotify/fsnotify"
	"github.com/spf13/afero"
	"github.com/spf13/viper"

	"verifsim/simrt"
)

var fs = afero.NewMemMapFs()

// Put sets the content of a configuration file.
func Put(path string, b []byte) {
	if err := afero.WriteFile(fs, path, b, 0o644); err != nil {
		panic(err)
	}
}

func reset() {
	viper.Reset()
	viper.SetFs(fs)
}

func init() {
	reset()
	simrt.OnReset(reset)
}

func New() *viper.Viper {
	v := viper.New()
	v.SetFs(fs)
	return v
}

func NewWithOptions(o ...viper.Option) *viper.Viper {
	v := viper.NewWithOptions(o...)
	v.SetFs(fs)
	return v
}

func WatchConfig()                            { simrt.Watch(viper.GetViper()) }
func OnConfigChange(run func(fsnotify.Event)) { simrt.OnChange(viper.GetViper(), run) }

// Changed does what the goroutine of the real package does when the file changes; it runs in a task of the process.
func Changed(path string) {
	for _, w := range simrt.Watchers {
		v, ok := w.V.(*viper.Viper)
		if !ok || !w.On || v.ConfigFileUsed() != path {
			continue
		}
		_ = v.ReadInConfig() // an error is only logged
		if run, ok := w.Run.(func(fsnotify.Event)); ok && run != nil {
			run(fsnotify.Event{Name: path, Op: fsnotify.Write})
		}
	}
}
