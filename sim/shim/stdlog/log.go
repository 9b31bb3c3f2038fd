// Package log stands in for the standard package: nothing is printed, Fatal ends the simulated process.
package log

import (
	"fmt"
	"io"
	"log"

	"verifsim/simrt"
)

type Logger = log.Logger

func fatal(s string)                       { simrt.ExitHere(1, "log.Fatal: "+s) }
func Fatal(v ...any)                       { fatal(fmt.Sprint(v...)) }
func Fatalf(f string, v ...any)            { fatal(fmt.Sprintf(f, v...)) }
func Fatalln(v ...any)                     { fatal(fmt.Sprintln(v...)) }
func Panic(v ...any)                       { panic(fmt.Sprint(v...)) }
func Panicf(f string, v ...any)            { panic(fmt.Sprintf(f, v...)) }
func Panicln(v ...any)                     { panic(fmt.Sprintln(v...)) }
func Print(v ...any)                       {}
func Printf(f string, v ...any)            {}
func Println(v ...any)                     {}
func Output(calldepth int, s string) error { return nil }
func SetOutput(w io.Writer)                {}
func SetFlags(int)                         {}
func SetPrefix(string)                     {}
func Default() *Logger                     { return log.New(io.Discard, "", 0) }
