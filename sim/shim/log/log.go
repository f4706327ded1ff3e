// Package log is what instrumented code gets for "log".
package log

import (
	"fmt"
	"io"
	real "log"

	"vsim/shim/os"
)

var std = real.New(os.Stderr, "", 0)

func Default() *Logger                  { return std }
func SetFlags(f int)                    {}
func Flags() int                        { return 0 }
func SetPrefix(p string)                {}
func Prefix() string                    { return "" }
func SetOutput(w io.Writer)             {}
func Writer() io.Writer                 { return os.Stderr }
func Output(d int, s string) error      { return std.Output(d, s) }
func Print(a ...interface{})            { std.Print(a...) }
func Println(a ...interface{})          { std.Println(a...) }
func Printf(f string, a ...interface{}) { std.Printf(f, a...) }
func Fatal(a ...interface{})            { std.Print(a...); os.Exit(1) }
func Fatalln(a ...interface{})          { std.Println(a...); os.Exit(1) }
func Fatalf(f string, a ...interface{}) { std.Printf(f, a...); os.Exit(1) }
func Panic(a ...interface{})            { panic(fmt.Sprint(a...)) }
func Panicln(a ...interface{})          { panic(fmt.Sprintln(a...)) }
func Panicf(f string, a ...interface{}) { panic(fmt.Sprintf(f, a...)) }
