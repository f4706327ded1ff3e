// Package fmt is what instrumented code gets for "fmt": printing without a
// writer goes to the simulated process's standard output.
package fmt

import (
	real "fmt"

	"vsim/shim/os"
)

func Print(a ...interface{}) (int, error)            { return real.Fprint(os.Stdout, a...) }
func Println(a ...interface{}) (int, error)          { return real.Fprintln(os.Stdout, a...) }
func Printf(f string, a ...interface{}) (int, error) { return real.Fprintf(os.Stdout, f, a...) }
func Scan(a ...interface{}) (int, error)             { return real.Fscan(os.Stdin, a...) }
func Scanln(a ...interface{}) (int, error)           { return real.Fscanln(os.Stdin, a...) }
func Scanf(f string, a ...interface{}) (int, error)  { return real.Fscanf(os.Stdin, f, a...) }
