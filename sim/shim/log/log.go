package log

import (
	"fmt"
	"io"
	real "log"

	"MODPATH/verifsim/shim/os"
	"MODPATH/verifsim/simrt"
)

func out(s string) {
	if n := len(s); n == 0 || s[n-1] != '\n' {
		s += "\n"
	}
	os.Stderr.Write([]byte(s))
}
func Print(a ...any)                                { out(fmt.Sprint(a...)) }
func Println(a ...any)                              { out(fmt.Sprintln(a...)) }
func Printf(f string, a ...any)                     { out(fmt.Sprintf(f, a...)) }
func Fatal(a ...any)                                { Print(a...); simrt.Exit(1) }
func Fatalln(a ...any)                              { Println(a...); simrt.Exit(1) }
func Fatalf(f string, a ...any)                     { Printf(f, a...); simrt.Exit(1) }
func Panic(a ...any)                                { s := fmt.Sprint(a...); out(s); panic(s) }
func Panicf(f string, a ...any)                     { s := fmt.Sprintf(f, a...); out(s); panic(s) }
func SetFlags(int)                                  {}
func SetPrefix(string)                              {}
func SetOutput(io.Writer)                           {}
func Default() *real.Logger                         { return real.New(os.Stderr, "", 0) }
func New(w io.Writer, p string, f int) *real.Logger { return real.New(w, p, 0) }
