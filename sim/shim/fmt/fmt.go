package fmt

import (
	real "fmt"

	"MODPATH/verifsim/shim/os"
)

func Print(a ...any) (int, error)            { return os.Stdout.Write([]byte(real.Sprint(a...))) }
func Println(a ...any) (int, error)          { return os.Stdout.Write([]byte(real.Sprintln(a...))) }
func Printf(f string, a ...any) (int, error) { return os.Stdout.Write([]byte(real.Sprintf(f, a...))) }
func Scan(a ...any) (int, error)             { return real.Fscan(os.Stdin, a...) }
func Scanln(a ...any) (int, error)           { return real.Fscanln(os.Stdin, a...) }
func Scanf(f string, a ...any) (int, error)  { return real.Fscanf(os.Stdin, f, a...) }
