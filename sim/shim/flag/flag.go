package flag

import (
	real "flag"
	"io"
	"time"

	"MODPATH/verifsim/simrt"
)

type outw struct{}

func (outw) Write(b []byte) (int, error) {
	if p := simrt.Cur(); p != nil {
		p.WriteOut(b)
	}
	return len(b), nil
}

func fs() *real.FlagSet {
	return simrt.Val("flag.set", func() *real.FlagSet {
		f := real.NewFlagSet("prog", real.ContinueOnError)
		f.SetOutput(outw{})
		return f
	})
}

var Usage = func() { fs().PrintDefaults() }

func Bool(n string, v bool, u string) *bool                       { return fs().Bool(n, v, u) }
func BoolVar(p *bool, n string, v bool, u string)                 { fs().BoolVar(p, n, v, u) }
func String(n, v, u string) *string                               { return fs().String(n, v, u) }
func StringVar(p *string, n, v, u string)                         { fs().StringVar(p, n, v, u) }
func Int(n string, v int, u string) *int                          { return fs().Int(n, v, u) }
func IntVar(p *int, n string, v int, u string)                    { fs().IntVar(p, n, v, u) }
func Int64(n string, v int64, u string) *int64                    { return fs().Int64(n, v, u) }
func Uint(n string, v uint, u string) *uint                       { return fs().Uint(n, v, u) }
func Uint64(n string, v uint64, u string) *uint64                 { return fs().Uint64(n, v, u) }
func Uint64Var(p *uint64, n string, v uint64, u string)           { fs().Uint64Var(p, n, v, u) }
func Float64(n string, v float64, u string) *float64              { return fs().Float64(n, v, u) }
func Duration(n string, v time.Duration, u string) *time.Duration { return fs().Duration(n, v, u) }
func Var(v real.Value, n, u string)                               { fs().Var(v, n, u) }
func Func(n, u string, f func(string) error)                      { fs().Func(n, u, f) }
func Args() []string                                              { return fs().Args() }
func Arg(i int) string                                            { return fs().Arg(i) }
func NArg() int                                                   { return fs().NArg() }
func NFlag() int                                                  { return fs().NFlag() }
func Parsed() bool                                                { return fs().Parsed() }
func PrintDefaults()                                              { fs().PrintDefaults() }
func Visit(f func(*real.Flag))                                    { fs().Visit(f) }
func VisitAll(f func(*real.Flag))                                 { fs().VisitAll(f) }
func Lookup(n string) *real.Flag                                  { return fs().Lookup(n) }
func Set(n, v string) error                                       { return fs().Set(n, v) }
func NewFlagSet(n string, e real.ErrorHandling) *real.FlagSet {
	f := real.NewFlagSet(n, real.ContinueOnError)
	f.SetOutput(outw{})
	return f
}

func Parse() {
	p := simrt.Cur()
	var a []string
	if p != nil && len(p.Args) > 1 {
		a = p.Args[1:]
	}
	if err := fs().Parse(a); err != nil {
		simrt.Exit(2)
	}
}

var _ io.Writer = outw{}
