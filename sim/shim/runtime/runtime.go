package runtime

import (
	real "runtime"

	"MODPATH/verifsim/simrt"
)

func Gosched()                                     { simrt.ExitIfKilled(); simrt.Yield() }
func GC()                                          {}
func NumCPU() int                                  { return 4 }
func GOMAXPROCS(int) int                           { return 4 }
func NumGoroutine() int                            { return 10 }
func Goexit()                                      { real.Goexit() }
func KeepAlive(any)                                {}
func Stack(b []byte, all bool) int                 { return 0 }
func ReadMemStats(m *real.MemStats)                {}
func SetFinalizer(o, f any)                        {}
func Caller(skip int) (uintptr, string, int, bool) { return 0, "", 0, false }
