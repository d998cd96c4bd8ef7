package signal

import (
	"os"

	"MODPATH/verifsim/shim/context"
	"MODPATH/verifsim/simrt"
)

func Notify(c *simrt.Chan[os.Signal], sig ...os.Signal) {}
func Stop(c *simrt.Chan[os.Signal])                     {}
func Ignore(sig ...os.Signal)                           {}
func Reset(sig ...os.Signal)                            {}
func NotifyContext(parent context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	return context.WithCancel(parent)
}
