package debug

import (
	"MODPATH/verifsim/simrt"
)

func PrintStack() {
	if p := simrt.Cur(); p != nil {
		p.WriteOut([]byte("[stack]\n"))
	}
}
func Stack() []byte        { return []byte("[stack]\n") }
func FreeOSMemory()        {}
func SetGCPercent(int) int { return 100 }
func SetMaxStack(int) int  { return 1 << 30 }
