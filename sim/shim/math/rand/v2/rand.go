package rand

import (
	real "math/rand/v2"

	"MODPATH/verifsim/simrt"
)

type src struct{}

func (src) Uint64() uint64 { return simrt.RandSrc().U64() }

func g() *real.Rand { simrt.Y(); return real.New(src{}) }

func Int() int                           { return g().Int() }
func IntN(n int) int                     { return g().IntN(n) }
func Int64() int64                       { return g().Int64() }
func Int64N(n int64) int64               { return g().Int64N(n) }
func Int32N(n int32) int32               { return g().Int32N(n) }
func Uint32() uint32                     { return g().Uint32() }
func Uint64() uint64                     { return g().Uint64() }
func Uint64N(n uint64) uint64            { return g().Uint64N(n) }
func UintN(n uint) uint                  { return g().UintN(n) }
func Float64() float64                   { return g().Float64() }
func Perm(n int) []int                   { return g().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g().Shuffle(n, swap) }
