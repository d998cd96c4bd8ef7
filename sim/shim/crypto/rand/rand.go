package rand

import (
	"io"
	"math/big"

	"MODPATH/verifsim/simrt"
)

type rd struct{}

func (rd) Read(b []byte) (int, error) { simrt.RandFill(b); return len(b), nil }

var Reader io.Reader = rd{}

func Read(b []byte) (int, error) { simrt.Y(); simrt.RandFill(b); return len(b), nil }

func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	b := make([]byte, len(max.Bytes())+8)
	if _, err := io.ReadFull(r, b); err != nil {
		return nil, err
	}
	n := new(big.Int).SetBytes(b)
	return n.Mod(n, max), nil
}

func Text() string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	simrt.RandFill(b)
	for i := range b {
		b[i] = a[b[i]&31]
	}
	return string(b)
}
