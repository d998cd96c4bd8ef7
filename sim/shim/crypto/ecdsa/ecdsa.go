package ecdsa

import (
	"crypto"
	real "crypto/ecdsa"
	"crypto/elliptic"
	"io"
	"math/big"

	"MODPATH/verifsim/simrt"
)

// Key generation and signing are deterministic under the simulator: keys come
// from the process's random source, signatures use RFC 6979.

func GenerateKey(c elliptic.Curve, r io.Reader) (*real.PrivateKey, error) {
	n := (c.Params().BitSize + 7) / 8
	for {
		b := make([]byte, n)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		k, err := real.ParseRawPrivateKey(c, b)
		if err == nil {
			return k, nil
		}
	}
}

func SignASN1(r io.Reader, k *real.PrivateKey, hash []byte) ([]byte, error) {
	simrt.Y()
	return k.Sign(nil, hash, crypto.SHA256)
}

func VerifyASN1(pub *real.PublicKey, hash, sig []byte) bool {
	simrt.Y()
	return real.VerifyASN1(pub, hash, sig)
}

var _ = big.NewInt
