package ref

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/x509"
)

// Key is an address owner.
type Key struct {
	Priv *ecdsa.PrivateKey
	Pub  []byte
	Pkh  H
}

// NewKey makes a key from 32 bytes.
func NewKey(seed H) *Key {
	for n := byte(0); ; n++ {
		seed[31] ^= n
		k, err := ecdsa.ParseRawPrivateKey(elliptic.P256(), seed[:])
		if err != nil {
			seed = DH(seed[:])
			continue
		}
		pub, err := x509.MarshalPKIXPublicKey(k.Public())
		if err != nil {
			panic(err)
		}
		return &Key{k, pub, DH(pub)}
	}
}

// Sign signs deterministically.
func (k *Key) Sign(h H) []byte {
	s, err := k.Priv.Sign(nil, h[:], crypto.SHA256)
	if err != nil {
		panic(err)
	}
	return s
}

// SignTx signs every input with the given keys (one per input).
func SignTx(t *Tx, keys []*Key) {
	h := t.SigHash()
	for i := range t.Inputs {
		t.Inputs[i].PublicKey = keys[i].Pub
		t.Inputs[i].Signature = keys[i].Sign(h)
	}
}
