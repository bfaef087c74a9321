package ref

import (
	"bytes"
	"crypto/ecdh"
	"crypto/ed25519"
	"crypto/sha512"
	"math/big"
	"math/rand"
	"testing"
)

func TestEd(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 50; i++ {
		seed := make([]byte, 32)
		r.Read(seed)
		h := sha512.Sum512(seed)
		pub := EdMulBase(clamp25(h[:32])).Enc()
		if !bytes.Equal(pub, ed25519.NewKeyFromSeed(seed)[32:]) {
			t.Fatal("ed25519")
		}
		k, _ := ecdh.X25519().NewPrivateKey(seed)
		p, _ := KcdsaKeys(seed)
		if !bytes.Equal(p, k.PublicKey().Bytes()) {
			t.Fatal("x25519")
		}
		if !bytes.Equal(leBytes(EdToX(EdMulBase(clamp25(seed)).Y), 32), p) {
			t.Fatal("map")
		}
		msg := seed[:1+r.Intn(31)]
		sig := KcdsaSign(seed, msg)
		if !KcdsaVerify(p, msg, sig) {
			t.Fatal("kcdsa")
		}
		q := EdMulBase(new(big.Int).Mod(leInt(seed), L25))
		if !X25519Verify(leBytes(EdToX(q.Y), 32), msg, X25519Sign(seed, msg, h[:])) {
			t.Fatal("xsig")
		}
		a, b := big.NewInt(r.Int63()), big.NewInt(r.Int63())
		if !bytes.Equal(EdMulBase(a).Add(EdMulBase(b)).Enc(), EdBase.Mul(new(big.Int).Add(a, b)).Enc()) {
			t.Fatal("add")
		}
	}
	if len(EdTorsion()) != 8 {
		t.Fatal("torsion")
	}
}
