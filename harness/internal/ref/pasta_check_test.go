package ref

import (
	"math/big"
	"testing"
)

func TestPoseidonLegacyVectors(t *testing.T) {
	z := big.NewInt(0)
	iv := [3]*big.Int{z, z, z}
	t.Logf("%x", Poseidon(iv, nil).FillBytes(make([]byte, 32)))
	t.Logf("le %x", leBytes(Poseidon(iv, nil), 32))
	in := leInt(hx("df698e389c6f1987ffe186d806f8163738f5bf22e8be02572cce99dc6a4ab030").Bytes())
	t.Logf("le %x", leBytes(Poseidon(iv, []*big.Int{in}), 32))
	if got := leBytes(Poseidon(iv, nil), 32); string(got) != string(hx("1b3251b6912d82edc78bbb0a5c88f0c6fde1781bc3e654123fa6862a4c63e617").Bytes()) {
		t.Error("empty")
	}
	if got := leBytes(Poseidon(iv, []*big.Int{in}), 32); string(got) != string(hx("f9b1b6c5f8c98017c6b35ac74bc689b6533d6dbbee1fd868831b637a43ea720c").Bytes()) {
		t.Error("one")
	}
}
