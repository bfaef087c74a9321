package bl

import (
	"encoding/hex"
	"math/big"
	"math/rand"
	"testing"

	"owverif/internal/mon"
)

func rnd(r *rand.Rand) *big.Int { return new(big.Int).Rand(r, P) }

func TestField(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 3000; i++ {
		x, y := rnd(r), rnd(r)
		if i%3 == 0 {
			x.Sub(P, big.NewInt(int64(i%50+1)))
		}
		if i%5 == 0 {
			y.Sub(P, big.NewInt(int64(i%7+1)))
		}
		a, b := FpInt(x), FpInt(y)
		m := new(big.Int).Mul(x, y)
		if a.Mul(b).Int().Cmp(m.Mod(m, P)) != 0 {
			t.Fatal("mul")
		}
		m.Add(x, y)
		if a.Add(b).Int().Cmp(m.Mod(m, P)) != 0 {
			t.Fatal("add")
		}
		m.Sub(x, y)
		if a.Sub(b).Int().Cmp(m.Mod(m, P)) != 0 {
			t.Fatal("sub")
		}
	}
	for i := 0; i < 200; i++ {
		a := Fp2{FpInt(rnd(r)), FpInt(rnd(r))}
		if i%10 == 0 {
			a.B = Fp{}
		}
		s, ok := a.Mul(a).Sqrt()
		if !ok || s != a && s != a.Neg() {
			t.Fatal("sqrt")
		}
		if a.Mul(a.Inv()) != a.One() {
			t.Fatal("inv")
		}
	}
}

func TestGroups(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 5; i++ {
		p, ok := G1.Lift(FpInt(rnd(r)), true)
		if ok && !G1.Mul(G1.Mul(p, G1.H), R).Inf {
			t.Fatal("cofactor 1")
		}
		q, ok := G2.Lift(Fp2{FpInt(rnd(r)), FpInt(rnd(r))}, false)
		if ok && !G2.Mul(G2.Mul(q, G2.H), R).Inf {
			t.Fatal("cofactor 2")
		}
		k := rnd(r)
		if G2.MulG(k) != G2.Mul(G2.G, k) || G1.MulG(k) != G1.Mul(G1.G, k) {
			t.Fatal("mulg")
		}
		a := G2.MulG(k)
		b := G2.MulG(big.NewInt(7))
		if G2.Add(a, b) != G2.MulG(k.Add(k, big.NewInt(7))) {
			t.Fatal("add")
		}
		x, ok := G2.FromComp(G2.Comp(a))
		if !ok || x != a {
			t.Fatal("comp")
		}
		x, ok = G2.FromFull(G2.Full(a))
		if !ok || x != a {
			t.Fatal("full")
		}
	}
}

func TestHash(t *testing.T) {
	p := Hash1(nil, []byte("QUUX-V01-CS02-with-BLS12381G1_XMD:SHA-256_SSWU_RO_"))
	if hex.EncodeToString(G1.Full(p)) != "052926add2207b76ca4fa57a8734416c8dc95e24501772c814278700eed6d1e4e8cf62d9c09db0fac349612b759e79a108ba738453bfed09cb546dbb0783dbb3a5f1f566ed67bb6be0e8c67e2e81a4cc68ee29813bb7994998f3eae0c9c6a265" {
		t.Error("G1", hex.EncodeToString(G1.Full(p)))
	}
	q := Hash2(nil, []byte("QUUX-V01-CS02-with-BLS12381G2_XMD:SHA-256_SSWU_RO_"))
	if hex.EncodeToString(G2.Full(q)) != "05cb8437535e20ecffaef7752baddf98034139c38452458baeefab379ba13dff5bf5dd71b72418717047f5b0f37da03d0141ebfbdca40eb85b87142e130ab689c673cf60f1a3e98d69335266f30d9b8d4ac44c1038e9dcdd5393faf5c41fb78a"+
		"12424ac32561493f3fe3c260708a12b7c620e7be00099a974e259ddc7d1f6395c3c811cdd19f1e8dbf3e9ecfdcbab8d60503921d7f6a12805e72940b963c0cf3471c7b2a524950ca195d11062ee75ec076daf2d4bc358c4b190c0c98064fdd92" {
		t.Error("G2", hex.EncodeToString(G2.Full(q)))
	}
	// the special case of the map, and its homomorphism
	for _, u := range []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(-1)} {
		if !G1.On(Map1(FpInt(u))) || !G2.On(Map2(Fp2{A: FpInt(u)})) || !G2.On(Map2(Fp2{B: FpInt(u)})) {
			t.Error("map", u)
		}
	}
}

func TestPair(t *testing.T) {
	e := Pair(G1.G, G2.G)
	if e == One12() || e.Exp(R) != One12() {
		t.Error("degenerate")
	}
	a, b := big.NewInt(1234567), new(big.Int).Sub(R, big.NewInt(99))
	ab := new(big.Int).Mul(a, b)
	if Pair(G1.MulG(a), G2.MulG(b)) != e.Exp(ab.Mod(ab, R)) {
		t.Error("bilinear")
	}
	if x, ok := FromBytes(e.Bytes()); !ok || x != e {
		t.Error("bytes")
	}
	t.Logf("%x", e.Bytes()[:48])
}

func BenchmarkHash2(b *testing.B) {
	for i := 0; i < b.N; i++ {
		Hash2([]byte{byte(i)}, []byte("x"))
	}
}

func BenchmarkPair(b *testing.B) {
	for i := 0; i < b.N; i++ {
		Pair(G1.G, G2.G)
	}
}

func TestSpecial(t *testing.T) {
	n := 0
	ri := new(big.Int).ModInverse(new(big.Int).Lsh(big.NewInt(1), 384), P)
	c := &mon.Ctx{Rand: mon.NewRand("special")}
	val := func(a Fp) *big.Int {
		v := new(big.Int)
		for i := 5; i >= 0; i-- {
			v.Lsh(v, 64).Or(v, new(big.Int).SetUint64(a[i]))
		}
		return v
	}
	for ; n < 300000; n++ {
		a, b := Special(c), Special(c)
		w := new(big.Int).Mul(val(a), val(b))
		w.Mul(w, ri).Mod(w, P)
		if val(a.Mul(b)).Cmp(w) != 0 {
			t.Fatalf("mul %x %x", a, b)
		}
		w.Add(val(a), val(b)).Mod(w, P)
		if val(a.Add(b)).Cmp(w) != 0 {
			t.Fatalf("add %x %x", a, b)
		}
		w.Sub(val(a), val(b)).Mod(w, P)
		if val(a.Sub(b)).Cmp(w) != 0 {
			t.Fatalf("sub %x %x", a, b)
		}
	}
}
