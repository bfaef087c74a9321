package ref

import (
	"encoding/json"
	"math/big"
)

// PQ is the order of Pallas, PP its base field.
var (
	PP = Pallas.P
	PQ = Pallas.N

	pk3, pmds []*big.Int
	// MinaTestnet and MainnetIV are the initial sponge states.
	MinaTestnet, MinaMainnet [3]*big.Int
)

func init() {
	for _, s := range poseidonKeys {
		pk3 = append(pk3, hx(s))
	}
	for _, s := range poseidonMDS {
		pmds = append(pmds, hx(s))
	}
	for i := 0; i < 3; i++ {
		MinaTestnet[i], MinaMainnet[i] = hx(poseidonIV[i]), hx(poseidonIV[3+i])
	}
}

// PoseidonPerm is the permutation: 63 rounds of key, fifth power and matrix, and a last key.
func PoseidonPerm(s [3]*big.Int) [3]*big.Int {
	var st [3]*big.Int
	for i := range s {
		st[i] = new(big.Int).Set(s[i])
	}
	for r := 0; r < 63; r++ {
		var b [3]*big.Int
		for i := range st {
			v := new(big.Int).Add(st[i], pk3[3*r+i])
			v.Mod(v, PP)
			w := new(big.Int).Mul(v, v)
			w.Mod(w, PP)
			w.Mul(w, w).Mod(w, PP)
			b[i] = w.Mul(w, v).Mod(w, PP)
		}
		for i := range st {
			a := new(big.Int)
			for j := range b {
				a.Add(a, new(big.Int).Mul(pmds[3*i+j], b[j]))
			}
			st[i] = a.Mod(a, PP)
		}
	}
	for i := range st {
		st[i].Add(st[i], pk3[63*3+i]).Mod(st[i], PP)
	}
	return st
}

// PoseidonState absorbs at rate 2 and returns the state before and after the last permutation.
func PoseidonState(iv [3]*big.Int, in []*big.Int) (before, after [3]*big.Int) {
	st := iv
	n := 0
	for _, x := range in {
		if n == 2 {
			st = PoseidonPerm(st)
			n = 0
		}
		v := new(big.Int).Add(st[n], x)
		st[n] = v.Mod(v, PP)
		n++
	}
	return st, PoseidonPerm(st)
}

// Poseidon is the digest.
func Poseidon(iv [3]*big.Int, in []*big.Int) *big.Int {
	_, a := PoseidonState(iv, in)
	return a[0]
}

// Limbs is the Montgomery form in four words, little endian.
func Limbs(v, p *big.Int) (l [4]uint64) {
	t := new(big.Int).Lsh(v, 256)
	return RawLimbs(t.Mod(t, p))
}

// RawLimbs is v in four words.
func RawLimbs(v *big.Int) (l [4]uint64) {
	m := new(big.Int).SetUint64(^uint64(0))
	for i := range l {
		l[i] = new(big.Int).And(new(big.Int).Rsh(v, uint(64*i)), m).Uint64()
	}
	return
}

// RawInt reads four words.
func RawInt(l [4]uint64) *big.Int {
	v := new(big.Int)
	for i := 3; i >= 0; i-- {
		v.Lsh(v, 64)
		v.Or(v, new(big.Int).SetUint64(l[i]))
	}
	return v
}

// FromLimbs reads the Montgomery form.
func FromLimbs(l [4]uint64, p *big.Int) *big.Int {
	r := new(big.Int).Lsh(big.NewInt(1), 256)
	v := RawInt(l)
	v.Mul(v, r.ModInverse(r, p))
	return v.Mod(v, p)
}

// MinaMsg is a message by value.
type MinaMsg struct {
	Prefix, Suffix []*big.Int
	IV             [3]*big.Int
}

func limbs(in []*big.Int) [][4]uint64 {
	o := [][4]uint64{}
	for _, v := range in {
		o = append(o, Limbs(v, PP))
	}
	return o
}

// JSON is the documented form of the message.
func (m MinaMsg) JSON() []byte {
	b, err := json.Marshal(map[string]interface{}{
		"transactionPrefix": limbs(m.Prefix), "transactionSuffix": limbs(m.Suffix), "spongeIV": limbs(m.IV[:]),
	})
	if err != nil {
		panic(err)
	}
	return b
}

// Hash is the challenge.
func (m MinaMsg) Hash(pub Pt, rx *big.Int) *big.Int {
	in := append([]*big.Int{}, m.Prefix...)
	in = append(in, pub.X, pub.Y, rx)
	in = append(in, m.Suffix...)
	e := Poseidon(m.IV, in)
	return new(big.Int).Mod(e, PQ)
}

// Sign with a chosen nonce.
func (m MinaMsg) Sign(d, k *big.Int) []byte {
	r := Pallas.MulG(k)
	kk := new(big.Int).Set(k)
	if r.Y.Bit(0) == 1 {
		kk.Neg(kk)
	}
	e := m.Hash(Pallas.MulG(d), r.X)
	e.Mul(e, d).Add(e, kk).Mod(e, PQ)
	return append(r.X.FillBytes(make([]byte, 32)), e.FillBytes(make([]byte, 32))...)
}

// Verify decides for a point of the curve.
func (m MinaMsg) Verify(pub Pt, sig []byte) bool {
	if len(sig) != 64 || !Pallas.On(pub) {
		return false
	}
	r, s := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])
	if r.Cmp(PP) >= 0 || s.Cmp(PQ) >= 0 {
		return false
	}
	e := m.Hash(pub, r)
	R := Pallas.Add(Pallas.MulG(s), Pallas.Neg(Pallas.Mul(pub, e)))
	return !R.Inf() && R.Y.Bit(0) == 0 && R.X.Cmp(r) == 0
}
