// Package ref holds references written from the specifications, slow and plain, that share
// no code with the repository under test.
package ref

import (
	"encoding/binary"
	"math/big"
	"math/bits"
)

// ---- Keccak ----

var keccakRC, keccakRot = func() ([24]uint64, [5][5]int) {
	var rc [24]uint64
	lfsr := byte(1)
	for r := 0; r < 24; r++ {
		for j := 0; j < 7; j++ {
			if lfsr&1 == 1 {
				rc[r] |= 1 << (uint(1)<<uint(j) - 1)
			}
			hi := lfsr & 0x80
			lfsr <<= 1
			if hi != 0 {
				lfsr ^= 0x71
			}
		}
	}
	var rot [5][5]int
	x, y := 1, 0
	for t := 0; t < 24; t++ {
		rot[x][y] = ((t + 1) * (t + 2) / 2) % 64
		x, y = y, (2*x+3*y)%5
	}
	return rc, rot
}()

func keccakF(a *[5][5]uint64) {
	for r := 0; r < 24; r++ {
		var c, d [5]uint64
		for x := 0; x < 5; x++ {
			c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4]
		}
		for x := 0; x < 5; x++ {
			d[x] = c[(x+4)%5] ^ bits.RotateLeft64(c[(x+1)%5], 1)
			for y := 0; y < 5; y++ {
				a[x][y] ^= d[x]
			}
		}
		var b [5][5]uint64
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				b[y][(2*x+3*y)%5] = bits.RotateLeft64(a[x][y], keccakRot[x][y])
			}
		}
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				a[x][y] = b[x][y] ^ (^b[(x+1)%5][y] & b[(x+2)%5][y])
			}
		}
		a[0][0] ^= keccakRC[r]
	}
}

// Keccak is the sponge with the given rate in bytes, domain byte and output length.
func Keccak(rate int, ds byte, out int, msg []byte) []byte {
	m := append([]byte{}, msg...)
	m = append(m, ds)
	for len(m)%rate != 0 {
		m = append(m, 0)
	}
	m[len(m)-1] ^= 0x80
	var a [5][5]uint64
	for len(m) > 0 {
		for i := 0; i < rate/8; i++ {
			a[i%5][i/5] ^= binary.LittleEndian.Uint64(m[8*i:])
		}
		keccakF(&a)
		m = m[rate:]
	}
	var o []byte
	for {
		for i := 0; i < rate/8; i++ {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], a[i%5][i/5])
			o = append(o, b[:]...)
			if len(o) >= out {
				return o[:out]
			}
		}
		keccakF(&a)
	}
}

// ---- BLAKE (SHA-3 finalist) ----

var blakeSigma = [10][16]int{
	{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
	{14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
	{11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4},
	{7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
	{9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13},
	{2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
	{12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11},
	{13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
	{6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5},
	{10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0},
}

// the digits of pi after the point, computed with Machin's formula
var piHex = func() []byte {
	const bitsN = 1200
	one := new(big.Int).Lsh(big.NewInt(1), bitsN+64)
	arctan := func(inv int64) *big.Int {
		sum, term := new(big.Int), new(big.Int).Quo(one, big.NewInt(inv))
		sq := big.NewInt(inv * inv)
		for k := int64(0); term.Sign() != 0; k++ {
			t := new(big.Int).Quo(term, big.NewInt(2*k+1))
			if k%2 == 0 {
				sum.Add(sum, t)
			} else {
				sum.Sub(sum, t)
			}
			term.Quo(term, sq)
		}
		return sum
	}
	pi := new(big.Int).Sub(new(big.Int).Mul(big.NewInt(16), arctan(5)), new(big.Int).Mul(big.NewInt(4), arctan(239)))
	pi.Sub(pi, new(big.Int).Mul(one, big.NewInt(3)))
	pi.Rsh(pi, 64)
	return pi.FillBytes(make([]byte, bitsN/8))
}()

// Blake32 is BLAKE-224/256 of the message with a 16 byte salt (nil: none).
func Blake32(bitsOut int, salt, msg []byte) []byte {
	iv := []uint32{0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19}
	if bitsOut == 224 {
		iv = []uint32{0xC1059ED8, 0x367CD507, 0x3070DD17, 0xF70E5939, 0xFFC00B31, 0x68581511, 0x64F98FA7, 0xBEFA4FA4}
	}
	var c [16]uint32
	for i := range c {
		c[i] = binary.BigEndian.Uint32(piHex[4*i:])
	}
	var s [4]uint32
	for i := range s {
		if salt != nil {
			s[i] = binary.BigEndian.Uint32(salt[4*i:])
		}
	}
	h := append([]uint32{}, iv...)
	m := append([]byte{}, msg...)
	L := uint64(len(msg)) * 8
	m = append(m, 0x80)
	for len(m)%64 != 56 {
		m = append(m, 0)
	}
	if bitsOut == 256 {
		m[len(m)-1] |= 1
	}
	var lb [8]byte
	binary.BigEndian.PutUint64(lb[:], L)
	m = append(m, lb[:]...)
	for blk := 0; blk*64 < len(m); blk++ {
		t := uint64(blk+1) * 512
		if t > L {
			t = L
			if uint64(blk)*512 >= L { // no message bit in this block
				t = 0
			}
		}
		var w [16]uint32
		for i := range w {
			w[i] = binary.BigEndian.Uint32(m[blk*64+4*i:])
		}
		var v [16]uint32
		copy(v[:], h)
		for i := 0; i < 4; i++ {
			v[8+i] = s[i] ^ c[i]
		}
		v[12], v[13] = uint32(t)^c[4], uint32(t)^c[5]
		v[14], v[15] = uint32(t>>32)^c[6], uint32(t>>32)^c[7]
		g := func(r, i, a, b, cc, d int) {
			p, q := blakeSigma[r%10][2*i], blakeSigma[r%10][2*i+1]
			v[a] += v[b] + (w[p] ^ c[q])
			v[d] = bits.RotateLeft32(v[d]^v[a], -16)
			v[cc] += v[d]
			v[b] = bits.RotateLeft32(v[b]^v[cc], -12)
			v[a] += v[b] + (w[q] ^ c[p])
			v[d] = bits.RotateLeft32(v[d]^v[a], -8)
			v[cc] += v[d]
			v[b] = bits.RotateLeft32(v[b]^v[cc], -7)
		}
		for r := 0; r < 14; r++ {
			g(r, 0, 0, 4, 8, 12)
			g(r, 1, 1, 5, 9, 13)
			g(r, 2, 2, 6, 10, 14)
			g(r, 3, 3, 7, 11, 15)
			g(r, 4, 0, 5, 10, 15)
			g(r, 5, 1, 6, 11, 12)
			g(r, 6, 2, 7, 8, 13)
			g(r, 7, 3, 4, 9, 14)
		}
		for i := 0; i < 8; i++ {
			h[i] ^= s[i%4] ^ v[i] ^ v[i+8]
		}
	}
	var out []byte
	for i := 0; i < bitsOut/32; i++ {
		var b [4]byte
		binary.BigEndian.PutUint32(b[:], h[i])
		out = append(out, b[:]...)
	}
	return out
}

// Blake64 is BLAKE-384/512 with a 32 byte salt.
func Blake64(bitsOut int, salt, msg []byte) []byte {
	iv := []uint64{0x6A09E667F3BCC908, 0xBB67AE8584CAA73B, 0x3C6EF372FE94F82B, 0xA54FF53A5F1D36F1, 0x510E527FADE682D1, 0x9B05688C2B3E6C1F, 0x1F83D9ABFB41BD6B, 0x5BE0CD19137E2179}
	if bitsOut == 384 {
		iv = []uint64{0xCBBB9D5DC1059ED8, 0x629A292A367CD507, 0x9159015A3070DD17, 0x152FECD8F70E5939, 0x67332667FFC00B31, 0x8EB44A8768581511, 0xDB0C2E0D64F98FA7, 0x47B5481DBEFA4FA4}
	}
	var c [16]uint64
	for i := range c {
		c[i] = binary.BigEndian.Uint64(piHex[8*i:])
	}
	var s [4]uint64
	for i := range s {
		if salt != nil {
			s[i] = binary.BigEndian.Uint64(salt[8*i:])
		}
	}
	h := append([]uint64{}, iv...)
	m := append([]byte{}, msg...)
	L := uint64(len(msg)) * 8
	m = append(m, 0x80)
	for len(m)%128 != 112 {
		m = append(m, 0)
	}
	if bitsOut == 512 {
		m[len(m)-1] |= 1
	}
	var lb [16]byte
	binary.BigEndian.PutUint64(lb[8:], L)
	m = append(m, lb[:]...)
	for blk := 0; blk*128 < len(m); blk++ {
		t := uint64(blk+1) * 1024
		if t > L {
			t = L
			if uint64(blk)*1024 >= L {
				t = 0
			}
		}
		var w [16]uint64
		for i := range w {
			w[i] = binary.BigEndian.Uint64(m[blk*128+8*i:])
		}
		var v [16]uint64
		copy(v[:], h)
		for i := 0; i < 4; i++ {
			v[8+i] = s[i] ^ c[i]
		}
		v[12], v[13] = t^c[4], t^c[5]
		v[14], v[15] = c[6], c[7]
		g := func(r, i, a, b, cc, d int) {
			p, q := blakeSigma[r%10][2*i], blakeSigma[r%10][2*i+1]
			v[a] += v[b] + (w[p] ^ c[q])
			v[d] = bits.RotateLeft64(v[d]^v[a], -32)
			v[cc] += v[d]
			v[b] = bits.RotateLeft64(v[b]^v[cc], -25)
			v[a] += v[b] + (w[q] ^ c[p])
			v[d] = bits.RotateLeft64(v[d]^v[a], -16)
			v[cc] += v[d]
			v[b] = bits.RotateLeft64(v[b]^v[cc], -11)
		}
		for r := 0; r < 16; r++ {
			g(r, 0, 0, 4, 8, 12)
			g(r, 1, 1, 5, 9, 13)
			g(r, 2, 2, 6, 10, 14)
			g(r, 3, 3, 7, 11, 15)
			g(r, 4, 0, 5, 10, 15)
			g(r, 5, 1, 6, 11, 12)
			g(r, 6, 2, 7, 8, 13)
			g(r, 7, 3, 4, 9, 14)
		}
		for i := 0; i < 8; i++ {
			h[i] ^= s[i%4] ^ v[i] ^ v[i+8]
		}
	}
	var out []byte
	for i := 0; i < bitsOut/64; i++ {
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], h[i])
		out = append(out, b[:]...)
	}
	return out
}

// ---- BLAKE2s ----

// B2Tree are the tree parameters of BLAKE2s.
type B2Tree struct {
	Fanout, Depth byte
	Leaf          uint32
	Offset        uint64
	NodeDepth     byte
	Inner         byte
	Last          bool
}

// Blake2s is BLAKE2s with every parameter.
func Blake2s(size int, key, salt, person []byte, tree *B2Tree, msg []byte) []byte {
	iv := [8]uint32{0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19}
	var p [32]byte
	p[0], p[1], p[2], p[3] = byte(size), byte(len(key)), 1, 1
	if tree != nil {
		p[2], p[3] = tree.Fanout, tree.Depth
		binary.LittleEndian.PutUint32(p[4:], tree.Leaf)
		for i := 0; i < 6; i++ {
			p[8+i] = byte(tree.Offset >> (8 * uint(i)))
		}
		p[14], p[15] = tree.NodeDepth, tree.Inner
	}
	copy(p[16:24], salt)
	copy(p[24:32], person)
	var h [8]uint32
	for i := range h {
		h[i] = iv[i] ^ binary.LittleEndian.Uint32(p[4*i:])
	}
	var data []byte
	if len(key) > 0 {
		data = append(data, key...)
		data = append(data, make([]byte, 64-len(key))...)
	}
	data = append(data, msg...)
	total := uint64(len(data))
	if len(data) == 0 || len(data)%64 != 0 {
		data = append(data, make([]byte, 64-len(data)%64)...)
	}
	for off := 0; off < len(data); off += 64 {
		last := off+64 == len(data)
		t := uint64(off + 64)
		if last {
			t = total
		}
		var m [16]uint32
		for i := range m {
			m[i] = binary.LittleEndian.Uint32(data[off+4*i:])
		}
		var v [16]uint32
		copy(v[:8], h[:])
		copy(v[8:], iv[:])
		v[12] ^= uint32(t)
		v[13] ^= uint32(t >> 32)
		if last {
			v[14] = ^v[14]
			if tree != nil && tree.Last {
				v[15] = ^v[15]
			}
		}
		g := func(r, i, a, b, c, d int) {
			v[a] += v[b] + m[blakeSigma[r][2*i]]
			v[d] = bits.RotateLeft32(v[d]^v[a], -16)
			v[c] += v[d]
			v[b] = bits.RotateLeft32(v[b]^v[c], -12)
			v[a] += v[b] + m[blakeSigma[r][2*i+1]]
			v[d] = bits.RotateLeft32(v[d]^v[a], -8)
			v[c] += v[d]
			v[b] = bits.RotateLeft32(v[b]^v[c], -7)
		}
		for r := 0; r < 10; r++ {
			g(r, 0, 0, 4, 8, 12)
			g(r, 1, 1, 5, 9, 13)
			g(r, 2, 2, 6, 10, 14)
			g(r, 3, 3, 7, 11, 15)
			g(r, 4, 0, 5, 10, 15)
			g(r, 5, 1, 6, 11, 12)
			g(r, 6, 2, 7, 8, 13)
			g(r, 7, 3, 4, 9, 14)
		}
		for i := range h {
			h[i] ^= v[i] ^ v[i+8]
		}
	}
	var out [32]byte
	for i := range h {
		binary.LittleEndian.PutUint32(out[4*i:], h[i])
	}
	return out[:size:size]
}

// ---- SM3 ----

// SM3 is the digest of GB/T 32905.
func SM3(msg []byte) []byte {
	v := [8]uint32{0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e}
	m := append([]byte{}, msg...)
	m = append(m, 0x80)
	for len(m)%64 != 56 {
		m = append(m, 0)
	}
	var lb [8]byte
	binary.BigEndian.PutUint64(lb[:], uint64(len(msg))*8)
	m = append(m, lb[:]...)
	p0 := func(x uint32) uint32 { return x ^ bits.RotateLeft32(x, 9) ^ bits.RotateLeft32(x, 17) }
	p1 := func(x uint32) uint32 { return x ^ bits.RotateLeft32(x, 15) ^ bits.RotateLeft32(x, 23) }
	for ; len(m) > 0; m = m[64:] {
		var w [68]uint32
		for i := 0; i < 16; i++ {
			w[i] = binary.BigEndian.Uint32(m[4*i:])
		}
		for i := 16; i < 68; i++ {
			w[i] = p1(w[i-16]^w[i-9]^bits.RotateLeft32(w[i-3], 15)) ^ bits.RotateLeft32(w[i-13], 7) ^ w[i-6]
		}
		a, b, c, d, e, f, g, h := v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]
		for j := 0; j < 64; j++ {
			t := uint32(0x79cc4519)
			ff := a ^ b ^ c
			gg := e ^ f ^ g
			if j >= 16 {
				t = 0x7a879d8a
				ff = (a & b) | (a & c) | (b & c)
				gg = (e & f) | (^e & g)
			}
			ss1 := bits.RotateLeft32(bits.RotateLeft32(a, 12)+e+bits.RotateLeft32(t, j%32), 7)
			ss2 := ss1 ^ bits.RotateLeft32(a, 12)
			tt1 := ff + d + ss2 + (w[j] ^ w[j+4])
			tt2 := gg + h + ss1 + w[j]
			d, c, b, a = c, bits.RotateLeft32(b, 9), a, tt1
			h, g, f, e = g, bits.RotateLeft32(f, 19), e, p0(tt2)
		}
		for i, x := range []uint32{a, b, c, d, e, f, g, h} {
			v[i] ^= x
		}
	}
	out := make([]byte, 32)
	for i := range v {
		binary.BigEndian.PutUint32(out[4*i:], v[i])
	}
	return out
}

// KDF is the key derivation function of SM2.
func KDF(z []byte, n int) []byte {
	var out []byte
	for ct := uint32(1); len(out) < n; ct++ {
		out = append(out, SM3(append(append([]byte{}, z...), byte(ct>>24), byte(ct>>16), byte(ct>>8), byte(ct)))...)
	}
	return out[:n]
}

// HMAC over any of the above.
func HMAC(h func([]byte) []byte, block int, key, msg []byte) []byte {
	if len(key) > block {
		key = h(key)
	}
	ik, ok := make([]byte, block), make([]byte, block)
	copy(ik, key)
	copy(ok, key)
	for i := range ik {
		ik[i] ^= 0x36
		ok[i] ^= 0x5c
	}
	return h(append(ok, h(append(ik, msg...))...))
}
