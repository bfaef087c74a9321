package bl

import (
	"math/big"

	"owverif/internal/mon"
)

// WordPair is two field elements, or words close to such, whose internal forms make two carries of a
// word-by-word Montgomery multiplication meet in one place.
func WordPair(c *mon.Ctx) (a, b Fp) {
	for {
		p := pairs[c.Intn(len(pairs))]
		a, b = words(hx(p[0])), words(hx(p[1]))
		for n := c.Intn(3); n > 0; n-- {
			w := c.U64()
			switch c.Intn(4) {
			case 0:
				w = ^uint64(0)
			case 1:
				w = 0
			}
			if c.Bool() {
				a[c.Intn(6)] = w
			} else {
				b[c.Intn(6)] = w
			}
		}
		if c.Bool() {
			a, b = b, a
		}
		if raw(a).Cmp(P) < 0 && raw(b).Cmp(P) < 0 {
			return
		}
	}
}

func raw(a Fp) *big.Int {
	v := new(big.Int)
	for i := 5; i >= 0; i-- {
		v.Lsh(v, 64).Or(v, new(big.Int).SetUint64(a[i]))
	}
	return v
}

var pairs = [][2]string{
	{"15f65ebbfa80e48d000000000000000000000000000000006730d2a0f6b0f6230000000000000000b9feffffffffaaab", "000000000000000000000000000000000000000000000000fffffffffffffffffffffffffffffffd0000000000000000"},
	{"0000000000000000ffffffffffffffffffffffffffffffff000000000000000000000000000000000000000000000000", "023ace7d542a6af8ffffffffffffffffffffffffffffffff2bbbac27086b0355fffffffffffffffdb9feffffffffaaab"},
	{"00000000000000000000000000000000fffffffffffffffe0000000000000000fffffffffffffffffffffffffffffffc", "15f65ec1fa80e48c0000000000000000000000000000000000000000000000000000000000000000b9feffffffffaaab"},
	{"000000000000000000000000000000000000000000000000ffffffffffffffffffffffffffffffef0000000000000000", "15f65ec3fa80e488000000000000000064774b84f38512bf18664e6e875dc7b9ffe0000000000000b9feffffffffaaab"},
	{"1a0111ea397fe69900000000000000000000000000000000784d7ca685781acf00000000000000000000000000000000", "1a0111ea397fe6990000000000800000ffffffffffffffff00000000000000000000000000000000b9feffffffffaaab"},
	{"0000000000000000fffffffffffffffffffffffc00000000000000000000000000000000000000000000000000000000", "1a0111ea397fe69900000000000000000be0252c95b875fd00000000000000000000000000000000b9feffffffffaaab"},
	{"0000000000000000ffffffffffffffffffffffffffffffff000000000000000000000000000000000000000000000000", "15f65ec3fa80e48b000000000000000000000000000000036730d2a0f6b0f624ffffffffffe00000b9feffffffffaaab"},
	{"15f65ec3fa60e48cfffffffffffffffefffffffffeffffff0000000000000000ffffffc000000000b9feffffffffaaab", "000000000000000000000000000000000000000000000000ffffffffffffffffffffffffffffffbf0000000000000000"},
	{"0000000000000001ffffffffffffffffffffffffffffffff000000000000400000000000000000000000000000000000", "1a0111ea397fe699fffffffeffffffff00000000000000000000000000040000ff80000000000000b9feffffffffaaab"},
	{"00000000000000000000000000000000ffffffffffffffffffffffffffffffff00000000000000000000000000000000", "15f65ec3fa80e48b00000000000000000000000000000002ffffffffffbfffff1eabfffeb153ffffb9feffffffffaaab"},
	{"15f65ec3fa80e48a000000000000000000000000000000036730d2a0f6b0f625ffffffffffffffffb9feffffffffaaab", "0000000000000000ffffffffffffffffffffffffffffffff000000000000000000000000000000000000000000000000"},
	{"00000000000000000000000010000000ffffefffffffffff0000000020000000fffffffffffffffffffffffffffffffb", "15f65ec2fa80e48d0000000000000000000000000000000000000000000000000000000000000000b9feffffffffaaab"},
	{"1a0111ea397fe699fffffffffc000000ffffffffffffffffffffffffffffffffffffffffffffffffb9feffffffffaaab", "0000000000000000f7ffffffffffffff0000000000000002ffffffffffffffffffffffffffffffff0000000000000002"},
	{"1743b860d1c8b9bc0000000000000000000000000000000000000008000000000000000000000000b9feffffffffaaab", "0000000000000000000000000000000000000000000000000000000000000000ffffffffffffffffffffffffffffffff"},
	{"1a0111ea397fe69a0000000000000000000000000000000000000000000000000000000000000000b9feffffffffaaab", "00000000000000026a033709b185de850000000000000003ffffffffffffffffffffffffbfffffff0000000000000000"},
	{"1a0111ea397fe69a4b1ba7b6434bacd6000000000000000000000000000000001eabfffeb1540000b9feffffffffaaab", "15f65ec3fa40e48dffffffffffffffffffffffffffffffffffffffff7fffffff00000000000000000000000000000000"},
	{"15f65ec3fa80e48c00000000000000000000000000000000ffffffffffffff7f0000000000000200b9feffffffffaaab", "0000000000000000ffffffffffffffffffffffffffffffff000000000000000000000000000000000000000000000000"},
	{"00000000000000004b1ba7b6434bacd80000000000000003fffffffffffffffffffffffffffffffc0000000000000000", "00000100000000000000000000000000000000000000000000000000000000000000000000000000b9feffffffffaaab"},
	{"0000000000000000000000000000000098e92b79ce7a9570fffffffffffffffffffffffffffffffdb9feffffffffaaab", "00000000000000000001000000000000ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"},
	{"15f65ec3fa80a48c0000000000000000000000000000000000000000000000000000000000000000b9feffffffffaaab", "0000000000000000000000000000000009c5319c1a1037d00000000000000000ffffffffffffffffffffffffffffffff"},
	{"0c1592997e88cb2affff7fffffffffff785671efa373e0d800000000000000000000000000000001b9feffffffffaaab", "00000000000000000000000000000000ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"},
	{"1a0111ea397fe699fffffffffffffffffffffeffffffffffffffffffffffeffffffffffffffc0000b9feffffffffaaab", "0000000000000000000000000000000000000000000000000000000000000000ffffffffffffffffb9feffffffffaaab"},
	{"0000000000000000ffffffffffffffffffffffffffffffff000000000000000000000000000000000000000000000000", "0000000200000000ffffffffffffffffffffffbfffffffff6730d2a0f6b0f6250000000000000002b9feffffffffaaab"},
	{"15f65ec3fa80e48cfffffffffffffffcffffffffffffffffffffffffffffffffffffffffffffff00b9feffffffffaaab", "0000000000000000ffffffffffffffffffffffffffffffffffffffffffffffff00000000000000000000000000000000"},
	{"15f65ec3f880e48d0000000000000000000000000000000000000000000000000000000000000000b9feffffffffaaab", "00000000000000000000000000000000018fb33f668eace83f7b8515aa129e7dffffffffffffffffffffffffffffffff"},
	{"000000000000000000000000000000000000000000000000ffffffffffffffffffffffffffffffff0000000000000000", "15f65ec3f280e48d00000000000000000000000000000001ffffffffffffffff1eabfffeb153fffeb9feffffffffaaab"},
	{"0000000000000000000000000000000000000000000000000000000000000000ffffffffffffffffffffffffffffffff", "15f65ec3fa80e48c0000000000000000000000000000000000000000000000005443781d2d8ec6f0b9feffffffffaaab"},
	{"15f65ec3fa80e48c0000000000000000000000000000000000000000000000000000000000000000b9feffffffffaaab", "15f65e43fa80e48cfffffffffffffffffffffffffffffffe000000000000000000000000000000000000000000000000"},
	{"0000000000000000000000000000000064774b84f38512becac5eeb975b30507ffffffffffffffffffffffffffffffff", "15f65ec3fa80e48c0000000000000000000000000000000000000000000000000ff4f2a796a8aa4cb9feffffffffaaab"},
	{"15f65ec3fa80e44cfffffffffffffffffffffffffff7ffffffffffffffffffffffffffffffbfffffb9feffffffffaaab", "00000000000000000000000000000000fffffffffffffffffffffffffffffffc00000000000000000000000000000000"},
	{"0000000000008000ff00000000000000ff7fffffffffffffffffffffffffffffebcce018504b333d0000000000000000", "1a0111ea397fe6990000000000000000000000000000000000000000000000000000000000000000b9feffffffffaaab"},
	{"15f65ec1fa80e48cfffffffffffffffffffffffffffffffe00000000001000009a5f76be81252224b9feffffffffaaab", "0000000000000000ffffffffffffffffffffffffffffffff000000000000000000000000000000000000000000000000"},
	{"0000000000000000fffffffffffffffffffffffffffffffd000000000000000000000000000000000000000000000000", "17fbb8571a00659400000000000000000000000000000000174d51943262f287ffffffffffffffffb9feffffffffaaab"},
	{"15f65ec3fa80e489fffffffffffffffffffffffffffff8000000020000000000fffffffffe000000b9feffffffffaaab", "0000000000000000000000000000000000000000000000000000000000000000ffffffffffffffffffffffffffffffff"},
	{"16935b3efb17c996ffffffffff7fffffffffffffffffffffffffffffffffffff00000000001000000000000000000000", "1a0111ea397fe69a0000000000000000000000000000000000000000000000000000000000000000b9feffffffffaaab"},
	{"0000000000001000ffffffffffffffffffffffffffffffff000000000000000000000000000000000000000000000000", "15f65ec3fa80e48c000000000000000000000000000000000000000000000000fffffffffffffffdb9feffffffffaaab"},
	{"0000000000000001c2f6b8f627ebbf407a0907bc51d2fd57fffffffffffffffffffffffffffff7ffb9feffffffffaaab", "00000000000000000000000000000000ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"},
	{"0603989b1d2638b70000000000000000000000000000000000000000000000000000000000000000b9feffffffffaaab", "00000000000000000013cec767833a8364774b84f38512c0fffffffffffffffffffffffffffffffffffffffffffffffe"},
	{"1a0111ea397fe6990000000000000000000000000000000300000000000000000000000000000000b9feffffffffaaab", "0000000000000000000000000000000000000000000000000000000000000000fffffffffffffffffffffe0000000000"},
	{"1a0111ea397fe699fffffffffffffffffffffffe000000004cb6e06cdad3fb96fffffffffffffffcb9feffffffffaaab", "0000000000000000000000000000000000000000000000000000000000000000ffffffffffffffff0000000008000000"},
	{"15f5dec3fa80e48cfffffffffffffffffffffffffc0000007ffffffffffffffffffffffffffffffb0000000000000000", "15f65ec3fa80e48a0000000000000000000000000000000000000000000000000000000000000000b9feffffffffaaab"},
	{"15f65ec37a80e48dffffffffffffffffd94f173de4519313000000000000000000000000000000000000000000000000", "1a0111ea397fe6990000000000000000000000000000000000000800000000000000000000000000b9feffffffffaaab"},
	{"00000000000000030000000000000000000000000000000000000000000000000000000000000003b9feffffffffaaab", "00000000000000000000000000000000ffffffffffffffffffffffffffffffff00000000000000000000000000000000"},
	{"00000000000000000000000000000000ffffffffffffffff00000000000000000000000000000000fffffffffffffffe", "0000000000000000cdf881f70d4c3728fffffffffffffffefffffffffffffffdffffffffdfffffffb9feffffffffaaab"},
	{"0000000000000000fffffffffffffffffffffffffffffffe000000000000000000000000000000000000000000000000", "1a0111ea397fe6990000000000000000000000000000000200000020000000001eabfffeb1540000b9feffffffffaaab"},
	{"15f65ec3fa80e48b0000000000000000000000000000000000000000000000000000000000000000b9feffffffffaaab", "000000000000000000000000000000000000000000000000ffffffffffffffffffffffffffffffff0000000000000000"},
	{"00000000000000000000000000000000ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "15f65ec3fa7fe48cffffffffffe00000000000020000000000000000000000000000000000000000b9feffffffffaaab"},
	{"00000000000000000000000000000000000000000000000300000000000000000000000000000000b9feffffffffaaab", "00000000000000000000000000000000fffffffffffffffffffffffffbffffff0000000000000000fffffffffffffffe"},
	{"15f65ec3fa80e48afffffffffffffffffffffffffffff800ffffffffffffffffddbb1ea0fe8efa35b9feffffffffaaab", "0000000000000000fffffffffffffffffffffffffffffffd000000000000000000000000000000000000000000000000"},
	{"000000000000000200000000000000000000000000000000ffffffffffffffffffffffffffffffff0000000000000000", "15f65e43fa80e48c0000000000000000000000000000000000000000000000000000000000000000b9feffffffffaaab"},
	{"0000000000000000000000000000000000000000000000000000000000000000fffffffffffffffffffffffffffffffe", "15f65ec3fa80e48c000000000000000000000000000000006730d2a0f6b0f623be39fb0f56d3a040b9feffffffffaaab"},
	{"1a0111ea397fe6990000000000000000000000000000000000000000000000000000000000000000b9feffffffffaaab", "000000000000000040000000000000000000000000000000ffffffffffe00000ffffffffffffffffb9feffffffffaaab"},
	{"15f65ec3fa80e48cffffffffffffffffffffffffffffffffffffffffffffffff0000000000000000b9feffffffffaaab", "0000000000000000fffffffffffffffffffffffffffffffe000000000000000000000000000000000000000000000000"},
	{"15f65ec3fa80e48c0000000000000000000000000000000000000000000000000000000000000000b9feffffffffaaab", "0000000000000000adc5716e6af7d992ffffffffffffffffffffffffffffffff00000000000000000000000000000000"},
	{"0000000000000000000000000000000164774b84f38512beec70e40f7a7ac626ffffffffffffffff391426fbd472333f", "1a0111ea397fe69a0000000000000000000000000000000000000000000000002a6d08d4b2491c15b9feffffffffaaab"},
	{"15f65ec3fa80e48c0000000000000000fffffffffffffffffffffffffffffffe00000000000000000000000000000000", "15f65ec3fa80e48c0000000000000000000000000000000000000000000000000000000000000000b9feffffffffaaab"},
	{"15f65ec3fa80e48bffffffffffffffffffffffffdfffffff00000000001000000000000000000000b9feffffffffaaab", "00000000000000000000000000000000fffffffffffffffffffffffffffffffd00000000000000000000000000000000"},
	{"0000000000000000fffffffffffffffffffffffffffffffcff8000000000000000000000000000000000000000000000", "15f65ec3fa80e48c00000000000000002b63dbe2a06ba15a6730d2a0f6b0f624ffffffffffffffffb9feffffffffaaab"},
	{"0000000000000001fffffffffffffffffffffffffffffffc0000000000000400ffffffffffffffffb9feffffffffaaab", "0000000000000000000000000000000000000000000000000000000002000000ffffffffffffffffffffffffffffffff"},
	{"0000000000000000fffffffffffffffffffffffffffffffc000000000000000000000000000000000000000000000000", "0000000000000000ffffffffffffffffe0000000000000006730d2a0f6b0f625ffffffffffffefffb9feffffffffaaab"},
	{"00000000000000000000000000000000fffffffffffffffffffffffffffffffc00000000000000000000000000000000", "00a52bd8a4f4f856ffffffffffffffffffffffffffff80000000000000000003ffffffffffffffffb9feffffffffaaab"},
	{"15f65ec3fa80e48a00000000000000000000000000000002fffffffffffffffdf013999d7a8a911fb9feffffffffaaab", "0000000000000000fffffffffffffffffffffffffffffffc000000000000000000000000000000000000000000000000"},
	{"00000000000000000000000000000000000000000000000100000000000000000000000000000000b9feffffffffaaab", "0000000000000000ffffffffffffffffffffffffffffffff00000000000000010000000000000000fffffffffffffffd"},
	{"15f65ec3fa80e48c00000000000000000000000000000000fffff800000000000000000000000000b9feffffffffaaab", "0000000000000000000000000000000000000000000000000000000000000000fffffffffffffffffffffffffffffffd"},
	{"0000000000000000ffffffffffffffffffffffffffffffff000000000000000000000000000000000000000000000000", "0000000400000000fffffffffffffffffffffffeffffffff0994a93df55c9acf0000000000000000b9feffffffffaaab"},
	{"0000000000000000ffffff0000000000ffffffffffffffffffffffffffffffff00000000000000000000000000000000", "0000000000000000ffffffffffffffffffffffffffffffffffffffffffffc000571e773d6b79ce85b9feffffffffaaab"},
	{"000000000000000100000000020000000000000000000000fffffffffffffffdfffffffffffffffffffffffffffffff7", "15f65ec3fa80e48c0000000000000000000000000000000000000000000000000000000000000000b9feffffffffaaab"},
	{"0000000000000000dfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff0000000000000000", "0000000000000000fffffffffffffffe000000000000000000000000000000000000000000000000b9feffffffffaaab"},
	{"1a0111ea397fe69900000000000000005bbf6f51a83219b600000000000000000000000000000000b9feffffffffaaab", "000000000000000000000000000000000000000000000000fffffffffffffffffffffffff7ffffff0000000000000000"},
	{"0000000000000001fffffffffffffffffffffe00000000000000000000000000ffffffffffffffffb9feffffffffaaab", "0000000000000000fffffffffffffffffffffffffffffffc000000000000000000000000000000000000000000000000"},
	{"15f65ec3fa80e48cfffffffffffffffffffffeffffffffffffffffffffffffffffffffffefffffffb9feffffffffaaab", "0000000000000000ffffffffffffffffffffffffffffffff000000000000000000000000000000000000000000000000"},
	{"15f65ec3fa80e48c00000000000000000000000000000001ffff8000000000001eabfffeb1540000b9feffffffffaaab", "000000000000000000000000000000000000000000000000ffffffffffffffffffffffffffffffff0000000000000000"},
	{"000000000000000000000000000000000000000000000000fffffffffffffffffffffffffffffff00000000000000000", "15f65ec3fa80e489ffffffffffffffffffffffffffffffff6730d2a0f6b0f6230000000000000003b9feffffffffaaab"},
	{"00000000000000004b1ba7b6434bacd600000000000000000000000000000002ffffffffffffffffffffffffffffffff", "0000040000000000fffffffffffffffffffffffffff80000ffffffffffffffffffffffffffffffffb9feffffffffaaab"},
	{"0000000000000000000000000000000000000000000000000000000000000000fffffffffffffffffffffffffffffffc", "0000000000000000ffffffffffffffffffffffffff7fffff6730d2a0f6b0f624fffffffffffffffdb9feffffffffaaab"},
	{"1a0111ea397fe69a000000000000000037d4d6579f775fe81f880a03bb5794fcfff0000000000000b9feffffffffaaab", "0000000000000000000000000000000000000000000000000000000000000000ffffffffffffffffffbfffffffffffff"},
	{"15f65ec2fa80e48d0000000000000000ffffffffffffffff0000000000000003fffffffffffffffeb9feffffffffaaab", "1a0111ea397fe69a00000000000000000000000000000000000000000000000300000000000000000000000000000000"},
	{"00000000000000000000000000000003000000000000000000000000000000000000000000000000fffffffffffffff7", "0000000000000001fffffffffffffffca7a7224f9eb9ea34ffffffffffffffff1eabfffeb1540000b9feffffffffaaab"},
	{"00000000000000000000000004000000ffffffffffffffffffffffffffffffffffffffc000000000fffffffffffffffc", "00000000000000000000000000000003000000000000000000000000000000000000000000000000b9feffffffffaaab"},
	{"1803555c1421cdbffffffffffffffffffffffffffffffffe0000000000000002dcb892b48a946f60b9feffffffffaaab", "00000000000000000000000000000001ffffffffffffffffffffffffffffffe000000000000000000000000000000000"},
	{"0000000000000000000000000000000000000000000000000000000000000000ffffffffffffffffb9feffffffffaaab", "1a0111ea397fe69a0000000000000000000000000000000000000000000000000000000000000000b9feffffffffaaab"},
	{"17fbb8571a0065940000000000000000000000000000000000000000000000000000000000000000b9feffffffffaaab", "00000000000000000000000000000000fffffffffffdffff7fffffffffffffffffffffffffffffff0000000000000000"},
	{"1a0111ea397fe69a0000000000000000fffffffffffffffffffffffffffffffdfffdffffffffffffb9feffffffffaaab", "0000000000000000ffffffffffffffffffffffffffffffffc00000000000000000000000000000000000000000000000"},
	{"1a0111ea397fe699ffffffffffffffff0000000000000000fffffffeffffffffffffffffffffffffb9feffffffffaaab", "1a0111ea397fe69a0000000000000000dbc68fd1937d6ec1000000000000000000000000000000000000000000000000"},
	{"00000000000000000000000000000000ffffffffffffffffd2a0fde2414ccd2700000000000000000000000000000000", "1a0111ea397fe699ffffffffffffffffffffffffffffffc0db6dbd770938bb310000000000000000b9feffffffffaaab"},
	{"1a0111ea397fe69a00000000000000000000000000000020fffffffffffffffc0000000000000001b9feffffffffaaab", "0000000000000000ffffffffffffffff173b13e72c191876000000000000000000000000000000000000000000000000"},
	{"0000000010000000000000000000000000000000000000001762df8cef99d5eb0000000000000000b9feffffffffaaab", "00000000000000000000000000000000fffffffffffffffffffffffffffffffe00000000000000000000000000000000"},
	{"0000000000000000ffffffffffffffffffffffffffffffff000000000000000000000000000000000000000000000000", "15f65cc3fa80e48d0000000000000000000000100000000000000000000000000000000000000000b9feffffffffaaab"},
	{"15f65ec3fa80e48cffffffffffffffff000000000000000000000000000000010000000000000000b9feffffffffaaab", "15f65ec37a80e48dfffffffffffffffffffffffffffffffffffffffffffffffd00000000000000000000000000000000"},
	{"047a47377a0a65100000000000000000000000000000000000000000000000000000000000000000b9feffffffffaaab", "0000000000000000000000000000000300000000000000000000000000000000ffffffffffffffffffffffffffffffff"},
	{"1a0111ea397fe699fffffffffffffffd000000000000000000000000000000000000000000000000b9feffffffffaaab", "00000000000000004b1ba7b6434bacd80000000000000001fffffffffffffffffffffffffffffffffffffffffffffffd"},
	{"1a0111ea397fe699ffffffffffffffffc000000000000000000000000000000000000000000000000000000000000000", "1a0111ea397fe699000000000000000000000000000000010000000000000000fffffffffeffffffffffffdfffffffff"},
	{"0000000000000000ffffffffffffffff0000000000000000ffffffffffffffff00000000000000000000000000000000", "000000000000000000000000000000020000000000000001ffffffffffffffff6851ce3621c93f79b9feffffffffaaab"},
	{"03459a5ba556d3250000000000000000000000000000000000000000000000000000000000000000b9feffffffffaaab", "0000002000000000fffffffffffffffffffffffffffffffd000000000000000000000000000000000000000000000000"},
	{"120eab14684c0ed3000000000000000000000000000000000000000000000000f316e098783a9ea9b9feffffffffaaab", "0010000000000000592a1d6c6318749fffffffffffffffffffffffffffffffff00000000000000000000000000000000"},
	{"15a5a36bdff78dc2fffffffffffffffffffffffffffffffdfffffffffffffffffffffffffffeffffb9feffffffffaaab", "000000000000000000000000000000000000000000000000ffffffffffffffffffffffffffffffff0000000000000000"},
	{"15f65ec3fa80e48bffffffffffffffff0000000000000000fffffffffffffffd1eabfffeb1540000b9feffffffffaaab", "15f65ec3fa80e48c0000000000000000ffffffffffffffff000000000000000000000000000000000000000000000000"},
	{"1186ea2286856b75ffffffffffe00000ffffffffffffffff00000000000000006cb7ad36cf57beb6b9feffffffffaaab", "1a0111ea397fe69a00000000000000000000000000000000000000000000000300000000000000000000000000000000"},
	{"1a0111ea397fe699fffffffffffffffffffffffffffffffffffffffffffffffeff80000000000000b9feffffffffaaab", "0000000000000000ffffffffffffffffffffffffffffffff000000000000000000000000000000000000000000000000"},
	{"15f65ec3ea80e48c0000000000000000000000000000000000000000000000000000000000000000b9feffffffffaaab", "101750b0bba94a710000000000000000ffffffffffffffffffffffffffffffff00000000000000000000000000000000"},
	{"0000000000000000afb36e3f6c62eaf9ffffffffffbfffffffffffffffffffffffffffffffffffff0000000000000000", "15f25ec3fa80e48c0000000000000000000000000000000000000000000000000000000000000000b9feffffffffaaab"},
	{"00000000000000104b1ba7b6434bacd6fffffffffffffffeffffffffffffffffffffffffffffffff0000000000000000", "15f65ec3fa80e48c0000000000000000000000000000000000000000000000000000000000000000b9feffffffffaaab"},
	{"0000000000000003ffffffffffffffffffffffffffffffff0000000100000000ffffffffff800000b9feffffffffaaab", "0000000000000000ffffffffffffffffffffffffffffffff000000000000000000000000000000000000000000000000"},
	{"15f65ec3fa80e47c0000000000000000000000000000000000000000000000000000000000000000b9feffffffffaaab", "0000000200000000fffffffffffffffdda189304e41ab810ffffffffffffffffffffffffffffffff0000000000000000"},
	{"0000000000000000000000000000000000000000000000000000000000000000ffffffffffffffffffffffffffffffff", "15f65ec3fa80dc8dfffffffffffffffffffffffffffffffd58457e851efc5af10000000000000001b9feffffffffaaab"},
	{"15f65ec3fa80e48cffffffffffffffffffffffffffffffff00008000000000002000000000000000b9feffffffffaaab", "000000000000000000000000000000000000000000000000ffffffffffffffffffffffffffffffff0000000000000000"},
	{"0000000000000000fffffffffffffffffffffffffffffff8000000000100000084e1cbe20092e60db9feffffffffaaab", "0000000000000000ffffffffffffffffffffffffffffffff000000000000000000000000000000000000000000000000"},
	{"15f65ec3fa80e48c000000000000000000000000800000000000000000000003ffffffffffffffffb9feffffffffaaab", "0000000000000000000000000000000000000000000000000000000000000000fffffffffffffffffffffffffffffffd"},
	{"00000020000000000000000000000000000000000000000000000000000000000000000000000003b9feffffffffaaab", "000000000000000000000000000000000000000000000000ffffffffffffffffffffffffffffffff0000000000000000"},
	{"0505c9d72fdc63d7000000000000000000000000000000000000000000000000251323cf4f677b76b9feffffffffaaab", "00000000000000000000000000000002fffffffc00000000ffffffffffffffffffffffffffffffff0000000000000000"},
	{"0000000000000000000000000000000000000000000000000000000000000000ffffffffffffffffffffffffffffffff", "0000000000000001ffffffffffffffffffffffffffffffff0000000000000000fffffffffffffffeb9feffffffffaaab"},
	{"00000000000000010000000000000000000000000000000000000000000000000000000000000000b9feffffffffaaab", "0000000000000000000000000000000000000000000000000000000000000000fffffffffffffffffffffffffffffffc"},
	{"00000000000000000100000000000000fffffffffffffffffffffffffff7ffff00000000000000000000000000000000", "1a0111ea397fe69a0000000000000000000000000000000000000000000000000000000008000000b9feffffffffaaab"},
	{"000000000000000000000000000000000000000000000000ffffffffffffffffffffffffffffffff0000000000000000", "15f65ec3fa80e48b0000000000000000000000000000000000000000000000000000080000000000b9feffffffffaaab"},
	{"00000000000000000000000000000001fffffffffffffffffffffffdffffffff0080000000000000b9feffffffffaaab", "000000000001000000000000000000000000000000000002ffffffffffffffff00000000000000000000000000000000"},
	{"00000000000000000000000000000000ffffffffffffffffffff80000000000000000000000000000000000000000000", "1a0111ea397fe699ffffffffffffffffffffffffffffffff40f9cb51ff2ddb830000000000000000b9feffffffffaaab"},
	{"04909ceb23de656effffffffffffffffffffffffe0000000f594cd276dddb4ddffffffffffffffffb9feffffffffaaab", "0000000000000000fffffffffffffffffffffffffffffffc000000000000000000000000000000000000000000000000"},
	{"00000000000000020000000000000000fffffffffffffffff042b799a4a791c30000000000000000b9feffffffffaaab", "000000000000000000000000000000000000000000000000ffffffffffffffffffffffffffffffffffffffffffffffff"},
	{"00000000000000000000000000000000fffffffffffffffffffffffffffffffe00000000000000000000000000000000", "15f65ec3fa80e48c000000000000000012f7fa675be7c0010000000000000000ffffffffffffffffb9feffffffffaaab"},
	{"0000000000400000ff8000000000000064774b84f38512befffffffffffffffffffffffffffffffe0000000000000000", "049ebcb3fa0447b70000000000000000000000000000000000000000000000000000000000000000b9feffffffffaaab"},
	{"1a0111ea397fe699000000000000000000000000000000020000000000000003ffffffffffffffffb9feffffffffaaab", "00000000000000000000000000000000ffffffffffffffffa1af386db535edda00000000000000000000000000000000"},
	{"0000000000000000ffffffffffffffffcc15945e3621689700000010000000000000000000000000b9feffffffffaaab", "0000000000000000fffffffffffffffffffffffffffffffe000000000000000000000000000000000000000000000000"},
	{"15f65ec3fa80e48cffffffffffffffff0000000000000003000000000000000000000000000000000000000000000000", "1a0111ea397fe699ffffffffffffffffffffffffffffffff00000000004000000000000000100000b9feffffffffaaab"},
	{"00000000000000004b1ba7b6434bacd60000000000000000fffffffffffffffffffffffffffffffd0000000000000000", "15f65ec3fa80e48c0000000000000000fffffffffffffffffffffffffffffffd1eabfffeb153ffffb9feffffffffaaab"},
	{"0000000000000000000000000000000100000000000000000000000000000000fffffffffffffbffb9feffffffffaaab", "00000000000000000000000000000000ffc0000000000000ffffffffffffffff0000000000000200fffffffffffffffe"},
	{"00000000000000000000000000000000ffffffffffffffffffffffffffffffff00000000000000000000000000000000", "1a0111ea397fe69a00000000000000000000000000000002af87d0416046401e0000000000000800b9feffffffffaaab"},
	{"0000000000000000fffffffffffffffc00000000000000000000000000000000fffffffffffffffffffffffffffffffd", "15f65ec3fa80e48cfffffffffffffffc7464dedc3532cacefffffffffffffffeffffffffffffffffb9feffffffffaaab"},
	{"000000000000100000000000000000000000000000000000ffff800000000000ffffbfffffffffffb9feffffffffaaab", "000000000000000000000000000000000000000000000000fffffffffffffffffffffffffffffffe0000000000000000"},
	{"0000000000000000fffffffffffffffffffffffffffffffcffffffff000000001eabfffeb1540000b9feffffffffaaab", "00000000000000000000000000000000ffffffffffffffffffffffffffffffff00000000000000000000000000000000"},
	{"000000000000000000000000000000000000000000000000ffffffffffffffffffffffffffffffff0000000000000000", "00000000000000020000000000000000000000000000000000000000000000000000000000000000b9feffffffffaaab"},
	{"000000020000000080000000000000000000000000000003fffffffffffffffffffffffffffffffffe00000000000000", "12d4681a56eb8d31ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffb9feffffffffaaab"},
	{"0000000000000000ffffffe0000000000000000000000000fffffffffffffffffffffffffffffffd0000000000000000", "15f65ebffa80e48d0000000000000000000000000000000000000000000000000000000000000020b9feffffffffaaab"},
	{"15f65ec3fa80e48cfffffffffffffffffffffffffffffffffffff7ffffffffff00000000000000000000000000000000", "1a0111ea397fe69a0000000000000000000000000000000000000000000000000000000000000080b9feffffffffaaab"},
	{"14ea773448c96d6800000000000000000c55ff59c7c7e2ff00000000000000007a1c596b6cc986f7b9feffffffffaaab", "0000000000000000ffffffffffffffffffffffffffffffff000000000000000000000000000000000000000000000000"},
	{"000000000000000000000000000000000000000000000000fffffffffffffffffffffffffffffffd0000000000000000", "04fc8627277072150000000000000000000000000000000000000000000000000000000000000000b9feffffffffaaab"},
	{"15f65ec3fa80c48dfff8000000000000000000000000010000000000000000000000000040000000b9feffffffffaaab", "0000000000000000fffffffffffffffffffffffffdfffffffffffffffffffffffffffffffffffffe0000000000000000"},
	{"15f65ec3fa80e48bfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeb9feffffffffaaab", "0000000000000000000000000000000000000000000000000000000000000000ffffffffffffffffffffffffffffffff"},
	{"000000000000000000000000000000000000000000000000fffffffffffffffffffffffffffffffc0000000000000000", "15f65ec3fa80e48b0000000000000000000000000000000000000000100000000000000000000000b9feffffffffaaab"},
	{"000000000000000000000000000000000000000000000000ffffffffffffffffffffffffffffffff0000000000000000", "15f65ec3fa80e48900000000000000000000000000000002f8000000000000000000000000000000b9feffffffffaaab"},
	{"0000000000000000000000000000000000000000000000000000000000000000ffffffffffffffffffffffffffffffff", "15f65ec3fa80e48c00000000000000000000000000000000fffffffe000000000000000000000004b9feffffffffaaab"},
	{"15f65ec3fa80e48a0000000000000000000000000000000000000000000000000000000000000000b9feffffffffaaab", "15f65ec3fa80a48d0000000000000000ffffffffffffffffffffffffffffffffffffffffffffffff0000000000000000"},
}
