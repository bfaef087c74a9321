package main

import (
	"encoding/hex"
	"hash"

	oc "github.com/blocktree/go-owcrypt"
	"github.com/blocktree/go-owcrypt/blake256"
	"github.com/blocktree/go-owcrypt/blake2s"
	"github.com/blocktree/go-owcrypt/sm3"

	"owverif/internal/mon"
)

// Digests of zeros, longer than a 32 bit counter of bits (or bytes) can count; made with the
// references of this directory, OpenSSL and Python.

// after the length 2^29 + k, or 2^32 + k
type at struct {
	k    int
	want string
}

var streams = []struct {
	name string
	mk   func() hash.Hash
	base int64
	at   []at
}{
	{"sm3", sm3.New, 1 << 29, []at{
		{-1, "1c4679f9e1f0dcbe86f8cd17b4df4fa26c84cde56f68b1b0b71ceb50c404b442"},
		{0, "7927ca8884a535d9a4d80986f7c478a790013ee370836dfb86a36b4443c86533"},
		{55, "ecc484a2bb3afe8ca8301e3484c4d1cc9586d14dbf479dd1673d917f55651f23"},
		{56, "9a92b229141b78a041c57010d74bbab3a5a730c5a7b41d594b53d6bc024d91b8"},
		{64, "1b83e0a9694d780f5bab41811caf3b40f519888e7a0c7746c0fa3150b4f71ba1"},
		{119, "31c4a5c7a3e6e32985a29774f849f5795a4bad5b1cf05fed376ca7d4c6ca8bb7"},
	}},
	{"blake256", blake256.New, 1 << 29, []at{
		{-1, "3974d415ee02b86c3ce2a92e802baa72bd8eacec7c9f8ea40d160aa9a24ba667"},
		{0, "92f483394b1d5b006613ffc0a6b1dac13d9a7e56826fc82c13c44d961e600e5f"},
		{55, "0b33d0db12de7622921fe8ef6d3b93b9c9c2f7dd78490aa6fe6db79cb35101fa"},
		{56, "c363ec870da670b94e32f7d24dfb8c467a2db6f445fb9e173b8fad0538dd08e1"},
		{64, "1bed87416f71b71a243193a99d049726c404ec8149887ccf0fc25ca425d119d7"},
		{119, "4659d85531334800ce4474de1724c745cba6f6bdf45e85e82fb1dfd54649a5b5"},
	}},
	{"blake224", blake256.New224, 1 << 29, []at{
		{-1, "4cfaf20ce6541c3c545757ffc1a38cd4b8f3b68a55c9a7d796accd53"},
		{0, "64ad15506024801a1b5fb734a3eb9e9ab0e27c7de382050f5221d4ee"},
		{55, "32e93c626c95ce42aff3be0271dc13821216d672596b274c88e86714"},
		{56, "7af1bf7aae59be9cac2aa6ccfa8b841037fc9998c74b6e72c2649eb7"},
		{64, "7fb1edd0deb695fcd8f1dd1a3edbc7315f76c80a304ab36470633a98"},
		{119, "a9be5da8cdebe1869a3ab6fb6bd7d60dbc8296e7d8a6825119105241"},
	}},
	{"blake2s", blake2s.New256, 1 << 32, []at{
		{0, "2a8e26830310da3ef7f7032b7b1af11b989aba44a3713a22f539f69bd2ce4a87"},
		{1, "bad88cce259c1bfc72612bd1968d14a9fe7766e36e1fcafc0aed77e08b8cc9e0"},
		{64, "c059f3fa773f71f7a2a23e3cda235ed2de302786238833ff4372d236e2fdac3b"},
		{100, "1f45aea82453d60dba7a341c69e458ca28c3d8e834b28068b073e4d6157a66f0"},
	}},
}

// of 2^29 + 119 zeros
var wholes = map[string]string{
	"sha1":                "c50898f091e173e9a18fff9622ca759650d86647",
	"sha256":              "e5387518a68293adfa315531df31511e8705681b0bd8dacbb270304186ec5673",
	"sha256d":             "08630ff5df93d195a2ae74700dd07636cd1c1a1991fbeba611521d414071136b",
	"hash160":             "349f1dc3c38b50759d52ef4457a95e059916054d",
	"sha512":              "b85c7fe5a48e368a0fa682be799f3bca3aeaebab213db481be09be58cc0c7d324bab086db75713122c0d8b09c0856661dee0b96225f43014796447a9c6404d0d",
	"md4":                 "62349208fc63e84b3365287fe34decd4",
	"md5":                 "dda71d8d6ecc405fa9d825e006056470",
	"ripemd160":           "87ec257bd6fcf9aac3494ceab06a01af5d1a7903",
	"keccak256":           "4938e06ff1a6cc829f866bf6f3434871757691799aad99e30c1cb239087c1deb",
	"keccak256-ripemd160": "56ea9bf874d296712855c262b6711f7f36b3797a",
	"sha3-256":            "a68845b2ae0f4426e7b2f03290f9e96c015d00ce2e7eb96e308ec4736dc5da65",
	"sha3-256-ripemd160":  "ef0985db21f5ab144a9e66c2e4927978e2386fb7",
	"keccak512":           "0b6e3fc744f603b397cd5e11a896e6b1060f075d426e706815e5b3d2213e4e632caaac220261bb1dd49d8cf24ce5448ef6649cad24bf7016bfdcf34878aafade",
	"sha3-512":            "5479ed3039f81521870aa9f63ad73438068283d58c7119112b0dc6367078b5783c2bfcb21d98288261fefaca6141aed13db37284b2d067f1c84fe92acfcf3ed8",
	"blake512":            "4669a1c4f464ec6b5feae1e5c1814f68444b34dcc1bf8a0b11dbd95321a708a62f4859b68a3ea660af82dae479b762e23c3992e6def817353ccacb7b2b344fe8",
	"blake2b":             "806cc45c9abb0b50ba81d62839196267c20b95aef48e1d975580f5630de4a0151d9ea72f2a11f935496798544861dff4f4cf9827caf6667ef34dd2a92f4f51be",
	"blake2s":             "72909086d7cadce7bab7c0e7411209f2e4e7f25ab908759d3111ce746a2a4748",
	"sm3":                 "31c4a5c7a3e6e32985a29774f849f5795a4bad5b1cf05fed376ca7d4c6ca8bb7",
	"blake256":            "4659d85531334800ce4474de1724c745cba6f6bdf45e85e82fb1dfd54649a5b5",
}

func hugeStream(c *mon.Ctx) {
	s := streams[c.I]
	h := s.mk()
	z := make([]byte, 1<<20)
	n := int64(0)
	for _, a := range s.at {
		end := s.base + int64(a.k)
		for n < end {
			m := int64(len(z) - c.Intn(3)*c.Intn(200))
			if m > end-n {
				m = end - n
			}
			h.Write(z[:m])
			n += m
		}
		eq(c, s.name, h.Sum(nil), a.want)
		c.Seen("huge", s.name, a.k)
	}
}

func hugeWhole(c *mon.Ctx) {
	m := make([]byte, 1<<29+119)
	type t struct {
		name string
		typ  uint32
		size int
	}
	l := []t{{"blake2b", oc.HASH_ALG_BLAKE2B, 64}, {"blake2s", oc.HASH_ALG_BLAKE2S, 32}}
	for _, a := range algs {
		l = append(l, t{a.name, a.typ, 0})
	}
	if c.I >= len(l) {
		return
	}
	a := l[c.I]
	eq(c, a.name, oc.Hash(m, uint16(a.size), a.typ), wholes[a.name])
	c.Seen("huge", a.name, "whole")
}

func eq(c *mon.Ctx, name string, got []byte, want string) {
	w, err := hex.DecodeString(want)
	if err != nil || want == "" {
		panic("no constant for " + name)
	}
	c.Eq(name+" of a very long message", got, w)
}
