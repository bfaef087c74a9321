// C27: hostile input never crashes and always gets a typed refusal.
package main

import (
	"os"
	"runtime"
	"time"

	oc "github.com/blocktree/go-owcrypt"

	"owverif/internal/api"
	"owverif/internal/mon"
)

var hist [][]byte

// heap is the number of bytes ever allocated.
func heap() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

func judge(c *mon.Ctx, k *api.Call) api.Res {
	var r api.Res
	if p := mon.Try(func() { r = k.Run() }); p != "" {
		c.Failf("%s panics: %s", k.Show(), p)
	}
	if m := k.F.Check(k, r); m != "" {
		c.Failf("%s: %s", k.Show(), m)
	}
	return r
}

func main() {
	tops := api.Tops()
	done := map[bool]string{true: "succeeded ", false: "refused "}
	note := func(c *mon.Ctx, k *api.Call, r api.Res) {
		ok := r.Code == oc.SUCCESS
		switch k.F.Name {
		case "Point_mulBaseG", "GetCurveOrder", "PointCompress", "PointDecompress", "Hash", "Hmac":
			ok = len(r.Out[0]) > 0
		case "Point_mulBaseG_add", "CURVE25519_convert_X_to_Ed", "CURVE25519_convert_Ed_to_X", "ZA", "MulBaseG_Add", "Add", "Mul", "KeyAgreement_initiator_step1":
			ok = len(r.Out[0]) > 0
		}
		c.Seen(done[ok]+k.F.Name, k.T, k.N, k.Digest())
	}
	_ = os.Args
	var groups []mon.Group
	for _, f := range tops {
		f := f
		quick := 2500
		switch f.Name {
		case "Verify", "Signature":
			quick = 9000
		case "GenPubkey", "AggregateSignatures", "Point_mulBaseG", "Point_mulBaseG_add":
			quick = 2500
		case "KeyAgreement_initiator_step2", "KeyAgreement_responder_step1", "KeyAgreement_responder_ElGamal_step1", "Decryption":
			quick = 3500
		case "GetCurveOrder", "KeyAgreement_initiator_step1":
			quick = 400
		}
		cl := []string{"succeeded " + f.Name, "refused " + f.Name}
		switch f.Name {
		case "KeyAgreement_initiator_step1":
			cl = cl[:1] // never refuses
		}
		groups = append(groups, mon.Group{Name: f.Name, Quick: quick, Thorough: quick * 150, Classes: cl, Fn: func(c *mon.Ctx) {
			k := api.Make(c, f, c.I%6 > 0)
			// the work is bounded: it is not larger than what a hostile input of this size may cost
			t := time.Now()
			a := heap()
			r := judge(c, k)
			if d, n := time.Since(t), heap()-a; n > 1<<30 {
				c.Failf("%s allocated %d bytes in %v", k.Show(), n, d)
			}
			note(c, k, r)
			c.Sample("%s -> %s", k.Label(), r)
		}})
	}
	// every length of every argument, with every type
	groups = append(groups, mon.Group{Name: "lengths", Quick: 200, Thorough: 4200, Classes: []string{"length"}, Fn: func(c *mon.Ctx) {
		n := c.I
		if n >= 200 {
			n = 200 + c.Intn(2000)
		}
		fill := []byte{0, 0xff, 0x02, 0x04, 0x80}
		for _, f := range tops {
			if f.Name == "KeyAgreement_initiator_step1" {
				continue
			}
			for rep := 0; rep < 2; rep++ {
				k := api.Make(c, f, false)
				k.Valid = false
				if len(k.A) == 0 {
					continue
				}
				i := c.Intn(len(k.A))
				b := c.Bytes(n)
				switch c.Intn(3) {
				case 0:
					v := fill[c.Intn(len(fill))]
					for j := range b {
						b[j] = v
					}
				case 1:
					copy(b, k.A[i])
				}
				k.A[i] = b
				judge(c, k)
				c.Seen("length", f.Name, i, n)
			}
		}
	}})
	// everything nil, everything empty, no arguments at all; any type code
	groups = append(groups, mon.Group{Name: "nothing", Quick: 200, Thorough: 20000, Classes: []string{"nil", "empty"}, Fn: func(c *mon.Ctx) {
		for _, f := range tops {
			k := api.Make(c, f, false)
			for i := range k.A {
				if c.I&1 == 0 {
					k.A[i] = nil
				} else {
					k.A[i] = []byte{}
				}
			}
			if f.Name == "AggregateSignatures" && c.Intn(3) == 0 {
				k.A = nil
			}
			if c.Intn(3) > 0 {
				k.T = api.Code(c)
			}
			judge(c, k)
			c.Seen([]string{"nil", "empty"}[c.I&1], f.Name, k.T)
		}
	}})
	// messages of the Mina scheme that are broken or unusual, with a good key and signature
	groups = append(groups, mon.Group{Name: "mina", Quick: 2500, Thorough: 400000, Classes: []string{"message signed", "message refused"}, Fn: func(c *mon.Ctx) {
		j := api.BadJSON(c, api.Mina(c.Rand))
		pri, pub := api.Key(api.PA, c.Intn(4))
		k := &api.Call{F: api.ByName("Signature"), A: [][]byte{pri, nil, j}, T: api.PA}
		r := judge(c, k)
		if r.Code != oc.SUCCESS {
			c.Seen("message refused", j)
			r.Out = [][]byte{api.Sig(api.PA, 0, 0)}
		} else {
			c.Seen("message signed", j)
		}
		judge(c, &api.Call{F: api.ByName("Verify"), A: [][]byte{pub, nil, j, r.Out[0]}, T: api.PA})
		judge(c, &api.Call{F: api.ByName("Verify"), A: [][]byte{pub, nil, j, api.Sig(api.PA, 0, 0)}, T: api.PA})
	}})
	mon.Main("C27", groups)
}
