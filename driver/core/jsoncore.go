package main

import (
	"github.com/ndau/ndaumath/pkg/address"
	"github.com/ndau/ndaumath/pkg/key"
	sg "github.com/ndau/ndaumath/pkg/signature"
)

func init() { recorders["C38"] = recC38 }

func recC38(r *R) {
	kinds := []byte("anxebm")
	for i := 0; i < r.num(10, 60); i++ {
		// addresses
		var as [2]address.Address
		ok := true
		for j := range as {
			st := r.try(func() (err error) {
				as[j], err = address.Generate(kinds[r.Intn(len(kinds))], r.bytes(12+r.Intn(60)))
				return
			})
			ok = ok && st == sOK
		}
		if ok {
			a, b := &as[0], &as[1]
			t := textual[address.Address]
			recJSON(r, "an address", 0, kindOf(r, a, b, t, keyOf(a, b, t)), t(a), t(b))
		}
		// keys and signatures; nil extra, and extra of any length
		id := r.Intn(3)
		al := sg0(id)
		mk := func(what int) []val {
			var l []val
			for j := 0; j < 2; j++ {
				n := sigSizes[id][what]
				if n < 0 {
					n = 60 + r.Intn(13)
				}
				v, err := rawVal(what, al, r.bytes(n), r.bytes(r.Intn(2)*r.Intn(60)))
				if err != nil {
					return nil
				}
				l = append(l, v)
			}
			return l
		}
		if l := mk(0); l != nil {
			t := textual[sg.PublicKey]
			recJSON(r, "a public key", 1, kindOf(r, l[0].pub, l[1].pub, t, nil), t(l[0].pub), t(l[1].pub))
		}
		if l := mk(1); l != nil {
			t := textual[sg.PrivateKey]
			recJSON(r, "a private key", 2, kindOf(r, l[0].prv, l[1].prv, t, nil), t(l[0].prv), t(l[1].prv))
		}
		if l := mk(2); l != nil {
			t := textual[sg.Signature]
			recJSON(r, "a signature", 3, kindOf(r, l[0].sig, l[1].sig, t, nil), t(l[0].sig), t(l[1].sig))
		}
		x, y := r.object(r.refRandom(r.Intn(2) == 0)), r.object(r.refRandom(r.Intn(2) == 0))
		t := textual[key.ExtendedKey]
		recJSON(r, "an extended key", 4, kindOf(r, x, y, t, nil), t(x), t(y))
	}
}
