package main

import (
	"github.com/ndau/ndaumath/pkg/address"
	sg "github.com/ndau/ndaumath/pkg/signature"
)

func init() { recorders["C30"] = func(r *R) { recWire(r, coreWire) } }

var coreWire = []*wireType{
	{"address.Address", wText, func(r *R) (wireObj, []I) {
		a, _ := address.Generate(kinds[r.Intn(len(kinds))], r.bytes(40))
		if r.Intn(20) == 0 {
			a = address.Address{}
		}
		return &a, []I{S(a.String())}
	}, func(r *R) wireTarget {
		a := new(address.Address)
		if r.Intn(2) == 0 {
			*a, _ = address.Generate('a', r.bytes(32))
		}
		return a
	}, func(t wireTarget) []I { return []I{S(t.(*address.Address).String())} }, nil},
	{"signature.IdentifiedData", wContainer, func(r *R) (wireObj, []I) {
		n := r.Intn(300)
		if r.Intn(30) == 0 {
			n = 4095 + r.Intn(3)
		}
		c := &sg.IdentifiedData{Algorithm: sg.AlgorithmID(r.Intn(256)), Data: r.bytes(n)}
		return c, []I{in(int64(c.Algorithm)), B(c.Data)}
	}, func(r *R) wireTarget {
		c := new(sg.IdentifiedData)
		if r.Intn(2) == 0 {
			c.Algorithm, c.Data = 7, r.bytes(r.Intn(300))
		}
		return c
	}, func(t wireTarget) []I {
		c := t.(*sg.IdentifiedData)
		return []I{in(int64(c.Algorithm)), B(c.Data)}
	}, nil},
	{"signature.AlgorithmID", wByte, func(r *R) (wireObj, []I) {
		x := sg.AlgorithmID(r.Intn(256))
		return x, []I{in(int64(x))}
	}, func(r *R) wireTarget {
		x := sg.AlgorithmID(r.Intn(256))
		return &x
	}, func(t wireTarget) []I { return []I{in(int64(*t.(*sg.AlgorithmID)))} }, nil},
}
