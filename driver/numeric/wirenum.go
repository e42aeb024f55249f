package main

import (
	"bytes"
	"os"
	"os/exec"

	"github.com/ndau/ndaumath/pkg/eai"
	"github.com/ndau/ndaumath/pkg/pricecurve"
	"github.com/ndau/ndaumath/pkg/types"
	"github.com/tinylib/msgp/msgp"
)

func init() {
	recorders["C30"] = func(r *R) {
		recWire(r, numWire)
		recClaims(r)
	}
	recorders["claim-table"] = func(r *R) { claim(new(eai.RateTable)) }
	recorders["claim-slice"] = func(r *R) { claim(new(eai.RateSlice)) }
	recorders["claim-table-stream"] = func(r *R) { claimStream(new(eai.RateTable)) }
	recorders["claim-slice-stream"] = func(r *R) { claimStream(new(eai.RateSlice)) }
}

func (r *R) rtTable() eai.RateTable {
	var t eai.RateTable
	n := r.Intn(6)
	if r.Intn(8) == 0 {
		n = 14 + r.Intn(5)
	}
	for i := 0; i < n; i++ {
		t = append(t, eai.RTRow{From: types.Duration(r.wireI64()), Rate: eai.Rate(r.wireI64())})
	}
	return t
}

func (r *R) rsSlice() eai.RateSlice {
	var t eai.RateSlice
	for _, x := range r.rtTable() {
		t = append(t, eai.RSRow{Duration: x.From, Rate: x.Rate})
	}
	return t
}

var numWire = []*wireType{
	{"types.Ndau", wInt, func(r *R) (wireObj, []I) { x := types.Ndau(r.wireI64()); return x, []I{in(int64(x))} },
		func(r *R) wireTarget { x := types.Ndau(r.Int63()); return &x },
		func(t wireTarget) []I { return []I{in(int64(*t.(*types.Ndau)))} }, nil},
	{"types.Duration", wInt, func(r *R) (wireObj, []I) { x := types.Duration(r.wireI64()); return x, []I{in(int64(x))} },
		func(r *R) wireTarget { x := types.Duration(r.Int63()); return &x },
		func(t wireTarget) []I { return []I{in(int64(*t.(*types.Duration)))} }, nil},
	{"types.Timestamp", wInt, func(r *R) (wireObj, []I) { x := types.Timestamp(r.wireI64()); return x, []I{in(int64(x))} },
		func(r *R) wireTarget { x := types.Timestamp(r.Int63()); return &x },
		func(t wireTarget) []I { return []I{in(int64(*t.(*types.Timestamp)))} }, nil},
	{"eai.Rate", wInt, func(r *R) (wireObj, []I) { x := eai.Rate(r.wireI64()); return x, []I{in(int64(x))} },
		func(r *R) wireTarget { x := eai.Rate(r.Int63()); return &x },
		func(t wireTarget) []I { return []I{in(int64(*t.(*eai.Rate)))} }, nil},
	{"pricecurve.Nanocent", wInt, func(r *R) (wireObj, []I) { x := pricecurve.Nanocent(r.wireI64()); return x, []I{in(int64(x))} },
		func(r *R) wireTarget { x := pricecurve.Nanocent(r.Int63()); return &x },
		func(t wireTarget) []I { return []I{in(int64(*t.(*pricecurve.Nanocent)))} }, nil},
	{"eai.RTRow", wRow, func(r *R) (wireObj, []I) {
		x := eai.RTRow{From: types.Duration(r.wireI64()), Rate: eai.Rate(r.wireI64())}
		return &x, []I{in(int64(x.From)), in(int64(x.Rate))}
	}, func(r *R) wireTarget { return &eai.RTRow{From: 3, Rate: 4} },
		func(t wireTarget) []I { x := t.(*eai.RTRow); return []I{in(int64(x.From)), in(int64(x.Rate))} }, nil},
	{"eai.RSRow", wRow, func(r *R) (wireObj, []I) {
		x := eai.RSRow{Duration: types.Duration(r.wireI64()), Rate: eai.Rate(r.wireI64())}
		return &x, []I{in(int64(x.Duration)), in(int64(x.Rate))}
	}, func(r *R) wireTarget { return &eai.RSRow{Duration: 3, Rate: 4} },
		func(t wireTarget) []I { x := t.(*eai.RSRow); return []I{in(int64(x.Duration)), in(int64(x.Rate))} }, nil},
	{"eai.RateTable", wTable, func(r *R) (wireObj, []I) { x := r.rtTable(); return x, tableF(x)[1:] },
		func(r *R) wireTarget { x := r.rtTable(); return &x },
		func(t wireTarget) []I { return tableF(*t.(*eai.RateTable))[1:] }, nil},
	{"eai.RateSlice", wTable, func(r *R) (wireObj, []I) { x := r.rsSlice(); return x, sliceF(x) },
		func(r *R) wireTarget { x := r.rsSlice(); return &x },
		func(t wireTarget) []I { return sliceF(*t.(*eai.RateSlice)) }, nil},
}

func sliceF(s eai.RateSlice) []I {
	var f []I
	for _, x := range s {
		f = append(f, in(int64(x.Duration)), in(int64(x.Rate)))
	}
	return f
}

// A few bytes which claim four thousand million rows must be an error.  Tried in a process of its own,
// with little memory, because an attempt to believe the claim ends the process.
var claimed = []byte{0xdd, 0xff, 0xff, 0xff, 0xff, 0x92, 1, 2}

func claim(t wireTarget) {
	if _, err := t.UnmarshalMsg(claimed); err == nil {
		panic("accepted")
	}
}

func claimStream(t wireTarget) {
	if err := t.DecodeMsg(msgp.NewReader(bytes.NewReader(claimed))); err == nil {
		panic("accepted")
	}
}

func recClaims(r *R) {
	for _, k := range []string{"table", "slice", "table-stream", "slice-stream"} {
		c := exec.Command("/bin/bash", "-c", `ulimit -v 6000000; exec "$0" rec claim-`+k+` 1 quick`, os.Args[0])
		st := sErr
		if c.Run() != nil {
			st = sPanic
		}
		r.emit("decoding of dd ff ff ff ff 92 01 02 (2^32-1 rows claimed), "+k+", in 6 GB of address space", 3, in(int64(st)))
	}
}
