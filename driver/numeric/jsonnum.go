package main

import (
	"fmt"

	"github.com/ndau/ndaumath/pkg/eai"
	"github.com/ndau/ndaumath/pkg/pricecurve"
	"github.com/ndau/ndaumath/pkg/types"
)

func init() { recorders["C38"] = recC38 }

func numeral[T ~int64](v *T) string { return fmt.Sprintf("%d", int64(*v)) }

func recNum[T ~int64](r *R, name string, kind int, text func(*T) string, a, b int64) {
	x, y := T(a), T(b)
	recJSON(r, name, kind, kindOf(r, &x, &y, text, keyOf(&x, &y, text)), text(&x), text(&y))
}

func recC38(r *R) {
	for i := 0; i < r.num(25, 150); i++ {
		pos := func() int64 { return int64(r.Uint64() >> 1 >> uint(r.Intn(60))) }
		any := func() int64 { return int64(r.Uint64()) >> uint(r.Intn(63)) }
		recNum[types.Duration](r, "a duration", 5, textual[types.Duration], any(), any())
		recNum[types.Timestamp](r, "a time", 6, textual[types.Timestamp], pos()/1000, pos()/1000)
		a, b := eai.RTRow{From: types.Duration(pos()), Rate: eai.Rate(pos())}, eai.RTRow{From: types.Duration(pos()), Rate: eai.Rate(pos())}
		t := textual[eai.RTRow]
		recJSON(r, "a row", 7, kindOf(r, &a, &b, t, keyOf(&a, &b, t)), t(&a), t(&b))
		recNum[types.Ndau](r, "an amount", 8, numeral[types.Ndau], any(), any())
		recNum[pricecurve.Nanocent](r, "a price", 9, numeral[pricecurve.Nanocent], any(), any())
		recNum[eai.Rate](r, "a rate", 10, numeral[eai.Rate], any(), pos())
	}
}
