package main

import (
	"fmt"
	"math"
	"math/big"

	"github.com/ndau/ndaumath/pkg/pricecurve"
	"github.com/ndau/ndaumath/pkg/types"
)

func init() {
	recorders["C27"] = recC27
	recorders["C36"] = recC36
}

const (
	unit  = int64(1e8)
	block = 1000 * unit
)

// dollars in millionths
func micros(x float64) I {
	if math.IsNaN(x) || math.IsInf(x, 0) {
		return in(-1e18)
	}
	y, _ := new(big.Float).Mul(new(big.Float).SetPrec(200).SetFloat64(x), big.NewFloat(1e6)).Int(nil)
	return y
}

func price(curve int, sold int64) (pricecurve.Nanocent, error) {
	if curve == 0 {
		return pricecurve.PriceAtUnit10000(types.Ndau(sold))
	}
	if curve == 2 {
		return pricecurve.PriceAtUnit9999(types.Ndau(sold))
	}
	return pricecurve.PriceAtUnit(types.Ndau(sold))
}

var curveNames = []string{"PriceAtUnit10000", "PriceAtUnit", "PriceAtUnit9999"}

func recBlocks(r *R, curve int, first, n int64) {
	var fs []I
	errs := 0
	for b := first; b < first+n; b++ {
		var p pricecurve.Nanocent
		if r.try(func() (err error) { p, err = price(curve, b*block); return }) != sOK {
			errs++
		}
		fs = append(fs, in(int64(p)))
	}
	r.emit(fmt.Sprintf("pricecurve.%s at the beginning of the blocks %d..%d", curveNames[curve], first, first+n-1), 1,
		append([]I{in(int64(curve)), in(first), in(int64(errs))}, fs...)...)
}

func recUnit(r *R, curve int, sold int64) {
	var p, q pricecurve.Nanocent
	st := r.try(func() (err error) {
		p, err = price(curve, sold)
		if err == nil {
			q, err = price(curve, sold/block*block)
		}
		return
	})
	r.emit(fmt.Sprintf("pricecurve.%s(%d)", curveNames[curve], sold), 2, in(int64(curve)), in(sold), in(int64(st)), in(int64(p)), in(int64(q)))
}

func total(r *R, qty, sold int64) (int, I) {
	var x float64
	st := r.try(func() error { x = pricecurve.ApproxTotalPriceFor(types.Ndau(qty), types.Ndau(sold)); return nil })
	return st, micros(x)
}

func recTotal(r *R, sold, qty int64) {
	st, x := total(r, qty, sold)
	f := []I{in(sold), in(qty), in(int64(st)), x}
	at, left := sold, qty
	for i := 0; i == 0 || left > 0; i++ {
		n := block - at%block
		if left < n {
			n = left
		}
		f = append(f, in(at), micros(pricecurve.ApproxPriceAtUnit(types.Ndau(at))))
		at, left = at+n, left-n
	}
	r.emit(fmt.Sprintf("pricecurve.ApproxTotalPriceFor(%d, %d)", qty, sold), 3, f...)
}

func recAdditive(r *R, sold, a, b int64) {
	s1, x := total(r, a, sold)
	s2, y := total(r, b, sold+a)
	s3, z := total(r, a+b, sold)
	st := s1
	if s2 > st {
		st = s2
	}
	if s3 > st {
		st = s3
	}
	r.emit(fmt.Sprintf("pricecurve.ApproxTotalPriceFor: %d and then %d after %d sold", a, b, sold), 4, in(sold), in(a), in(b), in(int64(st)), x, y, z)
}

func recC27(r *R) {
	// every block of the curve
	const chunk = 250
	for b := int64(0); b <= 30250; b += chunk {
		recBlocks(r, 0, b, chunk)
		recBlocks(r, 1, b, chunk)
		if b%2000 == 0 || r.tier == "thorough" {
			recBlocks(r, 2, b, chunk)
		}
	}
	sold := func() int64 {
		b := int64(r.Intn(30100))
		switch r.Intn(5) {
		case 0:
			b = []int64{0, 1, 2, 9999, 10000, 10001, 29999, 30000, 30001}[r.Intn(9)]
		case 1:
			b = 1<<uint(r.Intn(15)) + int64(r.Intn(3)) - 1
		}
		u := []int64{0, 1, unit - 1, unit, block - 1, block - unit, block / 2, r.Int63n(block)}[r.Intn(8)]
		return b*block + u
	}
	for i := 0; i < r.num(1000, 20000); i++ {
		recUnit(r, r.Intn(3), sold())
	}
	for _, s := range []int64{math.MaxInt64, math.MaxInt64 - 1, 92233720368 * unit, 30000 * block, 30000*block - 1, 10001*block - 1} {
		for c := 0; c < 3; c++ {
			recUnit(r, c, s)
		}
	}
	for i := 0; i < r.num(500, 8000); i++ {
		s := sold()
		q := []int64{r.Int63n(3 * block), block, block - s%block, block - s%block + int64(r.Intn(3)) - 1, r.Int63n(40 * block), int64(r.Intn(3)), r.Int63n(1000) * unit, 2 * block}[r.Intn(8)]
		recTotal(r, s, q)
		if i%4 == 0 { // the same again with one thing changed
			in := s - s%block + r.Int63n(block)
			recTotal(r, in, q)
			recTotal(r, s, q+1+r.Int63n(block/10))
			recTotal(r, s, q)
			recTotal(r, s+1+r.Int63n(unit), q)
			recTotal(r, s+block, q)
		}
		a := block - s%block + int64(r.Intn(3))*block
		recAdditive(r, s, a, r.Int63n(5*block))
	}
	for b := int64(0); b <= 30001; b += int64(r.num(97, 11)) {
		recApprox(r, b)
	}
	for _, b := range []int64{0, 1, 9999, 10000, 10001, 29999, 30000, 30001} {
		recApprox(r, b)
	}
}

func recApprox(r *R, b int64) {
	var p pricecurve.Nanocent
	var x float64
	st := r.try(func() (err error) {
		x = pricecurve.ApproxPriceAtUnit(types.Ndau(b * block))
		p, err = price(1, b*block)
		return
	})
	r.emit(fmt.Sprintf("pricecurve.ApproxPriceAtUnit(%d) and PriceAtUnit", b*block), 5, in(b), in(int64(st)), micros(x), in(int64(p)))
}

// nanocents are exact in a float64 up to 90000 dollars, and near enough above
func recInverse(r *R, p, higher float64) {
	var u, v int
	st := r.try(func() error { u = pricecurve.ApproxUnitAtPrice(p); return nil })
	st2 := r.try(func() error { v = pricecurve.ApproxUnitAtPrice(higher); return nil })
	x, _ := new(big.Float).Mul(new(big.Float).SetPrec(200).SetFloat64(p), big.NewFloat(1e11)).Int(nil)
	r.emit(fmt.Sprintf("pricecurve.ApproxUnitAtPrice(%v) and of %v", p, higher), 6, x, in(int64(st)), in(int64(u)), in(int64(st2)), in(int64(v)))
}

func recC36(r *R) {
	ask := func(p float64) {
		recInverse(r, p, p*(1+math.Pow(10, -float64(r.Intn(8)))))
	}
	for _, p := range []float64{0, -1, 1e-9, 0.99, 1, 1.0000001, 1.0005, 2, 16.9, 16384, 16384.5, 16385, 16386, 100000, 499000, 499953, 500450.82, 500450.83, 500450.84, 1e6, 1e300, -1e300} {
		ask(p)
	}
	for i := 0; i < r.num(250, 4000); i++ {
		switch i % 4 {
		case 0: // anywhere on a logarithmic scale
			ask(math.Pow(2, r.Float64()*19))
		case 1:
			ask(r.Float64() * 510000)
		default: // between two blocks
			b := int64(r.Intn(30000))
			p, err := price(1, b*block)
			q, err2 := price(1, (b+1)*block)
			if err == nil && err2 == nil {
				ask((float64(p) + (float64(q)-float64(p))*r.Float64()) / 1e11)
			}
		}
	}
}
