package main

import (
	"fmt"
	"math"
	"math/big"

	"github.com/ndau/ndaumath/pkg/signed"
	"github.com/ndau/ndaumath/pkg/types"
	"github.com/ndau/ndaumath/pkg/unsigned"
)

func init() {
	recorders["C22"] = recC22
	recorders["C23"] = recC23
}

var opNames = []string{"Add", "Sub", "Mul", "Div", "Mod", "DivMod", "MulDiv"}

// op 1: [type, operation, a, b, c, status, result, second result]
func recSigned(r *R, op int, a, b, c int64) {
	var x, y int64
	st := r.try(func() (err error) {
		switch op {
		case 0:
			if c == 1 {
				var n types.Ndau
				n, err = types.Ndau(a).Add(types.Ndau(b))
				x = int64(n)
				return
			}
			x, err = signed.Add(a, b)
		case 1:
			if c == 1 {
				var n types.Ndau
				n, err = types.Ndau(a).Sub(types.Ndau(b))
				x = int64(n)
				return
			}
			x, err = signed.Sub(a, b)
		case 2:
			x, err = signed.Mul(a, b)
		case 3:
			x, err = signed.Div(a, b)
		case 4:
			x, err = signed.Mod(a, b)
		case 5:
			x, y, err = signed.DivMod(a, b)
		case 6:
			x, err = signed.MulDiv(a, b, c)
		}
		return
	})
	d := fmt.Sprintf("signed.%s(%d, %d", opNames[op], a, b)
	if op == 6 {
		d += fmt.Sprintf(", %d", c)
	}
	if op < 2 && c == 1 {
		d = "amounts: " + d
	}
	r.emit(d+")", 1, in(0), in(int64(op)), in(a), in(b), in(c), in(int64(st)), in(x), in(y))
}

// op 4: [a, b, status, Compare, Abs of a]
func recAmounts(r *R, a, b int64) {
	var c int
	var x types.Ndau
	st := r.try(func() error { c, x = types.Ndau(a).Compare(types.Ndau(b)), types.Ndau(a).Abs(); return nil })
	r.emit(fmt.Sprintf("amounts %d, %d: Compare, Abs", a, b), 4, in(a), in(b), in(int64(st)), in(int64(c)), in(int64(x)))
}

func recUnsigned(r *R, op int, a, b, c uint64) {
	var x, y uint64
	st := r.try(func() (err error) {
		switch op {
		case 0:
			x, err = unsigned.Add(a, b)
		case 1:
			x, err = unsigned.Sub(a, b)
		case 2:
			x, err = unsigned.Mul(a, b)
		case 3:
			x, err = unsigned.Div(a, b)
		case 4:
			x, err = unsigned.Mod(a, b)
		case 5:
			x, y, err = unsigned.DivMod(a, b)
		case 6:
			x, err = unsigned.MulDiv(a, b, c)
		}
		return
	})
	d := fmt.Sprintf("unsigned.%s(%d, %d", opNames[op], a, b)
	if op == 6 {
		d += fmt.Sprintf(", %d", c)
	}
	r.emit(d+")", 1, in(1), in(int64(op)), iu(a), iu(b), iu(c), in(int64(st)), iu(x), iu(y))
}

// a number of any magnitude, with edges
func (r *R) u64() uint64 {
	x := r.Uint64() >> uint(r.Intn(64))
	switch r.Intn(8) {
	case 0:
		return uint64(1)<<uint(r.Intn(64)) + uint64(r.Intn(3)) - 1
	case 1:
		return math.MaxUint64 - uint64(r.Intn(4))
	case 2:
		return uint64(math.MaxInt64) + uint64(r.Intn(4)) - 1
	case 3:
		p := uint64(1)
		for i := r.Intn(20); i > 0; i-- {
			p *= 10
		}
		return p + uint64(r.Intn(3)) - 1
	}
	return x
}

func (r *R) i64() int64 { return int64(r.u64()) }

var corners = []int64{0, 1, -1, 2, -2, 3, -10, 1 << 31, 1 << 32, -1 << 31, 1<<62 - 1, -1 << 62, math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1}

func recC22(r *R) {
	for _, a := range corners {
		for _, b := range corners {
			recAmounts(r, a, b)
			for op := 0; op < 6; op++ {
				recSigned(r, op, a, b, int64(r.Intn(2)))
				if (op+int(a+b))%2 == 0 || r.tier == "thorough" {
					recUnsigned(r, op, uint64(a), uint64(b), 0)
				}
			}
		}
	}
	for i := 0; i < r.num(500, 4000); i++ {
		for op := 0; op < 6; op++ {
			if r.Intn(2) == 0 {
				recSigned(r, op, r.i64(), r.i64(), int64(r.Intn(2)))
			} else {
				recUnsigned(r, op, r.u64(), r.u64(), 0)
			}
		}
	}
	// close to the edges of the type: a op b = edge + small
	for i := 0; i < r.num(300, 3000); i++ {
		e := []uint64{math.MaxInt64, math.MaxUint64, 1 << 63}[r.Intn(3)] + uint64(r.Intn(5)) - 2
		b := r.u64()
		recUnsigned(r, 0, e-b, b, 0)
		recUnsigned(r, 1, b, b+uint64(r.Intn(3))-1, 0)
		recSigned(r, 0, int64(e-b), int64(b), int64(r.Intn(2)))
		recSigned(r, 1, int64(e+b), int64(b), int64(r.Intn(2)))
		recAmounts(r, int64(b), int64(b)+int64(r.Intn(3))-1)
		recAmounts(r, int64(b), r.i64())
		if b > 0 {
			recUnsigned(r, 2, e/b, b, 0)
			recUnsigned(r, 2, e/b+1, b, 0)
			recSigned(r, 2, int64(e)/max1(int64(b)), int64(b), 0)
			recSigned(r, 2, int64(e)/max1(int64(b))+1, int64(b), 0)
		}
	}
	// factors of all lengths whose product is about as long as the type
	bits := func(n int) uint64 { return r.Uint64()>>uint(64-n) | 1<<uint(n-1) }
	for n := 1; n <= 64; n++ {
		for m := 61 - n; m <= 67-n; m++ {
			if m < 1 || m > 64 {
				continue
			}
			for k := 0; k < r.num(1, 6); k++ {
				a, b := bits(n), bits(m)
				recUnsigned(r, 2, a, b, 0)
				recSigned(r, 2, int64(a), int64(b), 0)
				recSigned(r, 2, int64(a), -int64(b), 0)
			}
		}
		for _, e := range []uint64{math.MaxInt64, math.MaxUint64} {
			a := bits(n)
			for k := uint64(0); k < 3; k++ {
				recUnsigned(r, 2, a, e/a+k, 0)
				recSigned(r, 2, int64(e/a+k), int64(a), 0)
			}
		}
	}
	for i := 0; i < r.num(900, 9000); i++ {
		recSigned(r, 6, r.i64(), r.i64(), r.i64())
		recUnsigned(r, 6, r.u64(), r.u64(), r.u64())
		// exact quotients and their neighbours: v*n/d whole, where any rounding of the product shows
		v, n := r.u64(), r.u64()
		recUnsigned(r, 6, v, n, n)
		recUnsigned(r, 6, v, n, v)
		recSigned(r, 6, int64(v), int64(n), int64(n))
		recSigned(r, 6, int64(v), int64(n), -int64(n))
		g, h := r.Uint64()>>uint(33+r.Intn(20))|1, r.Uint64()>>uint(33+r.Intn(20))|1
		p, q := r.Uint64()>>uint(33+r.Intn(20)), r.Uint64()>>uint(33+r.Intn(20))
		recUnsigned(r, 6, g*p, h*q, g*h)
		recUnsigned(r, 6, g*p, h*q-uint64(r.Intn(2)), g*h)
		recSigned(r, 6, int64(g*p), -int64(h*q>>1), int64(g*h>>1))
		// quotient near the edge of the type
		e := new(big.Int).SetUint64([]uint64{math.MaxInt64, math.MaxUint64, 1 << 63}[r.Intn(3)])
		d := r.u64()
		prod := new(big.Int).Mul(e, iu(d))
		prod.Add(prod, in(int64(r.Intn(5)-2)))
		if w := r.u64()>>1 | 1; prod.Sign() > 0 {
			if x := new(big.Int).Quo(prod, iu(w)); x.IsUint64() {
				recUnsigned(r, 6, x.Uint64(), w, d)
				recUnsigned(r, 6, x.Uint64()+1, w, d)
				recSigned(r, 6, int64(x.Uint64()), int64(w), int64(d))
				recSigned(r, 6, -int64(x.Uint64()), int64(w), int64(d))
			}
		}
	}
}

func max1(x int64) int64 {
	if x == 0 || x == -1 {
		return 1
	}
	return x
}

// op 2: [type, numerator, denominator, status, result, status for numerator+1, result for numerator+1]   ExpFrac
func recExp(r *R, typ int, n, d uint64) {
	run := func(n uint64) (int, I) {
		var x I = in(0)
		st := r.try(func() error {
			if typ == 0 {
				y, err := signed.ExpFrac(int64(n), int64(d))
				x = in(y)
				return err
			}
			y, err := unsigned.ExpFrac(n, d)
			x = iu(y)
			return err
		})
		return st, x
	}
	a, b := iu(n), iu(d)
	if typ == 0 {
		a, b = in(int64(n)), in(int64(d))
	}
	st, x := run(n)
	st2, x2 := run(n + 1)
	r.emit(fmt.Sprintf("%s.ExpFrac(%s, %s), and of the next numerator", []string{"signed", "unsigned"}[typ], a, b), 2, in(int64(typ)), a, b, in(int64(st)), x, in(int64(st2)), x2)
}

// op 3: [x, status, result]   LnInt
func recLn(r *R, x uint64) {
	var y int
	st := r.try(func() error { y = unsigned.LnInt(x); return nil })
	r.emit(fmt.Sprintf("unsigned.LnInt(%d)", x), 3, iu(x), in(int64(st)), in(int64(y)))
}

func recC23(r *R) {
	lims := []uint64{math.MaxInt64 / 20, math.MaxInt64 / 30, math.MaxUint64 / 20, math.MaxUint64 / 30, math.MaxInt64, math.MaxUint64, math.MaxInt64 / 10, math.MaxUint64 / 10, 1e12, 1e8, 214748364, 1 << 31, 1, 2, 10}
	for typ := 0; typ < 2; typ++ {
		for _, l := range lims {
			for k := -2; k <= 2; k++ {
				d := l + uint64(k)
				for _, n := range []uint64{0, 1, d - 1, d, d + 1, d / 2, d / 5, d / 4, d / 10 * 9, uint64(float64(d) / 1.0001), math.MaxUint64/10 + 1, math.MaxInt64/10 + 2, -d, -(d / 2)} {
					recExp(r, typ, n, d)
				}
			}
		}
		for i := 0; i < r.num(700, 12000); i++ {
			d := r.u64()
			if r.Intn(3) > 0 {
				d >>= uint(5 + r.Intn(8))
			}
			if r.Intn(4) == 0 {
				d = 1000000000000
			}
			n := r.u64()
			if d > 0 {
				n = []uint64{r.Uint64() % d, r.Uint64() % d >> uint(r.Intn(40)), d - r.Uint64()%d>>uint(r.Intn(60)), d, n}[r.Intn(5)]
			}
			recExp(r, typ, n, d)
		}
		for d := uint64(0); d < 12; d++ {
			for n := uint64(0); n <= d+1; n++ {
				recExp(r, typ, n, d)
				recExp(r, 0, -n, d)
				recExp(r, 0, n, -d)
			}
		}
	}
	recLn(r, 0)
	e := 1.0
	for i := 0; i < 45; i++ { // the steps and their neighbours
		x := uint64(e)
		w := x>>50 + 3
		for k := -int64(w); k <= int64(w); k++ {
			if w > 40 && k%int64(w/20) != 0 && (k > 3 || k < -3) {
				continue
			}
			if y := x + uint64(k); y > 0 && (k > 0) == (y > x) {
				recLn(r, y)
			}
		}
		e *= math.E
	}
	for i := uint(0); i < 64; i++ {
		recLn(r, 1<<i)
		recLn(r, 1<<i-1)
	}
	recLn(r, math.MaxUint64)
	// exact steps: floor(e^k) and floor(e^k)+1 from a rational series
	for k := 1; k <= 44; k++ {
		num, t := new(big.Int).Lsh(in(1), 200), new(big.Int).Lsh(in(1), 200)
		for j := int64(1); j < 300; j++ {
			t.Mul(t, in(int64(k)))
			t.Quo(t, in(j))
			num.Add(num, t)
		}
		f := num.Rsh(num, 200).Uint64()
		for _, y := range []uint64{f - 1, f, f + 1, f + 2} {
			recLn(r, y)
		}
	}
	for i := 0; i < r.num(100, 4000); i++ {
		recLn(r, r.u64())
	}
}
