package main

import (
	"errors"
	"fmt"
	"math"
	"math/big"

	"github.com/ndau/ndaumath/pkg/ndauerr"
	"github.com/ndau/ndaumath/pkg/signed"
	"github.com/ndau/ndaumath/pkg/types"
	"github.com/ndau/ndaumath/pkg/unsigned"
	perrors "github.com/pkg/errors"
)

func init() { recorders["C37"] = recC37 }

// which documented error err is, wrapped or not (numbers: spec/tv_err.qnt)
func errCode(err error) int {
	if err == nil {
		return 0
	}
	for i, e := range []error{ndauerr.ErrOverflow, ndauerr.ErrDivideByZero, ndauerr.ErrMath} {
		if err == e || perrors.Cause(err) == e || errors.Is(err, e) {
			return 2 + i
		}
	}
	return 1
}

// op 1: [type, operation, a, b, c, status, error]
func recArithErr(r *R, typ, op int, a, b, c uint64) {
	var err error
	sa, sb, sc := int64(a), int64(b), int64(c)
	f := func() {
		switch op {
		case 0:
			_, err = unsigned.Add(a, b)
		case 1:
			_, err = unsigned.Sub(a, b)
		case 2:
			_, err = unsigned.Mul(a, b)
		case 3:
			_, err = unsigned.Div(a, b)
		case 4:
			_, err = unsigned.Mod(a, b)
		case 5:
			_, _, err = unsigned.DivMod(a, b)
		case 6:
			_, err = unsigned.MulDiv(a, b, c)
		}
	}
	name, i := "unsigned", iu
	if typ == 0 {
		name, i = "signed", func(x uint64) *big.Int { return in(int64(x)) }
		f = func() {
			switch op {
			case 0:
				_, err = signed.Add(sa, sb)
			case 1:
				_, err = signed.Sub(sa, sb)
			case 2:
				_, err = signed.Mul(sa, sb)
			case 3:
				_, err = signed.Div(sa, sb)
			case 4:
				_, err = signed.Mod(sa, sb)
			case 5:
				_, _, err = signed.DivMod(sa, sb)
			case 6:
				_, err = signed.MulDiv(sa, sb, sc)
			}
		}
		if op < 2 && c == 1 { // amounts
			name = "ndau amounts: "
			f = func() {
				if op == 0 {
					_, err = types.Ndau(sa).Add(types.Ndau(sb))
				} else {
					_, err = types.Ndau(sa).Sub(types.Ndau(sb))
				}
			}
		}
	}
	st := r.try(func() error { f(); return err })
	r.emit(fmt.Sprintf("error of %s.%s(%v, %v, %v): %v", name, opNames[op], i(a), i(b), i(c), err), 1,
		in(int64(typ)), in(int64(op)), i(a), i(b), i(c), in(int64(st)), in(int64(errCode(err))))
}

func recC37(r *R) {
	for _, a := range corners {
		for _, b := range corners {
			for op := 0; op < 7; op++ {
				c := uint64(r.Intn(3))
				recArithErr(r, 0, op, uint64(a), uint64(b), c)
				recArithErr(r, 1, op, uint64(a), uint64(b), c)
			}
		}
	}
	for i := 0; i < r.num(2500, 30000); i++ {
		typ, op := r.Intn(2), r.Intn(7)
		a, b, c := r.u64(), r.u64(), r.u64()
		switch r.Intn(5) {
		case 0: // nothing to divide by
			if op == 6 {
				c = 0
			} else {
				b = 0
			}
		case 1: // close to the largest value
			m := uint64(math.MaxUint64)
			if typ == 0 {
				m = math.MaxInt64
			}
			b = m - a + uint64(r.Intn(5)) - 2
		case 2:
			b = a + uint64(r.Intn(5)) - 2
		case 3:
			if b > 0 {
				a = math.MaxUint64/b + uint64(r.Intn(5)) - 2
			}
		}
		if op == 6 && r.Intn(3) == 0 {
			c = b + uint64(r.Intn(3)) - 1
		}
		recArithErr(r, typ, op, a, b, c)
	}
}
