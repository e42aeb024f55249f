// Package decimal stands in for github.com/ericlagergren/decimal, which this sandbox does not have:
// the part of it that integer arithmetic uses, with the documented meaning.  A number with Context128
// has 34 significant digits; the result of every operation is rounded to them, half to even.
package decimal

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
)

// Condition is a set of flags; this stand-in raises only InvalidOperation.
type Condition uint32

// The conditions.
const (
	Clamped Condition = 1 << iota
	ConversionSyntax
	DivisionByZero
	DivisionImpossible
	DivisionUndefined
	Inexact
	InsufficientStorage
	InvalidContext
	InvalidOperation
	Overflow
	Rounded
	Subnormal
	Underflow
)

// Error makes a condition an error.
func (c Condition) Error() string { return "condition " + strconv.Itoa(int(c)) }

// Context is the precision of a number; 0 stands for unlimited.
type Context struct {
	Precision  int
	Conditions Condition
	Traps      Condition
}

// The contexts of IEEE 754R, and one without rounding.
var (
	Context32        = Context{Precision: 7}
	Context64        = Context{Precision: 16}
	Context128       = Context{Precision: 34}
	ContextUnlimited = Context{}
)

// Big is coef * 10^exp, or not a number.
type Big struct {
	Context Context
	coef    big.Int
	exp     int
	nan     bool
}

var ten = big.NewInt(10)

func pow10(n int) *big.Int { return new(big.Int).Exp(ten, big.NewInt(int64(n)), nil) }

// WithContext gives a new zero.
func WithContext(c Context) *Big { return &Big{Context: c} }

// WithPrecision gives a new zero.
func WithPrecision(p int) *Big { return &Big{Context: Context{Precision: p}} }

// New gives value * 10^-scale.
func New(value int64, scale int) *Big { return new(Big).SetMantScale(value, scale) }

func (z *Big) prec() int {
	if z.Context.Precision == 0 {
		return 16 // the default of a zero Big
	}
	return z.Context.Precision
}

func length(v *big.Int) int { return len(new(big.Int).Abs(v).String()) }

func (z *Big) round() *Big {
	d := length(&z.coef) - z.prec()
	if d <= 0 {
		return z
	}
	p := pow10(d)
	q, r := new(big.Int).QuoRem(&z.coef, p, new(big.Int))
	switch c := new(big.Int).Lsh(r.Abs(r), 1).Cmp(p); {
	case c > 0, c == 0 && q.Bit(0) == 1:
		q.Add(q, big.NewInt(int64(z.coef.Sign())))
	}
	z.Context.Conditions |= Rounded | Inexact
	z.coef.Set(q)
	z.exp += d
	return z.round() // 999..9 may have carried
}

func (z *Big) put(v *big.Int, exp int, nan bool) *Big {
	z.coef.Set(v)
	z.exp, z.nan = exp, nan
	if nan {
		z.Context.Conditions |= InvalidOperation
		return z
	}
	return z.round()
}

// both coefficients at the lower of the two exponents
func align(x, y *Big) (*big.Int, *big.Int, int) {
	e := x.exp
	if y.exp < e {
		e = y.exp
	}
	return new(big.Int).Mul(&x.coef, pow10(x.exp-e)), new(big.Int).Mul(&y.coef, pow10(y.exp-e)), e
}

// the integer part
func (z *Big) whole() *big.Int {
	if z.exp >= 0 {
		return new(big.Int).Mul(&z.coef, pow10(z.exp))
	}
	return new(big.Int).Quo(&z.coef, pow10(-z.exp))
}

// SetMantScale sets z to value * 10^-scale.
func (z *Big) SetMantScale(value int64, scale int) *Big {
	z.coef.SetInt64(value)
	z.exp, z.nan = -scale, false
	return z
}

// SetBigMantScale sets z to value * 10^-scale.
func (z *Big) SetBigMantScale(value *big.Int, scale int) *Big {
	z.coef.Set(value)
	z.exp, z.nan = -scale, false
	return z
}

// SetUint64 sets z to x.
func (z *Big) SetUint64(x uint64) *Big {
	z.coef.SetUint64(x)
	z.exp, z.nan = 0, false
	return z
}

// SetString sets z to a decimal numeral.
func (z *Big) SetString(s string) (*Big, bool) {
	e := 0
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		n, err := strconv.Atoi(s[i+1:])
		if err != nil {
			return nil, false
		}
		s, e = s[:i], n
	}
	if i := strings.IndexByte(s, '.'); i >= 0 {
		e -= len(s) - i - 1
		s = s[:i] + s[i+1:]
	}
	v, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return nil, false
	}
	return z.put(v, e, false), true
}

// Set sets z to x, rounded to z's precision.
func (z *Big) Set(x *Big) *Big { return z.put(new(big.Int).Set(&x.coef), x.exp, x.nan) }

// Copy sets z to x without rounding.
func (z *Big) Copy(x *Big) *Big {
	z.coef.Set(&x.coef)
	z.exp, z.nan = x.exp, x.nan
	return z
}

// Add sets z to x + y.
func (z *Big) Add(x, y *Big) *Big {
	a, b, e := align(x, y)
	return z.put(a.Add(a, b), e, x.nan || y.nan)
}

// Sub sets z to x - y.
func (z *Big) Sub(x, y *Big) *Big {
	a, b, e := align(x, y)
	return z.put(a.Sub(a, b), e, x.nan || y.nan)
}

// Mul sets z to x * y.
func (z *Big) Mul(x, y *Big) *Big {
	return z.put(new(big.Int).Mul(&x.coef, &y.coef), x.exp+y.exp, x.nan || y.nan)
}

// FMA sets z to x * y + u with one rounding.
func (z *Big) FMA(x, y, u *Big) *Big {
	p := &Big{exp: x.exp + y.exp, nan: x.nan || y.nan}
	p.coef.Mul(&x.coef, &y.coef)
	return z.Add(p, u)
}

// Quo sets z to x / y.
func (z *Big) Quo(x, y *Big) *Big {
	if x.nan || y.nan || y.coef.Sign() == 0 {
		return z.put(new(big.Int), 0, true)
	}
	k := z.prec() + length(&y.coef) + 2 - length(&x.coef)
	if k < 0 {
		k = 0
	}
	q, r := new(big.Int).QuoRem(new(big.Int).Mul(&x.coef, pow10(k)), &y.coef, new(big.Int))
	e := x.exp - y.exp - k
	if r.Sign() != 0 { // a sticky digit, so that a half is not mistaken
		q.Mul(q, ten)
		q.Add(q, big.NewInt(int64(x.coef.Sign()*y.coef.Sign())))
		e--
	} else { // an exact quotient goes to the exponent nearest to the ideal one
		for e < x.exp-y.exp && q.Sign() != 0 {
			t, m := new(big.Int).QuoRem(q, ten, new(big.Int))
			if m.Sign() != 0 {
				break
			}
			q, e = t, e+1
		}
	}
	return z.put(q, e, false)
}

// QuoRem sets z to x / y truncated and r to the remainder, which has the sign of x.
func (z *Big) QuoRem(x, y, r *Big) (*Big, *Big) {
	if x.nan || y.nan || y.coef.Sign() == 0 {
		return z.put(new(big.Int), 0, true), r.put(new(big.Int), 0, true)
	}
	a, b, e := align(x, y)
	q, m := new(big.Int).QuoRem(a, b, new(big.Int))
	if length(q) > z.prec() { // division impossible
		return z.put(new(big.Int), 0, true), r.put(new(big.Int), 0, true)
	}
	return z.put(q, 0, false), r.put(m, e, false)
}

// QuoInt sets z to x / y truncated.
func (z *Big) QuoInt(x, y *Big) *Big {
	z.QuoRem(x, y, WithContext(z.Context))
	return z
}

// Rem sets z to the remainder of x / y, which has the sign of x.
func (z *Big) Rem(x, y *Big) *Big {
	WithContext(z.Context).QuoRem(x, y, z)
	return z
}

// Neg sets z to -x.
func (z *Big) Neg(x *Big) *Big { return z.put(new(big.Int).Neg(&x.coef), x.exp, x.nan) }

// Abs sets z to |x|.
func (z *Big) Abs(x *Big) *Big { return z.put(new(big.Int).Abs(&x.coef), x.exp, x.nan) }

// RoundToInt rounds z to an integer, half to even.
func (z *Big) RoundToInt() *Big {
	if z.exp >= 0 {
		return z
	}
	p := pow10(-z.exp)
	q, r := new(big.Int).QuoRem(&z.coef, p, new(big.Int))
	switch c := new(big.Int).Lsh(r.Abs(r), 1).Cmp(p); {
	case c > 0, c == 0 && q.Bit(0) == 1:
		q.Add(q, big.NewInt(int64(z.coef.Sign())))
	}
	return z.put(q, 0, z.nan)
}

// Cmp compares; a NaN equals everything.
func (z *Big) Cmp(y *Big) int {
	if z.nan || y.nan {
		return 0
	}
	a, b, _ := align(z, y)
	return a.Cmp(b)
}

// CmpAbs compares without signs.
func (z *Big) CmpAbs(y *Big) int {
	if z.nan || y.nan {
		return 0
	}
	a, b, _ := align(z, y)
	return a.CmpAbs(b)
}

// Sign is -1, 0 or 1.
func (z *Big) Sign() int { return z.coef.Sign() }

// Signbit is whether z is negative.
func (z *Big) Signbit() bool { return z.coef.Sign() < 0 }

// IsInt is whether z has no fraction.
func (z *Big) IsInt() bool {
	return !z.nan && (z.exp >= 0 || new(big.Int).Rem(&z.coef, pow10(-z.exp)).Sign() == 0)
}

// IsNaN is whether z is not a number; the kind is not distinguished.
func (z *Big) IsNaN(quiet int) bool { return z.nan }

// IsInf is never so here.
func (z *Big) IsInf(sign int) bool { return false }

// IsFinite is whether z is a number.
func (z *Big) IsFinite() bool { return !z.nan }

// Precision is the number of digits.
func (z *Big) Precision() int { return length(&z.coef) }

// Scale is the negated exponent.
func (z *Big) Scale() int { return -z.exp }

// Int gives the integer part.
func (z *Big) Int(v *big.Int) *big.Int {
	if v == nil {
		v = new(big.Int)
	}
	if z.nan {
		return v
	}
	return v.Set(z.whole())
}

// Int64 gives the integer part if it fits.
func (z *Big) Int64() (int64, bool) {
	if z.nan {
		return 0, false
	}
	v := z.whole()
	return v.Int64(), v.IsInt64()
}

// Uint64 gives the integer part if it fits.
func (z *Big) Uint64() (uint64, bool) {
	if z.nan {
		return 0, false
	}
	v := z.whole()
	return v.Uint64(), v.IsUint64()
}

// Float64 gives the nearest floating point number.
func (z *Big) Float64() (float64, bool) {
	f, err := strconv.ParseFloat(z.String(), 64)
	return f, err == nil
}

// String prints z.
func (z *Big) String() string {
	if z.nan {
		return "NaN"
	}
	return fmt.Sprintf("%sE%d", z.coef.String(), z.exp)
}
