package main

import (
	"fmt"
	"math"
	"math/big"
	"strings"
	"time"

	"github.com/ndau/ndaumath/pkg/eai"
	"github.com/ndau/ndaumath/pkg/pricecurve"
	"github.com/ndau/ndaumath/pkg/types"
)

func init() {
	recorders["C28"] = recC28
	recorders["C29"] = recC29
	recorders["C35"] = recC35
}

const (
	kNdau = iota
	kDuration
	kRate
	kDollars
	kRow
)

var parsers = []string{"types.ParseNdau", "types.ParseDuration", "eai.ParseRate", "pricecurve.ParseDollars", "eai.RTRow.UnmarshalText"}

// parse by the function, or through the text interface where there is one
func parse(kind int, s string, iface bool) ([]I, error) {
	switch kind {
	case kNdau:
		x, err := types.ParseNdau(s)
		return []I{in(int64(x))}, err
	case kDuration:
		if iface {
			var d types.Duration
			err := d.UnmarshalText([]byte(s))
			return []I{in(int64(d))}, err
		}
		x, err := types.ParseDuration(s)
		return []I{in(int64(x))}, err
	case kRate:
		x, err := eai.ParseRate(s)
		return []I{in(int64(x))}, err
	case kDollars:
		x, err := pricecurve.ParseDollars(s)
		return []I{in(int64(x))}, err
	}
	var x eai.RTRow
	err := x.UnmarshalText([]byte(s))
	return []I{in(int64(x.From)), in(int64(x.Rate))}, err
}

func tryParse(r *R, kind int, s string, iface bool) (int, []I) {
	v := []I{in(0), in(0)}[:map[bool]int{true: 2, false: 1}[kind == kRow]]
	st := r.try(func() error {
		x, err := parse(kind, s, iface)
		if err == nil {
			v = x
		}
		return err
	})
	return st, v
}

func recParse(r *R, kind int, s string) {
	st, v := tryParse(r, kind, s, false)
	st2, v2 := tryParse(r, kind, s, true)
	f := append([]I{in(int64(kind)), S(s), in(int64(st))}, v...)
	f = append(f, in(int64(st2)))
	r.emit(fmt.Sprintf("%s(%q)", parsers[kind], s), 1, append(f, v2...)...)
}

func recPrint(r *R, kind int, x, y int64) string {
	var s, m string
	st := r.try(func() error {
		switch kind {
		case kNdau:
			v := types.Ndau(x)
			s = v.String()
			m = s
		case kDuration:
			d := types.Duration(x)
			s = d.String()
			b, err := d.MarshalText()
			m = string(b)
			return err
		case kRate:
			v := eai.Rate(x)
			s = v.String()
			m = s
		case kRow:
			row := eai.RTRow{From: types.Duration(x), Rate: eai.Rate(y)}
			b, err := row.MarshalText()
			s, m = string(b), string(b)
			return err
		}
		return nil
	})
	f := []I{in(int64(kind)), in(x)}
	if kind == kRow {
		f = append(f, in(y))
	}
	f = append(f, in(int64(st)), S(s), bl(s == m))
	st2, v := tryParse(r, kind, s, false)
	f = append(f, in(int64(st2)))
	r.emit(fmt.Sprintf("printing of %d, %d as %s: %q", x, y, []string{"ndau", "duration", "rate", "", "row"}[kind], s), 2, append(f, v...)...)
	return s
}

func (r *R) digits(most int) string {
	n := 1 + r.Intn(most)
	if r.Intn(3) > 0 {
		n = 1 + r.Intn(min(most, 3))
	}
	s := ""
	for i := 0; i < n; i++ {
		s += string(rune('0' + r.Intn(10)))
	}
	return s
}

// a text which follows the grammar, more or less
func (r *R) text(kind int) string {
	maybe := func(n int, s string) string {
		if r.Intn(n) == 0 {
			return s
		}
		return ""
	}
	pick := func(l ...string) string { return l[r.Intn(len(l))] }
	sp := func() string {
		return maybe(6, pick(" ", "\t", "  ", "\n", "\v", "\f", "\r", "\u0085", "\u00a0", "\u2003", "\x00"))
	}
	switch kind {
	case kNdau:
		return sp() + maybe(20, "-") + pick(r.digits(12), r.digits(4), "", "92233720368") + pick("", "."+r.digits(8), "."+r.digits(10), ".") + sp()
	case kRate:
		return sp() + pick(r.digits(12), r.digits(3), "", "922337203") + pick("", "."+r.digits(10), "."+r.digits(12)) + pick("%", "%", "%", "%", "", " %", "%%") + sp()
	case kDollars:
		w := pick(r.digits(10), r.digits(4), "1,234", "12_345", "92233720", "", "1,,2", ",5")
		return sp() + maybe(3, "-") + maybe(2, "$") + maybe(12, "-") + w + pick("", "."+r.digits(11), "."+r.digits(13), ".5", ".", ".0,0") + sp()
	case kDuration:
		s := maybe(4, "-") + maybe(5, pick("p", "P"))
		s += maybe(2, r.digits(7)+pick("y", "Y"))
		s += maybe(2, r.digits(3)+pick("m", "M"))
		s += maybe(2, r.digits(3)+pick("d", "D"))
		if r.Intn(4) > 0 {
			s += pick("t", "T")
			s += maybe(2, r.digits(3)+pick("h", "H"))
			s += maybe(2, r.digits(3)+pick("m", "M"))
			s += maybe(2, r.digits(3)+pick("s", "S", "ſ"))
			s += maybe(2, r.digits(7)+pick("us", "u", "U", "uS", "μs", "µ", "µs", "Μs", "uſ"))
		}
		return s
	}
	return r.text(kDuration) + pick(":", ":", ":", ":", "", "::", ": ", ":5%:") + r.text(kRate)
}

func (r *R) mangle(s string) string {
	b := []byte(s)
	junk := []byte("0123456789.,_:%-+$ptymdhsuPTYMDHSU \t\xce\xbc\xc2\xb5\x80\xffeExX_'~/")
	for n := 1 + r.Intn(2); n > 0; n-- {
		i := 0
		if len(b) > 0 {
			i = r.Intn(len(b))
		}
		switch r.Intn(5) {
		case 0:
			if len(b) > 0 {
				b = append(b[:i], b[i+1:]...)
			}
		case 1:
			if len(b) > 0 {
				b[i] = junk[r.Intn(len(junk))]
			}
		case 2:
			b = append(b[:i], append([]byte{junk[r.Intn(len(junk))]}, b[i:]...)...)
		case 3:
			if len(b) > 1 {
				j := r.Intn(len(b))
				b[i], b[j] = b[j], b[i]
			}
		case 4:
			b = append(b, junk[r.Intn(len(junk))])
		}
	}
	return string(b)
}

func point(v *big.Int, places int) string {
	n := new(big.Int).Abs(v)
	s := fmt.Sprintf("%0*d", places+1, n)
	return s[:len(s)-places] + "." + s[len(s)-places:]
}

func recC28(r *R) {
	pos := func() int64 { return int64(r.u64() >> 1) }
	for i := 0; i < r.num(350, 8000); i++ {
		for kind := kNdau; kind <= kRow; kind++ {
			x, y := r.i64(), pos()
			if kind == kRate {
				x = pos()
			}
			var s string
			if kind == kDollars {
				nc := big.NewInt(r.i64())
				s = []string{"", "-"}[r.Intn(2)] + "$" + point(nc, 11)
			} else {
				s = recPrint(r, kind, x, y)
			}
			if r.Intn(3) == 0 {
				recParse(r, kind, s)
			}
			recParse(r, kind, r.mangle(s))
			s = r.text(kind)
			recParse(r, kind, s)
			if r.Intn(3) == 0 {
				recParse(r, kind, r.mangle(s))
			}
		}
		if i%4 == 0 {
			recPercent(r, r.u64()>>uint(r.Intn(34)))
		}
	}
	// around the ends of the range, and the small values
	for _, e := range []*big.Int{in(math.MaxInt64), in(math.MinInt64), iu(math.MaxUint64), in(0), in(1e8), in(1e10), in(1e11), new(big.Int).Lsh(in(1), 64), new(big.Int).Mul(in(1e18), in(1e9))} {
		for k := int64(-3); k <= 3; k++ {
			v := new(big.Int).Add(e, in(k))
			for _, neg := range []string{"", "-"} {
				recParse(r, kNdau, neg+point(v, 8))
				recParse(r, kRate, neg+point(v, 10)+"%")
				recParse(r, kDollars, neg+"$"+point(v, 11))
				recParse(r, kDollars, neg+point(v, 11))
				recParse(r, kRow, neg+"1y:"+point(v, 10)+"%")
				// the same as a duration, in years and the rest
				a := new(big.Int).Abs(v)
				q, m := new(big.Int).QuoRem(a, in(year), new(big.Int))
				d := m.Int64()
				dt := fmt.Sprintf("%s%vy%dm%ddt%dh%dm%ds%dus", neg, q, d/(30*day), d/day%30, d/int64(types.Hour)%24, d/int64(types.Minute)%60, d/int64(types.Second)%60, d%1000000)
				recParse(r, kDuration, dt)
				recParse(r, kRow, dt+":3%")
			}
			if v.IsInt64() {
				recPrint(r, kNdau, v.Int64(), 0)
				recPrint(r, kDuration, v.Int64(), 0)
				recPrint(r, kRow, v.Int64(), int64(uint64(v.Int64())>>1))
				if v.Sign() >= 0 {
					recPrint(r, kRate, v.Int64(), 0)
				}
			}
		}
	}
	for _, u := range []int64{int64(types.Year), int64(types.Month), day, int64(types.Hour), int64(types.Minute), int64(types.Second), int64(types.Millisecond)} {
		for _, k := range []int64{-1, 0, 1} {
			for _, n := range []int64{1, 2, 9, 10, 11, 12, 23, 24, 29, 30, 59, 60} {
				recPrint(r, kDuration, n*u+k, 0)
				recPrint(r, kDuration, -n*u+k, 0)
			}
		}
	}
	for k := int64(-12); k <= 12; k++ {
		recPrint(r, kNdau, k*12345678, 0)
		recPrint(r, kNdau, k, 0)
	}
	for _, s := range []string{"", " ", ".", "-", "p", "t", "pt", "-pt", "0", "1", "1y", "1y2", "t1", "ty", "1d1m", "t1m1h", "1h", "t1us", "t1μs", "t1µs", "t1us1s", "t1uss", "1y1y", "t999999us", "t1000000us", "100m", "99m", "00001y", "99999999999999999999y", "18446744073709551616y", "1_000", "1e5", "0x10", "٣", "３", "1.000000001", "1.00000000", "$", "$,", "-$1.00", "$-1.00", "1.0", "1.00", "1.000000000000", "%", "0%", "1.%", ".5%", "100%", "1%1", "\xff", "1\xff", "1:1", "1y:1%", "1y:1%:", ":", ":1%", "t:1%", "--1y", "+1y", "+1", "-0", "-0.00"} {
		for kind := kNdau; kind <= kRow; kind++ {
			recParse(r, kind, s)
		}
	}
	recParse(r, kNdau, strings.Repeat("9", 300))
	recParse(r, kNdau, strings.Repeat("0", 300)+"1.5")
	recParse(r, kDuration, strings.Repeat("0", 300)+"1y")
	for _, p := range []uint64{0, 1, 15, 100, 18446743, 18446744, 18446745, 184467440, 922337203, 922337204} {
		recPercent(r, p)
	}
}

func recPercent(r *R, p uint64) {
	var x eai.Rate
	st := r.try(func() error { x = eai.RateFromPercent(p); return nil })
	r.emit(fmt.Sprintf("eai.RateFromPercent(%d)", p), 8, iu(p), in(int64(st)), in(int64(x)))
}

func recStamp(r *R, t, d int64) {
	var a, b types.Timestamp
	st := r.try(func() error {
		a, b = types.Timestamp(t).Add(types.Duration(d)), types.Timestamp(t).Sub(types.Duration(d))
		return nil
	})
	r.emit(fmt.Sprintf("Timestamp(%d).Add and Sub of %d", t, d), 3, in(t), in(d), in(int64(a)), in(int64(b)), in(int64(st)))
}

func recSince(r *R, t, o int64) {
	var a types.Duration
	var c int
	st := r.try(func() error {
		a, c = types.Timestamp(t).Since(types.Timestamp(o)), types.Timestamp(t).Compare(types.Timestamp(o))
		return nil
	})
	r.emit(fmt.Sprintf("Timestamp(%d).Since and Compare with %d", t, o), 4, in(t), in(o), in(int64(a)), in(int64(c)), in(int64(st)))
}

func recCompare(r *R, t, o int64) {
	var c int
	st := r.try(func() error {
		c = types.Timestamp(t).Compare(types.Timestamp(o))
		return nil
	})
	r.emit(fmt.Sprintf("Timestamp(%d).Compare(%d)", t, o), 12, in(t), in(o), in(int64(c)), in(int64(st)))
}

func recTime(r *R, t int64) string {
	var s, m string
	var back types.Timestamp
	st := r.try(func() error {
		x := types.Timestamp(t)
		s = x.String()
		b, err := x.MarshalText()
		m = string(b)
		if err != nil {
			return err
		}
		back, err = types.TimestampFrom(types.Timestamp(t).AsTime())
		return err
	})
	var v types.Timestamp
	st2 := r.try(func() (err error) { v, err = types.ParseTimestamp(s); return })
	r.emit(fmt.Sprintf("Timestamp(%d) prints as %q", t, s), 5, in(t), in(int64(st)), S(s), bl(s == m), in(int64(st2)), in(int64(v)), in(int64(back)))
	return s
}

func recParseTime(r *R, s string) {
	var v, w types.Timestamp
	st := r.try(func() (err error) { v, err = types.ParseTimestamp(s); return })
	st2 := r.try(func() error { return w.UnmarshalText([]byte(s)) })
	r.emit(fmt.Sprintf("types.ParseTimestamp(%q)", s), 6, S(s), in(int64(st)), in(int64(v)), in(int64(st2)), in(int64(w)))
}

var ndauEpoch = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)

func recFrom(r *R, sec, nsec int64) {
	zone := int64(r.Intn(86400) - 43200)
	switch r.Intn(4) {
	case 0: // then the same on the clocks of other places
		recFromIn(r, sec, nsec, zone)
		recFromIn(r, sec+zone, nsec, 0)
		recFromIn(r, sec+zone-3600, nsec, 3600)
	case 1:
		recFromIn(r, sec, nsec, zone)
	default:
		recFromIn(r, sec, nsec, 0)
	}
}

func recFromIn(r *R, sec, nsec, zone int64) {
	t := time.Unix(ndauEpoch.Unix()+sec, nsec).In(time.FixedZone("", int(zone)))
	if zone == 0 && r.Intn(2) == 0 {
		t = t.UTC()
	}
	var v types.Timestamp
	st := r.try(func() (err error) { v, err = types.TimestampFrom(t); return })
	r.emit(fmt.Sprintf("types.TimestampFrom(%s)", t.Format(time.RFC3339Nano)), 7, in(sec), in(nsec), in(int64(st)), in(int64(v)))
}

func recToGo(r *R, d int64) {
	var t time.Duration
	var b types.Duration
	st := r.try(func() error { t = types.Duration(d).TimeDuration(); b = types.DurationFrom(t); return nil })
	r.emit(fmt.Sprintf("types.Duration(%d).TimeDuration()", d), 9, in(d), in(int64(st)), in(int64(t)), in(int64(b)))
}

func recOfGo(r *R, t int64) {
	var d types.Duration
	var b time.Duration
	st := r.try(func() error { d = types.DurationFrom(time.Duration(t)); b = d.TimeDuration(); return nil })
	r.emit(fmt.Sprintf("types.DurationFrom(time.Duration(%d))", t), 10, in(t), in(int64(st)), in(int64(d)), in(int64(b)))
}

func recOrder(r *R, sec, nsec, sec2, nsec2 int64) {
	at := func(sec, nsec int64) time.Time {
		t := time.Unix(ndauEpoch.Unix()+sec, nsec)
		if r.Intn(2) == 0 {
			t = t.In(time.FixedZone("", r.Intn(86400)-43200))
		}
		return t
	}
	t, u := at(sec, nsec), at(sec2, nsec2)
	var v, w types.Timestamp
	st := r.try(func() (err error) { v, err = types.TimestampFrom(t); return })
	st2 := r.try(func() (err error) { w, err = types.TimestampFrom(u); return })
	r.emit(fmt.Sprintf("types.TimestampFrom of %s and of %s", t.Format(time.RFC3339Nano), u.Format(time.RFC3339Nano)), 11,
		in(sec), in(nsec), in(sec2), in(nsec2), in(int64(st)), in(int64(st2)), in(int64(v)), in(int64(w)))
}

func recC35(r *R) {
	const max = math.MaxInt64 / 1000
	for _, d := range []int64{0, 1, 999, 1000, 1001, 1500, 1999, 2000, max, max - 1, max - 999, max + 1, max + 1000, math.MaxInt64, year, day, 292 * year, 1 << 31, 1 << 32, 1 << 53} {
		recToGo(r, d)
		recToGo(r, -d)
		recOfGo(r, d)
		recOfGo(r, -d)
		recOfGo(r, d*1000)
		recOfGo(r, d*1000000)
		recOfGo(r, d*1000000-1)
	}
	recToGo(r, math.MinInt64)
	recOfGo(r, math.MinInt64)
	for i := 0; i < r.num(400, 4000); i++ {
		d := r.i64()
		recToGo(r, d%max)
		recToGo(r, int64(r.Intn(4000))-2000)
		recOfGo(r, d)
		recOfGo(r, d/1000000*1000000+int64(r.Intn(3))-1)
		// around whole milliseconds, at every size
		e := r.Int63n(max) >> uint(r.Intn(56)) / 1000 * 1000
		f := (max - r.Int63n(max)>>uint(r.Intn(56))) / 1000 * 1000
		for k := int64(-1); k <= 1; k++ {
			recToGo(r, e+k)
			recToGo(r, f+k)
			recToGo(r, k-e)
			recToGo(r, k-f)
			if f < math.MaxInt64/1000-1000 {
				recOfGo(r, f*1000+k)
				recOfGo(r, k-f*1000)
			}
		}
	}
	for i := 0; i < r.num(400, 4000); i++ {
		s, n := r.Int63n(9223372036), r.Int63n(1000000000)
		recFrom(r, s, n)
		recFrom(r, -s, n)
		recFrom(r, int64(r.Intn(3))-1, n)
		recFrom(r, int64(r.Intn(3))-1, int64(r.Intn(4000))-2000)
		switch r.Intn(3) {
		case 0:
			recOrder(r, s, n, s, n+int64(r.Intn(5000))-2500)
		case 1:
			recOrder(r, s, n, r.Int63n(9223372036), r.Int63n(1000000000))
		default:
			recOrder(r, s, n, s+int64(r.Intn(3))-1, n)
		}
		recTime(r, s*1000000+n/1000)
	}
}

func recC29(r *R) {
	ends := []int64{0, 1, 2, math.MaxInt64, math.MaxInt64 - 1, math.MaxInt64 / 2, math.MaxInt64/2 + 1, year, 1 << 62}
	for _, t := range ends {
		for _, d := range ends {
			recStamp(r, t, d)
			recStamp(r, t, -d)
			recStamp(r, t, -d-1)
			recSince(r, t, d)
			for _, x := range []int64{t, -t, -t - 1} {
				for _, y := range []int64{d, -d, -d - 1} {
					recCompare(r, x, y)
				}
			}
		}
	}
	for i := 0; i < r.num(700, 15000); i++ {
		t, d := int64(r.u64()>>1), r.i64()
		recStamp(r, t, d)
		recStamp(r, t, r.Int63n(5)-2-t)
		recStamp(r, t, math.MaxInt64-t)
		recStamp(r, t, -(math.MaxInt64 - t))
		recSince(r, t, int64(r.u64()>>1))
		recCompare(r, d, r.i64())
		recCompare(r, r.i64(), t)
		if i%5 == 0 {
			recCompare(r, d, d+int64(r.Intn(3))-1)
			recCompare(r, d, d^(1<<uint(r.Intn(64))))
			recSince(r, t, t)
		}
	}
	const top = math.MaxInt64 / 1000
	for i := 0; i < r.num(500, 10000); i++ {
		t := r.Int63n(top)
		switch r.Intn(4) {
		case 0:
			t = r.Int63n(top) >> uint(r.Intn(50))
		case 1: // ends of days, months, years
			t = time.Date(2000+r.Intn(292), time.Month(1+r.Intn(12)), 1+r.Intn(2)*27, 0, 0, 0, 0, time.UTC).Sub(ndauEpoch).Microseconds() + r.Int63n(3) - 1
			if t < 0 {
				t = 0
			}
		case 2:
			t = t / 1000000 * 1000000
		}
		s := recTime(r, t)
		if i%3 == 0 {
			recParseTime(r, s)
		}
		// another number of places, and the numbers of other days
		f := s[:19]
		switch r.Intn(3) {
		case 0:
			f += "." + r.digits(9)
		case 1:
			f += "." + r.digits(12)
		}
		recParseTime(r, f+"Z")
		g := []byte(f + "Z")
		for n := 1 + r.Intn(2); n > 0; n-- {
			g[[]int{0, 1, 2, 3, 5, 6, 8, 9, 11, 12, 14, 15, 17, 18}[r.Intn(14)]] = byte('0' + r.Intn(10))
		}
		recParseTime(r, string(g))
		if i%2 == 0 {
			recParseTime(r, r.mangle(s))
		}
		recFrom(r, r.Int63n(9223372036), r.Int63n(1e9))
		if i%4 == 0 {
			recFrom(r, -r.Int63n(1<<uint(1+r.Intn(36))), r.Int63n(1e9))
		}
	}
	for _, t := range []int64{0, 1, 999999, 1000000, top, top - 1, 58 * day, 59 * day, 60 * day, 365 * day, 366 * day, 366*day - 1} {
		recTime(r, t)
	}
	for y := 1996; y < 2292; y += r.num(4, 1) {
		for _, k := range []int{0, 1, 3} {
			recParseTime(r, fmt.Sprintf("%04d-02-29T00:00:00Z", y+k))
			recParseTime(r, fmt.Sprintf("%04d-03-01T00:00:00.000000Z", y+k))
		}
	}
	recFrom(r, 0, 0)
	recFrom(r, -1, 999999999)
	recFrom(r, -1, 0)
	recFrom(r, 0, 999)
	recFrom(r, 9223372036, 854775807)
	for _, s := range []string{"", "Z", "T", "2000-01-01", "2000-01-01T00:00:00", "2000-01-01T00:00:00z", "2000-01-01t00:00:00Z", "2000-01-01 00:00:00Z", "2000-01-01T00:00:00+00:00", "2000-01-01T00:00:00Z07:00", "1999-12-31T23:59:59.999999Z", "1999-12-31T23:59:59Z", "0000-01-01T00:00:00Z", "2000-00-01T00:00:00Z", "2000-13-01T00:00:00Z", "2000-01-00T00:00:00Z", "2000-01-32T00:00:00Z", "2000-02-30T00:00:00Z", "2001-02-29T00:00:00Z", "2100-02-29T00:00:00Z", "2000-04-31T00:00:00Z", "2000-01-01T24:00:00Z", "2000-01-01T00:60:00Z", "2000-01-01T00:00:60Z", "2000-01-01T00:00:00.Z", "2000-01-01T00:00:00.000000", " 2000-01-01T00:00:00Z", "2000-01-01T00:00:00Z ", "20000-01-01T00:00:00Z", "-2000-01-01T00:00:00Z", "+2000-01-01T00:00:00Z", "2000/01/01T00:00:00Z", "2000-01-01T00:00:00.12a456Z", "not a time", "\xff"} {
		recParseTime(r, s)
	}
}
