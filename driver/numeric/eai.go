package main

import (
	"fmt"
	"math"
	"math/big"

	"github.com/ndau/ndaumath/pkg/eai"
	"github.com/ndau/ndaumath/pkg/types"
)

func init() {
	recorders["C24"] = recC24
	recorders["C25"] = recC25
	recorders["C26"] = recC26
}

type lock struct {
	notice types.Duration
	bonus  eai.Rate
	on     *types.Timestamp
}

func (l *lock) GetNoticePeriod() types.Duration { return l.notice }
func (l *lock) GetUnlocksOn() *types.Timestamp {
	if l.on == nil {
		return nil
	}
	t := *l.on
	return &t
}
func (l *lock) GetBonusRate() eai.Rate { return l.bonus }

const (
	day  = int64(types.Day)
	year = int64(types.Year)
)

func tableF(t eai.RateTable) []I {
	f := []I{in(int64(len(t)))}
	for _, r := range t {
		f = append(f, in(int64(r.From)), in(int64(r.Rate)))
	}
	return f
}

// a duration of any magnitude up to a few years, with preference for round ones
func (r *R) dur() int64 {
	switch r.Intn(6) {
	case 0:
		return int64(r.Intn(40)) * 30 * day
	case 1:
		return int64(r.Intn(4))*year + int64(r.Intn(3)) - 1
	case 2:
		return int64(r.Intn(20))
	case 3:
		return r.Int63n(4 * year)
	case 4:
		return r.Int63n(4*year) >> uint(r.Intn(40))
	}
	return int64(r.Intn(1500)) * day
}

// a table sorted by age; small ages half of the time, so that the corners meet
func bl0(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (r *R) table(small bool) eai.RateTable {
	if !small && r.Intn(3) == 0 {
		return append(eai.RateTable(nil), eai.DefaultUnlockedEAI...)
	}
	n := r.Intn(6)
	if r.Intn(10) == 0 {
		n = 12
		if l := r.lens(60); len(l) > 0 && r.Intn(2) == 0 {
			n = l[r.Intn(len(l))]
		} else if r.Intn(2) == 0 {
			n = 13 + r.Intn(30)
		}
	}
	steep := !small && r.Intn(6) == 0
	var t eai.RateTable
	at := int64(0)
	for i := 0; i < n; i++ {
		if small {
			at += int64(r.Intn(4))
		} else {
			at += r.dur() / 4
		}
		if i > 0 && at <= int64(t[i-1].From) {
			at = int64(t[i-1].From) + 1
		}
		rate := int64(r.Intn(16)) * 1e10
		if r.Intn(4) == 0 {
			rate = r.Int63n(3e11)
		}
		if small && r.Intn(3) > 0 {
			rate = int64(i + 1)
		}
		if steep {
			if at > year {
				at = int64(i+1) * (r.Int63n(year) + 1)
			}
			if i > 0 && at <= int64(t[i-1].From) {
				at = int64(t[i-1].From) + r.Int63n(year)
			}
			rate = 3e11 + r.Int63n(8e11)
		}
		t = append(t, eai.RTRow{From: types.Duration(at), Rate: eai.Rate(rate)})
	}
	return t
}

func sameTable(a, b eai.RateTable) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func recSlice(r *R, t eai.RateTable, from, to, offset, freeze int64) {
	kept := append(eai.RateTable(nil), t...)
	var s eai.RateSlice
	via := "SliceF"
	st := r.try(func() error {
		if freeze == 0 && r.Intn(2) == 0 {
			via = "Slice"
			s = t.Slice(types.Duration(from), types.Duration(to), types.Duration(offset))
		} else {
			s = t.SliceF(types.Duration(from), types.Duration(to), types.Duration(offset), types.Duration(freeze))
		}
		return nil
	})
	f := append([]I{in(from), in(to), in(offset), in(freeze), in(int64(st))}, tableF(kept)...)
	f = append(f, in(int64(len(s))))
	for _, p := range s {
		f = append(f, in(int64(p.Duration)), in(int64(p.Rate)))
	}
	f = append(f, bl(sameTable(t, kept)))
	r.emit(fmt.Sprintf("RateTable%v.%s(%d, %d, %d, %d)", kept, via, from, to, offset, freeze), 1, f...)
}

func recRateAt(r *R, t eai.RateTable, p int64) {
	var x eai.Rate
	st := r.try(func() error { x = t.RateAt(types.Duration(p)); return nil })
	r.emit(fmt.Sprintf("RateTable%v.RateAt(%d)", t, p), 2, append([]I{in(p), in(int64(st)), in(int64(x))}, tableF(t)...)...)
}

// change a table where it lies
func (r *R) alter(t eai.RateTable) {
	if len(t) == 0 {
		return
	}
	i := r.Intn(len(t))
	switch r.Intn(3) {
	case 0:
		for j := range t {
			t[j].Rate += eai.Rate(1 + r.Intn(5))
		}
	case 1:
		t[i].Rate += eai.Rate(1 + r.Intn(1e9))
	case 2:
		if i+1 == len(t) || t[i].From+3 < t[i+1].From {
			t[i].From += 2
		} else {
			t[i].Rate++
		}
	}
}

func recC24(r *R) {
	f := append(tableF(eai.DefaultUnlockedEAI), tableF(eai.DefaultLockBonusEAI)...)
	r.emit("the default tables", 6, f...)
	// every small case of one table, then many tables
	t := eai.RateTable{{From: 2, Rate: 5}, {From: 3, Rate: 7}, {From: 5, Rate: 4}}
	top := int64(r.num(6, 8))
	for from := int64(0); from <= top; from++ {
		for to := from - 1; to <= top; to++ {
			for offset := int64(0); offset <= 3; offset++ {
				for freeze := int64(-2); freeze <= 4; freeze++ {
					recSlice(r, t, from, to, offset, freeze)
				}
			}
		}
	}
	for i := 0; i < r.num(1500, 30000); i++ {
		t := r.table(true)
		from := int64(r.Intn(14))
		to := from + int64(r.Intn(16)) - 1
		recSlice(r, t, from, to, int64(r.Intn(5)), int64(r.Intn(12))-2)
		if i%7 == 0 { // the same questions after a change of the table in place
			p, o, fr := int64(r.Intn(24))-2, int64(r.Intn(5)), int64(r.Intn(10))
			for k := 0; k < 3; k++ {
				recRateAt(r, t, p)
				recSlice(r, t, from, to, o, fr)
				r.alter(t)
			}
		}
		if i%5 == 0 {
			recRateAt(r, t, int64(r.Intn(24))-2)
			if n := len(t); n > 6 {
				recRateAt(r, t, int64(t[r.Intn(n)].From))
				recSlice(r, t, int64(t[r.Intn(n)].From), int64(t[n-1].From)+int64(r.Intn(3))-1, int64(r.Intn(3)), int64(r.Intn(6)))
			}
		}
	}
	for i := 0; i < r.num(700, 12000); i++ {
		t := r.table(false)
		edge := func() int64 {
			if len(t) > 0 && r.Intn(2) == 0 {
				return int64(t[r.Intn(len(t))].From) + int64(r.Intn(3)) - 1
			}
			return r.dur()
		}
		from, to := edge(), edge()
		if from > to && r.Intn(8) > 0 {
			from, to = to, from
		}
		var offset, freeze int64
		if r.Intn(2) == 0 {
			offset = []int64{90 * day, r.dur(), edge()}[r.Intn(3)]
			if offset < 0 {
				offset = 0
			}
			// so that the ends of the period come to lie on rows
			if r.Intn(2) == 0 && from > offset {
				from -= offset
			}
			if r.Intn(2) == 0 && to > offset {
				to -= offset
			}
		}
		if r.Intn(2) == 0 {
			freeze = []int64{r.dur(), offset, to + offset - edge()}[r.Intn(3)]
			if freeze < 0 && r.Intn(4) > 0 {
				freeze = 0
			}
		}
		recSlice(r, t, from, to, offset, freeze)
		recRateAt(r, t, edge())
	}
	recRateAt(r, nil, 5)
	for _, p := range []int64{math.MinInt64, -1, 0, 30*day - 1, 30 * day, 270 * day, math.MaxInt64} {
		recRateAt(r, eai.DefaultUnlockedEAI, p)
		recRateAt(r, eai.DefaultLockBonusEAI, p)
	}
}

func lockF(l *lock) []I {
	if l == nil {
		return []I{in(0), in(0), in(0), in(-1)}
	}
	on := int64(-1)
	if l.on != nil {
		on = int64(*l.on)
	}
	return []I{in(1), in(int64(l.notice)), in(int64(l.bonus)), in(on)}
}

func (l *lock) describe() string {
	if l == nil {
		return "nil"
	}
	s := fmt.Sprintf("{notice %d, bonus %d", l.notice, l.bonus)
	if l.on != nil {
		s += fmt.Sprintf(", unlocks on %d", *l.on)
	}
	return s + "}"
}

// the interface must be nil, not a nil pointer in it
func (l *lock) iface() eai.Lock {
	if l == nil {
		return nil
	}
	return l
}

func recEai(r *R, balance, now, last, waa int64, l *lock, t eai.RateTable, fix bool) {
	var x types.Ndau
	st := r.try(func() error {
		var err error
		x, err = eai.Calculate(types.Ndau(balance), types.Timestamp(now), types.Timestamp(last), types.Duration(waa), l.iface(), t, fix)
		return err
	})
	f := append([]I{in(balance), in(now), in(last), in(waa)}, lockF(l)...)
	f = append(f, bl(fix), in(int64(st)), in(int64(x)))
	f = append(f, tableF(t)...)
	r.emit(fmt.Sprintf("eai.Calculate(%d, now %d, last %d, age %d, lock %s, %v, %v)", balance, now, last, waa, l.describe(), t, fix), 3, f...)
}

func recRate(r *R, waa, now int64, l *lock, t eai.RateTable) {
	var x eai.Rate
	st := r.try(func() error {
		x = eai.CalculateEAIRate(types.Duration(waa), l.iface(), t, types.Timestamp(now))
		return nil
	})
	f := append([]I{in(waa), in(now)}, lockF(l)...)
	f = append(f, in(int64(st)), in(int64(x)))
	f = append(f, tableF(t)...)
	r.emit(fmt.Sprintf("eai.CalculateEAIRate(%d, %s, %v, %d)", waa, l.describe(), t, now), 4, f...)
}

// an account at some point of its life
func (r *R) account(t eai.RateTable) (now, last, waa int64, l *lock) {
	now = 10*year + r.dur()
	since := r.dur()
	if r.Intn(12) == 0 {
		since = 0
	}
	last = now - since
	waa = r.dur()
	if len(t) > 0 && r.Intn(3) == 0 { // at a step of the table
		waa = int64(t[r.Intn(len(t))].From) + int64(r.Intn(3)) - 1
		if waa < 0 {
			waa = 0
		}
	}
	if r.Intn(4) > 0 {
		l = &lock{notice: types.Duration([]int64{90 * day, 180 * day, year, r.dur(), 30 * day}[r.Intn(5)]),
			bonus: eai.Rate(int64(r.Intn(6)) * 1e10)}
		if r.Intn(4) > 0 { // notified some time ago
			ago := []int64{r.dur(), 0, since, int64(l.notice) + r.dur()/4, int64(l.notice) - r.dur()/9, int64(l.notice)}[r.Intn(6)]
			if ago < 0 {
				ago = 0
			}
			if ago > now-int64(1) {
				ago = now - 1
			}
			on := types.Timestamp(now - ago + int64(l.notice))
			l.on = &on
			if r.Intn(9) == 0 { // exactly at the opening, or a moment off
				now = int64(on) + int64(r.Intn(3)) - 1
				last = now - since
			}
		}
	}
	return
}

func recC25(r *R) {
	balances := func() int64 {
		switch r.Intn(5) {
		case 0:
			return 0
		case 1:
			return int64(r.Intn(1000))
		case 2:
			return math.MaxInt64 - int64(r.Intn(1000))
		}
		return r.Int63() >> uint(r.Intn(60))
	}
	for i := 0; i < r.num(1400, 20000); i++ {
		t := r.table(false)
		now, last, waa, l := r.account(t)
		recEai(r, balances(), now, last, waa, l, t, r.Intn(4) > 0)
		if i%3 == 0 {
			recRate(r, waa, now, l, t)
		}
		if i%11 == 0 { // the same questions with one thing changed where it lies
			b, fix := balances(), r.Intn(2) == 0
			for k := 0; k < 4; k++ {
				recEai(r, b, now, last, waa, l, t, fix)
				recRate(r, waa, now, l, t)
				switch k := r.Intn(5); {
				case k == 0 && l != nil:
					l.bonus += eai.Rate(1e10)
				case k == 1:
					b = balances()
				case k == 2:
					fix = !fix
				case len(t) > 0:
					t[r.Intn(len(t))].Rate += eai.Rate(r.Intn(1e9))
				}
			}
		}
	}
	// credits which multiply the balance: every row near the largest exponent
	for i := 0; i < r.num(40, 400); i++ {
		var t eai.RateTable
		n := 1 + r.Intn(7)
		for j := 0; j < n; j++ {
			t = append(t, eai.RTRow{From: types.Duration(int64(j)*year - r.Int63n(1000)*int64(bl0(j > 0))), Rate: eai.Rate(9e11 + r.Int63n(1e11))})
		}
		age := int64(n)*year - r.Int63n(year)
		recEai(r, balances()>>uint(r.Intn(9)), 12*year, 12*year-age, age, nil, t, true)
	}
	// the documented example and its kin: round rates over round times
	for _, pct := range []uint64{1, 2, 10, 15, 50, 99, 100, 101} {
		t := eai.RateTable{{From: 0, Rate: eai.RateFromPercent(pct)}}
		for _, y := range []int64{0, 1, day, 30 * day, year - 1, year, year + 1, 2 * year} {
			recEai(r, 100*1e8, 5*year, 5*year-y, y, nil, t, true)
			recEai(r, math.MaxInt64, 5*year, 5*year-y, 3*year, nil, t, true)
		}
	}
	// the lock opens at, just before and just after the calculation, and the credits around it
	t := append(eai.RateTable(nil), eai.DefaultUnlockedEAI...)
	for _, notice := range []int64{90 * day, 180 * day} {
		for _, d := range []int64{-day, -1, 0, 1, day} { // now relative to the opening
			for _, k := range []int64{-200 * day, -90 * day, -1, 0, 1} { // last credit relative to the opening
				for _, fix := range []bool{true, false} {
					on := types.Timestamp(10 * year)
					l := &lock{notice: types.Duration(notice), bonus: eai.RateFromPercent(4), on: &on}
					if k <= d {
						recEai(r, 1e12, int64(on)+d, int64(on)+k, 400*day, l, t, fix)
						recEai(r, 1e12, int64(on)+d, int64(on)+k, 45*day, l, t, fix)
					}
					recRate(r, 45*day, int64(on)+d, l, t)
				}
			}
		}
	}
	// the opening is earlier than the notice period after the beginning of time
	for i := 0; i < r.num(20, 200); i++ {
		on := types.Timestamp(r.Int63n(80 * day))
		now := int64(on) + r.Int63n(80*day) - 40*day
		if now < 1 {
			now = 1
		}
		l := &lock{notice: types.Duration(90 * day), bonus: 1e10, on: &on}
		recEai(r, r.Int63n(1e15), now, r.Int63n(now), r.Int63n(now), l, eai.DefaultUnlockedEAI, r.Intn(2) == 0)
	}
}

func recAge(r *R, age, since, qty, balance int64) {
	d := types.Duration(age)
	st := r.try(func() error {
		return d.UpdateWeightedAverageAge(types.Duration(since), types.Ndau(qty), types.Ndau(balance))
	})
	r.emit(fmt.Sprintf("Duration(%d).UpdateWeightedAverageAge(%d, %d, %d)", age, since, qty, balance), 5, in(age), in(since), in(qty), in(balance), in(int64(st)), in(int64(d)))
}

func recC26(r *R) {
	for _, a := range []int64{0, 1, year, math.MaxInt64 - 1, math.MaxInt64} {
		for _, s := range []int64{0, 1, year, math.MaxInt64 - 1, math.MaxInt64} {
			for _, q := range []int64{0, 1, -1, 1e8, math.MaxInt64, math.MinInt64} {
				for _, b := range []int64{0, 1, 2, 1e8, math.MaxInt64 - 1, math.MaxInt64} {
					recAge(r, a, s, q, b)
				}
			}
		}
	}
	pos := func() int64 { return int64(r.u64() >> 1) }
	for i := 0; i < r.num(1500, 30000); i++ {
		a, s, q, b := pos(), pos(), pos(), pos()
		if r.Intn(4) > 0 {
			a, s = r.dur(), r.dur()
		}
		if r.Intn(4) > 0 {
			q, b = r.Int63()>>uint(5+r.Intn(58)), r.Int63()>>uint(5+r.Intn(58))
		}
		if r.Intn(4) == 0 { // withdrawals, mostly covered
			q = -q
			if r.Intn(3) > 0 && b > 0 {
				q = -(r.Int63() % b)
			}
		}
		recAge(r, a, s, q, b)
		// a quotient that comes out whole, and one less: where rounding shows
		if nb := new(big.Int).Add(in(q), in(b)); q >= 0 && nb.IsInt64() && nb.Int64() > 0 && nb.Int64() < 1<<31 {
			k := r.Int63n(1 << 31)
			recAge(r, k*nb.Int64()-int64(r.Intn(2))*int64(k&1), 0, q, b)
		}
	}
	// a history: the age is carried along
	for i := 0; i < r.num(20, 200); i++ {
		age, bal := int64(0), int64(0)
		for j := 0; j < 25; j++ {
			since := r.dur() / 10
			q := r.Int63n(1e12)
			if r.Intn(3) == 0 && bal > 0 {
				q = -r.Int63n(bal + 1)
			}
			recAge(r, age, since, q, bal)
			d := types.Duration(age)
			if guard(func() error { return d.UpdateWeightedAverageAge(types.Duration(since), types.Ndau(q), types.Ndau(bal)) }) != sOK {
				break
			}
			age, bal = int64(d), bal+q
		}
	}
}
