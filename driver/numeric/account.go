package main

import (
	"bytes"
	"os"

	"github.com/ndau/ndaumath/pkg/eai"
	"github.com/ndau/ndaumath/pkg/types"
	"github.com/tinylib/msgp/msgp"
)

func init() { replayers["account"] = replayAccount }

type acct struct {
	bal      types.Ndau
	waa      types.Duration
	at, last types.Timestamp
	lock     *lock
}

type ledger struct {
	now   types.Timestamp
	acct  []*acct
	table eai.RateTable
}

// what the specification says the accounts are
func ledgerOf(s State) *ledger {
	l := &ledger{now: types.Timestamp(vbig(s.vars["now"]).Int64())}
	for _, x := range vl(s.vars["table"]) {
		row := x.(Rec)
		l.table = append(l.table, eai.RTRow{From: types.Duration(vbig(row["age"]).Int64()), Rate: eai.Rate(vbig(row["rate"]).Int64())})
	}
	m := s.vars["acct"].(Mp)
	for i := 0; i < len(m); i++ {
		x := m.get(i).(Rec)
		a := &acct{bal: types.Ndau(vbig(x["bal"]).Int64()), waa: types.Duration(vbig(x["waa"]).Int64()),
			at: types.Timestamp(vbig(x["at"]).Int64()), last: types.Timestamp(vbig(x["last"]).Int64())}
		k := x["lock"].(Rec)
		if vb(k["locked"]) {
			a.lock = &lock{notice: types.Duration(vbig(k["notice"]).Int64()), bonus: eai.Rate(vbig(k["bonus"]).Int64())}
			if on := vbig(k["on"]).Int64(); on >= 0 {
				t := types.Timestamp(on)
				a.lock.on = &t
			}
		}
		l.acct = append(l.acct, a)
	}
	return l
}

type both interface {
	wireObj
	wireTarget
}

// v, encoded and decoded into a used object
func through[T any, P interface {
	*T
	both
}](stream bool, v, used T) (T, error) {
	x := used
	if stream {
		var b bytes.Buffer
		w := msgp.NewWriter(&b)
		if err := P(&v).EncodeMsg(w); err != nil {
			return x, err
		}
		if err := w.Flush(); err != nil {
			return x, err
		}
		err := P(&x).DecodeMsg(msgp.NewReader(&b))
		return x, err
	}
	b, err := P(&v).MarshalMsg(nil)
	if err != nil {
		return x, err
	}
	_, err = P(&x).UnmarshalMsg(b)
	return x, err
}

func replayAccount(files []string) error {
	prop := os.Getenv("VERIF_PROP")
	is := func(p string) bool { return prop == "" || prop == p }
	return runReplay("account", files, func(p *replay) (func(State), func(State)) {
		var was *ledger // as the specification has it
		var ages []types.Duration
		start := func(s State) {
			was = ledgerOf(s)
			ages = make([]types.Duration, len(was.acct))
		}
		// the age of an account is carried along by the real code
		move := func(i int, since types.Duration, qty types.Ndau, bal types.Ndau) {
			if st := p.guard(func() error { return ages[i].UpdateWeightedAverageAge(since, qty, bal) }); st != sOK && is("C26") {
				p.mismatch(-1, "account %d: UpdateWeightedAverageAge(%d, %d, %d) fails (%d)", i, since, qty, bal, st)
			}
		}
		step := func(s State) {
			o := s.vars["out"].(Rec)
			is2 := ledgerOf(s)
			a, b := vi(o["a"]), vi(o["b"])
			qty := types.Ndau(vbig(o["qty"]).Int64())
			fails := vb(o["err"])
			show := vl(o["show"])
			p.did("%s account %d, %d: %d", vs(o["op"]), a, b, qty)
			now := was.now
			age := func(i int) types.Duration { return was.acct[i].waa + types.Duration(now-was.acct[i].at) }
			since := func(i int) types.Duration {
				d := types.Duration(now - was.acct[i].at)
				if is("C29") {
					if x := now.Since(was.acct[i].at); x != d {
						p.mismatch(-10, "Since(%d, %d) is %d", now, was.acct[i].at, x)
					}
				}
				return d
			}
			switch vs(o["op"]) {
			case "wait":
				if is("C29") {
					if x := now.Add(types.Duration(qty)); x != is2.now {
						p.mismatch(-11, "Timestamp(%d).Add(%d) is %d, the specification says %d", now, qty, x, is2.now)
					}
					if x := is2.now.Sub(types.Duration(qty)); x != now {
						p.mismatch(-12, "Timestamp(%d).Sub(%d) is %d, the specification says %d", is2.now, qty, x, now)
					}
					if c := now.Compare(is2.now); (c < 0) != (now < is2.now) || c > 0 {
						p.mismatch(-13, "Compare(%d, %d) is %d", now, is2.now, c)
					}
				}
			case "deposit":
				move(a, since(a), qty, was.acct[a].bal)
			case "withdraw":
				move(a, since(a), -qty, was.acct[a].bal)
			case "transfer":
				move(a, since(a), -qty, was.acct[a].bal)
				move(b, since(b), qty, was.acct[b].bal)
			case "overflow":
				d := ages[a]
				st := p.guard(func() error { return d.UpdateWeightedAverageAge(since(a), qty, was.acct[a].bal) })
				if is("C26") && (st != sErr || d != ages[a]) {
					p.mismatch(-2, "account %d: UpdateWeightedAverageAge(%d, %d, %d) of %d: outcome %d, age %d", a, since(a), qty, was.acct[a].bal, ages[a], st, d)
				}
			case "notify":
				if is("C29") {
					if x := now.Add(was.acct[a].lock.notice); x != *is2.acct[a].lock.on {
						p.mismatch(-11, "Timestamp(%d).Add(%d) is %d", now, was.acct[a].lock.notice, x)
					}
				}
			case "credit":
				c := was.acct[a]
				if is("C25") {
					var x types.Ndau
					st := p.guard(func() (err error) {
						x, err = eai.Calculate(c.bal, now, c.last, age(a), c.lock.iface(), was.table, b == 1)
						return
					})
					if st > sErr || (st == sErr) != fails {
						p.mismatch(-3, "eai.Calculate(%d, %d, %d, %d, %s, %v, %v): outcome %d, the specification says failure %v", c.bal, now, c.last, age(a), c.lock.describe(), was.table, b == 1, st, fails)
					}
					if !fails && x != qty {
						p.mismatch(-4, "eai.Calculate(%d, %d, %d, %d, %s, %v, %v) is %d, the specification says %d", c.bal, now, c.last, age(a), c.lock.describe(), was.table, b == 1, x, qty)
					}
				}
				if !fails { // the age up to now, then the earnings come in
					move(a, since(a), 0, c.bal)
					move(a, 0, qty, c.bal)
				}
			case "rate":
				if is("C25") {
					c := was.acct[a]
					var x eai.Rate
					st := p.guard(func() error {
						x = eai.CalculateEAIRate(age(a), c.lock.iface(), was.table, now)
						return nil
					})
					if st != sOK || int64(x) != vbig(show[0]).Int64() {
						p.mismatch(-5, "eai.CalculateEAIRate(%d, %s, %v, %d) is %d, the specification says %v", age(a), c.lock.describe(), was.table, now, x, show[0])
					}
				}
			case "save":
				if a < 2 && is("C30") || a == 2 && (is("C28") || is("C29")) {
					save(p, was, a, is)
				}
			}
			was = is2
			for i, c := range was.acct {
				if ages[i] != c.waa {
					if is("C26") {
						p.mismatch(-6, "account %d: the weighted average age is %d, the specification says %d", i, ages[i], c.waa)
					}
					ages[i] = c.waa
				}
			}
		}
		return start, step
	})
}

// every part of the state, printed or encoded, and read back
func save(p *replay, l *ledger, how int, is func(string) bool) {
	bad := func(what string, x, y interface{}, err error) {
		p.mismatch(-20-how, "%s %v comes back as %v (%v)", what, x, y, err)
	}
	if how == 2 {
		if is("C29") {
			for _, t := range []types.Timestamp{l.now, l.acct[0].last} {
				if y, err := types.ParseTimestamp(t.String()); err != nil || y != t {
					bad("timestamp", int64(t), int64(y), err)
				}
			}
		}
		if !is("C28") {
			return
		}
		for _, c := range l.acct {
			if y, err := types.ParseNdau(c.bal.String()); err != nil || y != c.bal {
				bad("ndau", int64(c.bal), int64(y), err)
			}
			for _, d := range []types.Duration{c.waa, -c.waa} {
				if y, err := types.ParseDuration(d.String()); err != nil || y != d {
					bad("duration", int64(d), int64(y), err)
				}
			}
			if c.lock != nil {
				if y, err := eai.ParseRate(c.lock.bonus.String()); err != nil || y != c.lock.bonus {
					bad("rate", int64(c.lock.bonus), int64(y), err)
				}
			}
		}
		for _, row := range l.table {
			b, err := row.MarshalText()
			var y eai.RTRow
			if err == nil {
				err = y.UnmarshalText(b)
			}
			if err != nil || y != row {
				bad("row", row, y, err)
			}
		}
		return
	}
	stream := how == 1
	if y, err := through(stream, l.now, 3); err != nil || y != l.now {
		bad("timestamp", l.now, y, err)
	}
	for _, c := range l.acct {
		if y, err := through(stream, c.bal, 3); err != nil || y != c.bal {
			bad("ndau", c.bal, y, err)
		}
		if y, err := through(stream, c.waa, 3); err != nil || y != c.waa {
			bad("duration", c.waa, y, err)
		}
		if c.lock != nil {
			if y, err := through(stream, c.lock.bonus, 3); err != nil || y != c.lock.bonus {
				bad("rate", c.lock.bonus, y, err)
			}
		}
	}
	used := eai.RateTable{{From: 1, Rate: 2}, {From: 3, Rate: 4}, {From: 5, Rate: 6}}
	if y, err := through(stream, l.table, used); err != nil || !sameTable(y, l.table) {
		bad("table", l.table, y, err)
	}
	// the slice of a year of the first account
	sl := l.table.Slice(l.acct[0].waa, l.acct[0].waa+types.Year, 0)
	if y, err := through(stream, sl, eai.RateSlice{{Duration: 1, Rate: 2}}); err != nil || len(y) != len(sl) {
		bad("slice", sl, y, err)
	} else {
		for i := range y {
			if y[i] != sl[i] {
				bad("slice", sl, y, err)
			}
		}
	}
}
