package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"strings"
)

// ---- behaviours of the specification (ITF) --------------------------------

// V is a decoded ITF value: *big.Int, string, bool, []V (list, set, tuple), Mp, or Rec.
type V = interface{}
type Pair struct{ K, V V }
type Mp []Pair
type Rec map[string]V

func decV(m json.RawMessage) V {
	var x interface{}
	d := json.NewDecoder(strings.NewReader(string(m)))
	d.UseNumber()
	if err := d.Decode(&x); err != nil {
		fatal("bad ITF: " + err.Error())
	}
	return norm(x)
}

func norm(x interface{}) V {
	switch t := x.(type) {
	case json.Number:
		b, ok := new(big.Int).SetString(t.String(), 10)
		if !ok {
			fatal("bad ITF number")
		}
		return b
	case []interface{}:
		var l []V
		for _, e := range t {
			l = append(l, norm(e))
		}
		return l
	case map[string]interface{}:
		if b, ok := t["#bigint"]; ok {
			v, ok := new(big.Int).SetString(b.(string), 10)
			if !ok {
				fatal("bad ITF bigint")
			}
			return v
		}
		for _, k := range []string{"#set", "#tup"} {
			if l, ok := t[k]; ok {
				return norm(l)
			}
		}
		if l, ok := t["#map"]; ok {
			var m Mp
			for _, e := range l.([]interface{}) {
				p := e.([]interface{})
				m = append(m, Pair{norm(p[0]), norm(p[1])})
			}
			return m
		}
		r := Rec{}
		for k, e := range t {
			r[k] = norm(e)
		}
		return r
	}
	return x
}

func vi(v V) int {
	b, ok := v.(*big.Int)
	if !ok {
		fatal(fmt.Sprintf("ITF: %v is not a number", v))
	}
	return int(b.Int64())
}
func vbig(v V) *big.Int { return v.(*big.Int) }
func vs(v V) string     { return v.(string) }
func vb(v V) bool       { return v.(bool) }
func vl(v V) []V {
	if v == nil {
		return nil
	}
	return v.([]V)
}
func (m Mp) get(i int) V {
	for _, p := range m {
		if vi(p.K) == i {
			return p.V
		}
	}
	fatal(fmt.Sprintf("ITF: key %d missing", i))
	return nil
}
func (m Mp) has(i int) bool {
	for _, p := range m {
		if vi(p.K) == i {
			return true
		}
	}
	return false
}

// State of a behaviour: variables by their last name component, the action that led here and its choices.
type State struct {
	vars   Rec
	action string
	picks  map[string]V
}

func (s State) pick(n string) int {
	v, ok := s.picks[n]
	if !ok {
		fatal("ITF: choice " + n + " missing in " + s.action)
	}
	return vi(v)
}

func loadITF(f string) []State {
	b, err := os.ReadFile(f)
	if err != nil {
		fatal(err.Error())
	}
	var t struct {
		States []map[string]json.RawMessage `json:"states"`
	}
	if err := json.Unmarshal(b, &t); err != nil {
		fatal(f + ": " + err.Error())
	}
	var out []State
	for _, s := range t.States {
		st := State{vars: Rec{}, picks: map[string]V{}}
		for k, m := range s {
			switch {
			case k == "#meta":
			case k == "mbt::actionTaken":
				st.action = decV(m).(string)
			case k == "mbt::nondetPicks":
				for n, o := range decV(m).(Rec) {
					if r, ok := o.(Rec); ok && r["tag"] == "Some" {
						st.picks[n] = r["value"]
					}
				}
			default:
				n := k
				if i := strings.LastIndex(k, "::"); i >= 0 {
					n = k[i+2:]
				}
				st.vars[n] = decV(m)
			}
		}
		out = append(out, st)
	}
	return out
}

// ---- replaying --------------------------------------------------------------

type replay struct {
	model   string
	file    string
	at      int
	action  string
	history []string
	steps   int
	traces  int
	actions map[string]int
	bad     int
	end     func() // after the last step of a behaviour
}

type mismatchStop struct{}

// skip abandons the behaviour without a verdict
func (p *replay) skip(why string) {
	p.did("abandoned: " + why)
	panic(mismatchStop{})
}

// bad: the real code disagrees with the specification; abandons the behaviour
func (p *replay) mismatch(code int, format string, a ...interface{}) {
	h := p.history
	if len(h) > 80 {
		h = h[len(h)-80:]
	}
	o := map[string]interface{}{"kind": "mismatch", "code": code, "what": fmt.Sprintf("step %d (%s): ", p.at, p.action) + fmt.Sprintf(format, a...), "history": h, "file": p.file}
	b, _ := json.Marshal(o)
	fmt.Println(string(b))
	p.bad++
	panic(mismatchStop{})
}

// guard runs real code; a mismatch found inside abandons the behaviour
func (p *replay) guard(f func() error) int {
	n := p.bad
	st := guard(f)
	if p.bad > n {
		panic(mismatchStop{})
	}
	return st
}

func (p *replay) did(format string, a ...interface{}) {
	p.history = append(p.history, fmt.Sprintf(format, a...))
}

// runReplay feeds each behaviour to start (initial state) and then step (every later state).
func runReplay(model string, files []string, mk func(p *replay) (start func(State), step func(State))) error {
	p := &replay{model: model, actions: map[string]int{}}
	for _, f := range files {
		st := loadITF(f)
		if len(st) == 0 {
			return fmt.Errorf("%s: empty behaviour", f)
		}
		p.file, p.history, p.at, p.end = f, nil, 0, nil
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(mismatchStop); !ok {
						panic(x)
					}
				}
			}()
			start, step := mk(p)
			start(st[0])
			for i, s := range st[1:] {
				p.at, p.action = i+1, s.action
				step(s)
				p.steps++
				p.actions[s.action]++
			}
			if p.end != nil {
				p.end()
			}
		}()
		p.traces++
		if p.bad >= 3 {
			break
		}
	}
	b, _ := json.Marshal(map[string]interface{}{"kind": "done", "steps": p.steps, "traces": p.traces, "actions": p.actions})
	fmt.Println(string(b))
	return nil
}
