package main

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"

	"github.com/ndau/ndaumath/pkg/keyaddr"
)

func init() { replayers["wasm"] = replayWasm }

// ---- the WebAssembly module of cmd/keyaddr, run by node ------------------------

type jsArg struct {
	K string `json:"k"`
	V string `json:"v"`
}
type jsCall struct {
	F      string  `json:"f"`
	Args   []jsArg `json:"args"`
	Nested bool    `json:"nested,omitempty"`
}
type jsOut struct {
	Cb     [][2][]string `json:"cb"`
	Thrown string        `json:"thrown"`
}
type jsReply struct {
	Out   []jsOut `json:"out"`
	Told  int     `json:"told"` // how often the error handler was called
	Msg   string  `json:"msg"`
	Ended bool    `json:"ended"`
}
type wasmHost struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	fresh bool
}

func js(k, v string) jsArg { return jsArg{k, v} }

// VERIF_WASM: "node host.js wasm_exec.js module.wasm"
func newWasmHost() *wasmHost {
	a := strings.Fields(os.Getenv("VERIF_WASM"))
	if len(a) != 4 {
		fatal("VERIF_WASM is not set")
	}
	h := &wasmHost{cmd: exec.Command(a[0], a[1:]...), fresh: true}
	var err error
	if h.in, err = h.cmd.StdinPipe(); err != nil {
		fatal(err.Error())
	}
	o, err := h.cmd.StdoutPipe()
	if err != nil {
		fatal(err.Error())
	}
	h.out = bufio.NewReaderSize(o, 1<<20)
	if err = h.cmd.Start(); err != nil {
		fatal("node: " + err.Error())
	}
	return h
}

func (h *wasmHost) stop() {
	h.in.Close()
	h.cmd.Process.Kill()
	h.cmd.Wait()
}

// do makes the calls one after another (a nested one inside the callback of the one before); it does not return when the module hangs
func (h *wasmHost) do(level *string, calls ...jsCall) jsReply {
	m := map[string]interface{}{"calls": calls}
	if calls == nil {
		m["calls"] = []jsCall{}
	}
	if h.fresh {
		m["fresh"] = true
		h.fresh = false
	}
	if level != nil {
		m["level"] = *level
	}
	b, _ := json.Marshal(m)
	if _, err := h.in.Write(append(b, '\n')); err != nil {
		fatal("node: " + err.Error())
	}
	l, err := h.out.ReadBytes('\n')
	if err != nil {
		fatal("node: " + err.Error())
	}
	var r jsReply
	if err := json.Unmarshal(l, &r); err != nil {
		fatal("node: " + string(l))
	}
	if len(r.Out) != len(calls) {
		fatal("node: answers missing: " + string(l))
	}
	return r
}

// text makes one call which should answer with a result or an error through its callback.
func (h *wasmHost) result(p *replay, f string, args ...jsArg) (typ, val string, err error) {
	r := h.do(nil, jsCall{F: f, Args: append(args, js("cb", ""))})
	o := r.Out[0]
	if o.Thrown != "" || r.Told != 0 || len(o.Cb) != 1 || r.Ended {
		p.mismatch(-20, "%s(%v) did not answer through its callback: %+v", f, args, r)
	}
	e, v := o.Cb[0][0], o.Cb[0][1]
	if e[0] == "null" {
		if v[0] == "null" || v[0] == "undefined" {
			p.mismatch(-21, "%s(%v): neither result nor error", f, args)
		}
		return v[0], v[1], nil
	}
	if v[0] != "null" {
		p.mismatch(-22, "%s(%v): a result along with an error: %v", f, args, o.Cb)
	}
	return "", "", fmt.Errorf("%s", e[1])
}

// ---- what the facade replay calls: the Go functions or the module ---------------

type facadeAPI struct {
	newKey     func(seed string) (*keyaddr.Key, error)
	fromString func(k string) (*keyaddr.Key, error)
	deriveFrom func(k, pp, cp string) (*keyaddr.Key, error)
	toPublic   func(k *keyaddr.Key) (*keyaddr.Key, error)
	child      func(k *keyaddr.Key, n int32) (*keyaddr.Key, error)
	hardened   func(k *keyaddr.Key, n int32) (*keyaddr.Key, error)
	isPrivate  func(k *keyaddr.Key) (bool, error)
	address    func(k *keyaddr.Key) (*keyaddr.Address, error)
	sign       func(k *keyaddr.Key, m string) (*keyaddr.Signature, error)
}

func nativeFacade() *facadeAPI {
	return &facadeAPI{
		newKey: keyaddr.NewKey, fromString: keyaddr.FromString, deriveFrom: keyaddr.DeriveFrom,
		toPublic:  func(k *keyaddr.Key) (*keyaddr.Key, error) { return k.ToPublic() },
		child:     func(k *keyaddr.Key, n int32) (*keyaddr.Key, error) { return k.Child(n) },
		hardened:  func(k *keyaddr.Key, n int32) (*keyaddr.Key, error) { return k.HardenedChild(n) },
		isPrivate: func(k *keyaddr.Key) (bool, error) { return k.IsPrivate() },
		address:   func(k *keyaddr.Key) (*keyaddr.Address, error) { return k.NdauAddress() },
		sign:      func(k *keyaddr.Key, m string) (*keyaddr.Signature, error) { return k.Sign(m) },
	}
}

func wasmFacade(p *replay, h *wasmHost) *facadeAPI {
	txt := func(f string, args ...jsArg) (string, error) {
		t, v, err := h.result(p, f, args...)
		if err == nil && t != "string" {
			p.mismatch(-23, "%s(%v): the result is of type %s", f, args, t)
		}
		return v, err
	}
	key := func(f string, args ...jsArg) (*keyaddr.Key, error) {
		v, err := txt(f, args...)
		if err != nil {
			return nil, err
		}
		return &keyaddr.Key{Key: v}, nil
	}
	num := func(n int32) jsArg { return js("n", strconv.Itoa(int(n))) }
	return &facadeAPI{
		newKey: func(s string) (*keyaddr.Key, error) { return key("newKey", js("s", s)) },
		fromString: func(s string) (*keyaddr.Key, error) {
			t, v, err := h.result(p, "fromString", js("s", s))
			if err != nil {
				return nil, err
			}
			var o map[string]string
			if t != "object" || json.Unmarshal([]byte(v), &o) != nil || len(o) != 1 || o["key"] == "" {
				p.mismatch(-24, "fromString(%q): %s %s", s, t, v)
			}
			return &keyaddr.Key{Key: o["key"]}, nil
		},
		deriveFrom: func(k, a, b string) (*keyaddr.Key, error) {
			return key("deriveFrom", js("s", k), js("s", a), js("s", b))
		},
		toPublic: func(k *keyaddr.Key) (*keyaddr.Key, error) { return key("toPublic", js("s", k.Key)) },
		child:    func(k *keyaddr.Key, n int32) (*keyaddr.Key, error) { return key("child", js("s", k.Key), num(n)) },
		hardened: func(k *keyaddr.Key, n int32) (*keyaddr.Key, error) {
			return key("hardenedChild", js("s", k.Key), num(n))
		},
		isPrivate: func(k *keyaddr.Key) (bool, error) {
			t, v, err := h.result(p, "isPrivate", js("s", k.Key))
			if err == nil && t != "boolean" {
				p.mismatch(-25, "isPrivate(%q): %s %s", k.Key, t, v)
			}
			return v == "true", err
		},
		address: func(k *keyaddr.Key) (*keyaddr.Address, error) {
			v, err := txt("ndauAddress", js("s", k.Key))
			if err != nil {
				return nil, err
			}
			return &keyaddr.Address{Address: v}, nil
		},
		sign: func(k *keyaddr.Key, m string) (*keyaddr.Signature, error) {
			v, err := txt("sign", js("s", k.Key), js("s", m))
			if err != nil {
				return nil, err
			}
			return &keyaddr.Signature{Signature: v}, nil
		},
	}
}

// ---- the call protocol (spec/wasm.qnt) -------------------------------------------

var wasmFuncs = []string{"newKey", "wordsToBytes", "deriveFrom", "ndauAddress", "toPublic", "child", "sign", "hardenedChild",
	"wordsFromPrefix", "isPrivate", "wordsFromBytes", "exit", "fromString"}
var wasmKinds = []string{"s", "n", "undefined", "null", "b", "o", "a", "sym", "big", "cb", "cbt", "list", "box", "say", "swap"}
var wasmNums = []string{"0", "1", "5", "-1", "2147483647", "-2147483648", "44", "2147483648", "-2147483649", "NaN", "Infinity", "1e300", "1.5"}

// texts by role of the argument (see ROLES), ten of each
func wasmPools() [][]string {
	m := refMaster(termSeed(0))
	k := &keyaddr.Key{Key: m.text()}
	c, e1 := k.HardenedChild(44)
	u, e2 := c.ToPublic()
	if e1 != nil || e2 != nil {
		return nil
	}
	b := base64.StdEncoding.EncodeToString
	phrase := func(n int, l string) string {
		s, err := keyaddr.WordsFromBytes(l, b(termSeed(3)[:n]))
		if err != nil {
			return ""
		}
		return s
	}
	return [][]string{
		{m.text(), c.Key, u.Key, m.text(), u.Key, "", "npvt", u.Key[:80], "npub" + m.text()[4:], m.oldText([]byte{99, 103, 31})},
		{b(termSeed(0)), b(termSeed(1)[:16]), b(termSeed(2)), b(termSeed(3)[:24]), "", "AAAA", "x", "*" + b(termSeed(0)), b(termSeed(1)[:15]), "<undefined>"},
		{"/", "/1", "/44'/20036'", "/1/2", "/44'", "", "x", "/1/", "/1/2'", "/2147483648"},
		{"en", "en", "en", "en", "en", "en", "en", "", "EN", "es"},
		{phrase(16, "en"), phrase(32, "en"), phrase(20, "en"), phrase(1, "en"), "", "abandon", "eye eye eye", "  ", phrase(16, "en") + " zoo", strings.ToUpper(phrase(16, "en"))},
		{"a", "ab", "zoo", "e", "", "z", "q", "xyz", "A", " "},
		{b([]byte("ndau is great")), "", b(termSeed(0)), "AAAA", b(termSeed(1)[:16]), "AAA", "*", b(termSeed(2)[:16]), "YQ==", "_-8="},
	}
}

func replayWasm(files []string) error {
	h := newWasmHost()
	defer h.stop()
	fns := nativeFacade()
	roles := [][]int{{1}, {3, 4}, {0, 2, 2}, {0}, {0}, {0, 7}, {0, 6}, {0, 7}, {3, 5, 8}, {0}, {3, 6}, {}, {0}}
	return runReplay("wasm", files, func(p *replay) (func(State), func(State)) {
		h.fresh = true
		pools := wasmPools()
		if pools == nil {
			p.skip("the facade does not derive keys")
		}
		var calls []jsCall
		var want []State
		var vals [][2]string // text and error of the facade
		level := ""
		flush := func() {
			if len(calls) == 0 {
				return
			}
			var r jsReply
			lv := &level
			if level == "" {
				lv = nil
			}
			if p.guard(func() error { r = h.do(lv, calls...); return nil }) != sOK {
				h.stop()
				h2 := newWasmHost()
				*h = *h2
				p.mismatch(-30, "the module does not answer: %+v", calls)
			}
			lo, hi := 0, 0 // how often the error handler is to be called
			for i, c := range calls {
				o, s := r.Out[i], want[i]
				n := vi(s.vars["told"])
				l, u := n, n
				cb := func(errs bool) bool {
					return len(o.Cb) == 1 && (o.Cb[0][0][0] != "null") == errs && (!errs || o.Cb[0][1][0] == "null" && o.Cb[0][0][1] != "")
				}
				ok := false
				switch vi(s.vars["out"]) {
				case 0:
					if vals[i][1] != "" {
						ok = cb(true)
					} else {
						ok = cb(false) && o.Cb[0][1][1] == vals[i][0]
					}
				case 1:
					ok = cb(true)
				case 2:
					ok = len(o.Cb) == 0
					l, u = 1, 1
				case 3:
					if ok = len(o.Cb) == 0 || cb(true); len(o.Cb) == 0 {
						l, u = 1, 1
					} else {
						u = n + 1
					}
				case 4:
					ok = o.Thrown != "" && len(o.Cb) == 0
					u = 1
				case 5:
					ok = cb(false) && r.Ended
				case 6:
					ok = cb(false) && o.Cb[0][1][0] == "string" && o.Cb[0][1][1] == ""
				}
				lo, hi = lo+l, hi+u
				if vi(s.vars["out"]) != 4 && o.Thrown != "" {
					ok = false
				}
				p.did("%s(%v) nested=%v wait=%v -> %+v", c.F, c.Args, c.Nested, s.vars["wait"], o)
				if !ok {
					p.mismatch(-31-vi(s.vars["out"]), "%s(%v): the specification says outcome %v, facade %v; the module: %+v (calls under way: %+v)", c.F, c.Args, s.vars["out"], vals[i], o, calls)
				}
			}
			if r.Told < lo || r.Told > hi {
				p.mismatch(-41, "the error handler was called %d times instead of %d to %d (%q); calls under way: %+v", r.Told, lo, hi, r.Msg, calls)
			}
			if r.Ended != !vb(want[len(want)-1].vars["alive"]) {
				p.mismatch(-40, "the module ended: %v; the specification: alive %v; after %+v", r.Ended, want[len(want)-1].vars["alive"], calls)
			}
			calls, want, vals = nil, nil, nil
		}
		p.end = flush
		step := func(s State) {
			if s.action == "Level" {
				flush()
				level = []string{"D", "I", "E", "", "weird"}[s.pick("n")]
				return
			}
			f := vi(s.vars["fn"])
			c := jsCall{F: wasmFuncs[f], Nested: vb(s.vars["again"]), Args: []jsArg{}}
			var vs []string
			for i, x := range vl(s.vars["args"]) {
				a := x.(Rec)
				k, v := vi(a["k"]), vi(a["v"])
				t := ""
				role := 3
				if i < len(roles[f]) {
					role = roles[f][i]
				}
				number := role >= len(pools)
				switch {
				case k == 1 || k > 10 && number:
					t = wasmNums[v]
					if f == 8 { // max: an integer
						t = wasmNums[v%7]
					}
				case k == 0 && number:
					t = wasmNums[v]
				case k == 0 || k > 10:
					t = pools[role][v]
				}
				kind := wasmKinds[k]
				switch {
				case k == 14 && number: // a number as a text
					kind = "s"
				case k == 14:
					kind, t = "n", "12345678"
				case k > 10 && number:
					kind += "n"
				}
				vs = append(vs, t)
				c.Args = append(c.Args, js(kind, t))
			}
			val := [2]string{}
			if vi(s.vars["out"]) == 0 {
				n := int32(0)
				if len(roles[f]) > 1 && roles[f][1] == 7 {
					x, _ := strconv.Atoi(vs[1])
					n = int32(x)
				}
				key := &keyaddr.Key{Key: vs[0]}
				var err error
				var out *keyaddr.Key
				st := p.guard(func() error {
					switch f {
					case 0:
						out, err = fns.newKey(vs[0])
					case 1:
						l := vs[0]
						if c.Args[0].K == "undefined" {
							l = "en"
						}
						val[0], err = keyaddr.WordsToBytes(l, vs[1])
					case 2:
						out, err = fns.deriveFrom(vs[0], vs[1], vs[2])
					case 3:
						a, e := fns.address(key)
						if err = e; e == nil {
							val[0] = a.Address
						}
					case 4:
						out, err = fns.toPublic(key)
					case 5:
						out, err = fns.child(key, n)
					case 6:
						a, e := fns.sign(key, vs[1])
						if err = e; e == nil {
							val[0] = a.Signature
						}
					case 7:
						out, err = fns.hardened(key, n)
					case 8:
						x, _ := strconv.Atoi(vs[2])
						val[0] = keyaddr.WordsFromPrefix(vs[0], vs[1], x)
					case 9:
						b, e := fns.isPrivate(key)
						err = e
						val[0] = fmt.Sprint(b)
					case 10:
						val[0], err = keyaddr.WordsFromBytes(vs[0], vs[1])
					case 12:
						out, err = fns.fromString(vs[0])
						if err == nil {
							val[0] = fmt.Sprintf("{\"key\":%q}", out.Key)
							out = nil
						}
					}
					return nil
				})
				if st != sOK {
					p.skip("the facade panics")
				}
				if err != nil {
					val = [2]string{"", err.Error() + " "}
				} else if out != nil {
					val[0] = out.Key
				}
			}
			calls, want, vals = append(calls, c), append(want, s), append(vals, val)
			if !c.Nested && vb(s.vars["wait"]) {
				flush()
			}
		}
		return func(s State) {}, step
	})
}
