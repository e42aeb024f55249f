package main

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"os"
	"strings"

	"github.com/ndau/ndaumath/pkg/address"
	"github.com/ndau/ndaumath/pkg/keyaddr"
	sg "github.com/ndau/ndaumath/pkg/signature"
)

func init() {
	replayers["facade"] = replayFacade
	replayers["facadewasm"] = replayFacade // the same through the WebAssembly module
	recorders["C20"] = recC20
}

var b64 = base64.StdEncoding

func recase(t string, how int) string {
	b := []byte(t)
	for i := 4; i < len(b); i++ {
		if b[i] >= 'a' && b[i] <= 'z' && (how == 0 || (how == 1 && i%2 == 0) || (how == 2 && i%7 == 3)) {
			b[i] -= 32
		}
	}
	return string(b)
}

// the text with one mistake: at the end, in the middle or near the start
func mistype(t string, how int) string {
	other := func(i int) string {
		c := alphabet[(strings.IndexByte(alphabet, t[i]|32)+1)%32]
		return t[:i] + string(c) + t[i+1:]
	}
	n := len(t)
	switch how {
	case 0:
		return other(n - 1)
	case 1:
		return other(n - 8)
	case 2:
		return other(n / 2)
	case 3:
		return other(5)
	case 4:
		return t[:n-1]
	case 5:
		return t + "a"
	case 6:
		return t[:n-8]
	case 7:
		return t + t[n-8:]
	case 8:
		return " " + t
	case 10:
		return t + " "
	case 11:
		return t + "\t"
	case 12:
		return t[:n/2] + " " + t[n/2:]
	case 13:
		return t + "\x00"
	case 14:
		return t + "="
	case 15:
		return "\t" + t
	}
	return other(n * 3 / 4)
}

func fill(b []byte) {
	for i := range b {
		b[i] = 0x5a
	}
}

// the caller is done with the key: it is wiped, or its memory used for something else
func discard(k interface {
	Zeroize()
	KeyBytes() []byte
	ExtraBytes() []byte
}, how int) {
	switch how {
	case 1:
		k.Zeroize()
	case 2:
		fill(k.KeyBytes())
		fill(k.ExtraBytes())
	}
}

func replayFacade(files []string) error {
	var host *wasmHost
	if os.Getenv("VERIF_WASM") != "" {
		host = newWasmHost()
		defer host.stop()
	}
	return runReplay("facade", files, func(p *replay) (func(State), func(State)) {
		api := nativeFacade()
		if host != nil {
			host.fresh = true
			api = wasmFacade(p, host)
		}
		var ks []*keyaddr.Key
		var prev State
		txt := func(s State, i int) (term, int) {
			r := s.vars["s"].(Mp).get(i).(Rec)
			return termOf(r["k"]), vi(r["form"])
		}
		compare := func(s State) {
			for i, k := range ks {
				if k == nil {
					p.mismatch(-1, "a nil key was returned without an error")
				}
				t, form := txt(s, i)
				if form == 0 && k.Key != t.ref().text() {
					p.mismatch(-2, "text %d should denote %v, which is %s, but is %s", i, t, t.ref().text(), k.Key)
				}
			}
		}
		start := func(s State) {
			ks = nil
			for range s.vars["s"].(Mp) {
				ks = append(ks, &keyaddr.Key{Key: "junk"})
			}
			prev = s
		}
		num := func(s State, n string) int32 { return int32(vbig(s.picks[n]).Int64()) }
		step := func(s State) {
			var before []string
			for _, k := range ks {
				before = append(before, k.Key)
			}
			var err error
			var out *keyaddr.Key
			in := func() *keyaddr.Key { return ks[s.pick("i")] }
			note := ""
			silent := false // the caller's own edit, not a call
			st := p.guard(func() error {
				switch s.action {
				case "NewKey":
					n := s.pick("n")
					seed := b64.EncodeToString(termSeed(n % 4))
					switch n {
					case 4:
						seed = b64.EncodeToString(termSeed(1)[:15])
					case 5:
						seed = b64.EncodeToString(append(cp(termSeed(2)), 1))
					case 6:
						seed = "*" + seed
					case 7:
						seed = ""
					case 12: // no padding
						seed = strings.TrimRight(b64.EncodeToString(termSeed(0)[:16]), "=")
					case 13: // the other base64 alphabet
						seed = base64.URLEncoding.EncodeToString(bytes.Repeat([]byte{0xfb}, 32))
					case 14:
						seed = seed + " "
					case 15:
						seed = b64.EncodeToString(termSeed(0)[:16]) + b64.EncodeToString(termSeed(0)[:16])
					case 16:
						seed = strings.Repeat("ab0", 21)
					}
					note = seed
					out, err = api.newKey(seed)
				case "FromString":
					out, err = api.fromString(in().Key)
				case "FromOldString":
					out, err = keyaddr.FromOldString(in().Key)
				case "DeriveFrom":
					t, form := txt(prev, s.pick("i"))
					c := t
					c.path = append(append([]uint32(nil), t.path...), uint32(num(s, "n")), uint32(num(s, "m")))
					if form == 3 {
						t, c = term{}, term{path: []uint32{1, 2}}
					}
					note = t.pathText() + " -> " + c.pathText()
					out, err = api.deriveFrom(in().Key, t.pathText(), c.pathText())
				case "DeriveHard":
					t, form := txt(prev, s.pick("i"))
					pp := t.pathText()
					if form == 3 {
						pp = "/"
					}
					cpath := strings.TrimSuffix(pp, "/") + fmt.Sprintf("/%d'", num(s, "n"))
					note = pp + " -> " + cpath
					out, err = api.deriveFrom(in().Key, pp, cpath)
				case "ToPublic":
					out, err = api.toPublic(in())
				case "Child":
					out, err = api.child(in(), num(s, "n"))
				case "HardenedChild":
					out, err = api.hardened(in(), num(s, "n"))
				case "ViaExtended":
					x, e := in().ToExtended()
					if err = e; e == nil {
						out, err = keyaddr.KeyFromExtended(x)
						switch s.pick("m") {
						case 1:
							x.Zero()
						case 2:
							fill(x.Bytes())
						}
					}
				case "ViaPublicKey":
					x, e := in().ToPublicKey()
					if err = e; e == nil {
						out, err = keyaddr.KeyFromPublic(x)
						discard(&x, s.pick("m"))
					}
				case "ViaPrivateKey":
					x, e := in().ToPrivateKey()
					if err = e; e == nil {
						out, err = keyaddr.KeyFromPrivate(x)
						discard(&x, s.pick("m"))
					}
				case "IsPrivate":
					is, e := api.isPrivate(in())
					err = e
					if t, _ := txt(prev, s.pick("i")); e == nil && vb(s.vars["ok"]) && is != t.priv {
						p.mismatch(-3, "IsPrivate of %v is %v", t, is)
					}
				case "NdauAddress":
					a, e := api.address(in())
					if err = e; e == nil && vb(s.vars["ok"]) {
						t, _ := txt(prev, s.pick("i"))
						w, e2 := address.Generate(address.KindUser, t.ref().pub())
						if e2 != nil || w.String() != a.Address {
							p.mismatch(-4, "NdauAddress of %v is %s, address.Generate gives %s (%v)", t, a.Address, w, e2)
						}
					}
				case "Sign":
					n := s.pick("n")
					msg := dsha([]byte{byte(n)})[:n%6*5]
					m := b64.EncodeToString(msg)
					switch n { // not base64
					case 6:
						m = "a?" + m
					case 7: // no padding
						m = "AAA"
					case 8: // the other base64 alphabet
						m = base64.URLEncoding.EncodeToString([]byte{0xfb, 0xff, 0xfe})
					case 9:
						m = b64.EncodeToString([]byte{1}) + m
					case 10:
						m = " " + m
					case 11:
						m = "=" + m
					}
					sig, e := api.sign(in(), m)
					if err = e; e == nil && vb(s.vars["ok"]) {
						t, _ := txt(prev, s.pick("i"))
						k := t.ref()
						pub, e1 := sg.RawPublicKey(sg.Secp256k1, k.pub(), nil)
						raw, e2 := sig.ToSignature()
						if e1 != nil || e2 != nil || !pub.Verify(msg, raw) || pub.Verify(append(cp(msg), 0), raw) {
							p.mismatch(-5, "Sign(%q) of %v gives %s, which does not verify (%v %v)", m, t, sig.Signature, e1, e2)
						}
						prv, e1 := sg.RawPrivateKey(sg.Secp256k1, k.key, nil)
						if e1 == nil {
							w, e3 := keyaddr.SignatureFrom(prv.Sign(msg))
							again, e4 := keyaddr.SignatureFrom(raw)
							if e3 != nil || e4 != nil || again.Signature != sig.Signature || w.Signature != sig.Signature {
								p.mismatch(-6, "Sign(%q) of %v gives %s, signing with the core key %v", m, t, sig.Signature, w)
							}
						}
					}
				case "Recase":
					k := ks[s.pick("i")]
					k.Key = recase(k.Key, s.pick("n"))
					silent = true
				case "Outdate":
					t, _ := txt(prev, s.pick("i"))
					ks[s.pick("j")] = &keyaddr.Key{Key: t.ref().oldText([]byte{99, byte(100), 16})}
					if t.priv {
						ks[s.pick("j")].Key = t.ref().oldText([]byte{99, 103, 31})
					}
					silent = true
				case "Spoil":
					t := refMaster(termSeed(0))
					k := []string{"", "npvt", t.text() + "a", t.text()[:len(t.text())-1], "npub" + t.text()[4:], "tpvt" + t.text()[4:],
						t.oldText([]byte{99, 103, 31})[1:], "npub" + refEncode(refWrap(refContainer(1, refPack(make([]byte, 32), nil))))}[s.pick("n")]
					if s.pick("n") == 4 { // a private key labelled public
						k = "npvt" + refEncode(refWrap(refContainer(2, refPack(t.key, t.extra()[:20]))))
					}
					ks[s.pick("j")] = &keyaddr.Key{Key: k}
					silent = true
				case "Mistype":
					ks[s.pick("j")] = &keyaddr.Key{Key: mistype(ks[s.pick("i")].Key, s.pick("n"))}
					silent = true
				case "CopyText":
					ks[s.pick("j")] = &keyaddr.Key{Key: ks[s.pick("i")].Key}
					silent = true
				default:
					fatal("unknown action " + s.action)
				}
				return nil
			})
			d := s.action
			for _, n := range []string{"i", "j", "n", "m"} {
				if v, ok := s.picks[n]; ok {
					d += fmt.Sprintf(" %s=%v", n, v)
				}
			}
			p.did("%s %s: error %v", d, note, err)
			if st != sOK {
				p.mismatch(-7, "%s panicked or hung", d)
			}
			if (err == nil) != vb(s.vars["ok"]) {
				p.mismatch(-8, "%s %s on %q: error %v, the specification says success: %v", d, note, before, err, s.vars["ok"])
			}
			if err != nil && out != nil {
				p.mismatch(-9, "%s: a key along with an error", d)
			}
			if !silent {
				for i, k := range ks {
					if k.Key != before[i] {
						p.mismatch(-10, "%s changed text %d", d, i)
					}
				}
			}
			if j, ok := s.picks["j"]; ok && err == nil && !silent {
				ks[vi(j)] = out
			}
			compare(s)
			prev = s
		}
		return start, step
	})
}

// keyaddr.WordsToBytes as one call of words.ToBytes
func (r *R) facadeTo(lang, text string) {
	var out string
	var res []byte
	st := r.try(func() (err error) { out, err = keyaddr.WordsToBytes(lang, text); return })
	if st == sOK {
		var e error
		if res, e = b64.DecodeString(out); e != nil || b64.EncodeToString(res) != out {
			st = 9
		}
	}
	r.emit(fmt.Sprintf("keyaddr.WordsToBytes(%q, %q)", lang, text), 2, in(int64(st)), bl(lang == "en"), packWords(strings.Split(text, " ")), B(res), in(1))
}

// The word functions of the facade are those of package words on base64 and space separated text; op 4 is a refusal.
func recC20(r *R) {
	from := func(lang, data string) {
		var out, back string
		st := r.try(func() (err error) { out, err = keyaddr.WordsFromBytes(lang, data); return })
		raw, e := b64.DecodeString(data)
		if e != nil {
			r.emit(fmt.Sprintf("keyaddr.WordsFromBytes(%q, %q): not base64", lang, data), 4, in(int64(st)))
			return
		}
		st2, res := 1, []byte(nil)
		var ws []string
		if st == sOK {
			ws = strings.Split(out, " ")
			st2 = r.try(func() (err error) { back, err = keyaddr.WordsToBytes(lang, out); return })
			if st2 == sOK {
				if res, e = b64.DecodeString(back); e != nil || b64.EncodeToString(res) != back {
					st2 = 9
				}
			}
		}
		r.emit(fmt.Sprintf("keyaddr.WordsFromBytes(%q, %q) and back", lang, data), 1, in(int64(st)), bl(lang == "en"), B(raw), packWords(ws), in(int64(st2)), B(res))
	}
	to := r.facadeTo
	for i := 0; i < r.num(6, 60); i++ { // a phrase and those which differ from it in one place, in turn
		r.akinPhrases([]int{16, 32, 11 + r.Intn(30)}[i%3], func(ws []string) { to("en", strings.Join(ws, " ")) })
		for _, x := range r.kindred(r.bytes(16 + r.Intn(17))) {
			from("en", b64.EncodeToString(x))
		}
	}
	for i := 0; i < r.num(120, 1500); i++ {
		l := "en"
		if r.Intn(10) == 0 {
			l = []string{"", "EN", "sp"}[r.Intn(3)]
		}
		from(l, b64.EncodeToString(r.bytes([]int{16, 32, r.Intn(40)}[r.Intn(3)])))
		d := []byte(b64.EncodeToString(r.bytes(1 + r.Intn(20))))
		switch r.Intn(3) {
		case 0:
			d[r.Intn(len(d))] = "*?-_ =\x00~"[r.Intn(8)]
		case 1:
			d = d[:len(d)-1]
		}
		from(l, string(d))
		ws := r.phrase(r.Intn(33))
		switch r.Intn(6) {
		case 0:
			ws[r.Intn(len(ws))] = english[r.Intn(2048)]
		case 1:
			ws[r.Intn(len(ws))] = r.oddWord()
		}
		t := strings.Join(ws, " ")
		switch r.Intn(10) {
		case 0:
			t = " " + t
		case 1:
			t += " "
		case 2:
			t = strings.Replace(t, " ", "  ", 1)
		case 3:
			t = strings.ToUpper(t)
		case 4:
			t = ""
		}
		if r.Intn(3) == 0 {
			ws = make([]string, 1+r.Intn(30))
			for k := range ws {
				ws[k] = english[r.Intn(2048)]
			}
			t = strings.Join(ws, " ")
		}
		to(l, t)
		pre, max := english[r.Intn(2048)][:1+r.Intn(3)], r.Intn(12)-2
		var out string
		st := r.try(func() error { out = keyaddr.WordsFromPrefix(l, pre, max); return nil })
		r.emit(fmt.Sprintf("keyaddr.WordsFromPrefix(%q, %q, %d)", l, pre, max), 3, in(int64(st)), bl(l == "en"), S(pre), in(int64(max)), S(out))
	}
}
