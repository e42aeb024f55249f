package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"strings"

	"github.com/ndau/ndaumath/pkg/key"
	sg "github.com/ndau/ndaumath/pkg/signature"
)

func init() {
	replayers["lifecycle"] = replayLifecycle
	recorders["C06"] = recTerms
}

// ---- what the terms of spec/terms.qnt denote ---------------------------------

type term struct {
	st   int
	seed int
	path []uint32
	priv bool
}

func termOf(v V) term {
	r := v.(Rec)
	t := term{st: vi(r["st"]), seed: vi(r["seed"]), priv: vb(r["priv"])}
	for _, n := range vl(r["path"]) {
		t.path = append(t.path, uint32(vbig(n).Uint64()))
	}
	return t
}

func (t term) String() string {
	switch t.st {
	case 0:
		return "zero"
	case 2:
		return "unspecified"
	}
	s := fmt.Sprintf("master%d", t.seed)
	for _, n := range t.path {
		s += fmt.Sprintf("/%d", n)
	}
	if !t.priv {
		s += ".public"
	}
	return s
}

// the path as DeriveFrom takes it; alternates the notations of a hardened element
func (t term) pathText() string {
	if len(t.path) == 0 {
		return "/"
	}
	s := ""
	for i, n := range t.path {
		if n >= 1<<31 && i%2 == 0 {
			s += fmt.Sprintf("/%d'", n-1<<31)
		} else {
			s += fmt.Sprintf("/%d", n)
		}
	}
	return s
}

var termSeeds [][]byte
var termCache = map[string]*refKey{}
var termFrozen bool // read only from now on, goroutines are about to use it

func termSeed(i int) []byte {
	if termSeeds == nil {
		for k, n := range []int{16, 32, 64, 17} {
			s := dsha([]byte(fmt.Sprintf("seed %d %s", k, os.Getenv("VERIF_SEED"))))
			s = append(s, dsha(s)...)
			termSeeds = append(termSeeds, s[:n])
		}
		// one whose private key starts with a zero byte
		for x := uint64(0); refMaster(termSeeds[3]).key[0] != 0; x++ {
			binary.BigEndian.PutUint64(termSeeds[3], x)
		}
	}
	return termSeeds[i]
}

func (t term) ref() *refKey {
	s := t.String()
	if k, ok := termCache[s]; ok {
		return k
	}
	var k *refKey
	switch {
	case t.st != 1:
		fatal("not a key: " + s)
	case !t.priv:
		k = term{1, t.seed, t.path, true}.ref().neuter()
	case len(t.path) == 0:
		k = refMaster(termSeed(t.seed))
	default:
		n := len(t.path) - 1
		p := term{1, t.seed, t.path[:n], true}.ref()
		k = p.child(t.path[n], p.fact(t.path[n], nil))
		if k == nil {
			fatal("no such child: " + s)
		}
	}
	if !termFrozen {
		termCache[s] = k
	}
	return k
}

// recTerms has the specification check the reading of terms used in replays.
func recTerms(r *R) {
	os.Setenv("VERIF_SEED", fmt.Sprint(r.Int63()))
	nums := []uint32{0, 1, 2, 5, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1}
	for i := 0; i < r.num(60, 500); i++ {
		t := term{1, r.Intn(4), nil, r.Intn(2) == 0}
		for d := r.Intn(4); d > 0; d-- {
			n := nums[r.Intn(len(nums))]
			if !t.priv {
				n &= 1<<31 - 1
			}
			t.path = append(t.path, n)
		}
		n := nums[r.Intn(len(nums))]
		if !t.priv {
			n &= 1<<31 - 1
		}
		p := t.ref()
		t.path = append(append([]uint32(nil), t.path...), n)
		c := t.ref()
		f := p.fact(n, nil)
		fs := []I{S(p.text()), in(0), in(int64(n)), in(0), S(c.text())}
		m := refMessage(c.text(), true)
		fs = append(fs, B(m), B(sha224(m)))
		fs = append(fs, f.fields()...)
		fp := int64(c.fp[0])<<16 | int64(c.fp[1])<<8 | int64(c.fp[2])
		fs = append(fs, B(c.key), B(c.pub()), bl(c.priv), in(int64(c.depth)), in(fp), S(p.text()))
		r.emit("reference reading of "+t.String(), 1, fs...)
	}
}

// ---- replay -------------------------------------------------------------------

type sigBox struct {
	cur sg.Key
	pub *sg.PublicKey
	prv *sg.PrivateKey
}

func (b *sigBox) put(k sg.Key) {
	b.cur = k
	switch x := k.(type) {
	case *sg.PublicKey:
		b.pub = x
	case *sg.PrivateKey:
		b.prv = x
	}
}

func sameAsFresh(x *XK) string {
	f := new(XK)
	if x.IsPrivate() != f.IsPrivate() || x.Depth() != f.Depth() || len(x.Bytes()) != 0 || len(x.PubKeyBytes()) != 0 {
		return fmt.Sprintf("private %v depth %d key %x public %x", x.IsPrivate(), x.Depth(), x.Bytes(), x.PubKeyBytes())
	}
	if x.ParentFingerprint() != f.ParentFingerprint() {
		return fmt.Sprintf("parent fingerprint %x", x.ParentFingerprint())
	}
	t1, e1 := x.MarshalText()
	t2, e2 := f.MarshalText()
	if (e1 == nil) != (e2 == nil) || (e1 == nil && !bytes.Equal(t1, t2)) {
		return fmt.Sprintf("text %s %v", t1, e1)
	}
	return ""
}

func showsKey(x *XK, k *refKey) string {
	t, err := x.MarshalText()
	if err != nil || string(t) != k.text() {
		return fmt.Sprintf("text %s (%v), expected %s", t, err, k.text())
	}
	fp := uint32(k.fp[0])<<16 | uint32(k.fp[1])<<8 | uint32(k.fp[2])
	if !bytes.Equal(x.Bytes(), k.key) || x.IsPrivate() != k.priv || x.Depth() != k.depth || x.ParentFingerprint() != fp {
		return fmt.Sprintf("key %x private %v depth %d parent %x", x.Bytes(), x.IsPrivate(), x.Depth(), x.ParentFingerprint())
	}
	return ""
}

func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0xa5
	}
}

func replayLifecycle(files []string) error {
	return runReplay("lifecycle", files, func(p *replay) (func(State), func(State)) {
		var xs []*XK
		var sigs []*sigBox
		val := func(s State, i int) term { return termOf(s.vars["heap"].(Mp).get(vi(s.vars["slot"].(Mp).get(i)))) }
		sig := func(s State, i int) term { return termOf(s.vars["sigs"].(Mp).get(i)) }
		compare := func(s State) {
			slot := s.vars["slot"].(Mp)
			if st := p.guard(func() error {
				for i, x := range xs {
					if x == nil {
						p.mismatch(-1, "a nil key was returned without an error")
					}
					t := val(s, i)
					switch t.st {
					case 0:
						if d := sameAsFresh(x); d != "" {
							p.mismatch(-2, "variable %d should hold no key, but has %s", i, d)
						}
					case 1:
						if d := showsKey(x, t.ref()); d != "" {
							p.mismatch(-3, "variable %d should denote %v, but has %s", i, t, d)
						}
					}
					for j, y := range xs {
						if (x == y) != (vi(slot.get(i)) == vi(slot.get(j))) {
							p.mismatch(-4, "variables %d and %d: same object %v", i, j, x == y)
						}
					}
				}
				for i, b := range sigs {
					t := sig(s, i)
					if t.st == 0 {
						if b.cur != nil && (len(b.cur.KeyBytes()) != 0 || len(b.cur.ExtraBytes()) != 0 || !sg.SameAlgorithm(b.cur.Algorithm(), sg.Null)) {
							p.mismatch(-5, "signature key %d should be empty", i)
						}
						continue
					}
					k := t.ref()
					x, err := b.cur.MarshalText()
					if err != nil || string(x) != k.text() || !bytes.Equal(b.cur.KeyBytes(), k.key) || !bytes.Equal(b.cur.ExtraBytes(), k.extra()) || sg.IsPrivate(b.cur) != k.priv {
						p.mismatch(-6, "signature key %d should denote %v, but is %s (%v)", i, t, x, err)
					}
				}
				return nil
			}); st != sOK {
				p.mismatch(-7, "looking at a key panicked")
			}
		}
		start := func(s State) {
			xs, sigs = nil, nil
			for range s.vars["slot"].(Mp) {
				xs = append(xs, new(XK))
			}
			for range s.vars["sigs"].(Mp) {
				sigs = append(sigs, &sigBox{pub: new(sg.PublicKey), prv: new(sg.PrivateKey)})
			}
			compare(s)
		}
		var prev State
		step := func(s State) {
			want := vb(s.vars["ok"])
			var err error
			var note string
			// new objects land in a variable only when the call succeeds
			land := func(j int, x *XK, e error) {
				err = e
				if e == nil {
					xs[j] = x
				}
			}
			st := p.guard(func() error {
				switch s.action {
				case "Master":
					seed := cp(termSeed(s.pick("s")))
					x, e := key.NewMaster(seed)
					scribble(seed)
					land(s.pick("i"), x, e)
				case "Child":
					x, e := xs[s.pick("i")].Child(uint32(vbig(s.picks["n"]).Uint64()))
					land(s.pick("j"), x, e)
				case "Hard":
					x, e := xs[s.pick("i")].HardenedChild(uint32(vbig(s.picks["n"]).Uint64()))
					land(s.pick("j"), x, e)
				case "Derive":
					t := val(prev, s.pick("i"))
					c := t
					c.path = append(append([]uint32(nil), t.path...), uint32(vbig(s.picks["n"]).Uint64()), uint32(vbig(s.picks["m"]).Uint64()))
					note = t.pathText() + " -> " + c.pathText()
					x, e := xs[s.pick("i")].DeriveFrom(t.pathText(), c.pathText())
					land(s.pick("j"), x, e)
				case "Pub":
					x, e := xs[s.pick("i")].Public()
					land(s.pick("j"), x, e)
				case "Raw":
					k := val(prev, s.pick("i")).ref()
					a, b, c := cp(k.key), cp(k.cc), cp(k.fp)
					x := key.NewExtendedKey(a, b, c, k.depth, k.num, k.priv)
					scribble(a)
					scribble(b)
					scribble(c)
					land(s.pick("j"), x, nil)
				case "Look":
					i := s.pick("i")
					x, k := xs[i], val(prev, i).ref()
					if b := x.PubKeyBytes(); !bytes.Equal(b, k.pub()) {
						p.mismatch(-8, "PubKeyBytes of variable %d is %x, expected %x", i, b, k.pub())
					}
					pk, e := x.ECPubKey()
					if e != nil || !bytes.Equal(pk.SerializeCompressed(), k.pub()) {
						p.mismatch(-9, "ECPubKey of variable %d: %v", i, e)
					}
					sk, e := x.ECPrivKey()
					if (e == nil) != k.priv || (e == nil && !bytes.Equal(pad32(sk.D), k.key)) {
						p.mismatch(-10, "ECPrivKey of variable %d: %v", i, e)
					}
					if e == nil { // the curve key is the caller's own
						sk.D.SetInt64(1)
					}
				case "Zero":
					xs[s.pick("j")].Zero()
				case "ParseInto":
					text := []byte(val(prev, s.pick("i")).ref().text())
					err = xs[s.pick("j")].UnmarshalText(text)
					scribble(text)
				case "ParseBad":
					t := refMaster(termSeed(1)).text()
					switch s.pick("n") {
					case 0:
						t = "not a key"
					case 1:
						t = t[:20] + strings.Replace(t[20:], t[20:21], "a", 1)
						if t == refMaster(termSeed(1)).text() {
							t = t[:20] + "b" + t[21:]
						}
					case 2:
						t = "npub" + refEncode(refWrap(refContainer(1, refPack(make([]byte, 32), nil))))
					case 3:
						t = t[:len(t)-8]
					case 4:
						k := refMaster(termSeed(1))
						t = "npvt" + refEncode(refWrap(refContainer(2, refPack(k.key, k.extra()[:39]))))
					}
					note = t
					err = xs[s.pick("j")].UnmarshalText([]byte(t))
				case "ToSig":
					k, e := xs[s.pick("i")].AsSignatureKey()
					if err = e; e == nil {
						sigs[s.pick("s")].put(k)
					}
				case "SPub":
					k, e := xs[s.pick("i")].SPubKey()
					if err = e; e == nil {
						sigs[s.pick("s")].put(k)
					}
				case "SPriv":
					k, e := xs[s.pick("i")].SPrivKey()
					if err = e; e == nil {
						sigs[s.pick("s")].put(k)
					}
				case "SigParse":
					k := val(prev, s.pick("i")).ref()
					b := sigs[s.pick("s")]
					if k.priv {
						err = b.prv.UnmarshalText([]byte(k.text()))
						b.cur = b.prv
					} else {
						err = b.pub.UnmarshalText([]byte(k.text()))
						b.cur = b.pub
					}
				case "FromSigNew", "FromSigInto":
					var k sg.Key = sigs[s.pick("s")].cur
					if k == nil {
						k = new(sg.PublicKey)
					}
					if s.action == "FromSigNew" {
						x, e := key.FromSignatureKey(k)
						land(s.pick("j"), x, e)
					} else {
						err = xs[s.pick("j")].FromSignatureKey(k)
					}
				case "ZeroSig":
					if b := sigs[s.pick("s")]; b.cur != nil {
						b.cur.Zeroize()
					}
				default:
					fatal("unknown action " + s.action)
				}
				return nil
			})
			d := s.action
			for _, n := range []string{"i", "j", "s", "n", "m"} {
				if v, ok := s.picks[n]; ok {
					d += fmt.Sprintf(" %s=%v", n, v)
				}
			}
			p.did("%s %s: error %v", d, note, err)
			if st != sOK {
				p.mismatch(-11, "%s panicked or hung", d)
			}
			if (err == nil) != want {
				p.mismatch(-12, "%s: error %v, the specification says success: %v", d, err, want)
			}
			compare(s)
			prev = s
		}
		return func(s State) { start(s); prev = s }, step
	})
}
