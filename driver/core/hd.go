package main

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha512"
	"errors"
	"fmt"
	"io"
	"math/big"
	"strings"
	"unicode/utf8"

	"github.com/btcsuite/btcd/btcec"
	"github.com/ndau/ndaumath/pkg/bip32"
	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/keyaddr"
	"github.com/ndau/ndaumath/pkg/signature"
)

type XK = key.ExtendedKey

func textOf(k *XK) string {
	if k == nil {
		return ""
	}
	var t []byte
	guardFast(func() (err error) { t, err = k.MarshalText(); return })
	return string(t)
}

// text with its embedded message and the SHA-224 fact about it
func textFields(t string) []I {
	m := refMessage(t, true)
	return []I{S(t), B(m), B(sha224(m))}
}

// [bytes, public key bytes, private?, depth, parent fingerprint]
func objFields(k *XK) []I {
	if k == nil {
		return []I{in(0), in(0), in(0), in(0), in(0)}
	}
	var out []I
	if guardFast(func() error {
		b := cp(k.Bytes())
		out = []I{B(b), B(cp(k.PubKeyBytes())), bl(k.IsPrivate()), in(int64(k.Depth())), in(int64(k.ParentFingerprint()))}
		return nil
	}) != sOK {
		return []I{in(-1), in(-1), in(-1), in(-1), in(-1)}
	}
	return out
}

// construct an extended key object in one of several ways
func (r *R) object(k *refKey) *XK {
	switch r.Intn(4) {
	case 0:
		return key.NewExtendedKey(cp(k.key), cp(k.cc), cp(k.fp), k.depth, k.num, k.priv)
	case 1:
		x := new(XK)
		if x.UnmarshalText([]byte(k.text())) != nil {
			return key.NewExtendedKey(cp(k.key), cp(k.cc), cp(k.fp), k.depth, k.num, k.priv)
		}
		return x
	case 2:
		x := key.NewExtendedKey(cp(k.key), cp(k.cc), cp(k.fp), k.depth, k.num, k.priv)
		guardFast(func() error { x.PubKeyBytes(); return nil })
		return x
	default:
		if k.priv {
			return key.NewExtendedKey(cp(k.key), cp(k.cc), cp(k.fp), k.depth, k.num, k.priv)
		}
		x := new(XK)
		if x.UnmarshalText([]byte(k.text())) != nil {
			return key.NewExtendedKey(cp(k.key), cp(k.cc), cp(k.fp), k.depth, k.num, k.priv)
		}
		p, err := x.Public()
		if err != nil {
			return x
		}
		return p
	}
}

func (r *R) refRandom(priv bool) *refKey {
	k := &refKey{priv: true, key: r.bytes(32), cc: r.bytes(32), depth: byte(r.Intn(256)), fp: r.bytes(3), num: r.Uint32()}
	switch r.Intn(8) {
	case 0:
		k.key = append([]byte{0}, k.key[1:]...)
	case 1:
		k.key = append([]byte{0, 0, 0}, k.key[3:]...)
	case 2:
		k.key = pad32(new(big.Int).Sub(curveN, big.NewInt(int64(1+r.Intn(5)))))
	case 3:
		k.key = pad32(big.NewInt(int64(1 + r.Intn(300))))
	case 4:
		k.cc = append([]byte{0, 0}, k.cc[2:]...)
	case 5:
		k.fp = []byte{0, 0, byte(r.Intn(2))}
	}
	if r.Intn(3) == 0 {
		k.depth = []byte{0, 1, 127, 128, 253, 254, 255}[r.Intn(7)]
	}
	if r.Intn(3) == 0 {
		k.num = []uint32{0, 1, 1<<31 - 1, 1 << 31, 1<<32 - 1, 255, 256, 65535, 1 << 24}[r.Intn(9)]
	}
	if !priv {
		return k.neuter()
	}
	return k
}

func (r *R) index() uint32 {
	switch r.Intn(5) {
	case 0:
		return []uint32{0, 1, 2, 127, 128, 255, 256, 65535, 65536, 1<<24 - 1, 1 << 24, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1<<32 - 2}[r.Intn(16)]
	case 1:
		return uint32(r.Intn(100))
	case 2:
		return 1<<31 + uint32(r.Intn(100))
	default:
		return r.Uint32()
	}
}

// op 1.  Derives child n of x (whose current reference state is k) and records the step.
func recChild(r *R, x *XK, hardened bool, n uint32, pub []byte) (*XK, *refKey) {
	before := textOf(x)
	k := refParse(before)
	var c *XK
	st := r.try(func() (err error) {
		if hardened {
			c, err = x.HardenedChild(n)
		} else {
			c, err = x.Child(n)
		}
		return
	})
	if st != sOK {
		c = nil
	}
	ct := textOf(c)
	idx := n
	var f fact
	var rc *refKey
	if hardened {
		idx += 1 << 31
	}
	if k != nil && (k.priv || len(k.key) == 33) {
		f = k.fact(idx, pub)
		rc = k.child(idx, f)
	}
	fs := []I{S(before), bl(hardened), iu(uint64(n)), in(int64(st))}
	fs = append(fs, textFields(ct)...)
	fs = append(fs, f.fields()...)
	fs = append(fs, objFields(c)...)
	fs = append(fs, S(textOf(x)))
	name := "Child"
	if hardened {
		name = "HardenedChild"
	}
	r.emit(fmt.Sprintf("%s.%s(%d)", before, name, n), 1, fs...)
	return c, rc
}

// op 2
func recMaster(r *R, seed []byte) *XK {
	var x *XK
	st := r.try(func() (err error) { x, err = key.NewMaster(r.lend(seed)); return })
	if st != sOK {
		x = nil
	}
	fs := []I{B(seed), in(int64(st)), S("ndau seed"), B(hmac512([]byte("ndau seed"), seed))}
	fs = append(fs, textFields(textOf(x))...)
	fs = append(fs, objFields(x)...)
	r.emit(fmt.Sprintf("NewMaster(%s)", hx(seed)), 2, fs...)
	return x
}

// ops 12 and 13: package bip32 itself
func recRawMaster(r *R, seed []byte) {
	var il, ir [32]byte
	st := r.try(func() (err error) { il, ir, err = bip32.NewMaster(r.lend(seed)); return })
	r.emit(fmt.Sprintf("bip32.NewMaster(%s)", hx(seed)), 12, B(seed), in(int64(st)), S("ndau seed"), B(hmac512([]byte("ndau seed"), seed)), B(il[:]), B(ir[:]))
}

func recRawPublic(r *R, d []byte) {
	var p []byte
	st := r.try(func() error { p = bip32.PrivateToPublic(r.lend(d)); return nil })
	r.emit(fmt.Sprintf("bip32.PrivateToPublic(%s)", hx(d)), 13, B(d), in(int64(st)), B(p))
}

// op 3: every conversion and guard of one key
func recConvert(r *R, x *XK) {
	t := textOf(x)
	fs := []I{S(t)}
	var b, e []byte
	st := r.try(func() error {
		p, err := x.SPrivKey()
		if p != nil {
			b, e = cp(p.KeyBytes()), cp(p.ExtraBytes())
		}
		return err
	})
	fs = append(fs, in(int64(st)), B(b), B(e))
	b = nil
	st = r.try(func() error {
		p, err := x.ECPrivKey()
		if p != nil {
			b = p.Serialize()
		}
		return err
	})
	fs = append(fs, in(int64(st)), B(b))
	b = nil
	st = r.try(func() error {
		p, err := x.ECPubKey()
		if err == nil {
			b = p.SerializeCompressed()
		}
		return err
	})
	fs = append(fs, in(int64(st)), B(b))
	b, e = nil, nil
	st = r.try(func() error {
		p, err := x.SPubKey()
		if err == nil {
			b, e = cp(p.KeyBytes()), cp(p.ExtraBytes())
		}
		return err
	})
	fs = append(fs, in(int64(st)), B(b), B(e))
	fs = append(fs, objFields(x)...)
	var p *XK
	st = r.try(func() (err error) { p, err = x.Public(); return })
	if st != sOK {
		p = nil
	}
	fs = append(fs, in(int64(st)))
	fs = append(fs, textFields(textOf(p))...)
	r.emit("conversions of "+t, 3, fs...)
}

// reference reading of a path, only to supply facts
func refPath(s string) (els []uint32, hard []bool, ok bool) {
	s = strings.ReplaceAll(s, " ", "")
	if s == "/" {
		return nil, nil, true
	}
	if s == "" || s[0] != '/' {
		return
	}
	for _, p := range strings.Split(s[1:], "/") {
		h := strings.HasSuffix(p, "'")
		p = strings.TrimSuffix(p, "'")
		v, good := new(big.Int).SetString(p, 10)
		if !good || v.Sign() < 0 || v.BitLen() > 32 {
			return
		}
		els = append(els, uint32(v.Uint64()))
		hard = append(hard, h)
	}
	return els, hard, true
}

// op 4
func recPath(r *R, x *XK, pp, cpath string) *XK {
	before := textOf(x)
	k := refParse(before)
	var c *XK
	st := r.try(func() (err error) { c, err = x.DeriveFrom(pp, cpath); return })
	if st != sOK {
		c = nil
	}
	fs := []I{S(before), S(pp), S(cpath), in(int64(st))}
	fs = append(fs, textFields(textOf(c))...)
	fs = append(fs, S(textOf(x)))
	pe, _, ok1 := refPath(pp)
	ce, ch, ok2 := refPath(cpath)
	var facts []I
	ns := 0
	if ok1 && ok2 && k != nil {
		for i := len(pe); i < len(ce) && k != nil; i++ {
			n := ce[i]
			if ch[i] {
				if n >= 1<<31 {
					break
				}
				n += 1 << 31
			}
			f := k.fact(n, nil)
			facts = append(facts, f.fields()...)
			ns++
			k = k.child(n, f)
		}
	}
	fs = append(fs, in(int64(ns)))
	fs = append(fs, facts...)
	r.emit(fmt.Sprintf("%s.DeriveFrom(%q, %q)", before, pp, cpath), 4, fs...)
	return c
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= utf8.RuneSelf {
			return false
		}
	}
	return true
}

// op 5: parse a text, possibly into a used object
func recParse(r *R, text string, used *XK) *XK {
	x := used
	if x == nil {
		x = new(XK)
	}
	buf := r.lend([]byte(text))
	st := r.try(func() error { defer r.scribble(buf); return x.UnmarshalText(buf) })
	m := refMessage(text, true)
	fs := []I{S(text), B(m), B(sha224(m)), in(int64(st))}
	if st == sOK {
		fs = append(fs, textFields(textOf(x))...)
		fs = append(fs, objFields(x)...)
	} else {
		fs = append(fs, in(0), in(0), in(0), in(0), in(0), in(0), in(0), in(0))
	}
	fs = append(fs, bl(isASCII(text)))
	r.emit(fmt.Sprintf("UnmarshalText(%q)", text), 5, fs...)
	if st != sOK {
		return nil
	}
	return x
}

// op 6
func recOld(r *R, text string) *XK {
	var x *XK
	st := r.try(func() (err error) { x, err = key.FromOldSerialization(text); return })
	if st != sOK {
		x = nil
	}
	d, err := refDecode(text)
	var h []byte
	if err == nil && len(d) == 80 {
		h = dsha(d[:76])
	} else {
		h = make([]byte, 32)
	}
	fs := []I{S(text), B(h), in(int64(st))}
	fs = append(fs, textFields(textOf(x))...)
	fs = append(fs, objFields(x)...)
	fs = append(fs, bl(isASCII(text)))
	r.emit(fmt.Sprintf("FromOldSerialization(%q)", text), 6, fs...)
	return x
}

// op 7
func recFromSig(r *R, priv bool, alg int, kb, extra []byte) {
	al := []signature.Algorithm{signature.Null, signature.Ed25519, signature.Secp256k1}[alg]
	var sk signature.Key
	what := 0
	if priv {
		what = 1
		p, err := signature.RawPrivateKey(al, cp(kb), cp(extra))
		if err != nil {
			return
		}
		sk = p
	} else {
		p, err := signature.RawPublicKey(al, cp(kb), cp(extra))
		if err != nil {
			return
		}
		sk = p
	}
	var x *XK
	st := r.try(func() (err error) { x, err = key.FromSignatureKey(sk); return })
	if st != sOK {
		x = nil
	}
	fs := []I{in(int64(what)), in(int64(alg)), B(kb), B(extra), in(int64(st))}
	fs = append(fs, textFields(textOf(x))...)
	fs = append(fs, objFields(x)...)
	r.emit(fmt.Sprintf("FromSignatureKey(private=%v alg=%d %s %s)", priv, alg, hx(kb), hx(extra)), 7, fs...)
}

// C20: facade keys made of signature keys, many of which have something in common; op 7 as above
func recC20keys(r *R) {
	one := func(priv bool, alg int, kb, extra []byte) {
		al := []signature.Algorithm{signature.Null, signature.Ed25519, signature.Secp256k1}[alg]
		var k *keyaddr.Key
		what, name := 0, "KeyFromPublic"
		call := func() error { return nil }
		if priv {
			what, name = 1, "KeyFromPrivate"
			p, err := signature.RawPrivateKey(al, cp(kb), cp(extra))
			if err != nil {
				return
			}
			call = func() (err error) { k, err = keyaddr.KeyFromPrivate(*p); return }
		} else {
			p, err := signature.RawPublicKey(al, cp(kb), cp(extra))
			if err != nil {
				return
			}
			call = func() (err error) { k, err = keyaddr.KeyFromPublic(*p); return }
		}
		st := r.try(call)
		var x *XK
		text := ""
		if st == sOK && k != nil {
			text = k.Key
			x = new(XK)
			if x.UnmarshalText([]byte(text)) != nil {
				st = 8
			}
			if r.Intn(3) == 0 {
				k.Key = "spoilt" // the caller's own
			}
		}
		fs := []I{in(int64(what)), in(int64(alg)), B(kb), B(extra), in(int64(st))}
		fs = append(fs, textFields(text)...)
		fs = append(fs, objFields(x)...)
		r.emit(fmt.Sprintf("keyaddr.%s(alg=%d %s %s)", name, alg, hx(kb), hx(extra)), 7, fs...)
	}
	for i := 0; i < r.num(40, 300); i++ {
		k := r.refRandom(i%3 > 0)
		one(k.priv, 2, k.key, k.extra())
		q := k
		for j := 0; j < 4; j++ { // kindred keys
			c := *q
			switch r.Intn(5) {
			case 0:
				c.cc = r.bytes(32)
			case 1:
				c.depth++
			case 2:
				c.num ^= 1 << uint(r.Intn(32))
			case 3:
				c.fp = r.bytes(3)
			case 4:
				if !c.priv {
					c.key = cp(c.key)
					c.key[0] ^= 1
				} else {
					c.key = pad32(new(big.Int).Sub(curveN, new(big.Int).SetBytes(c.key)))
				}
			}
			one(c.priv, 2, c.key, c.extra())
			q = &c
		}
		one(k.priv, 2, k.key, k.extra())
		if k.priv {
			n := k.neuter()
			one(false, 2, n.key, n.extra())
		}
		one(k.priv, 2, k.key, append(k.extra(), 1, 2))
		one(k.priv, 2, k.key, k.extra()[:39])
		one(k.priv, 2, k.key, nil)
		one(true, 1, r.bytes(64), k.extra())
		one(false, 1, r.bytes(32), k.extra())
		one(i%2 == 0, 0, nil, k.extra())
	}
}

// op 8: all interleavings of "make public" and derivation along the given numbers
func recCommute(r *R, k *refKey, nums []uint32) {
	x := r.object(k)
	t := textOf(x)
	var facts []I
	rk := k
	for _, n := range nums {
		f := rk.fact(n, nil)
		facts = append(facts, f.fields()...)
		rk = rk.child(n, f)
		if rk == nil {
			return
		}
	}
	var texts []string
	run := func(split int, parseBetween bool) {
		y := x
		var err error
		guardFast(func() error {
			for i := 0; i <= len(nums); i++ {
				if i == split {
					if y, err = y.Public(); err != nil {
						return err
					}
				}
				if parseBetween {
					z := new(XK)
					if err = z.UnmarshalText([]byte(textOf(y))); err != nil {
						return err
					}
					y = z
				}
				if i < len(nums) {
					if y, err = y.Child(nums[i]); err != nil {
						return err
					}
				}
			}
			return nil
		})
		if err != nil {
			texts = append(texts, "error: "+err.Error())
		} else {
			texts = append(texts, textOf(y))
		}
	}
	for s := 0; s <= len(nums); s++ {
		run(s, false)
		run(s, true)
	}
	fs := []I{S(t), in(int64(len(nums)))}
	tf := textFields(texts[0])
	fs = append(fs, tf[1], tf[2], in(int64(len(texts))))
	for _, n := range nums {
		fs = append(fs, iu(uint64(n)))
	}
	fs = append(fs, facts...)
	for _, s := range texts {
		fs = append(fs, S(s))
	}
	r.emit(fmt.Sprintf("public/derive interleavings of %s along %v", t, nums), 8, fs...)
}

// a reader that delivers a stream in the given portions and then fails
type scripted struct {
	data  []byte
	late  []byte // what it would deliver after having failed once
	sizes []int
	err   error
	eager bool // report the error together with the last bytes
}

func (s *scripted) Read(p []byte) (int, error) {
	if len(s.data) == 0 {
		if s.late != nil { // it goes on after a failure
			s.data, s.late = s.late, nil
		}
		return 0, s.err
	}
	n := len(p)
	if len(s.sizes) > 0 {
		if s.sizes[0] < n {
			n = s.sizes[0]
		}
		s.sizes = s.sizes[1:]
	}
	if n > len(s.data) {
		n = len(s.data)
	}
	copy(p, s.data[:n])
	s.data = s.data[n:]
	if len(s.data) == 0 && s.eager {
		return n, s.err
	}
	return n, nil
}

func (r *R) script(data []byte) *scripted {
	s := &scripted{data: cp(data), err: []error{io.EOF, io.ErrUnexpectedEOF, errors.New("source failed")}[r.Intn(3)], eager: r.Intn(2) == 0}
	if r.Intn(2) == 0 {
		s.late = r.bytes(100)
	}
	switch r.Intn(3) {
	case 0:
		for i := 0; i < len(data)+4; i++ {
			s.sizes = append(s.sizes, 1)
		}
	case 1:
		for i := 0; i < 20; i++ {
			s.sizes = append(s.sizes, r.Intn(9))
		}
	}
	return s
}

// op 9
func recSeed(r *R, length int, stream []byte, null bool) {
	var a, b []byte
	var st, left int
	if null {
		st = r.try(func() (err error) { a, err = bip32.GenerateSeed(uint8(length), nil); return })
		r.try(func() (err error) { b, err = key.GenerateSeed(uint8(length)); return })
	} else {
		s := r.script(stream)
		st = r.try(func() (err error) { a, err = bip32.GenerateSeed(uint8(length), s); return })
		left = len(s.data)
	}
	r.emit(fmt.Sprintf("GenerateSeed(%d, source of %d bytes, nil source: %v)", length, len(stream), null), 9,
		in(int64(length)), bl(null), B(stream), in(int64(st)), B(a), B(b), in(int64(left)))
}

// ops 10 and 11
func recGen(r *R, id int, stream []byte) {
	al := sg0(id)
	var pub, prv, pub2, prv2, half []byte
	left := 0
	gen := func() (a, b []byte, st int) {
		s := r.script(stream)
		st = r.try(func() error {
			p, q, err := signature.Generate(al, s)
			a, b = cp(p.KeyBytes()), cp(q.KeyBytes())
			if err == nil {
				half = cp(al.Public(r.lend(b)))
			}
			return err
		})
		left = len(s.data)
		return
	}
	pub2, prv2, _ = gen()
	pub, prv, st := gen()
	seed := stream
	if len(seed) > 32 {
		seed = seed[:32]
	}
	if id == 2 {
		r.emit(fmt.Sprintf("Generate(Secp256k1, %s)", hx(stream)), 10, B(stream), in(int64(st)), B(pub), B(prv),
			S("ndau seed"), B(seed), B(hmac512([]byte("ndau seed"), seed)), B(pub2), B(prv2), B(half), in(int64(left)))
		return
	}
	h := sha512.Sum512(seed)
	r.emit(fmt.Sprintf("Generate(Ed25519, %s)", hx(stream)), 11, B(stream), in(int64(st)), B(pub), B(prv),
		B(seed), B(h[:]), B(pub2), B(prv2), B(half), in(int64(left)))
}

func sg0(id int) signature.Algorithm {
	return []signature.Algorithm{signature.Null, signature.Ed25519, signature.Secp256k1}[id]
}

func bl1(b bool) int {
	if b {
		return 1
	}
	return 0
}

// child numbers of k of whose child one part has a zero byte at one end: 1 the private key, 2 the private key (two of
// them), 3 the chain code, 4 what the parent key is increased by, 5 the last byte of the private key, 6 of the chain code
func mineChild(k *refKey, hard bool, part, tries int) []uint32 {
	pub := k.pub()
	base := uint32(0)
	if hard {
		base = 1 << 31
	}
	var out []uint32
	for i := 0; i < tries && len(out) < 2; i++ {
		n := base + uint32(i)
		f := k.fact(n, pub)
		c := k.child(n, f)
		if c == nil {
			continue
		}
		good := false
		switch part {
		case 1:
			good = c.key[0] == 0
		case 2:
			good = c.key[0] == 0 && c.key[1] == 0
		case 3:
			good = c.cc[0] == 0
		case 4:
			good = f.out[0] == 0
		case 5:
			good = c.key[31] == 0
		case 6:
			good = c.cc[31] == 0
		}
		if good {
			out = append(out, n)
		}
	}
	return out
}

// a private key whose public point has a leading zero byte in x
func minePub(r *R) []byte {
	d := new(big.Int).SetBytes(r.bytes(31))
	x, y := btcec.S256().ScalarBaseMult(d.Bytes())
	gx, gy := btcec.S256().Gx, btcec.S256().Gy
	for i := 0; ; i++ {
		b := pad32(x)
		if b[0] == 0 {
			return pad32(d)
		}
		x, y = btcec.S256().Add(x, y, gx, gy)
		d.Add(d, big.NewInt(1))
	}
}

func mutateText(r *R, t string) string {
	b := []byte(t)
	pos := func() int { return 4 + r.Intn(len(b)-4) }
	sub := func() { b[pos()] = alphabet[r.Intn(32)] }
	switch r.Intn(12) {
	case 0, 1, 2:
		sub()
	case 3:
		sub()
		sub()
	case 4:
		p := pos()
		if p+1 < len(b) {
			b[p], b[p+1] = b[p+1], b[p]
		}
	case 5:
		return t[:len(t)-1-r.Intn(len(t)-1)]
	case 6:
		return t + string(alphabet[r.Intn(32)])
	case 7:
		return t + []string{"=", "\n", " ", "aaaaaaaa", "========", "\x00", "l", "\r\n"}[r.Intn(8)]
	case 8:
		p := pos()
		return t[:p] + []string{"=", "\n", " ", "a", "aaaaaaaa", "\x00", "0", "o", "L", "1"}[r.Intn(10)] + t[p:]
	case 9: // change the prefix
		return []string{"npub", "npvt", "NPUB", "NPVT", "tpub", "tpvt", "npab", "", "np", "npubnpub"}[r.Intn(10)] + t[4:]
	case 10:
		p := pos()
		b[p] = byte(r.Intn(128))
	case 11:
		k := 1 + r.Intn(20)
		for i := 0; i < k; i++ {
			sub()
		}
	}
	return string(b)
}

func upperTail(t string) string { return t[:4] + strings.ToUpper(t[4:]) }
func mixTail(r *R, t string) string {
	b := []byte(t)
	for i := 4; i < len(b); i++ {
		if r.Intn(2) == 0 {
			b[i] = bytes.ToUpper(b[i : i+1])[0]
		}
	}
	return string(b)
}

func seedLens(r *R) []int { return []int{16, 17, 31, 32, 33, 63, 64, 16 + r.Intn(49)} }

func init() {
	recorders["C01"] = recC01
	recorders["C02"] = recC02
	recorders["C03"] = recC03
	recorders["C04"] = recC04
	recorders["C05"] = recC05
	recorders["C20keys"] = recC20keys
	recorders["C31"] = recC31
	recorders["C32"] = recC32
}

func recC01(r *R) {
	for n := 0; n <= 70; n += 1 + r.Intn(3) {
		recRawMaster(r, r.bytes(n))
	}
	for i := 0; i < r.num(24, 200); i++ {
		d := r.refRandom(true).key
		switch i % 6 {
		case 0:
			d = minePub(r)
		case 1: // shorter or longer ones
			d = r.bytes(1 + r.Intn(32))
		case 2:
			d = append(make([]byte, r.Intn(4)), r.bytes(1+r.Intn(28))...)
		}
		recRawPublic(r, d)
	}
	for n := 0; n <= 80; n++ {
		recMaster(r, r.bytes(n))
	}
	recMaster(r, make([]byte, 16))
	recMaster(r, bytes.Repeat([]byte{255}, 64))
	// seeds with nearly everything in common, in turn
	for _, n := range append(seedLens(r), 49, 62, 65) {
		for _, s := range r.kindred(r.bytes(n)) {
			recMaster(r, s)
			if r.Intn(3) == 0 {
				recRawMaster(r, s)
			}
		}
	}
	// master secrets and chain codes with a leading zero
	for i, found := 0, 0; found < 3; i++ {
		s := r.bytes(16 + r.Intn(49))
		m := refMaster(s)
		if m.key[0] == 0 || m.cc[0] == 0 {
			found++
			x := recMaster(r, s)
			c, _ := recChild(r, x, false, r.index(), nil)
			if c != nil {
				recConvert(r, c)
			}
		}
	}
	// chains of derivations on live objects, some made public midway, accessors called in between
	chains := r.num(16, 60)
	for i := 0; i < chains; i++ {
		x := recMaster(r, r.bytes(seedLens(r)[r.Intn(8)]))
		for d := 0; d < 14 && x != nil; d++ {
			switch r.Intn(7) {
			case 0:
				recConvert(r, x)
			case 1:
				if r.Intn(3) == 0 {
					if p, err := x.Public(); err == nil {
						x = p
					}
				}
			case 2:
				guardFast(func() error { x.PubKeyBytes(); return nil })
			}
			n := r.index()
			if !x.IsPrivate() && r.Intn(6) > 0 {
				n &= 1<<31 - 1
			}
			var c *XK
			if r.Intn(4) == 0 && x.IsPrivate() {
				c, _ = recChild(r, x, true, n&(1<<31-1), nil)
			} else {
				c, _ = recChild(r, x, false, n, nil)
			}
			if c != nil {
				x = c
			}
		}
	}
	// arbitrary extended keys, all depths
	for i := 0; i < r.num(60, 300); i++ {
		k := r.refRandom(r.Intn(3) > 0)
		x := r.object(k)
		recChild(r, x, r.Intn(4) == 0, r.index(), nil)
		recConvert(r, x)
	}
	// keys which have everything but one part in common, asked for the same children in turn
	for i := 0; i < r.num(12, 60); i++ {
		n := r.index() & (1<<31 - 1)
		for _, x := range r.kin(i%2 == 0) {
			recChild(r, x, false, n, nil)
		}
	}
	// children with zero bytes at the ends of keys and chain codes, and derivation from those on
	for i := 0; i < r.num(8, 30); i++ {
		k := r.refRandom(true)
		k.depth = byte(r.Intn(200))
		part, tries := []int{1, 3, 2, 1, 4, 2, 3, 5 + r.Intn(2)}[i%8], 4000
		if part == 2 {
			tries = 200000
		}
		hard := i%2 == 0
		for _, n := range mineChild(k, hard, part, tries) {
			x := r.object(k)
			c, rc := recChild(r, x, false, n, nil)
			if c == nil || rc == nil {
				continue
			}
			recConvert(r, c)
			recChild(r, c, true, uint32(r.Intn(1000)), nil)
			recChild(r, c, false, uint32(r.Intn(1000)), nil)
			if p, err := c.Public(); err == nil {
				recChild(r, p, false, uint32(r.Intn(1000)), nil)
				recConvert(r, p)
			}
			if y := recParse(r, textOf(c), nil); y != nil {
				recChild(r, y, true, uint32(r.Intn(1000)), nil)
			}
		}
	}
	// public keys with a leading zero byte in x, as parents and as children
	for i := 0; i < r.num(3, 8); i++ {
		k := r.refRandom(true)
		k.key = minePub(r)
		k.depth = 3
		x := r.object(k)
		recChild(r, x, false, r.index(), nil)
		x = r.object(k.neuter())
		recConvert(r, x)
		recChild(r, x, false, r.index()&(1<<31-1), nil)
	}
	// public keys that are not points, or whose x coordinate is not reduced, have no children
	for i := 0; i < 8; i++ {
		k := r.refRandom(true).neuter()
		k.depth = 7
		k.key[0] = byte(2 + r.Intn(2))
		if i < 6 {
			copy(k.key[1:], pad32(new(big.Int).Add(btcec.S256().P, big.NewInt(int64(i)))))
		} else {
			copy(k.key[1:], r.bytes(32))
		}
		recChild(r, r.object(k), false, uint32(r.Intn(1000)), nil)
		recConvert(r, r.object(k))
	}
	// the end of the depth range
	for _, d := range []byte{253, 254, 255} {
		for _, pv := range []bool{true, false} {
			k := r.refRandom(true)
			k.depth = d
			if !pv {
				k = k.neuter()
			}
			x := r.object(k)
			for i := 0; i < 3 && x != nil; i++ {
				x, _ = recChild(r, x, false, uint32(i), nil)
			}
			recChild(r, r.object(k), true, 5, nil)
		}
	}
}

// a key and others which differ from it in one part each, in some order
func (r *R) refKin() []*refKey {
	k := r.refRandom(true)
	if k.depth > 200 {
		k.depth = 200
	}
	var ks []*refKey
	for j := 0; j < 6; j++ {
		q := *k
		o := r.refRandom(true)
		switch j {
		case 1:
			q.key = o.key
		case 2:
			q.cc = o.cc
		case 3:
			q.depth++
		case 4:
			q.fp = o.fp
		case 5:
			q.num++
		}
		ks = append(ks, &q)
	}
	r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	return ks
}

func (r *R) kin(mixed bool) (xs []*XK) {
	for _, k := range r.refKin() {
		if mixed && r.Intn(2) == 0 {
			k = k.neuter()
		}
		xs = append(xs, r.object(k))
	}
	return
}

func recC02(r *R) {
	// keys which have everything but one part in common, in turn
	for i := 0; i < r.num(5, 30); i++ {
		n := []uint32{r.index() & (1<<31 - 1)}
		for _, k := range r.refKin() {
			recCommute(r, k, n)
		}
	}
	for i := 0; i < r.num(90, 400); i++ {
		k := r.refRandom(true)
		n := 1 + r.Intn(5)
		if int(k.depth)+n > 255 {
			k.depth = byte(255 - n)
		}
		nums := make([]uint32, n)
		for j := range nums {
			nums[j] = r.index() & (1<<31 - 1)
		}
		recCommute(r, k, nums)
		if i%3 == 0 { // no steps at all: hardened children, deep keys and masters made public as they are
			q := r.refRandom(true)
			q.num = []uint32{0, 1 << 31, 1<<31 + r.Uint32()>>1, r.Uint32()}[r.Intn(4)]
			recCommute(r, q, nil)
			recConvert(r, r.object(q))
		}
		for j := 0; j < 1; j++ { // public children one by one
			x := r.object(k.neuter())
			for _, m := range nums {
				if x != nil {
					x, _ = recChild(r, x, false, m, nil)
				}
			}
		}
	}
	for i := 0; i < r.num(5, 15); i++ {
		k := r.refRandom(true)
		k.depth = byte(r.Intn(100))
		part := []int{1, 2, 3, 4, 2}[i%5]
		for _, n := range mineChild(k, false, part, []int{20000, 220000}[bl1(part == 2)]) {
			recCommute(r, k, []uint32{n})
			recCommute(r, k, []uint32{n, r.index() & (1<<31 - 1)})
		}
		k.key = minePub(r)
		recCommute(r, k, []uint32{r.index() & (1<<31 - 1), 0})
	}
}

func recC03(r *R) {
	hard := []uint32{1 << 31, 1<<31 + 1, 1<<32 - 1, 3 << 30}
	big := []uint32{1 << 31, 1<<31 + 1, 1<<32 - 1, 1<<31 + 44}
	for i := 0; i < r.num(25, 120); i++ {
		k := r.refRandom(i%2 == 0)
		x := r.object(k)
		recConvert(r, x)
		for _, n := range hard {
			recChild(r, x, false, n, nil)
			recChild(r, x, false, 1<<31+r.Uint32()>>1, nil)
		}
		for _, n := range big {
			recChild(r, x, true, n, nil)
		}
		recChild(r, x, true, 0, nil)
		recChild(r, x, true, 1<<31-1, nil)
		recChild(r, x, true, r.Uint32()>>1, nil)
		for _, p := range []string{"/0'", "/2147483647'", "/2147483648'", "/4294967295'", "/2147483648", "/4294967295", "/1/2'", "/1'/2", "/2147483692'"} {
			recPath(r, x, "/", p)
		}
		// hardened steps below a path that is not this key's
		for _, p := range [][2]string{{"/7", "/7'"}, {"/7", "/7'/1'"}, {"/7'", "/7/1'"}, {"/7'", "/7'/1'"}, {"/7/8'", "/7/8/1'"}, {"/2147483655", "/7'"}, {"/7'", "/2147483655/1'"}} {
			recPath(r, x, p[0], p[1])
		}
		// a public key read into an object that held a private one, after a text that is no key at times
		if p, err := x.Public(); err == nil {
			if i%3 == 0 {
				recParse(r, "npub"+textOf(x)[4:], x)
				recParse(r, textOf(p)[:20], x)
			}
			if y := recParse(r, textOf(p), x); y != nil {
				recConvert(r, y)
				recChild(r, y, false, hard[i%4], nil)
				recChild(r, y, true, 7, nil)
				if c, _ := recChild(r, y, false, 7, nil); c != nil {
					recConvert(r, c)
				}
			}
			x = r.object(k)
		}
		// children of the public half
		if p, err := x.Public(); err == nil {
			recConvert(r, p)
			c, _ := recChild(r, p, false, r.Uint32()>>1, nil)
			if c != nil {
				recConvert(r, c)
				recChild(r, c, true, 3, nil)
				recChild(r, c, false, 1<<31+3, nil)
			}
		}
	}
}

func pathText(r *R, els []uint32, hard []bool) string {
	if len(els) == 0 {
		return "/"
	}
	var b strings.Builder
	for i := range els {
		if r.Intn(12) == 0 {
			b.WriteByte(' ')
		}
		b.WriteByte('/')
		if r.Intn(15) == 0 {
			b.WriteString("000")
		}
		fmt.Fprint(&b, els[i])
		if hard[i] {
			b.WriteByte('\'')
		}
	}
	if r.Intn(15) == 0 {
		b.WriteByte(' ')
	}
	return b.String()
}

func recC04(r *R) {
	for i := 0; i < r.num(120, 500); i++ {
		k := r.refRandom(r.Intn(4) > 0)
		if r.Intn(5) > 0 {
			k.depth = byte(r.Intn(10))
		}
		n := 1 + r.Intn(6)
		els, hard := make([]uint32, n), make([]bool, n)
		for j := range els {
			els[j] = r.index()
			hard[j] = r.Intn(2) == 0
			if r.Intn(5) > 0 {
				els[j] &= 1<<31 - 1
			}
			if !k.priv && r.Intn(5) > 0 {
				els[j] &= 1<<31 - 1
				hard[j] = false
			}
		}
		x := r.object(k)
		s := r.Intn(n)
		recPath(r, x, pathText(r, els[:s], hard[:s]), pathText(r, els, hard))
		// composition through an intermediate path
		y := recPath(r, x, "/", pathText(r, els, hard))
		m := recPath(r, x, "/", pathText(r, els[:s], hard[:s]))
		if m != nil && s > 0 {
			z := recPath(r, m, pathText(r, els[:s], hard[:s]), pathText(r, els, hard))
			_, _ = y, z
		}
		// not a descendant
		if s > 0 {
			e2, h2 := append([]uint32{}, els[:s]...), append([]bool{}, hard[:s]...)
			q := r.Intn(s)
			if r.Intn(2) == 0 {
				e2[q]++
			} else {
				h2[q] = !h2[q]
			}
			recPath(r, x, pathText(r, e2, h2), pathText(r, els, hard))
		}
		recPath(r, x, pathText(r, els, hard), pathText(r, els, hard))
		recPath(r, x, pathText(r, els, hard), pathText(r, els[:s], hard[:s]))
	}
	// paths with nearly everything in common, in turn
	for i := 0; i < r.num(30, 150); i++ {
		k := r.refRandom(true)
		k.depth = byte(r.Intn(10))
		els, hard := make([]uint32, 1+r.Intn(6)), make([]bool, 6)
		for j := range els {
			els[j], hard[j] = r.index()&(1<<31-1), r.Intn(2) == 0
		}
		x, from := r.object(k), "/"
		t := pathText(r, els, hard)
		last := []string{t, strings.TrimSuffix(t, "'"), t + "'", t}
		if i%3 == 0 {
			from = t
			for _, p := range append(last, r.kindredText(t, "/' 0123456789")...) {
				recPath(r, x, p, t+"/3")
				recPath(r, x, from, p+"/4")
			}
			continue
		}
		for _, p := range append(last, r.kindredText(t, "/' 0123456789")...) {
			recPath(r, x, from, p)
		}
	}
	// long paths, as deep as keys get
	long := append(r.lens(256), 12+r.Intn(20), 33, 65, 100+r.Intn(100), 254, 255, 256)
	for _, n := range long {
		k := r.refRandom(true)
		k.depth = 0
		els, hard := make([]uint32, n), make([]bool, n)
		for j := range els {
			els[j], hard[j] = r.index()&(1<<31-1), r.Intn(2) == 0
		}
		x := r.object(k)
		recPath(r, x, "/", pathText(r, els, hard))
		if n > 0 {
			recPath(r, x, pathText(r, els[:n-1], hard[:n-1]), pathText(r, els, hard))
			j := r.Intn(n)
			e2 := append([]uint32{}, els...)
			e2[j]++
			recPath(r, x, pathText(r, e2[:j+1], hard[:j+1]), pathText(r, els, hard)+"/1")
			recPath(r, x, pathText(r, els[:n-1], hard[:n-1]), pathText(r, e2, hard))
		}
	}
	x := r.object(&refKey{priv: true, key: r.bytes(32), cc: r.bytes(32), fp: []byte{1, 2, 3}})
	bad := []string{"", " ", "//", "/a", "1", "/1/", "/1//2", "/'", "/1''", "/-1", "/+1", "/1.5", "/4294967296", "/4294967295", "/99999999999999999999",
		"/1'2", "/1/'", "1/2", "/1\n", "\n/1", "/1\t", "/ 1", "/1 2", " / 1 ' ", "/1'/2'/", "/00000000000000000000001", "/1/m", "m/1", "/1h", "/１", "/1\x00", "/", "/ ", "/0x10", "/1_0", "/2147483648'"}
	for _, b := range bad {
		recPath(r, x, "/", b)
		recPath(r, x, b, "/1/2")
		recPath(r, x, b, b+"/7")
		recPath(r, x, b, "/1/2/3/4")
	}
	for i := 0; i < r.num(100, 800); i++ {
		l := r.Intn(9)
		b := make([]byte, l)
		for j := range b {
			b[j] = "//''0123 "[r.Intn(9)]
		}
		if r.Intn(2) == 0 {
			recPath(r, x, "/", string(b))
		} else {
			recPath(r, x, string(b), string(b)+"/1'")
		}
	}
	// depth limit along a path
	k := r.refRandom(true)
	k.depth = 252
	for _, p := range []string{"/1", "/1/2", "/1/2/3", "/1/2/3/4", "/1'/2'/3'/4'/5'"} {
		recPath(r, r.object(k), "/", p)
	}
}

func recC05(r *R) {
	var used *XK
	reuse := func() *XK {
		if used != nil && r.Intn(2) == 0 {
			return used
		}
		return nil
	}
	for i := 0; i < r.num(50, 250); i++ {
		k := r.refRandom(r.Intn(2) == 0)
		if i%5 == 4 {
			k = refMaster(r.bytes(32))
		}
		x := r.object(k)
		t := textOf(x)
		recConvert(r, x)
		y := recParse(r, t, reuse())
		if y != nil {
			used = y
			z := recParse(r, upperTail(t), reuse())
			recParse(r, mixTail(r, t), reuse())
			if z != nil && z.Depth() < 255 {
				recChild(r, z, z.IsPrivate(), uint32(r.Intn(1<<30)), nil)
				recChild(r, z, false, uint32(r.Intn(1<<30)), nil)
			}
		}
		for j := 0; j < r.num(6, 12); j++ {
			recParse(r, mutateText(r, t), reuse())
		}
		// same bytes, wrong kind, algorithm, extra length, key length, or non-canonical container, with a valid checksum
		other := "npub"
		if !k.priv {
			other = "npvt"
		}
		recParse(r, other+t[4:], reuse())
		for j := 0; j < 4; j++ {
			pfx := []string{"npub", "npvt"}[r.Intn(2)]
			kl := []int{33, 32, 64, 0, 31, 34, 255}[r.Intn(7)]
			if r.Intn(2) == 0 {
				kl = 33
				if pfx == "npvt" {
					kl = 32
				}
			}
			kb := r.bytes(kl)
			if kl == 33 {
				kb = k.pub()
			}
			ex := r.bytes([]int{40, 40, 41, 39, 0, 1, 60, 100}[r.Intn(8)])
			alg := []int{2, 2, 2, 1, 0, 3, 127, 128, 255}[r.Intn(9)]
			m := refContainer(alg, refPack(kb, ex))
			switch r.Intn(8) {
			case 0: // longer integer form of the algorithm id
				m = append([]byte{0x92, 0xcc, byte(alg)}, m[2:]...)
				if alg >= 128 {
					m = refContainer(alg, refPack(kb, ex))
				}
			case 1:
				m = append(m, 0)
			case 2:
				m = m[:len(m)-1]
			case 3:
				m[0] = []byte{0x91, 0x93, 0x82, 0xdc}[r.Intn(4)]
			}
			recParse(r, pfx+refEncode(refWrap(m)), reuse())
			recParse(r, pfx+refEncode(refWrapW(m, r.Intn(12))), reuse())
		}
		// non-ASCII characters
		recParse(r, strings.Replace(t, "k", "\u212a", 1), nil)
		recParse(r, t[:20]+"\xff"+t[21:], nil)
		recParse(r, t[:20]+"é"+t[21:], nil)
		recFromSig(r, k.priv, 2, k.key, k.extra())
		recFromSig(r, k.priv, 2, k.key, append(k.extra(), 1, 2))
		recFromSig(r, k.priv, 2, k.key, k.extra()[:39])
		recFromSig(r, k.priv, 2, k.key, nil)
		recFromSig(r, true, 1, r.bytes(64), k.extra())
		recFromSig(r, false, 1, r.bytes(32), k.extra())
		recFromSig(r, i%2 == 0, 0, nil, k.extra())
	}
	for _, t := range []string{"", "n", "np", "npu", "npub", "npvt", "npub=", "npvt\n", "npubaaaaaaaa", "npvtaaaaaaaa", "npub\xff", strings.Repeat("a", 200)} {
		recParse(r, t, reuse())
	}
	for i := 0; i < r.num(60, 300); i++ {
		recParse(r, []string{"npub", "npvt"}[r.Intn(2)]+refEncode(r.bytes(5*r.Intn(20))), reuse())
		recParse(r, []string{"npub", "npvt"}[r.Intn(2)]+refEncode(refWrap(r.bytes(r.Intn(100)))), reuse())
	}
}

func recC31(r *R) {
	vers := [][]byte{{99, 103, 31}, {99, 100, 16}, {139, 103, 31}, {139, 100, 16}, {0, 0, 0}}
	for i := 0; i < r.num(80, 400); i++ {
		k := r.refRandom(r.Intn(2) == 0)
		t := k.oldText(vers[r.Intn(5)])
		x := recOld(r, t)
		if x != nil {
			recChild(r, x, false, r.index()&(1<<31-1), nil)
			recChild(r, x, false, r.index(), nil)
			recConvert(r, x)
			recParse(r, textOf(x), nil)
			// the imported object is the caller's: what happens to it leaves later imports alone
			switch i % 4 {
			case 0:
				guardFast(func() error { x.Zero(); return nil })
			case 1:
				guardFast(func() error { fill(x.Bytes()); return nil })
			case 2:
				guardFast(func() error { return x.UnmarshalText([]byte(r.refRandom(true).text())) })
			}
			recOld(r, t)
		}
		recOld(r, mixTail(r, t))
		for j := 0; j < 4; j++ {
			recOld(r, mutateText(r, t))
		}
		// altered payload with a correct checksum
		d, _ := refDecode(t)
		redo := func() string {
			b := append(cp(d[:76]), dsha(d[:76])[:4]...)
			return refEncode(b)
		}
		switch i % 9 {
		case 8: // x coordinate not below the field prime
			d[43] = byte(2 + r.Intn(2))
			copy(d[44:], pad32(new(big.Int).Add(btcec.S256().P, big.NewInt(int64(r.Intn(9))))))
		case 0:
			d[43] = []byte{1, 4, 5, 6, 7, 255}[r.Intn(6)]
		case 1: // private key out of range
			d[43] = 0
			copy(d[44:], pad32(new(big.Int).Add(curveN, big.NewInt(int64(r.Intn(3)-1)))))
		case 2:
			d[43] = 0
			copy(d[44:], make([]byte, 32))
			d[75] = byte(r.Intn(2))
		case 3: // x without a point
			d[43] = byte(2 + r.Intn(2))
			copy(d[44:], r.bytes(32))
		case 4:
			d[43] = byte(2 + r.Intn(2))
			copy(d[44:], make([]byte, 32))
			d[75] = byte(r.Intn(10))
		case 5:
			d[43] = 0
			copy(d[44:], bytes.Repeat([]byte{255}, 32))
		case 6:
			d[43] ^= 1
		case 7:
			copy(d[3:43], r.bytes(40))
		}
		recOld(r, redo())
		// wrong checksums
		b := append(cp(d[:76]), dsha(d[:76])[4:8]...)
		recOld(r, refEncode(b))
		h := sha256.Sum256(d[:76])
		recOld(r, refEncode(append(cp(d[:76]), h[:4]...)))
		b = append(cp(d[:76]), dsha(d[:76])[:4]...)
		b[76+r.Intn(4)] ^= 1 << uint(r.Intn(8))
		recOld(r, refEncode(b))
		recOld(r, refEncode(append(cp(d[:75]), dsha(d[:75])[:4]...)))
		recOld(r, refEncode(append(cp(d[:76]), dsha(d[:76])[:5]...)))
	}
	for _, t := range []string{"", "a", "npub", strings.Repeat("a", 128), strings.Repeat("=", 128), strings.Repeat("\n", 128), "\xff"} {
		recOld(r, t)
	}
}

func recC32(r *R) {
	for n := 0; n <= 255; n++ {
		if n < 15 || n > 66 {
			if n > 70 && n%16 != 0 && n < 250 {
				continue
			}
		}
		recSeed(r, n, r.bytes(n), false)
		recSeed(r, n, r.bytes(n+r.Intn(10)), false)
		if n > 0 {
			recSeed(r, n, r.bytes(r.Intn(n)), false)
			recSeed(r, n, r.bytes(n-1), false)
		}
		recSeed(r, n, nil, true)
	}
	for n := 0; n <= 80; n++ {
		recMaster(r, r.bytes(n))
	}
	for _, n := range []int{100, 255, 256, 512, 1000} {
		recMaster(r, r.bytes(n))
	}
	for n := 0; n <= 70; n++ {
		recGen(r, 2, r.bytes(n))
		if n < 33 || n%8 == 0 {
			recGen(r, 1, r.bytes(n))
		}
	}
	for i := 0; i < r.num(60, 400); i++ {
		recGen(r, 2, r.bytes(32+r.Intn(3)))
		recGen(r, 1, r.bytes(32+r.Intn(3)))
	}
}
