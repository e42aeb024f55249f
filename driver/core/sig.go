package main

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha512"
	"errors"
	"fmt"
	"io"
	"math/big"
	"strings"

	"github.com/btcsuite/btcd/btcec"
	"github.com/ndau/ndaumath/pkg/b32"
	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/keyaddr"
	sg "github.com/ndau/ndaumath/pkg/signature"
	"github.com/tinylib/msgp/msgp"
)

// algorithms of our own, registered with ids 130 and 255
type alphaAlg struct{}

func (alphaAlg) PublicKeySize() int       { return 5 }
func (alphaAlg) PrivateKeySize() int      { return 7 }
func (alphaAlg) SignatureSize() int       { return 3 }
func (alphaAlg) Public(pv []byte) []byte  { return pv[:5] }
func (alphaAlg) Sign(pv, m []byte) []byte { h := sha256.Sum256(append(cp(pv[:5]), m...)); return h[:3] }
func (alphaAlg) Verify(pb, m, s []byte) bool {
	h := sha256.Sum256(append(cp(pb), m...))
	return bytes.Equal(h[:3], s)
}
func (alphaAlg) Generate(rd io.Reader) ([]byte, []byte, error) {
	b := make([]byte, 7)
	_, err := io.ReadFull(rd, b)
	return cp(b[:5]), b, err
}

type betaAlg struct{ n int }

func (*betaAlg) PublicKeySize() int                            { return 255 }
func (*betaAlg) PrivateKeySize() int                           { return 256 }
func (*betaAlg) SignatureSize() int                            { return -1 }
func (*betaAlg) Public(pv []byte) []byte                       { return pv[:255] }
func (*betaAlg) Sign(pv, m []byte) []byte                      { return cp(m) }
func (*betaAlg) Verify(pb, m, s []byte) bool                   { return bytes.Equal(m, s) }
func (*betaAlg) Generate(rd io.Reader) ([]byte, []byte, error) { return nil, nil, errors.New("no") }

// algorithms with the sizes of the built-in ones, registered with ids 131 to 133; they take any signature
type twinEd struct{ twin }
type twinSecp struct{ twin }
type twinNull struct{ twin }
type twin struct{}

func (twinEd) PublicKeySize() int    { return 32 }
func (twinEd) PrivateKeySize() int   { return 64 }
func (twinEd) SignatureSize() int    { return 64 }
func (twinSecp) PublicKeySize() int  { return 33 }
func (twinSecp) PrivateKeySize() int { return 32 }
func (twinSecp) SignatureSize() int  { return -1 }
func (twinNull) PublicKeySize() int  { return 0 }
func (twinNull) PrivateKeySize() int { return 0 }
func (twinNull) SignatureSize() int  { return 0 }

func (twin) Public(pv []byte) []byte                       { return nil }
func (twin) Sign(pv, m []byte) []byte                      { return nil }
func (twin) Verify(pb, m, s []byte) bool                   { return true }
func (twin) Generate(rd io.Reader) ([]byte, []byte, error) { return nil, nil, errors.New("no") }

var (
	sigAlgs   map[int]sg.Algorithm
	sigIDs    = []int{0, 1, 2, 130, 255, 131, 132, 133}
	regErrors []error
)

func regAlgs() {
	if sigAlgs != nil {
		return
	}
	sigAlgs = map[int]sg.Algorithm{0: sg.Null, 1: sg.Ed25519, 2: sg.Secp256k1, 130: alphaAlg{}, 255: &betaAlg{}, 131: twinEd{}, 132: twinSecp{}, 133: twinNull{}}
	for _, id := range sigIDs[3:] {
		regErrors = append(regErrors, sg.RegisterAlgorithm(sg.AlgorithmID(id), sigAlgs[id]))
	}
}

// report a broken step every execution relies on
func (r *R) broken(what string) { r.emit(what, 0) }

func (r *R) needAlgs() bool {
	regAlgs()
	for _, e := range regErrors {
		if e != nil {
			r.broken("RegisterAlgorithm refused a new algorithm: " + e.Error())
			return false
		}
	}
	return true
}

func algID(al sg.Algorithm) int64 {
	switch sg.NameOf(al) {
	case "null":
		return 0
	case "ed25519":
		return 1
	case "secp256k1":
		return 2
	case "alphaAlg":
		return 130
	case "betaAlg":
		return 255
	case "twinEd":
		return 131
	case "twinSecp":
		return 132
	case "twinNull":
		return 133
	}
	return 999
}

var sigSizes = map[int][3]int{0: {0, 0, 0}, 1: {32, 64, 64}, 2: {33, 32, -1}, 130: {5, 7, 3}, 255: {255, 256, -1}, 131: {32, 64, 64}, 132: {33, 32, -1}, 133: {0, 0, 0}}

// val is a key or a signature of the implementation
type val struct {
	what int
	pub  *sg.PublicKey
	prv  *sg.PrivateKey
	sig  *sg.Signature
}

func newVal(what int) val {
	switch what {
	case 0:
		return val{what: 0, pub: new(sg.PublicKey)}
	case 1:
		return val{what: 1, prv: new(sg.PrivateKey)}
	}
	return val{what: 2, sig: new(sg.Signature)}
}

func rawVal(what int, al sg.Algorithm, k, extra []byte) (v val, err error) {
	v.what = what
	switch what {
	case 0:
		v.pub, err = sg.RawPublicKey(al, k, extra)
	case 1:
		v.prv, err = sg.RawPrivateKey(al, k, extra)
	default:
		v.sig, err = sg.RawSignature(al, k)
	}
	return
}

func (v val) key() sg.Key {
	if v.what == 0 {
		return v.pub
	}
	return v.prv
}
func (v val) marshal() ([]byte, error) {
	switch v.what {
	case 0:
		return v.pub.Marshal()
	case 1:
		return v.prv.Marshal()
	}
	return v.sig.Marshal()
}
func (v val) marshalMsg(p []byte) ([]byte, error) {
	switch v.what {
	case 0:
		return v.pub.MarshalMsg(p)
	case 1:
		return v.prv.MarshalMsg(p)
	}
	return v.sig.MarshalMsg(p)
}
func (v val) marshalText() ([]byte, error) {
	if v.what == 2 {
		return v.sig.MarshalText()
	}
	return v.key().MarshalText()
}
func (v val) marshalString() (string, error) {
	switch v.what {
	case 0:
		return v.pub.MarshalString()
	case 1:
		return v.prv.MarshalString()
	}
	return v.sig.MarshalString()
}
func (v val) unmarshal(b []byte) error {
	switch v.what {
	case 0:
		return v.pub.Unmarshal(b)
	case 1:
		return v.prv.Unmarshal(b)
	}
	return v.sig.Unmarshal(b)
}
func (v val) unmarshalMsg(b []byte) ([]byte, error) {
	switch v.what {
	case 0:
		return v.pub.UnmarshalMsg(b)
	case 1:
		return v.prv.UnmarshalMsg(b)
	}
	return v.sig.UnmarshalMsg(b)
}
func (v val) unmarshalText(b []byte) error {
	switch v.what {
	case 0:
		return v.pub.UnmarshalText(b)
	case 1:
		return v.prv.UnmarshalText(b)
	}
	return v.sig.UnmarshalText(b)
}
func (v val) bytes() []byte {
	if v.what == 2 {
		return v.sig.Bytes()
	}
	return v.key().KeyBytes()
}
func (v val) extra() []byte {
	if v.what == 2 {
		return nil
	}
	return v.key().ExtraBytes()
}
func (v val) alg() sg.Algorithm {
	if v.what == 2 {
		return v.sig.Algorithm()
	}
	return v.key().Algorithm()
}
func (v val) size() int {
	switch v.what {
	case 0:
		return v.pub.Size()
	case 1:
		return v.prv.Size()
	}
	return v.sig.Size()
}
func (v val) msgsize() int {
	switch v.what {
	case 0:
		return v.pub.Msgsize()
	case 1:
		return v.prv.Msgsize()
	}
	return v.sig.Msgsize()
}
func (v val) isZero() bool {
	switch v.what {
	case 0:
		return v.pub.IsZero()
	case 1:
		return v.prv.IsZero()
	}
	return false
}
func parseVal(what int, s string) (v val, err error) {
	v.what = what
	switch what {
	case 0:
		v.pub, err = sg.ParsePublicKey(s)
	case 1:
		v.prv, err = sg.ParsePrivateKey(s)
	default:
		v.sig, err = sg.ParseSignature(s)
	}
	return
}

var whatNames = []string{"public key", "private key", "signature"}

func negOne(n int) I {
	if n < 0 {
		return in(-1)
	}
	return in(int64(n))
}

// op 1
func recEncode(r *R, what, id int, k, extra []byte) (val, bool) {
	var v val
	if what == 2 {
		extra = nil
	}
	k0, e0 := cp(k), cp(extra)
	k, extra = r.lend(k), r.lend(extra)
	raw := r.try(func() (err error) { v, err = rawVal(what, sigAlgs[id], k, extra); return })
	var bin, mm, text []byte
	var full, short, str string
	var kb, eb []byte
	prefix := r.bytes(r.Intn(4) * r.Intn(4))
	ms, aid, size, mpub, mprv := 0, int64(-1), 0, false, false
	st := sErr
	if raw == sOK {
		st = r.try(func() (err error) {
			kb, eb = v.bytes(), v.extra()
			aid, size = algID(v.alg()), v.size()
			if bin, err = v.marshal(); err != nil {
				return
			}
			dst := make([]byte, len(prefix), len(prefix)+r.Intn(40))
			copy(dst, prefix)
			if mm, err = v.marshalMsg(dst); err != nil {
				return
			}
			if text, err = v.marshalText(); err != nil {
				return
			}
			if str, err = v.marshalString(); err != nil || str != string(text) {
				return errors.New("MarshalString")
			}
			ms = v.msgsize()
			switch what {
			case 0:
				full, short = v.pub.FullString(), v.pub.String()
			case 1:
				full, short = v.prv.FullString(), v.prv.String()
			}
			mpub, mprv = sg.MaybePublic(string(text)), sg.MaybePrivate(string(text))
			return
		})
	}
	m := cp(bin)
	same := bytes.Equal(k0, k) && bytes.Equal(e0, extra)
	r.emit(fmt.Sprintf("encode %s alg=%d key=%s extra=%s", whatNames[what], id, hx(k0), hx(e0)), 1,
		in(int64(what)), in(int64(id)), B(k0), B(e0), in(int64(raw)), in(int64(st)), B(bin), B(prefix), B(mm), S(string(text)),
		B(m), B(sha224(m)), in(int64(ms)), S(full), S(short), bl(mpub), bl(mprv), B(kb), B(eb), in(aid), negOne(size), bl(same))
	return v, raw == sOK && st == sOK
}

// op 2; used, if set, is an object that already holds a value
func recDecode(r *R, what, form int, input []byte, used *val) {
	var v val
	keep := cp(input)
	var left []byte
	untouched := true
	// what was decoded stays when the caller uses the buffer again
	dec := func(dst val) (st int, v val, left []byte) {
		v = dst
		input := r.lend(keep)
		defer func() {
			left = cp(left)
			untouched = untouched && bytes.Equal(input, keep)
			r.scribble(input)
		}()
		st = r.try(func() (err error) {
			switch form {
			case 0:
				return v.unmarshal(input)
			case 1:
				left, err = v.unmarshalMsg(input)
				return err
			case 2:
				return v.unmarshalText(input)
			case 3:
				v, err = parseVal(what, string(input))
				return err
			case 5: // the facade's signature, there and back
				raw, err := keyaddr.Signature{Signature: string(input)}.ToSignature()
				if err != nil {
					return err
				}
				v.sig = &raw
				back, err := keyaddr.SignatureFrom(raw)
				if err != nil {
					return err
				}
				if text, err := raw.MarshalText(); err != nil || back.Signature != string(text) {
					return errors.New("SignatureFrom gives another text")
				}
				return nil
			}
			k, err := sg.ParseKey(string(input))
			if err != nil {
				return err
			}
			if sg.IsPublic(k) == sg.IsPrivate(k) {
				return errors.New("neither")
			}
			if p, ok := k.(*sg.PublicKey); ok {
				v = val{what: 0, pub: p}
			} else if p, ok := k.(*sg.PrivateKey); ok {
				v = val{what: 1, prv: p}
			}
			return nil
		})
		return
	}
	st, v, left := dec(newVal(what))
	var kb, eb, bin []byte
	id := int64(-1)
	zero := false
	look := func(v val) (kb, eb, bin []byte, id int64, zero bool) {
		if r.try(func() (err error) {
			kb, eb, id, zero = cp(v.bytes()), cp(v.extra()), algID(v.alg()), v.isZero()
			bin, err = v.marshal()
			return
		}) != sOK {
			id = -2
		}
		return
	}
	usedSame := true
	if st == sOK {
		kb, eb, bin, id, zero = look(v)
	}
	if used != nil && form < 3 {
		st2, v2, left2 := dec(*used)
		usedSame = st2 == st && bytes.Equal(left, left2)
		if st == sOK && usedSame {
			kb2, eb2, bin2, id2, zero2 := look(v2)
			usedSame = bytes.Equal(kb, kb2) && bytes.Equal(eb, eb2) && bytes.Equal(bin, bin2) && id == id2 && zero == zero2
		}
	}
	var m []byte
	ascii := isASCII(string(keep))
	if form >= 2 && ascii {
		s := string(keep)
		w := what
		if form == 4 {
			w = 1
			if strings.HasPrefix(s, "npub") {
				w = 0
			}
		}
		switch w {
		case 0:
			if strings.HasPrefix(s, "npub") {
				m = refMessage(s[4:], false)
			}
		case 1:
			if strings.HasPrefix(s, "npvt") {
				m = refMessage(s[4:], false)
			}
		default:
			m = refMessage(s, false)
		}
	}
	rw := what
	if form == 4 && st == sOK {
		rw = v.what
	}
	d := hx(keep)
	if form >= 2 {
		d = fmt.Sprintf("%q", keep)
	}
	r.emit(fmt.Sprintf("decode %s form=%d used=%v %s", whatNames[what], form, used != nil, d), 2,
		in(int64(rw)), in(int64(form)), B(keep), B(m), B(sha224(m)), bl(ascii), in(int64(st)), in(id), B(kb), B(eb),
		in(int64(len(left))), B(bin), bl(usedSame), bl(zero), bl(untouched))
}

func recAddChecksum(r *R, m []byte) []byte {
	keep := cp(m)
	m = r.lend(m)
	var out []byte
	st := r.try(func() error { out = sg.AddChecksum(m); return nil })
	if st != sOK {
		out = nil
	}
	r.emit(fmt.Sprintf("AddChecksum(%s)", hx(keep)), 3, B(keep), B(sha224(keep)), B(out), bl(bytes.Equal(keep, m)))
	return out
}
func candidate(b []byte) []byte {
	if len(b) < 4 || len(b)%5 != 0 {
		return nil
	}
	w := int(b[0])
	if w < 3 || w > 7 || len(b)-1-w < 0 || refWidth(len(b)-1-w) != w {
		return nil
	}
	return b[1 : len(b)-w]
}
func recCheckChecksum(r *R, b []byte) {
	keep := cp(b)
	b = r.lend(b)
	var msg []byte
	ok := false
	st := r.try(func() error { msg, ok = sg.CheckChecksum(b); return nil })
	m := candidate(keep)
	r.emit(fmt.Sprintf("CheckChecksum(%s)", hx(keep)), 4, B(keep), B(m), B(sha224(m)), bl(ok), B(msg), in(int64(st)))
}

func recB32enc(r *R, b []byte) string {
	keep := cp(b)
	b = r.lend(b)
	var s string
	r.try(func() error { s = b32.Encode(b); return nil })
	r.emit(fmt.Sprintf("b32.Encode(%s)", hx(keep)), 5, B(keep), S(s), bl(bytes.Equal(keep, b)))
	return s
}
func recB32dec(r *R, s string) {
	var b []byte
	st := r.try(func() (err error) { b, err = b32.Decode(s); return })
	if st != sOK {
		b = nil
	}
	r.emit(fmt.Sprintf("b32.Decode(%q)", s), 6, S(s), bl(isASCII(s)), in(int64(st)), B(b))
}

func recC10(r *R) {
	for n := 0; n <= 66; n++ {
		for j := 0; j < r.num(5, 12); j++ {
			b := r.bytes(n)
			if j == 0 {
				b = make([]byte, n)
			}
			if j == 1 {
				b = bytes.Repeat([]byte{255}, n)
			}
			s := recB32enc(r, b)
			ref := refEncode(b)
			recB32dec(r, ref)
			recB32dec(r, flipCase(r, ref))
			if s != ref {
				recB32dec(r, s)
			}
			// mutations
			x := []byte(ref)
			if len(x) > 0 {
				y := cp(x)
				y[r.Intn(len(y))] = byte(r.Intn(128))
				recB32dec(r, string(y))
				recB32dec(r, string(x[:r.Intn(len(x))]))
				p := r.Intn(len(x) + 1)
				ins := []string{"=", "\n", "\r", " ", "a", "0", "o", "l", "1", "\x00", "==", "aaaaaaaa", "\xff", "\xc5\xbf", "\xe2\x84\xaa"}[r.Intn(15)]
				recB32dec(r, ref[:p]+ins+ref[p:])
			}
		}
	}
	for _, n := range append(r.lens(20000), 100, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 2048, 3072, 3073, 4095, 4096, 4097, 5120, 8192, 8193, 3000+r.Intn(9000)) {
		b := r.bytes(n)
		s := recB32enc(r, b)
		recB32dec(r, s)
		if t := refEncode(b); t != s {
			recB32dec(r, t)
		}
		recB32dec(r, flipCase(r, s))
		recB32dec(r, strings.ToUpper(s))
		if n < 1100 {
			for _, x := range r.kindred([]byte(s)) {
				recB32dec(r, string(x))
			}
			for _, x := range r.kindred(b) {
				recB32enc(r, x)
			}
		}
	}
	// every character at every position of a block
	for pos := 0; pos < 8; pos++ {
		for c := 0; c < 128; c++ {
			x := []byte("aaaaaaaa")
			x[pos] = byte(c)
			recB32dec(r, string(x))
		}
	}
	for i := 0; i < r.num(300, 1500); i++ { // padding soup
		n := r.Intn(20)
		x := make([]byte, n)
		for j := range x {
			x[j] = "ab=9\n=Z"[r.Intn(7)]
		}
		recB32dec(r, string(x))
	}
	for c := 0; c < 128; c++ {
		n := -9
		s := string([]byte{byte(c)})
		r.try(func() error { n = b32.Index(s); return nil })
		r.emit(fmt.Sprintf("b32.Index(%q)", s), 7, in(int64(c)), in(int64(n)))
	}
}

func recC11(r *R) {
	for n := 0; n <= 120; n++ {
		for j := 0; j < r.num(1, 3); j++ {
			m := r.bytes(n)
			recAddChecksum(r, m)
			w := refWrap(m)
			recCheckChecksum(r, w)
			// a byte or bit altered anywhere, the width byte in particular
			for k := 0; k < 4; k++ {
				y := cp(w)
				y[r.Intn(len(y))] ^= 1 << uint(r.Intn(8))
				recCheckChecksum(r, y)
			}
			y := cp(w)
			y[0] = byte(r.Intn(256))
			recCheckChecksum(r, y)
			recCheckChecksum(r, w[:r.Intn(len(w))])
			recCheckChecksum(r, append(cp(w), r.bytes(1+r.Intn(6))...))
			// correct checksums of every other width
			for ww := 0; ww <= 28; ww++ {
				if n%7 == ww%7 || ww < 9 && n%3 == ww%3 {
					recCheckChecksum(r, refWrapW(m, ww))
				}
			}
			// checksum bytes altered in the last position only, or shifted
			y = cp(w)
			y[len(y)-1]++
			recCheckChecksum(r, y)
			y = cp(w)
			y[len(y)-int(w[0])]++
			recCheckChecksum(r, y)
		}
	}
	for _, n := range append(r.lens(20000), 250, 255, 256, 257, 500, 1024, 2048, 4096, 8192, 20000) {
		m := r.bytes(n)
		w := recAddChecksum(r, m)
		if len(w) > 0 {
			recCheckChecksum(r, w)
			w[1+r.Intn(len(w)-1)] ^= 4
			recCheckChecksum(r, w)
		}
	}
	for i := 0; i < r.num(100, 500); i++ {
		recCheckChecksum(r, r.bytes(r.Intn(40)))
		b := r.bytes(5 * r.Intn(8))
		if len(b) > 0 {
			b[0] = byte(r.Intn(9))
		}
		recCheckChecksum(r, b)
	}
	recCheckChecksum(r, nil)
	for w := 0; w < 256; w++ {
		b := r.bytes([]int{1, 4, 5, 10, 35}[w%5])
		b[0] = byte(w)
		recCheckChecksum(r, b)
	}
}

func (r *R) sizeFor(what, id int) int {
	n := sigSizes[id][what]
	if n < 0 {
		n = []int{0, 1, 8, 70, 71, 72, 255, 256, 300, r.Intn(80)}[r.Intn(10)]
	}
	return n
}

// what is almost the same, in turn: the message, or its wrapping with the checksum kept
func recAkin(r *R, what int, bin []byte) {
	p := []string{"npub", "npvt", ""}[what]
	for _, x := range r.kindred(bin) {
		recDecode(r, what, 0, x, nil)
		if r.Intn(2) == 0 {
			recDecode(r, what, 2+r.Intn(2), []byte(p+refEncode(refWrap(x))), nil)
		}
	}
	for _, x := range r.kindred(refWrap(bin)) {
		if len(x)%5 == 0 {
			recDecode(r, what, 2+r.Intn(2), []byte(p+refEncode(x)), nil)
		}
	}
}

func recC12(r *R) {
	if !r.needAlgs() {
		return
	}
	lens := []int{0, 1, 2, 3, 31, 40, 41, 100, 189, 190, 191, 220, 221, 222, 223, 224, 252, 253, 254, 255, 256, 300, 400}
	if l := r.lens(3000); len(l) > 0 {
		for i := len(l); i < len(lens)/2; i += len(l) {
			lens = append(lens, l...)
		}
	}
	for i := 0; i < r.num(300, 1200); i++ {
		what, id := i%3, sigIDs[r.Intn(len(sigIDs))]
		n := r.sizeFor(what, id)
		switch r.Intn(12) {
		case 0:
			n++
		case 1:
			if n > 0 {
				n--
			}
		}
		k := r.bytes(n)
		e := r.bytes(lens[r.Intn(len(lens))])
		if r.Intn(3) == 0 {
			e = nil
		}
		v, ok := recEncode(r, what, id, k, e)
		if !ok {
			continue
		}
		bin := refContainer(id, refPack(k, e))
		if what == 2 {
			bin = refContainer(id, k)
			e = nil
		}
		// decode what was encoded
		if b, err := v.marshal(); err == nil && !bytes.Equal(b, bin) {
			recDecode(r, what, 0, b, nil)
		}
		recDecode(r, what, 0, bin, nil)
		recDecode(r, what, 1, append(cp(bin), r.bytes(r.Intn(9))...), nil)
		if i%2 == 0 {
			p := []string{"npub", "npvt", ""}[what]
			body := refEncode(refWrap(bin))
			for _, t := range []string{p + body, p + flipCase(r, body)} {
				recDecode(r, what, 2, []byte(t), nil)
				recDecode(r, what, 3, []byte(t), nil)
				if what < 2 {
					recDecode(r, what, 4, []byte(t), nil)
				}
			}
			if what < 2 {
				q := []string{"npvt", "npub"}[what]
				recDecode(r, what, 2, []byte(q+body), nil)
				recDecode(r, what, 4, []byte(q+body), nil)
			}
		}
		if what < 2 && i%3 == 0 {
			recWipe(r, what, id, k, e)
		}
		if i%40 < 3 && len(k)+len(e) < 200 {
			recAkin(r, what, bin)
		}
	}
	for _, id := range []int{0, 1, 2, 127, 128, 129, 130, 200, 255} {
		for _, n := range []int{0, 1, 31, 32, 255, 256, 257, 1000} {
			recCont(r, id, r.bytes(n))
		}
	}
	for id := 0; id < 256; id++ {
		recAlgID(r, id)
	}
}

func recWipe(r *R, what, id int, k, e []byte) {
	var b1, b2 []byte
	z1, z2 := false, false
	r.try(func() error {
		v, err := rawVal(what, sigAlgs[id], cp(k), cp(e))
		if err != nil {
			return err
		}
		z1 = v.isZero()
		v.key().Truncate()
		b1, _ = v.marshal()
		v.key().Zeroize()
		b2, _ = v.marshal()
		z2 = v.isZero()
		return nil
	})
	r.emit(fmt.Sprintf("Truncate, Zeroize of %s alg=%d key=%s extra=%s", whatNames[what], id, hx(k), hx(e)), 12,
		in(int64(what)), in(int64(id)), B(k), B(e), B(b1), bl(z1), B(b2), bl(z2))
}

func stream(f func(*msgp.Writer) error) []byte {
	var buf bytes.Buffer
	w := msgp.NewWriter(&buf)
	if f(w) != nil {
		return nil
	}
	w.Flush()
	return buf.Bytes()
}

func recCont(r *R, id int, data []byte) {
	c := sg.IdentifiedData{Algorithm: sg.AlgorithmID(id), Data: cp(data)}
	var b, mm, st []byte
	prefix := r.bytes(r.Intn(5))
	ms := 0
	r.try(func() error {
		b, _ = c.MarshalMsg(nil)
		dst := make([]byte, len(prefix), len(prefix)+r.Intn(30))
		copy(dst, prefix)
		mm, _ = c.MarshalMsg(dst)
		st = stream(c.EncodeMsg)
		ms = c.Msgsize()
		return nil
	})
	r.emit(fmt.Sprintf("IdentifiedData{%d, %s} marshal", id, hx(data)), 8, in(int64(id)), B(data), B(b), B(prefix), B(mm), B(st), in(int64(ms)))
	ref := refContainer(id, data)
	recContDec(r, append(cp(ref), r.bytes(r.Intn(4))...))
	if len(ref) > 2 {
		recContDec(r, ref[:r.Intn(len(ref))])
	}
}

// decode from a stream, returning what is left of it
func fromStream(in []byte, f func(*msgp.Reader) error) (int, error) {
	rd := msgp.NewReader(&slowReader{b: in})
	if err := f(rd); err != nil {
		return 0, err
	}
	rest, err := io.ReadAll(rd)
	return len(rest), err
}

// delivers its bytes in small pieces
type slowReader struct {
	b []byte
	n int
}

func (s *slowReader) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	s.n++
	k := 1 + s.n%5
	if k > len(p) {
		k = len(p)
	}
	if k > len(s.b) {
		k = len(s.b)
	}
	copy(p, s.b[:k])
	s.b = s.b[k:]
	return k, nil
}

func recContDec(r *R, input []byte) {
	for form := 0; form < 2; form++ {
		c := sg.IdentifiedData{Algorithm: 77, Data: []byte("previous contents")}
		if r.Intn(2) == 0 {
			c = sg.IdentifiedData{}
		}
		left := 0
		st := r.try(func() error {
			if form == 0 {
				b := r.lend(input)
				l, err := c.UnmarshalMsg(b)
				left = len(l)
				r.scribble(b)
				return err
			}
			n, err := fromStream(cp(input), c.DecodeMsg)
			left = n
			return err
		})
		if st != sOK {
			c = sg.IdentifiedData{}
		}
		r.emit(fmt.Sprintf("IdentifiedData decode form=%d %s", form, hx(input)), 9, in(int64(form)), B(input), in(int64(st)),
			in(int64(c.Algorithm)), B(c.Data), in(int64(left)))
	}
}

func recAlgID(r *R, id int) {
	a := sg.AlgorithmID(id)
	var b, st []byte
	ms := 0
	r.try(func() error {
		b, _ = a.MarshalMsg(nil)
		st = stream(a.EncodeMsg)
		ms = a.Msgsize()
		return nil
	})
	r.emit(fmt.Sprintf("AlgorithmID(%d) marshal", id), 10, in(int64(id)), B(b), B(st), in(int64(ms)))
	recAlgIDDec(r, append(cp(b), r.bytes(r.Intn(3))...))
}
func recAlgIDDec(r *R, input []byte) {
	for form := 0; form < 2; form++ {
		a := sg.AlgorithmID(9)
		left := 0
		st := r.try(func() error {
			if form == 0 {
				l, err := a.UnmarshalMsg(r.lend(input))
				left = len(l)
				return err
			}
			n, err := fromStream(cp(input), a.DecodeMsg)
			left = n
			return err
		})
		r.emit(fmt.Sprintf("AlgorithmID decode form=%d %s", form, hx(input)), 11, in(int64(form)), B(input), in(int64(st)), in(int64(a)), in(int64(left)))
	}
}

// other spellings of an integer in msgp
func anyUint(r *R, v int) []byte {
	switch r.Intn(9) {
	case 0:
		if v < 128 {
			return []byte{byte(v)}
		}
		return []byte{0xcc, byte(v)}
	case 1:
		return []byte{0xcc, byte(v)}
	case 2:
		return []byte{0xcd, byte(v >> 8), byte(v)}
	case 3:
		return []byte{0xce, 0, 0, byte(v >> 8), byte(v)}
	case 4:
		return []byte{0xcf, 0, 0, 0, 0, 0, 0, byte(v >> 8), byte(v)}
	case 5:
		return []byte{0xd0, byte(v)}
	case 6:
		return []byte{0xd1, byte(v >> 8), byte(v)}
	case 7:
		return []byte{0xd2, 0, 0, byte(v >> 8), byte(v)}
	}
	return []byte{0xd3, 0, 0, 0, 0, 0, 0, byte(v >> 8), byte(v)}
}

// a container in any msgp spelling
func oddContainer(r *R, id int, data []byte) []byte {
	var b []byte
	switch r.Intn(6) {
	case 0:
		b = []byte{0xdc, 0, 2}
	case 1:
		b = []byte{0xdd, 0, 0, 0, 2}
	default:
		b = []byte{0x92}
	}
	b = append(b, anyUint(r, id)...)
	n := len(data)
	switch {
	case n < 256 && r.Intn(3) > 0:
		b = append(b, 0xc4, byte(n))
	case r.Intn(2) == 0:
		b = append(b, 0xc5, byte(n>>8), byte(n))
	default:
		b = append(b, 0xc6, 0, 0, byte(n>>8), byte(n))
	}
	return append(b, data...)
}

func mutateBin(r *R, b []byte) []byte {
	x := cp(b)
	switch r.Intn(8) {
	case 0:
		return x[:r.Intn(len(x)+1)]
	case 1:
		return append(x, r.bytes(1+r.Intn(4))...)
	case 2:
		x[r.Intn(len(x))] = byte(r.Intn(256))
	case 3:
		x[r.Intn(min(6, len(x)))] = byte(r.Intn(256))
	case 4:
		x[0] = []byte{0x90, 0x91, 0x93, 0x82, 0xc0, 0xdc, 0xdd, 0x02, 0xc4, 0xd9}[r.Intn(10)]
	case 5:
		if len(x) > 2 {
			x[1] = byte(r.Intn(256))
			x[2] = []byte{0xc4, 0xc5, 0xc6, 0xd9, 0xa5, 0x95, 0xc0, 0x05}[r.Intn(8)]
		}
	case 6:
		p := r.Intn(len(x))
		x = append(x[:p], x[min(p+1, len(x)):]...)
	case 7:
		p := r.Intn(len(x) + 1)
		x = append(cp(x[:p]), append(r.bytes(1), x[p:]...)...)
	}
	return x
}

func recC13(r *R) {
	if !r.needAlgs() {
		return
	}
	// an object that holds a value, often of the sizes of the value that comes next
	next := 0
	usedVal := func(what int) *val {
		id := sigIDs[r.Intn(len(sigIDs))]
		if t, ok := map[int]int{0: 133, 1: 131, 2: 132, 131: 1, 132: 2, 133: 0}[next]; ok && r.Intn(2) == 0 {
			id = t
		}
		if id == 255 && what == 1 {
			id = 0
		}
		v, err := rawVal(what, sigAlgs[id], r.bytes(r.sizeFor(what, id)), r.bytes(r.Intn(50)))
		if err != nil {
			return nil
		}
		return &v
	}
	// every algorithm, with data of its size and a little more or less, or none, and with and without extra bytes
	for _, id := range sigIDs {
		for what := 0; what < 3; what++ {
			most := r.sizeFor(what, id)
			for _, n := range []int{0, 1, 2, most - 1, most, most + 1, 2 * most} {
				if n < 0 || n > 600 {
					continue
				}
				for _, extra := range [][]byte{nil, r.bytes(1 + r.Intn(40))} {
					k := r.bytes(n)
					data := refPack(k, extra)
					if what == 2 {
						if data = k; extra != nil {
							continue
						}
					}
					next = id
					bin := refContainer(id, data)
					recDecode(r, what, 0, bin, nil)
					recDecode(r, what, 0, bin, usedVal(what))
					recDecode(r, what, 2, []byte([]string{"npub", "npvt", ""}[what]+refEncode(refWrap(bin))), usedVal(what))
					if what < 2 && n == most && n < 256 {
						recWipe(r, what, id, k, extra)
					}
				}
			}
		}
	}
	ids := []int{0, 1, 2, 3, 64, 127, 128, 129, 130, 131, 134, 200, 254, 255}
	for i := 0; i < r.num(420, 2500); i++ {
		what := i % 3
		id := ids[r.Intn(len(ids))]
		if r.Intn(2) == 0 {
			id = sigIDs[r.Intn(len(sigIDs))]
		}
		next = id
		n := 0
		if _, ok := sigSizes[id]; ok {
			n = r.sizeFor(what, id)
		} else {
			n = r.Intn(70)
		}
		switch r.Intn(8) {
		case 0:
			n++
		case 1:
			n = r.Intn(70)
		case 2:
			n = 0
		}
		k := r.bytes(n)
		data := refPack(k, r.bytes(r.Intn(50)*r.Intn(2)))
		if what == 2 {
			data = k
		}
		switch r.Intn(8) {
		case 0:
			data = nil
		case 1: // the length byte does not fit
			if len(data) > 0 {
				data[0] = byte(r.Intn(256))
			}
		case 2:
			data = data[:r.Intn(len(data)+1)]
		}
		bin := oddContainer(r, id, data)
		if r.Intn(3) == 0 {
			bin = mutateBin(r, bin)
		}
		recDecode(r, what, 0, bin, usedVal(what))
		recDecode(r, what, 1, append(cp(bin), r.bytes(r.Intn(2)*r.Intn(5))...), usedVal(what))
		p := []string{"npub", "npvt", ""}[what]
		t := p + refEncode(refWrap(bin))
		if r.Intn(3) == 0 && len(t) > 5 {
			t = mutateText(r, t)
		}
		if r.Intn(20) == 0 {
			t = t[:r.Intn(min(len(t), 9))]
		}
		recDecode(r, what, 2+i%2, []byte(t), usedVal(what))
		if what < 2 {
			recDecode(r, what, 4, []byte(t), nil)
		}
		if i%4 == 0 {
			recContDec(r, bin)
			recAlgIDDec(r, anyUint(r, r.Intn(400)))
		}
	}
	for _, t := range []string{"", "n", "np", "npu", "npub", "npvt", "NPUB", "npuba", "npub=", "npub========", "npvtaaaaaaaa", "npubaaaaaaaa", "aaaaaaaa", "\xff\xfe", "npub\xff", "npvt\x00",
		"npub" + strings.Repeat("a", 100), "npub\n\n\n\n", "\n", "========"} {
		for what := 0; what < 3; what++ {
			recDecode(r, what, 2, []byte(t), usedVal(what))
			recDecode(r, what, 3, []byte(t), nil)
		}
		recDecode(r, 0, 4, []byte(t), nil)
	}
	// checksum widths that do not leave room for a message, in texts
	for n := 5; n <= 40; n += 5 {
		for _, w := range []int{n - 5, n - 2, n - 1, n, n + 1, n + 2, 0, 1, 2, 3, 7, 8, 28, 29, 127, 128, 254, 255} {
			if w < 0 {
				continue
			}
			for what := 0; what < 3; what++ {
				b := make([]byte, n)
				if r.Intn(2) == 0 {
					r.Read(b)
				}
				b[0] = byte(w)
				t := []byte([]string{"npub", "npvt", ""}[what] + refEncode(b))
				recDecode(r, what, 2+r.Intn(2), t, nil)
				if what < 2 && r.Intn(3) == 0 {
					recDecode(r, what, 4, t, nil)
				}
			}
		}
	}
	for what := 0; what < 3; what++ {
		for _, b := range [][]byte{{}, {0x92}, {0xdd, 0xff, 0xff, 0xff, 0xff}, {0x92, 0xcf, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0x92, 1, 0xc6, 0xff, 0xff, 0xff, 0xff},
			{0x92, 2, 0xc5, 0xff}, {0x92, 0xd0, 0xff, 0xc4, 0}, {0x92, 0xff, 0xc4, 0}, {0x92, 0, 0xc4, 0}, {0x92, 0, 0xc4, 1, 0}, {0x92, 0, 0xc4, 2, 0, 7}, {0x92, 0, 0xc4, 1, 1}, {0x92, 0, 0xc0}, {0xc0}} {
			recDecode(r, what, 0, b, usedVal(what))
			recDecode(r, what, 1, b, usedVal(what))
		}
	}
	recZeroValues(r)
}

// op 90: calls on zero-value objects; they must not panic, and zero values verify nothing
func recZeroValues(r *R) {
	calls := []struct {
		name string
		want int
		f    func() error
	}{
		{"PublicKey{}.IsZero", 0, func() error { return boolErr(new(sg.PublicKey).IsZero(), true) }},
		{"PrivateKey{}.IsZero", 0, func() error { return boolErr(new(sg.PrivateKey).IsZero(), true) }},
		{"PublicKey{}.Verify", 0, func() error { return boolErr(new(sg.PublicKey).Verify([]byte("x"), sg.Signature{}), false) }},
		{"Signature{}.Verify", 0, func() error { return boolErr(new(sg.Signature).Verify(nil, sg.PublicKey{}), false) }},
		{"Match zero", 0, func() error { return boolErr(sg.Match(sg.PublicKey{}, sg.PrivateKey{}), false) }},
		{"PublicKey{}.MarshalText", 0, func() error { _, err := new(sg.PublicKey).MarshalText(); return err }},
		{"PrivateKey{}.MarshalText", 0, func() error { _, err := new(sg.PrivateKey).MarshalText(); return err }},
		{"Signature{}.MarshalText", 0, func() error { _, err := new(sg.Signature).MarshalText(); return err }},
		{"Signature{}.Marshal", 0, func() error { _, err := new(sg.Signature).Marshal(); return err }},
		{"PublicKey{}.String", 0, func() error { _ = new(sg.PublicKey).String(); return nil }},
		{"PublicKey{}.Size", 0, func() error { return boolErr(new(sg.PublicKey).Size() == 0, true) }},
		{"Signature{}.Size", 0, func() error { return boolErr(new(sg.Signature).Size() == 0, true) }},
		{"(*PublicKey)(nil).Zeroize", 0, func() error { var p *sg.PublicKey; p.Zeroize(); return nil }},
		{"PrivateKey{}.Sign", 0, func() error {
			s := new(sg.PrivateKey).Sign([]byte("m"))
			return boolErr(new(sg.PublicKey).Verify([]byte("m"), s), false)
		}},
		{"MaybePublic empty", 0, func() error { return boolErr(sg.MaybePublic("") || sg.MaybePrivate(""), false) }},
		{"SameAlgorithm(nil, nil)", 0, func() error { return boolErr(sg.SameAlgorithm(nil, nil), true) }},
		{"SameAlgorithm(nil, ed25519)", 0, func() error { return boolErr(sg.SameAlgorithm(nil, sg.Ed25519), false) }},
		{"ExtendedKey{}.MarshalText", 1, func() error { _, err := new(key.ExtendedKey).MarshalText(); return err }},
		{"ExtendedKey{}.IsPrivate", 0, func() error { return boolErr((&key.ExtendedKey{}).IsPrivate(), false) }},
		{"ExtendedKey{}.Child", 1, func() error { _, err := (&key.ExtendedKey{}).Child(1); return err }},
		{"ExtendedKey{}.Zero", 0, func() error { (&key.ExtendedKey{}).Zero(); return nil }},
		{"ExtendedKey{}.SPrivKey", 1, func() error { _, err := (&key.ExtendedKey{}).SPrivKey(); return err }},
		{"ExtendedKey{}.ECPubKey", 1, func() error { _, err := (&key.ExtendedKey{}).ECPubKey(); return err }},
		{"ExtendedKey{}.SPubKey", 1, func() error { _, err := (&key.ExtendedKey{}).SPubKey(); return err }},
	}
	for _, c := range calls {
		r.emit("zero value: "+c.name, 90, in(int64(c.want)), in(int64(r.try(c.f))))
	}
}

func boolErr(got, want bool) error {
	if got != want {
		return errors.New("wrong")
	}
	return nil
}

// ---- signatures -------------------------------------------------------------

type pair struct {
	id       int
	pub, prv []byte
	pk       *sg.PublicKey
	sk       *sg.PrivateKey
}

func der(rr, s *big.Int) []byte {
	e := func(x *big.Int) []byte {
		b := x.Bytes()
		if len(b) == 0 {
			b = []byte{0}
		}
		if b[0] >= 128 {
			b = append([]byte{0}, b...)
		}
		return append([]byte{2, byte(len(b))}, b...)
	}
	body := append(e(rr), e(s)...)
	return append([]byte{0x30, byte(len(body))}, body...)
}

func recVerify(r *R, desc string, pk *sg.PublicKey, sig *sg.Signature, msg []byte, must bool) {
	pa, sa := algID(pk.Algorithm()), algID(sig.Algorithm())
	pub, sb := cp(pk.KeyBytes()), cp(sig.Bytes())
	var h []byte
	if pa == 1 && len(sb) >= 32 {
		x := sha512.Sum512(append(append(cp(sb[:32]), pub...), msg...))
		h = x[:]
	} else {
		x := sha256.Sum256(msg)
		h = x[:]
	}
	val := func(f func() bool) int64 {
		b := false
		if st := r.try(func() error { b = f(); return nil }); st != sOK {
			return int64(st)
		}
		if b {
			return 1
		}
		return 0
	}
	msg = r.lend(msg)
	res := val(func() bool { return pk.Verify(msg, *sig) })
	alt := val(func() bool { return sig.Verify(msg, *pk) })
	ser := val(func() bool {
		var p2 sg.PublicKey
		var s2 sg.Signature
		switch r.Intn(3) {
		case 0:
			b, e := pk.Marshal()
			c, e2 := sig.Marshal()
			if e != nil || e2 != nil || p2.Unmarshal(b) != nil || s2.Unmarshal(c) != nil {
				panic("serialization")
			}
		case 1:
			b, e := pk.MarshalMsg([]byte("xyz"))
			c, e2 := sig.MarshalMsg(nil)
			if e != nil || e2 != nil {
				panic("serialization")
			}
			if _, e = p2.UnmarshalMsg(b[3:]); e != nil {
				panic("serialization")
			}
			if _, e = s2.UnmarshalMsg(append(c, 1, 2)); e != nil {
				panic("serialization")
			}
		default:
			b, e := pk.MarshalText()
			c, e2 := sig.MarshalText()
			if e != nil || e2 != nil || p2.UnmarshalText(b) != nil || s2.UnmarshalText(bytes.ToUpper(c)) != nil {
				panic("serialization")
			}
		}
		return p2.Verify(cp(msg), s2)
	})
	r.emit(fmt.Sprintf("%s: verify alg=%d/%d pub=%s sig=%s msg=%s", desc, pa, sa, hx(pub), hx(sb), hx(trunc(msg))), 13,
		in(pa), B(pub), in(sa), B(sb), B(h), bl(must), in(res), in(alt), in(ser))
}

func trunc(b []byte) []byte {
	if len(b) > 64 {
		return b[:64]
	}
	return b
}

func (r *R) sigPair(id int) *pair {
	p := &pair{id: id}
	var pub sg.PublicKey
	var prv sg.PrivateKey
	st := r.try(func() (err error) { pub, prv, err = sg.Generate(sigAlgs[id], r.Rand); return })
	if st != sOK {
		r.broken(fmt.Sprintf("Generate failed for algorithm %d", id))
		return nil
	}
	p.pk, p.sk = &pub, &prv
	if id == 2 {
		switch r.Intn(4) {
		case 0: // derived through the hierarchy
			k := r.refRandom(true)
			x := r.object(k)
			r.try(func() (err error) {
				x, err = x.Child(r.index() & (1<<31 - 1))
				if err != nil {
					return err
				}
				if p.sk, err = x.SPrivKey(); err != nil {
					return err
				}
				p.pk, err = x.SPubKey()
				return err
			})
		case 1: // keys with leading zeros
			k := r.refRandom(true)
			k.key[0] = 0
			if r.Intn(2) == 0 {
				k.key[1] = 0
			}
			p.sk, _ = sg.RawPrivateKey(sg.Secp256k1, k.key, nil)
			p.pk, _ = sg.RawPublicKey(sg.Secp256k1, k.pub(), []byte("extra"))
		case 2: // restored from text
			r.try(func() error {
				t, err := p.sk.MarshalText()
				if err != nil {
					return err
				}
				u, err := p.pk.MarshalText()
				if err != nil {
					return err
				}
				if p.sk, err = sg.ParsePrivateKey(string(t)); err != nil {
					return err
				}
				p.pk, err = sg.ParsePublicKey(string(u))
				return err
			})
		}
	}
	if p.pk == nil || p.sk == nil {
		r.broken("a key pair could not be made")
		return nil
	}
	p.pub, p.prv = cp(p.pk.KeyBytes()), cp(p.sk.KeyBytes())
	return p
}

func recC14(r *R) {
	if !r.needAlgs() {
		return
	}
	lens := []int{0, 1, 2, 31, 32, 33, 55, 56, 63, 64, 65, 100, 128, 1000, 5000}
	if l := r.lens(5000); len(l) > 0 {
		lens = append(lens, append(l, l...)...)
	}
	raw := func(id int, b []byte) *sg.Signature {
		s, err := sg.RawSignature(sigAlgs[id], b)
		if err != nil {
			r.broken("RawSignature refused data of the right size: " + err.Error())
			return nil
		}
		return s
	}
	var prev *pair
	for i := 0; i < r.num(26, 150); i++ {
		id := 1 + i%2
		p := r.sigPair(id)
		if p == nil {
			return
		}
		msg := r.bytes(lens[r.Intn(len(lens))])
		keep := cp(msg)
		var sig sg.Signature
		if st := r.try(func() error { sig = p.sk.Sign(r.lend(msg)); return nil }); st != sOK || !bytes.Equal(keep, msg) {
			r.broken(fmt.Sprintf("Sign failed: alg %d key %s", id, hx(p.prv)))
			continue
		}
		recVerify(r, "signed", p.pk, &sig, msg, true)
		// other messages
		m2 := cp(msg)
		switch {
		case len(m2) > 0 && r.Intn(4) > 0:
			m2[r.Intn(len(m2))] ^= 1 << uint(r.Intn(8))
			recVerify(r, "other message", p.pk, &sig, m2, false)
		default:
			recVerify(r, "extended message", p.pk, &sig, append(m2, 0), false)
		}
		if len(msg) > 0 {
			recVerify(r, "cut message", p.pk, &sig, msg[:len(msg)-1], false)
		}
		if i%3 == 0 {
			recVerify(r, "last byte differs", p.pk, &sig, append(cp(msg), byte(r.Intn(256))), false)
			h := sha256.Sum256(msg)
			recVerify(r, "hash as message", p.pk, &sig, h[:], false)
		}
		// other keys
		if q := r.sigPair(id); q != nil {
			recVerify(r, "other key", q.pk, &sig, msg, false)
			recMatch(r, p, p)
			recMatch(r, q, p)
			if prev != nil {
				recMatch(r, prev, p)
				recMatch(r, p, prev)
			}
		}
		b := cp(p.pub)
		b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
		if k2, err := sg.RawPublicKey(sigAlgs[id], b, nil); err == nil {
			recVerify(r, "altered key", k2, &sig, msg, false)
		}
		if id == 2 {
			b = cp(p.pub)
			b[0] ^= 1
			if k2, err := sg.RawPublicKey(sigAlgs[id], b, nil); err == nil {
				recVerify(r, "negated key", k2, &sig, msg, false)
			}
		}
		// another algorithm with the same bytes
		for _, o := range sigIDs {
			if o == id || i%2 == 0 && o > 2 {
				continue
			}
			if n := sigSizes[o][2]; n < 0 || n == len(sig.Bytes()) {
				recVerify(r, "other algorithm", p.pk, raw(o, cp(sig.Bytes())), msg, false)
			}
			if n := sigSizes[o][0]; n == len(p.pub) {
				if k2, err := sg.RawPublicKey(sigAlgs[o], cp(p.pub), nil); err == nil {
					recVerify(r, "key of other algorithm", k2, &sig, msg, false)
				}
			}
		}
		recVerify(r, "zero signature", p.pk, &sg.Signature{}, msg, false)
		recVerify(r, "zero key", &sg.PublicKey{}, &sig, msg, false)
		// altered signatures
		sb := cp(sig.Bytes())
		for j := 0; j < 3; j++ {
			x := cp(sb)
			x[r.Intn(len(x))] ^= 1 << uint(r.Intn(8))
			recVerify(r, "altered signature", p.pk, raw(id, x), msg, false)
		}
		if id == 1 {
			x := cp(sb)
			x[63] |= 0x20 // s + 2^253: not canonical
			recVerify(r, "large s", p.pk, raw(1, x), msg, false)
			// s + L
			le := func(b []byte) *big.Int {
				c := cp(b)
				for a, z := 0, len(c)-1; a < z; a, z = a+1, z-1 {
					c[a], c[z] = c[z], c[a]
				}
				return new(big.Int).SetBytes(c)
			}
			L, _ := new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
			s2 := pad32(new(big.Int).Add(le(sb[32:]), L))
			x = cp(sb)
			for k := 0; k < 32; k++ {
				x[32+k] = s2[31-k]
			}
			recVerify(r, "s plus the group order", p.pk, raw(1, x), msg, false)
		} else if sgn, err := btcec.ParseSignature(sb, btcec.S256()); err == nil {
			n := btcec.S256().N
			recVerify(r, "negated s", p.pk, raw(2, der(sgn.R, new(big.Int).Sub(n, sgn.S))), msg, false)
			recVerify(r, "s+1", p.pk, raw(2, der(sgn.R, new(big.Int).Add(sgn.S, big.NewInt(1)))), msg, false)
			recVerify(r, "r+1", p.pk, raw(2, der(new(big.Int).Add(sgn.R, big.NewInt(1)), sgn.S)), msg, false)
			recVerify(r, "s plus the group order", p.pk, raw(2, der(sgn.R, new(big.Int).Add(sgn.S, n))), msg, false)
			recVerify(r, "r plus the group order", p.pk, raw(2, der(new(big.Int).Add(sgn.R, n), sgn.S)), msg, false)
			recVerify(r, "swapped", p.pk, raw(2, der(sgn.S, sgn.R)), msg, false)
			recVerify(r, "zero r", p.pk, raw(2, der(new(big.Int), sgn.S)), msg, false)
			recVerify(r, "zero s", p.pk, raw(2, der(sgn.R, new(big.Int))), msg, false)
			recVerify(r, "trailing bytes", p.pk, raw(2, append(cp(sb), 1, 2)), msg, false)
			recVerify(r, "truncated", p.pk, raw(2, sb[:len(sb)-1]), msg, false)
			recVerify(r, "empty", p.pk, raw(2, nil), msg, false)
			recVerify(r, "lowercased length", p.pk, raw(2, append([]byte{0x30, byte(len(sb) - 3)}, sb[2:]...)), msg, false)
			recVerify(r, "not a point", func() *sg.PublicKey {
				k, _ := sg.RawPublicKey(sg.Secp256k1, make([]byte, 33), nil)
				return k
			}(), &sig, msg, false)
		}
		prev = p
	}
	for _, n := range []int{20000, 100000} {
		p := r.sigPair(2)
		if p == nil {
			return
		}
		msg := r.bytes(n)
		var sig sg.Signature
		r.try(func() error { sig = p.sk.Sign(msg); return nil })
		recVerify(r, "long message", p.pk, &sig, msg, true)
		msg[n-1] ^= 1
		recVerify(r, "long message, last bit", p.pk, &sig, msg, false)
		msg[n-1] ^= 1
		msg[n/2] ^= 1
		recVerify(r, "long message, middle bit", p.pk, &sig, msg, false)
	}
	recZeroValues(r)
}

func recMatch(r *R, p, q *pair) {
	res := int64(0)
	st := r.try(func() error {
		if sg.Match(*p.pk, *q.sk) {
			res = 1
		}
		return nil
	})
	if st != sOK {
		res = int64(st) + 7
	}
	r.emit(fmt.Sprintf("Match(alg %d %s, alg %d %s)", p.id, hx(p.pub), q.id, hx(q.prv)), 15, in(int64(p.id)), B(p.pub), in(int64(q.id)), B(q.prv), in(res))
}

// C20: texts handed to the facade as signatures
func recC20sigs(r *R) {
	if !r.needAlgs() {
		return
	}
	for i := 0; i < r.num(60, 400); i++ {
		id := sigIDs[r.Intn(len(sigIDs))]
		n := r.sizeFor(2, id)
		bin := refContainer(id, r.bytes(n))
		text := refEncode(refWrap(bin))
		one := func(t string) { recDecode(r, 2, 5, []byte(t), nil) }
		one(text)
		one(flipCase(r, text))
		one(mistype(text, i%16))
		one(mistype(text, r.Intn(16)))
		c := []string{" ", "\n", "\t", "\r\n", "\x00", "=", "a", "aaaaaaaa", "\"", "'", "  ", "\u00a0", "+", ".", ","}[i%15]
		one(text + c)
		one(c + text)
		if len(text) > 8 {
			p := 1 + r.Intn(len(text)-2)
			one(text[:p] + c + text[p:])
			one(text[:p])
		}
		one(refEncode(refWrap(mutateBin(r, bin))))
		one([]string{"npub", "npvt", "sig:", "0x", "nsig"}[i%5] + text)
		one(b64.EncodeToString(bin))
	}
	one := func(t string) { recDecode(r, 2, 5, []byte(t), nil) }
	one("")
	one(" ")
	one("a")
}

func init() {
	recorders["C20sigs"] = recC20sigs
	recorders["C10"] = recC10
	recorders["C11"] = recC11
	recorders["C12"] = recC12
	recorders["C13"] = recC13
	recorders["C14"] = recC14
}
