package main

// Reference construction of extended keys, their texts and derivation steps.
// Used to build inputs and to supply hash facts (whose inputs the specification recomputes
// and compares); never to decide a verdict.

import (
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"math/big"
	"strings"

	"github.com/btcsuite/btcd/btcec"
)

type refKey struct {
	priv  bool
	key   []byte
	cc    []byte
	depth byte
	fp    []byte
	num   uint32
}

var curveN = btcec.S256().N

func cp(b []byte) []byte { return append([]byte{}, b...) }

func pad32(x *big.Int) []byte {
	b := make([]byte, 32)
	x.FillBytes(b)
	return b
}

func refPub(priv []byte) []byte {
	x, y := btcec.S256().ScalarBaseMult(priv)
	return refCompress(x, y)
}

func refCompress(x, y *big.Int) []byte {
	b := make([]byte, 33)
	b[0] = 2 + byte(y.Bit(0))
	x.FillBytes(b[1:])
	return b
}

func (k *refKey) pub() []byte {
	if k.priv {
		return refPub(k.key)
	}
	return k.key
}

func (k *refKey) extra() []byte {
	var n [4]byte
	binary.BigEndian.PutUint32(n[:], k.num)
	b := append([]byte{k.depth}, k.fp...)
	b = append(b, n[:]...)
	return append(b, k.cc...)
}

func binHdr(n int) []byte {
	if n < 256 {
		return []byte{0xc4, byte(n)}
	}
	return []byte{0xc5, byte(n >> 8), byte(n)}
}

func refContainer(id int, data []byte) []byte {
	b := []byte{0x92}
	if id < 128 {
		b = append(b, byte(id))
	} else {
		b = append(b, 0xcc, byte(id))
	}
	b = append(b, binHdr(len(data))...)
	return append(b, data...)
}

func refPack(key, extra []byte) []byte {
	return append(append([]byte{byte(len(key))}, key...), extra...)
}

func (k *refKey) bin() []byte { return refContainer(2, refPack(k.key, k.extra())) }

func refWidth(n int) int {
	w := 5 - (n+1)%5
	if w < 3 {
		w += 5
	}
	return w
}

func refWrapW(m []byte, w int) []byte {
	h := sha256.Sum224(m)
	b := append([]byte{byte(w)}, m...)
	return append(b, h[28-w:]...)
}
func refWrap(m []byte) []byte { return refWrapW(m, refWidth(len(m))) }

func (k *refKey) text() string {
	p := "npub"
	if k.priv {
		p = "npvt"
	}
	return p + refEncode(refWrap(k.bin()))
}

// message embedded in a key text (what the specification calls xmessage), or nil
func refMessage(text string, prefix bool) []byte {
	if prefix {
		if !strings.HasPrefix(text, "npvt") && !strings.HasPrefix(text, "npub") {
			return nil
		}
		text = text[4:]
	}
	b, err := refDecode(text)
	if err != nil || len(b) < 4 || len(b)%5 != 0 {
		return nil
	}
	w := int(b[0])
	if w < 3 || w > 7 || len(b)-1-w < 0 || refWidth(len(b)-1-w) != w {
		return nil
	}
	return b[1 : len(b)-w]
}

// parse a well-formed key text
func refParse(text string) *refKey {
	m := refMessage(text, true)
	if len(m) < 5 || m[0] != 0x92 || m[1] != 2 || m[2] != 0xc4 || int(m[3]) != len(m)-4 {
		return nil
	}
	d := m[4:]
	lk := int(d[0])
	if len(d) < 1+lk+40 {
		return nil
	}
	e := d[1+lk:]
	return &refKey{priv: strings.HasPrefix(text, "npvt"), key: cp(d[1 : 1+lk]), depth: e[0], fp: cp(e[1:4]),
		num: binary.BigEndian.Uint32(e[4:8]), cc: cp(e[8:40])}
}

type fact struct{ data, out, pubIn, pubSha []byte }

func (f fact) fields() []I { return []I{B(f.data), B(f.out), B(f.pubIn), B(f.pubSha)} }

var noFact = []I{in(0), in(0), in(0), in(0)}

func hmac512(key, data []byte) []byte {
	h := hmac.New(sha512.New, key)
	h.Write(data)
	return h.Sum(nil)
}

func (k *refKey) fact(n uint32, pub []byte) fact {
	if pub == nil {
		pub = k.pub()
	}
	data := make([]byte, 37)
	if n >= 1<<31 {
		if len(k.key) > 36 {
			return fact{}
		}
		copy(data[1:], k.key)
	} else {
		copy(data, pub)
	}
	binary.BigEndian.PutUint32(data[33:], n)
	return fact{data, hmac512(k.cc, data), pub, dsha(pub)}
}

// nil when not derivable
func (k *refKey) child(n uint32, f fact) *refKey {
	if k.depth == 255 || (!k.priv && n >= 1<<31) || len(f.out) != 64 {
		return nil
	}
	c := &refKey{priv: k.priv, cc: cp(f.out[32:]), depth: k.depth + 1, num: n}
	c.fp = cp(f.pubSha[:3])
	il := new(big.Int).SetBytes(f.out[:32])
	if il.Sign() == 0 || il.Cmp(curveN) >= 0 {
		return nil
	}
	if k.priv {
		il.Add(il, new(big.Int).SetBytes(k.key))
		il.Mod(il, curveN)
		c.key = pad32(il)
		return c
	}
	p, err := btcec.ParsePubKey(k.key, btcec.S256())
	if err != nil {
		return nil
	}
	x, y := btcec.S256().ScalarBaseMult(f.out[:32])
	x, y = btcec.S256().Add(x, y, p.X, p.Y)
	c.key = refCompress(x, y)
	return c
}

func refMaster(seed []byte) *refKey {
	i := hmac512([]byte("ndau seed"), seed)
	return &refKey{priv: true, key: i[:32], cc: i[32:], fp: []byte{0, 0, 0}}
}

func (k *refKey) neuter() *refKey {
	c := *k
	c.priv = false
	c.key = k.pub()
	return &c
}

func sha224(m []byte) []byte {
	h := sha256.Sum224(m)
	return h[:]
}

func dsha(b []byte) []byte {
	a := sha256.Sum256(b)
	c := sha256.Sum256(a[:])
	return c[:]
}

func (k *refKey) oldText(version []byte) string {
	b := append(cp(version), k.depth)
	b = append(b, k.fp...)
	var n [4]byte
	binary.BigEndian.PutUint32(n[:], k.num)
	b = append(b, n[:]...)
	b = append(b, k.cc...)
	if k.priv {
		b = append(b, 0)
	}
	b = append(b, k.key...)
	return refEncode(append(b, dsha(b)[:4]...))
}
