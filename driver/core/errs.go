package main

import (
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"math/big"

	"github.com/btcsuite/btcd/btcec"
	"github.com/ndau/ndaumath/pkg/bip32"
	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/keyaddr"
	perrors "github.com/pkg/errors"
)

func init() { recorders["C37"] = recC37 }

var errSource = errors.New("this source is exhausted")

// which documented error err is, wrapped or not (numbers: spec/tv_err.qnt)
func errCode(err error) int {
	if err == nil {
		return 0
	}
	for i, e := range []error{key.ErrDeriveHardFromPublic, key.ErrDeriveBeyondMaxDepth, key.ErrNotPrivExtKey, key.ErrInvalidHardenedIndex,
		key.ErrInvalidSeedLen, key.ErrUnusableSeed, key.ErrBadChecksum, key.ErrInvalidKeyLen, key.ErrInvalidKeyEncoding, key.ErrInvalidChild,
		errSource, io.EOF, io.ErrUnexpectedEOF} {
		if err == e || perrors.Cause(err) == e || errors.Is(err, e) {
			return 10 + i
		}
	}
	if errors.Is(err, bip32.ErrInvalidSeedLen) || perrors.Cause(err) == bip32.ErrInvalidSeedLen {
		return 14
	}
	if errors.Is(err, bip32.ErrUnusableSeed) || perrors.Cause(err) == bip32.ErrUnusableSeed {
		return 15
	}
	return 1
}

func (r *R) tryErr(f func() error) (I, I, error) {
	var err error
	st := r.try(func() error { err = f(); return err })
	if st >= sPanic {
		return in(int64(st)), in(1), nil
	}
	return in(int64(st)), in(int64(errCode(err))), err
}

// op 2
func recKeyErr(r *R, k *refKey, op int, n uint32) {
	x := r.object(k)
	fk := &keyaddr.Key{Key: k.text()}
	st, code, err := r.tryErr(func() (err error) {
		switch op {
		case 0:
			_, err = x.Child(n)
		case 1:
			_, err = x.HardenedChild(n)
		case 2:
			_, err = x.SPrivKey()
		case 3:
			_, err = x.ECPrivKey()
		case 4:
			_, err = fk.Sign(base64.StdEncoding.EncodeToString([]byte{byte(n), 1, 2}))
		case 10:
			_, err = fk.Child(int32(n))
		case 11:
			_, err = fk.HardenedChild(int32(n))
		}
		return
	})
	name := map[int]string{0: "Child", 1: "HardenedChild", 2: "SPrivKey", 3: "ECPrivKey", 4: "Sign (facade)", 10: "Child (facade)", 11: "HardenedChild (facade)"}[op]
	r.emit(fmt.Sprintf("error of %s.%s(%d): %v", k.text(), name, n, err), 2, S(k.text()), in(int64(op)), iu(uint64(n)), st, code)
}

// op 3
func recSeedErr(r *R, op int, n int) {
	b := r.bytes(n)
	st, code, err := r.tryErr(func() (err error) {
		switch op {
		case 0:
			_, _, err = bip32.NewMaster(b)
		case 1:
			_, err = key.NewMaster(b)
		case 2:
			_, err = bip32.GenerateSeed(uint8(n), nil)
		case 3:
			_, err = key.GenerateSeed(uint8(n))
		case 4:
			_, err = keyaddr.NewKey(base64.StdEncoding.EncodeToString(b))
		}
		return
	})
	r.emit(fmt.Sprintf("error of %s for %d bytes: %v", []string{"bip32.NewMaster", "key.NewMaster", "bip32.GenerateSeed", "key.GenerateSeed", "keyaddr.NewKey"}[op], n, err),
		3, in(int64(op)), in(int64(n)), st, code)
}

// op 4
func recOldErr(r *R, text string) {
	for _, c := range text {
		if c > 127 {
			return
		}
	}
	h := make([]byte, 32)
	if d, err := refDecode(text); err == nil && len(d) == 80 {
		h = dsha(d[:76])
	}
	for op := 0; op < 2; op++ {
		st, code, err := r.tryErr(func() (err error) {
			if op == 0 {
				_, err = key.FromOldSerialization(text)
			} else {
				_, err = keyaddr.FromOldString(text)
			}
			return
		})
		r.emit(fmt.Sprintf("error of reading the old text %q (call %d): %v", text, op, err), 4, in(int64(op)), S(text), B(h), st, code)
	}
}

// op 5
func recSourceErr(r *R, length, have int) {
	s := r.script(r.bytes(have))
	kind := 20
	if r.Intn(2) == 0 {
		s.err, kind = errSource, 20
	} else if s.err = io.EOF; true {
		kind = 21
	}
	// an early report of the error together with enough bytes is no failure
	st, code, err := r.tryErr(func() (err error) { _, err = bip32.GenerateSeed(uint8(length), s); return })
	r.emit(fmt.Sprintf("error of GenerateSeed(%d, source of %d bytes): %v", length, have, err), 5, in(int64(length)), in(int64(have)), in(int64(kind)), st, code)
}

// op 6
func recPathErr(r *R, k *refKey, els []uint32, hard []bool) {
	x := r.object(k)
	cut := r.Intn(3)
	pe, ph := make([]uint32, cut), make([]bool, cut)
	for i := range pe {
		pe[i], ph[i] = r.index(), r.Intn(2) == 0
	}
	pp := pathText(r, pe, ph)
	cpath := pathText(r, append(append([]uint32{}, pe...), els...), append(append([]bool{}, ph...), hard...))
	for op := 0; op < 2; op++ {
		st, code, err := r.tryErr(func() (err error) {
			if op == 0 {
				_, err = x.DeriveFrom(pp, cpath)
			} else {
				_, err = keyaddr.DeriveFrom(k.text(), pp, cpath)
			}
			return
		})
		fs := []I{S(k.text()), in(int64(op)), st, code, in(int64(len(els)))}
		for _, e := range els {
			fs = append(fs, iu(uint64(e)))
		}
		for _, h := range hard {
			fs = append(fs, bl(h))
		}
		r.emit(fmt.Sprintf("error of %s.DeriveFrom(%q, %q) (call %d): %v", k.text(), pp, cpath, op, err), 6, fs...)
	}
}

func recC37(r *R) {
	depth := func(k *refKey) *refKey {
		if r.Intn(2) == 0 {
			k.depth = byte(255 - r.Intn(4))
		}
		return k
	}
	for i := 0; i < r.num(400, 4000); i++ {
		k := depth(r.refRandom(r.Intn(2) == 0))
		switch op := r.Intn(7); op {
		case 5, 6:
			recKeyErr(r, k, 5+op, r.index()&(1<<31-1))
		default:
			recKeyErr(r, k, op, r.index())
		}
	}
	for n := 0; n <= 70; n++ {
		for op := 0; op < 5; op++ {
			recSeedErr(r, op, n)
		}
	}
	for i := 0; i < r.num(60, 600); i++ {
		recSeedErr(r, 2+r.Intn(2), r.Intn(256))
		recSeedErr(r, []int{0, 1, 4}[r.Intn(3)], r.Intn(1000))
		n := r.Intn(80)
		recSourceErr(r, n, r.Intn(80))
		recSourceErr(r, n, n-r.Intn(3)*r.Intn(2)*bound(n))
	}
	for i := 0; i < r.num(60, 600); i++ {
		k := depth(r.refRandom(r.Intn(2) == 0))
		n := 1 + r.Intn(6)
		els, hard := make([]uint32, n), make([]bool, n)
		for j := range els {
			els[j] = r.index()
			if r.Intn(3) > 0 {
				els[j] &= 1<<31 - 1
			}
			hard[j] = r.Intn(3) == 0
		}
		recPathErr(r, k, els, hard)
	}
	vers := [][]byte{{99, 103, 31}, {99, 100, 16}, {139, 103, 31}, {139, 100, 16}, {0, 0, 0}}
	for i := 0; i < r.num(70, 700); i++ {
		t := r.refRandom(r.Intn(2) == 0).oldText(vers[r.Intn(5)])
		recOldErr(r, t)
		recOldErr(r, mutateText(r, t))
		d, _ := refDecode(t)
		redo := func() { recOldErr(r, refEncode(append(cp(d[:76]), dsha(d[:76])[:4]...))) }
		switch i % 7 {
		case 0: // private keys out of range
			d[43] = 0
			copy(d[44:], pad32(new(big.Int).Add(btcec.S256().N, big.NewInt(int64(r.Intn(5)-2)))))
			redo()
		case 1:
			d[43] = 0
			copy(d[44:], make([]byte, 32))
			d[75] = byte(r.Intn(2))
			redo()
		case 2: // public keys which are no points
			d[43] = byte(2 + r.Intn(2))
			copy(d[44:], r.bytes(32))
			redo()
		case 3: // bad checksum and bad key
			d[43] = 0
			copy(d[44:], make([]byte, 32))
			recOldErr(r, refEncode(append(cp(d[:76]), r.bytes(4)...)))
		case 4: // lengths, the checksum right or not
			n := r.Intn(100)
			if n == 80 {
				n = 0
			}
			b := r.bytes(n)
			if n > 4 && r.Intn(2) == 0 {
				copy(b[n-4:], dsha(b[:n-4])[:4])
			}
			recOldErr(r, refEncode(b))
		case 5: // a letter which is none and another length
			b := []byte(refEncode(r.bytes(r.Intn(90) + 1)))
			b[r.Intn(len(b))] = "01lo!"[r.Intn(5)]
			recOldErr(r, string(b))
		case 6:
			recOldErr(r, "")
			recOldErr(r, t[:len(t)-8*(1+r.Intn(5))])
		}
	}
}

func bound(n int) int {
	if n < 4 {
		return 0
	}
	return 1
}
