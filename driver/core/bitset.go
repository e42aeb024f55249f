package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"os"

	"github.com/ndau/ndaumath/pkg/bitset256"
)

func init() {
	replayers["bitset"] = replayBitset
	recorders["C16"] = recC17
	recorders["C17"] = recC17
}

func setOf(v V) (s [256]bool) {
	for _, e := range vl(v) {
		s[vi(e)] = true
	}
	return
}

// place of element e in the encoding, as in spec/bitset.qnt
func place(e int) int { return 8*(((e%64)/8)*4+e/64) + e%8 }

func elems(s [256]bool) []byte {
	var l []byte
	for i, x := range s {
		if x {
			l = append(l, byte(i))
		}
	}
	return l
}

func replayBitset(files []string) error {
	n := 0
	// C17 is about the encodings: it takes the contents as Get shows them, and C16 judges those
	enc := os.Getenv("VERIF_PROP") == "C17"
	set := os.Getenv("VERIF_PROP") == "C16"
	return runReplay("bitset", files, func(p *replay) (func(State), func(State)) {
		var ptr []*bitset256.Bitset256
		compare := func(s State) {
			heap, slot := s.vars["heap"].(Mp), s.vars["slot"].(Mp)
			for i := range ptr {
				want := setOf(heap.get(vi(slot.get(i))))
				for e := 0; e < 256; e++ {
					if enc {
						want[e] = ptr[i].Get(byte(e))
					} else if ptr[i].Get(byte(e)) != want[e] {
						p.mismatch(-1, "variable %d: Get(%d) is %v, the specification says %v", i, e, !want[e], want[e])
					}
				}
				we := elems(want)
				if !enc && ptr[i].Count() != len(we) {
					p.mismatch(-2, "variable %d: Count is %d, the specification says %d", i, ptr[i].Count(), len(we))
				}
				ix := ptr[i].Indices()
				if !enc && !bytes.Equal(ix, we) {
					p.mismatch(-3, "variable %d: Indices %v, the specification says %v", i, ix, we)
				}
				ba := ptr[i].AsBytes()
				v := new(big.Int)
				for _, e := range we {
					v.SetBit(v, place(int(e)), 1)
				}
				if !set && (len(ba) != 32 || new(big.Int).SetBytes(ba).Cmp(v) != 0) {
					p.mismatch(-4, "variable %d: AsBytes %x", i, ba)
				}
				if h := ptr[i].AsHex(); !set && (h != hex.EncodeToString(v.FillBytes(make([]byte, 32))) || h != ptr[i].String()) {
					p.mismatch(-5, "variable %d: AsHex %s", i, h)
				}
				// what was handed out is the caller's: scribbling on it must not reach the set
				for k := range ix {
					ix[k] ^= 0x55
				}
				for k := range ba {
					ba[k] ^= 0xff
				}
				for j := range ptr {
					if !enc && (ptr[i] == ptr[j]) != (vi(slot.get(i)) == vi(slot.get(j))) {
						p.mismatch(-6, "variables %d and %d: same object %v", i, j, ptr[i] == ptr[j])
					}
				}
			}
			o, ok := s.vars["obs"].(Rec)
			if ok && !enc && vs(o["op"]) == "look" {
				a, b := ptr[vi(o["a"])], ptr[vi(o["b"])]
				if a.Equals(b) != vb(o["eq"]) {
					p.mismatch(-7, "Equals(%s, %s) is %v", a, b, a.Equals(b))
				}
				if a.IsSubsetOf(b) != vb(o["sub"]) {
					p.mismatch(-8, "IsSubsetOf(%s, %s) is %v", a, b, a.IsSubsetOf(b))
				}
				if a.Less(b) != vb(o["less"]) {
					p.mismatch(-9, "Less(%s, %s) is %v", a, b, a.Less(b))
				}
				if a.Count() != vi(o["count"]) {
					p.mismatch(-10, "Count(%s) is %d", a, a.Count())
				}
				if !set && new(big.Int).SetBytes(a.AsBytes()).Cmp(vbig(o["value"])) != 0 {
					p.mismatch(-11, "AsBytes(%s)", a)
				}
				if a.Get(byte(vi(o["e"]))) != vb(o["member"]) {
					p.mismatch(-12, "Get(%s, %d)", a, vi(o["e"]))
				}
			}
		}
		start := func(s State) {
			ptr = nil
			for i := range s.vars["slot"].(Mp) {
				_ = i
				ptr = append(ptr, bitset256.New())
			}
			compare(s)
		}
		step := func(s State) {
			n++
			heap, slot := s.vars["heap"].(Mp), s.vars["slot"].(Mp)
			made := func(i int) []byte { return elems(setOf(heap.get(vi(slot.get(i))))) }
			st := p.guard(func() error {
				switch s.action {
				case "New", "NewRange":
					i := s.pick("i")
					l := made(i)
					for k := range l { // any order, and repetitions
						m := (k * 7) % len(l)
						l[k], l[m] = l[m], l[k]
					}
					if n%3 == 0 && len(l) > 0 {
						l = append(l, l[0], l[len(l)/2])
					}
					keep := append([]byte(nil), l...)
					ptr[i] = bitset256.New(l...)
					if !bytes.Equal(keep, l) {
						p.mismatch(-13, "New changed its arguments")
					}
					for k := range l {
						l[k] = 0
					}
				case "NewNear":
					j := s.pick("j")
					ptr[j] = bitset256.New(made(j)...)
				case "SetEl":
					ptr[s.pick("j")] = ptr[s.pick("i")].Set(byte(s.pick("x")))
				case "ClearEl":
					ptr[s.pick("j")] = ptr[s.pick("i")].Clear(byte(s.pick("x")))
				case "ToggleEl":
					ptr[s.pick("j")] = ptr[s.pick("i")].Toggle(byte(s.pick("x")))
				case "Clone":
					ptr[s.pick("j")] = ptr[s.pick("i")].Clone()
				case "Inter":
					ptr[s.pick("k")] = ptr[s.pick("i")].Intersect(ptr[s.pick("j")])
				case "Union":
					ptr[s.pick("k")] = ptr[s.pick("i")].Union(ptr[s.pick("j")])
				case "ViaBytes":
					ba := ptr[s.pick("i")].AsBytes()
					x, err := bitset256.FromBytes(ba)
					if err != nil {
						p.mismatch(-14, "FromBytes(%x): %v", ba, err)
					}
					for k := range ba {
						ba[k] ^= 0xff
					}
					ptr[s.pick("j")] = x
				case "ViaHex":
					x, err := bitset256.FromHex(ptr[s.pick("i")].AsHex())
					if err != nil {
						p.mismatch(-15, "FromHex: %v", err)
					}
					ptr[s.pick("j")] = x
				default:
					fatal("unknown action " + s.action)
				}
				return nil
			})
			if st != sOK {
				p.mismatch(-16, "the call panicked or hung")
			}
			for i := range ptr {
				if ptr[i] == nil {
					p.mismatch(-17, "a nil set was returned")
				}
			}
			var picks string
			for k, v := range s.picks {
				picks += fmt.Sprintf(" %s=%v", k, v)
			}
			p.did("%s%s", s.action, picks)
			compare(s)
		}
		return start, step
	})
}

// the 64-element groups of an encoding
func groups(b []byte) (w [4]uint64) {
	for e := 0; e < 256; e++ {
		p := place(e)
		if b[31-p/8]>>uint(p%8)&1 == 1 {
			w[e/64] |= 1 << uint(e%64)
		}
	}
	return
}

func ungroup(w [4]uint64) []byte {
	b := make([]byte, 32)
	for e := 0; e < 256; e++ {
		if p := place(e); w[e/64]>>uint(e%64)&1 == 1 {
			b[31-p/8] |= 1 << uint(p%8)
		}
	}
	return b
}

// op 1 FromBytes, op 2 FromHex: [status, input, contents as 32 bytes by Get, elements by Indices, AsBytes, AsHex]
// op 3 comparison: [a by Get, b by Get, Equals, Less, IsSubsetOf, Count a, Intersect by Get, Union by Get]
func recC17(r *R) {
	byGet := func(b *bitset256.Bitset256) I {
		v := new(big.Int)
		for e := 0; e < 256; e++ {
			if b.Get(byte(e)) {
				v.SetBit(v, e, 1)
			}
		}
		return v
	}
	show := func(op int, desc string, input []byte, f func() (*bitset256.Bitset256, error)) {
		var b *bitset256.Bitset256
		keep := append([]byte(nil), input...)
		st := r.try(func() (err error) {
			b, err = f()
			return
		})
		if !bytes.Equal(keep, input) {
			st = 9
		}
		if st == sOK && b == nil {
			st = 8
		}
		if st != sOK {
			r.emit(desc, op, in(int64(st)), B(keep))
			return
		}
		ix := b.Indices()
		iv := new(big.Int)
		asc := true
		for k, e := range ix {
			iv.SetBit(iv, int(e), 1)
			if k > 0 && ix[k-1] >= e {
				asc = false
			}
		}
		r.emit(desc, op, in(0), B(keep), byGet(b), iv, bl(asc), in(int64(len(ix))), in(int64(b.Count())), B(b.AsBytes()), S(b.AsHex()), S(b.String()))
	}
	fromBytes := func(b []byte) {
		show(1, fmt.Sprintf("bitset256.FromBytes(%x)", b), b, func() (*bitset256.Bitset256, error) {
			in := r.lend(b)
			defer r.scribble(in)
			return bitset256.FromBytes(in)
		})
	}
	fromHex := func(s string) {
		show(2, fmt.Sprintf("bitset256.FromHex(%q)", s), []byte(s), func() (*bitset256.Bitset256, error) { return bitset256.FromHex(s) })
	}
	special := func() []byte {
		b := make([]byte, 32)
		switch r.Intn(6) {
		case 0:
			b[r.Intn(32)] = 1 << uint(r.Intn(8))
		case 1:
			r.Read(b[8*r.Intn(4):])
		case 2:
			for i := range b {
				b[i] = 0xff
			}
			b[r.Intn(32)] ^= 1 << uint(r.Intn(8))
		case 3:
			k := 8 * r.Intn(4)
			r.Read(b[k : k+8])
		default:
			r.Read(b)
		}
		return b
	}
	// op 4: Set, Clear, Toggle of one element: [status, a by Get, e, which, contents afterwards by Get, same object, Count]
	one := func(v *big.Int, e, which int) {
		var b, c *bitset256.Bitset256
		st := r.try(func() error {
			var l []byte
			for i := 0; i < 256; i++ {
				if v.Bit(i) == 1 {
					l = append(l, byte(i))
				}
			}
			b = bitset256.New(l...)
			c = []func(byte) *bitset256.Bitset256{b.Set, b.Clear, b.Toggle}[which](byte(e))
			return nil
		})
		d := fmt.Sprintf("%s(%d) of the bitset %x", []string{"Set", "Clear", "Toggle"}[which], e, v)
		if st != sOK || b == nil || c == nil {
			r.emit(d, 4, in(9), v, in(int64(e)), in(int64(which)))
			return
		}
		r.emit(d, 4, in(0), v, in(int64(e)), in(int64(which)), byGet(b), bl(b == c), in(int64(b.Count())))
	}
	run := func(x, y int) *big.Int { // elements x .. y-1
		v := new(big.Int)
		for i := x; i < y; i++ {
			v.SetBit(v, i, 1)
		}
		return v
	}
	for e := 0; e < 256; e++ {
		w := e / 64 * 64
		for i, v := range []*big.Int{run(w, e), run(e, w+64), run(e+1, w+64), run(w, e+1), run(0, e), run(e+1, 256), run(w, w+64), run(0, 256), run(e, e+1), run(0, 0),
			new(big.Int).SetBytes(r.bytes(32))} {
			if i < 4 || r.Intn(r.num(3, 1)) == 0 {
				one(v, e, 1)
				one(v, e, 2*r.Intn(2))
			}
		}
	}
	for e := 0; e < 256; e++ { // every single element, both ways
		b := make([]byte, 32)
		b[31-e/8] = 1 << uint(e%8)
		fromBytes(b)
		fromHex(hx(b))
	}
	for n := 0; n <= 70; n++ {
		fromBytes(r.bytes(n))
		fromHex(hx(r.bytes(n)))
	}
	fromBytes(nil)
	// exactly 64 digits, nothing around or between
	for i := 0; i < r.num(3, 30); i++ {
		h := hx(special())
		for _, pre := range []string{"0x", "0X", "x", "#", " ", "\n", "+", "-", "\x00", "0", "00", "\\x", "$"} {
			fromHex(pre + h)
			fromHex(pre + h[len(pre):])
			fromHex(h + pre)
			fromHex(h[:64-len(pre)] + pre)
			p := r.Intn(64)
			fromHex(h[:p] + pre + h[p:])
		}
		fromHex(h + "h")
		fromHex(h + h)
		fromHex(h[:32])
		fromHex(h + h[:32])
		fromHex("\"" + h + "\"")
		b := special()
		fromBytes(append([]byte{0}, b...))
		fromBytes(append(append([]byte{}, b...), 0))
		fromBytes(b[:31])
		fromBytes(append(b, b...))
	}
	for i := 0; i < r.num(60, 900); i++ {
		fromBytes(special())
		h := []byte(hx(special()))
		switch r.Intn(8) {
		case 0:
			h[r.Intn(64)] = byte(r.Intn(256))
		case 1:
			h[r.Intn(64)] = "gGzZ@`/:xX \n\x00-+_"[r.Intn(16)]
		case 2:
			h = append(h, byte(r.Intn(256)))
		case 3:
			h = h[:r.Intn(64)]
		case 4:
			for k := range h {
				if r.Intn(2) == 0 && h[k] >= 'a' {
					h[k] -= 32
				}
			}
		case 5:
			h = append([]byte("0x"), h[:62]...)
		}
		fromHex(string(h))
	}
	for i := 0; i < r.num(300, 3000); i++ {
		x, y := special(), special()
		if r.Intn(4) == 0 { // words whose differences cancel out, one way or another
			d := []uint64{1 << 63, 1, 1 << 62, 1 << 32, r.Uint64()}[r.Intn(5)]
			f := r.Intn(5)
			p, q := r.Intn(4), 1+r.Intn(3)
			q = (p + q) % 4
			yw := groups(x)
			switch f {
			case 0: // the same bits flipped in two words
				yw[p] ^= d
				yw[q] ^= d
			case 1: // one word more, another less
				yw[p] += d
				yw[q] -= d
			case 2: // opposite bits
				yw[p] ^= d
				yw[q] ^= -d
			case 3: // words exchanged
				yw[p], yw[q] = yw[q], yw[p]
			case 4: // four times a quarter
				for k := range yw {
					yw[k] ^= 1 << 62
				}
			}
			y = ungroup(yw)
		} else if r.Intn(2) == 0 { // close relatives
			copy(y, x)
			for k := r.Intn(3); k >= 0; k-- {
				y[r.Intn(32)] ^= 1 << uint(r.Intn(8))
			}
			switch r.Intn(4) {
			case 0:
				for k := range y {
					y[k] |= x[k]
				}
			case 1:
				for k := range y {
					y[k] &= x[k]
				}
			case 2:
				copy(y, x)
			}
		}
		var a, b, it, un *bitset256.Bitset256
		var eq, ls, sb bool
		st := r.try(func() error {
			var e1, e2 error
			a, e1 = bitset256.FromBytes(x)
			b, e2 = bitset256.FromBytes(y)
			if e1 != nil {
				return e1
			}
			if e2 != nil {
				return e2
			}
			eq, ls, sb = a.Equals(b), a.Less(b), a.IsSubsetOf(b)
			it, un = a.Intersect(b), a.Union(b)
			return nil
		})
		d := fmt.Sprintf("bitsets %x and %x: Equals, Less, IsSubsetOf, Intersect, Union", x, y)
		if st != sOK {
			r.emit(d, 3, in(int64(st)), B(x), B(y))
			continue
		}
		r.emit(d, 3, in(0), B(x), B(y), byGet(a), byGet(b), bl(eq), bl(ls), bl(sb), byGet(it), byGet(un))
	}
}
