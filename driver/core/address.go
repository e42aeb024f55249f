package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math/bits"
	"strings"

	"github.com/ndau/ndaumath/pkg/address"
	"github.com/ndau/ndaumath/pkg/b32"
)

var kinds = []byte("anexbm")

func genAddr(r *R, kind byte, data []byte) (address.Address, string, int) {
	var a address.Address
	var s string
	st := r.try(func() (err error) {
		a, err = address.Generate(kind, data)
		if err == nil {
			s = a.String()
		}
		return
	})
	return a, s, st
}

// op 1: Generate(kind, data)
func recGenerate(r *R, kind byte, data []byte) string {
	keep := append([]byte{}, data...)
	if len(data) < 60000 {
		data = r.lend(data)
	}
	a, s, st := genAddr(r, kind, data)
	h := sha256.Sum256(keep)
	k := 0
	reval := 1
	if st == sOK {
		k2 := 0
		if st2 := r.try(func() error { k2 = int(a.Kind()); return a.Revalidate() }); st2 == sOK {
			reval = 0
		}
		k = k2
	}
	// determinism and purity of the argument
	_, s2, _ := genAddr(r, kind, append([]byte{}, keep...))
	same := bl(s2 == s && bytes.Equal(keep, data))
	shown := hx(keep)
	if len(keep) > 20000 {
		shown = fmt.Sprintf("%x... (%d bytes)", keep[:40], len(keep))
	}
	r.emit(fmt.Sprintf("address.Generate(%q, %s)", string(rune(kind)), shown), 1,
		in(int64(kind)), in(int64(len(keep))), B(h[:]), in(int64(st)), S(s), in(int64(k)), in(int64(reval)), same)
	return s
}

// op 2: Validate(text); op 3: UnmarshalText(text)
func recValidate(r *R, text string) int {
	var s string
	k := 0
	st := r.try(func() error {
		a, err := address.Validate(text)
		if err == nil {
			s = a.String()
			k = int(a.Kind())
		} else if a != (address.Address{}) {
			s = "not empty on error"
		}
		return err
	})
	r.emit(fmt.Sprintf("address.Validate(%q)", text), 2, S(text), in(int64(st)), S(s), in(int64(k)))
	return st
}

func recUnmarshalText(r *R, text string, used *address.Address) {
	var s, t2, s3 string
	k := 0
	var a address.Address
	if used != nil {
		a = *used
	}
	st := r.try(func() error {
		buf := r.lend([]byte(text))
		err := a.UnmarshalText(buf)
		r.scribble(buf)
		if err == nil {
			s = a.String()
			k = int(a.Kind())
			b, e := a.MarshalText()
			if e != nil {
				return e
			}
			t2 = string(b)
			if e := a.Revalidate(); e != nil {
				t2 = "revalidate failed"
			}
			v, e := address.Validate(text)
			if e != nil || v != a {
				s3 = "parsers disagree"
			} else {
				s3 = v.String()
			}
		}
		return err
	})
	r.emit(fmt.Sprintf("UnmarshalText(%q) -> String, MarshalText, Validate", text), 3, S(text), in(int64(st)), S(s), S(t2), S(s3), in(int64(k)))
}

func flipCase(r *R, s string) string {
	b := []byte(s)
	for i := range b {
		if r.Intn(2) == 0 {
			b[i] = []byte(strings.ToUpper(string(b[i : i+1])))[0]
		}
	}
	return string(b)
}

// a valid 48 character address with the given first 3 characters and random content:
// not necessarily produced by Generate
func forge(r *R, prefix string) string {
	body := r.bytes(28)
	s := b32.Encode(append(body, 0, 0))
	s = prefix + s[len(prefix):]
	raw, err := refDecode(s)
	if err != nil {
		panic(err)
	}
	c := refCRC(raw[:28])
	raw[28], raw[29] = byte(c>>8), byte(c)
	return refEncode(raw)
}

const alphabet = "abcdefghijkmnpqrstuvwxyz23456789"

func init() {
	recorders["C07"] = func(r *R) {
		// every kind byte with a good payload and with short payloads
		for k := 0; k < 256; k++ {
			recGenerate(r, byte(k), r.bytes(33))
		}
		// data of any size, and data with nearly everything in common in turn
		for _, n := range append(r.lens(300000), 1023, 1024, 1025, 4097, 8193, 16385, 32769, 65535, 65536, 65537, 100000, 1<<20+5) {
			b := r.bytes(n)
			recGenerate(r, kinds[n%6], b)
			if n > 12 {
				b[n-1]++
				recGenerate(r, kinds[n%6], b)
				b[r.Intn(n)] ^= 4
				recGenerate(r, kinds[n%6], b)
			}
		}
		for i := 0; i < 12; i++ {
			for _, b := range r.kindred(r.bytes(12 + r.Intn(60))) {
				recGenerate(r, kinds[i%6], b)
			}
		}
		for _, k := range kinds {
			for n := 0; n <= 70; n++ {
				recGenerate(r, k, r.bytes(n))
			}
			recGenerate(r, k, make([]byte, 33))
			recGenerate(r, k, bytes.Repeat([]byte{255}, 33))
			recGenerate(r, k, r.bytes(300))
			for _, n := range r.lens(4000) {
				recGenerate(r, k, r.bytes(n))
			}
		}
		n := r.num(1000, 5000)
		for i := 0; i < n; i++ {
			recGenerate(r, kinds[i%6], r.bytes(12+r.Intn(60)))
		}
		// the same data under several kinds, and data that are prefixes, extensions or neighbours of
		// others, in arbitrary order: nothing carries over from one call to the next
		for i := 0; i < r.num(20, 200); i++ {
			d := r.bytes(12 + r.Intn(40))
			pool := [][]byte{d, append([]byte{}, d...), d[:12], append(append([]byte{}, d...), 0), append([]byte{0}, d...)}
			e := append([]byte{}, d...)
			e[r.Intn(len(e))] ^= 1 << uint(r.Intn(8))
			pool = append(pool, e)
			for j := 0; j < 10; j++ {
				k := kinds[r.Intn(6)]
				if r.Intn(8) == 0 {
					k = byte(r.Intn(256))
				}
				recGenerate(r, k, pool[r.Intn(len(pool))])
			}
		}
		// mined: hashes whose trimmed part starts with zero bytes, or whose checksum has a zero byte
		for _, k := range kinds {
			for want := 0; want < 4; want++ {
				recGenerate(r, k, mineAddr(r, k, want))
			}
		}
	}
	recorders["C08"] = func(r *R) {
		bases := r.num(2, 6)
		for b := 0; b < bases; b++ {
			for _, k := range kinds {
				s := recGenerate(r, k, r.bytes(33))
				if len(s) != 48 {
					continue
				}
				recValidate(r, s)
				recValidate(r, flipCase(r, s))
				recValidate(r, strings.ToUpper(s))
				// one character replaced by one outside the alphabet, look-alikes first
				for p := 0; p < 48; p++ {
					for _, c := range lookAlikes(s[p]) {
						recValidate(r, s[:p]+c+s[p+1:])
					}
				}
				for i := 0; i < r.num(30, 256); i++ {
					p := r.Intn(48)
					recValidate(r, s[:p]+string([]byte{byte(r.Intn(128))})+s[p+1:])
				}
				// separators put in, white space around
				for _, sep := range []string{" ", "-", "_", "\t", "\n", "\r\n", ".", "=", "\x00"} {
					recValidate(r, s+sep)
					recValidate(r, sep+s)
					p := 1 + r.Intn(47)
					recValidate(r, s[:p]+sep+s[p:])
				}
				recValidate(r, strings.Join([]string{s[:12], s[12:24], s[24:36], s[36:]}, " "))
				recValidate(r, "ndau:"+s)
				// length changes
				recValidate(r, s[1:])
				recValidate(r, s[:47])
				recValidate(r, s+"a")
				recValidate(r, s+s)
				for i := 0; i < 8; i++ {
					p := r.Intn(48)
					recValidate(r, s[:p]+s[p+1:])
					recValidate(r, s[:p]+string(alphabet[r.Intn(32)])+s[p:])
				}
				for i := 0; i < r.num(25, 60); i++ {
					recValidate(r, substitute(r, s, 1))
					recValidate(r, substitute(r, s, 2))
					recValidate(r, substitute(r, s, 3))
					recValidate(r, transpose(r, s))
				}
				// forged valid addresses with other prefixes are valid too (prefix is not checked)
				recValidate(r, forge(r, "tn"+string(k)))
				recValidate(r, forge(r, string(alphabet[r.Intn(32)])+string(alphabet[r.Intn(32)])+string(alphabet[r.Intn(32)])))
			}
		}
		exhaustiveFaults(r)
		screenWords(r)
	}
	recorders["C09"] = func(r *R) {
		n := r.num(40, 200)
		var prev *address.Address
		for i := 0; i < n; i++ {
			k := kinds[i%6]
			a, s, st := genAddr(r, k, r.bytes(20))
			if st != sOK || len(s) != 48 {
				recGenerate(r, k, r.bytes(20))
				continue
			}
			recUnmarshalText(r, s, nil)
			recUnmarshalText(r, flipCase(r, s), prev)
			recUnmarshalText(r, strings.ToUpper(s), prev)
			prev = &a
			for _, junk := range []string{"\n", "\r", "=", " ", "\x00", "l", "o", "0", "1", "\xff", "K", "İ", "-"} {
				p := r.Intn(49)
				recUnmarshalText(r, s[:p]+junk+s[p:], prev)
				if p+len(junk) <= 48 {
					recUnmarshalText(r, s[:p]+junk+s[p+len(junk):], prev)
				}
			}
			// a shorter valid word padded to 48 characters with ignorable characters
			for _, w := range []int{8, 16, 24, 32, 40} {
				body := r.bytes(w*5/8 - 2)
				t := refEncode(append(body, 0, 0))
				t = "nd" + string(k) + t[3:]
				raw, _ := refDecode(t)
				c := refCRC(raw[:len(raw)-2])
				raw[len(raw)-2], raw[len(raw)-1] = byte(c>>8), byte(c)
				t = refEncode(raw)
				recUnmarshalText(r, t+strings.Repeat("\n", 48-len(t)), prev)
				recUnmarshalText(r, t+strings.Repeat("\r\n", 24-len(t)/2), nil)
			}
		}
		for _, w := range []string{"", "n", "nd", "nda", strings.Repeat("a", 48), strings.Repeat("\n", 48), strings.Repeat("=", 48),
			"\nna======" + strings.Repeat("\n", 39), "\n\nna======" + strings.Repeat("\n", 38), "nda=====" + strings.Repeat("\n", 40),
			strings.Repeat("\xff", 48), strings.Repeat("K", 16), "nda" + strings.Repeat("K", 15), strings.Repeat("n", 100000)[:50000]} {
			recValidate(r, w)
			recUnmarshalText(r, w, prev)
		}
		// valid words in which a k or i is replaced by a character whose lower case is k or i
		for i := 0; i < 30; i++ {
			s := forge(r, "nd"+string(kinds[i%6]))
			recValidate(r, s)
			recValidate(r, strings.Replace(s, "k", "K", 1))
			recValidate(r, strings.Replace(s, "i", "İ", 1))
		}
		for i := 0; i < r.num(200, 1500); i++ {
			recValidate(r, string(r.bytes(r.Intn(60))))
			recUnmarshalText(r, string(r.bytes(48)), nil)
		}
		for i := 0; i < r.num(60, 400); i++ {
			recValidate(r, flipCase(r, forge(r, "nd"+string(alphabet[r.Intn(32)]))))
		}
		parseKinds(r)
	}
}

// lookAlikes gives the characters commonly typed for c that are not letters of the alphabet.
func lookAlikes(c byte) []string {
	switch c {
	case 'i':
		return []string{"1", "l", "L", "|", "!"}
	case 'j':
		return []string{"l"}
	case 'q', 'u', 'e', 'c', 'd', 'a':
		return []string{"o", "O", "0"}
	case '7', 't', 'f', '4':
		return []string{"1", "l"}
	case 'b', '8', '6', '9':
		return []string{"0"}
	case 's', '5':
		return []string{"$"}
	}
	return nil
}

func substitute(r *R, s string, width int) string {
	b := []byte(s)
	p := r.Intn(len(b) - width + 1)
	for {
		for j := 0; j < width; j++ {
			b[p+j] = alphabet[r.Intn(32)]
		}
		if string(b) != s {
			return string(b)
		}
	}
}

func transpose(r *R, s string) string {
	b := []byte(s)
	for {
		p := r.Intn(len(b) - 1)
		if b[p] != b[p+1] {
			b[p], b[p+1] = b[p+1], b[p]
			return string(b)
		}
	}
}

func mineAddr(r *R, kind byte, want int) []byte {
	for {
		d := r.bytes(33)
		h := sha256.Sum256(d)
		switch want {
		case 0:
			if h[6] == 0 && h[7] < 16 {
				return d
			}
		case 1:
			if h[31] == 0 && h[30] < 16 {
				return d
			}
		default:
			i := bytes.IndexByte([]byte(alphabet), kind)
			p := 12<<11 | 3<<6 | i<<1
			raw := append([]byte{byte(p >> 8), byte(p)}, h[6:]...)
			c := refCRC(raw)
			if want == 2 && c>>8 == 0 && c < 64 {
				return d
			}
			if want == 3 && c&255 == 0 && c>>8 < 64 {
				return d
			}
		}
	}
}

// exhaustiveFaults tries, on real addresses, every single substitution, every adjacent
// transposition, and every two and three character burst (all replacement values), and
// records those the real validator accepts, plus one summary record.
func exhaustiveFaults(r *R) {
	nb := 1
	if r.tier == "thorough" {
		nb = 4
	}
	for x := 0; x < nb; x++ {
		s := recGenerate(r, kinds[r.Intn(6)], r.bytes(33))
		if len(s) != 48 {
			continue
		}
		tried, acc := 0, 0
		test := func(b []byte) {
			tried++
			ok := false
			st := guardFast(func() error { _, err := address.Validate(string(b)); ok = err == nil; return err })
			if ok || st == sPanic {
				acc++
				if acc <= 200 {
					recValidate(r, string(b))
				}
			}
		}
		b := []byte(s)
		for p := 0; p < 48; p++ {
			for i := 0; i < 32; i++ {
				if alphabet[i] == s[p] {
					continue
				}
				b[p] = alphabet[i]
				test(b)
				if p+1 < 48 {
					for j := 0; j < 32; j++ {
						if alphabet[j] == s[p+1] {
							continue
						}
						b[p+1] = alphabet[j]
						test(b)
						if p+2 < 48 && (x == 0 || r.tier == "thorough") {
							for k := 0; k < 32; k++ {
								if alphabet[k] != s[p+2] {
									b[p+2] = alphabet[k]
									test(b)
								}
							}
							b[p+2] = s[p+2]
						}
					}
					b[p+1] = s[p+1]
					if p+2 < 48 {
						for k := 0; k < 32; k++ {
							if alphabet[k] != s[p+2] {
								b[p+2] = alphabet[k]
								test(b)
							}
						}
						b[p+2] = s[p+2]
					}
				}
			}
			b[p] = s[p]
			if p+1 < 48 && s[p] != s[p+1] {
				b[p], b[p+1] = s[p+1], s[p]
				test(b)
				b[p], b[p+1] = s[p], s[p+1]
			}
		}
		r.emit(fmt.Sprintf("every 1-3 character burst and transposition of %q: %d tried, %d accepted", s, tried, acc), 9, S(s), in(int64(tried)), in(int64(acc)))
	}
}

// screenWords has the real validator look at very many words: ones of random content, and valid ones whose checksum
// (or the part under it) is changed in a regular way.  About one random word in 65536 is valid; the specification
// judges those the validator accepts.
func screenWords(r *R) {
	tried, acc := 0, 0
	test := func(s string) {
		tried++
		ok := false
		st := guardFast(func() error { _, err := address.Validate(s); ok = err == nil; return err })
		if (ok || st == sPanic) && acc < 400 {
			acc++
			recValidate(r, s)
		}
	}
	raw := make([]byte, 30)
	for i := 0; i < r.num(300000, 3000000); i++ {
		r.Rand.Read(raw)
		k := bytes.IndexByte([]byte(alphabet), kinds[i%6])
		p := 12<<11 | 3<<6 | k<<1 | int(raw[1])&1
		raw[0], raw[1] = byte(p>>8), byte(p)
		test(refEncode(raw))
	}
	for i := 0; i < r.num(3000, 30000); i++ {
		s := forge(r, "nd"+string(kinds[i%6]))
		b, err := refDecode(s)
		if err != nil {
			continue
		}
		at := func(c uint16) {
			if d := append(cp(b[:28]), byte(c>>8), byte(c)); !bytes.Equal(d, b) {
				test(refEncode(d))
			}
		}
		c := uint16(b[28])<<8 | uint16(b[29])
		at(c<<8 | c>>8)
		at(^c)
		at(-c)
		at(c + 1)
		at(c - 1)
		for k := uint(1); k < 16; k++ {
			at(c<<k | c>>(16-k))
			at(c &^ (1 << k))
			at(c | 1<<k)
		}
		at(bits.Reverse16(c))
		at(uint16(bits.Reverse8(byte(c>>8)))<<8 | uint16(bits.Reverse8(byte(c))))
		at(0)
		at(0xffff)
		for _, d := range [][]byte{b[1:28], b[:27], b[2:28], append(cp(b[:28]), 0), append([]byte{0}, b[:28]...), {}, b} {
			at(refCRC(d))
		}
		// two bytes the other way round, within the part under the checksum
		p, q := 2+r.Intn(26), 2+r.Intn(26)
		if d := cp(b); d[p] != d[q] {
			d[p], d[q] = d[q], d[p]
			test(refEncode(d))
		}
	}
	r.emit(fmt.Sprintf("%d words tried, %d of those accepted were judged", tried, acc), 10, in(int64(tried)), in(int64(acc)))
}

// like guard, without a goroutine per call
func guardFast(f func() error) (st int) {
	st = sPanic
	defer func() { recover() }()
	if f() != nil {
		st = sErr
	} else {
		st = sOK
	}
	return
}

func parseKinds(r *R) {
	rec := func(tc int64, val I, x interface{}) {
		var k byte
		st := r.try(func() (err error) { k, err = address.ParseKind(x); return })
		r.emit(fmt.Sprintf("ParseKind(%T %#v)", x, x), 4, in(tc), val, in(int64(st)), in(int64(k)))
	}
	for i := 0; i < 256; i++ {
		rec(1, in(int64(i)), byte(i))
		rec(2, in(int64(i)), int8(byte(i)))
		rec(3, in(int64(i)), rune(i))
		r.emit(fmt.Sprintf("IsValidKind(%d)", i), 5, in(int64(i)), bl(address.IsValidKind(byte(i))))
	}
	// characters far outside: only the letters themselves, in either case, are kinds
	for _, k := range []byte("anexbmu") {
		for _, c := range []rune{rune(k), rune(k) - 32} {
			for _, hi := range []rune{0x100, 0x200, 0x300, 0x1000, 0xff00, 0x10000, 0x100000, 1 << 24, 1 << 30, -1 << 31, 0xfee0, 0xff21 - 0x41} {
				rec(3, in(int64(c+hi)), c+hi)
			}
			for i := 0; i < 8; i++ {
				v := c + rune(r.Int31()&^0xff)
				rec(3, in(int64(v)), v)
			}
		}
	}
	for i := 0; i < r.num(150, 3000); i++ {
		v := rune(r.Int31() >> uint(r.Intn(31)))
		rec(3, in(int64(v)), v)
	}
	names := []string{"", "u", "user", "ndau", "endowment", "exchange", "bpc", "marketmaker", "a", "n", "e", "x", "b", "m",
		"abc", "nd", "users", "z", "zz", " a", "1", "market maker", "tn", "\x00", "user ", "uu"}
	for _, s := range names {
		rec(0, S(s), s)
		rec(0, S(strings.ToUpper(s)), strings.ToUpper(s))
		t := flipCase(r, s)
		rec(0, S(t), t)
	}
	// parts of the names, and names with something added, dropped or changed
	for _, s := range names {
		for i := 0; i <= len(s); i++ {
			for j := i; j <= len(s); j++ {
				rec(0, S(s[i:j]), s[i:j])
				if r.Intn(4) == 0 {
					t := flipCase(r, s[i:j])
					rec(0, S(t), t)
				}
			}
			t := s[:i] + string([]byte{byte(32 + r.Intn(95))}) + s[i:]
			rec(0, S(t), t)
			if i < len(s) {
				t = s[:i] + s[i+1:]
				rec(0, S(t), t)
				t = s[:i] + string([]byte{byte(32 + r.Intn(95))}) + s[i+1:]
				rec(0, S(t), t)
			}
		}
	}
	for i := 0; i < 200; i++ {
		b := r.bytes(1 + r.Intn(3))
		for j := range b {
			b[j] &= 127
		}
		rec(0, B(b), string(b))
	}
	for _, x := range []interface{}{1, int64(97), uint64(97), nil, 1.5, []byte("a"), struct{}{}, true} {
		rec(9, in(0), x)
	}
}
