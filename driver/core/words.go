package main

import (
	_ "embed"
	"fmt"
	"strings"

	"github.com/ndau/ndaumath/pkg/words"
)

//go:embed english.txt
var englishTxt string

var english = strings.Fields(englishTxt)
var wordNo = map[string]int{}

func init() {
	for i, w := range english {
		wordNo[w] = i
	}
	recorders["C18"] = recC18
	recorders["C19"] = recC19
	recorders["C13words"] = recC13words
}

func packWords(ws []string) I {
	var b []byte
	for _, w := range ws {
		n, ok := wordNo[w]
		if !ok {
			n = 65535
		}
		b = append(b, byte(n>>8), byte(n))
	}
	return B(b)
}

// crc8 as specified, only to aim at ambiguous phrases
func refCrc8(b []byte) (crc byte) {
	for _, c := range b {
		crc ^= c
		for i := 0; i < 8; i++ {
			if crc&0x80 != 0 {
				crc = crc<<1 ^ 0x1d
			} else {
				crc <<= 1
			}
		}
	}
	return
}

func (r *R) wordsFrom(lang string, b []byte) []string {
	keep := append([]byte(nil), b...)
	var ws []string
	st := r.try(func() (err error) {
		ws, err = words.FromBytes(lang, r.lend(b))
		return
	})
	back := append([]string(nil), ws...)
	st2, out := 1, []byte(nil)
	if st == sOK {
		st2 = r.try(func() (err error) {
			out, err = words.ToBytes(lang, back)
			return
		})
	}
	r.emit(fmt.Sprintf("words.FromBytes(%q, %x) and back", lang, b), 1, in(int64(st)), bl(lang == "en"), B(keep), packWords(ws), in(int64(st2)), B(out))
	return ws
}

func (r *R) wordsTo(lang string, ws []string) {
	keep := append([]string(nil), ws...)
	full := append(keep[:len(keep):len(keep)], "spare", "spare", "spare")
	ws = full[:len(keep)]
	var out []byte
	st := r.try(func() (err error) {
		out, err = words.ToBytes(lang, ws)
		return
	})
	same := strings.Join(full[len(keep):], " ") == "spare spare spare"
	for i := range keep {
		same = same && keep[i] == ws[i]
	}
	r.emit(fmt.Sprintf("words.ToBytes(%q, %q)", lang, strings.Join(keep, " ")), 2, in(int64(st)), bl(lang == "en"), packWords(keep), B(out), bl(same))
}

func (r *R) oddWord() string {
	w := english[r.Intn(2048)]
	switch r.Intn(12) {
	case 0:
		return ""
	case 1:
		return strings.ToUpper(w)
	case 2:
		return w + " "
	case 3:
		return w + string(rune('a'+r.Intn(26)))
	case 4:
		return w[:len(w)-1]
	case 5:
		return string(rune('a'+r.Intn(26))) + w
	case 6:
		b := []byte(w)
		b[r.Intn(len(b))] = byte('a' + r.Intn(26))
		return string(b)
	case 7:
		return []string{"a", "zzzz", "zooz", "aaaa", "abandom", "\x00", "~", "zoo\x00", "Zoo", "é"}[r.Intn(10)]
	case 8:
		return strings.Title(w)
	case 9:
		return w[:3-r.Intn(2)]
	case 10:
		return w + w
	}
	return string(r.bytes(r.Intn(12)))
}

// another way to write a word
func (r *R) variant(w string) string {
	switch r.Intn(9) {
	case 0, 1:
		if len(w) > 4 {
			return w[:4]
		}
		return w[:len(w)-1]
	case 2:
		return w[:3]
	case 3:
		return w[:1+r.Intn(len(w)-1)]
	case 4:
		return w + []string{"s", "e", "y", " ", "\n", ".", ",", "-", w}[r.Intn(9)]
	case 5:
		return []string{" ", "\t", "\u00a0", "\""}[r.Intn(4)] + w
	case 6:
		return strings.ToUpper(w)
	case 7:
		return strings.Title(w)
	}
	i := r.Intn(len(w))
	return w[:i] + strings.ToUpper(w[i:i+1]) + w[i+1:]
}

func (r *R) phrase(n int) []string {
	b := r.bytes(n)
	ws, err := words.FromBytes("en", b)
	if err != nil {
		return []string{"abandon"}
	}
	return ws
}

func recC18(r *R) {
	// every word, both ways
	for i := 0; i < 2048; i += 32 {
		bits := make([]byte, 44)
		for k := 0; k < 32; k++ {
			for j := 0; j < 11; j++ {
				if (i+k)>>(10-j)&1 == 1 {
					n := k*11 + j
					bits[n/8] |= 0x80 >> uint(n%8)
				}
			}
		}
		r.wordsFrom("en", bits)
	}
	for n := 0; n <= 70; n++ {
		r.wordsFrom("en", r.bytes(n))
		r.wordsFrom("en", make([]byte, n))
		b := r.bytes(n)
		for i := range b {
			b[i] = 0xff
		}
		r.wordsFrom("en", b)
	}
	for _, n := range append(r.lens(400), 100, 128, 255, 256, 300) {
		r.wordsFrom("en", r.bytes(n))
	}
	// one bit of the end of a phrase, where the check bits are (4 to 14 of them), the other way round
	for n := 1; n <= 33; n++ {
		for j := 0; j < 16; j++ {
			if run := (8*n+4+10)/11*11 - 8*n; run < 12 && r.Intn(r.num(4, 1)) > 0 {
				continue
			}
			ws := r.phrase(n)
			k := len(ws) - 1 - j/11
			if k >= 0 {
				ws[k] = english[wordNo[ws[k]]^(1<<uint(j%11))]
				r.wordsTo("en", ws)
			}
		}
	}
	for i := 0; i < r.num(150, 3000); i++ {
		r.wordsFrom("en", r.bytes([]int{16, 16, 16, 32, 24, 20, r.Intn(40)}[r.Intn(7)]))
	}
	// byte strings whose phrase is also the phrase of a shorter byte string (known finding)
	for found, tries := 0, 0; found < 3 && tries < 100000; tries++ {
		x := r.bytes(15)
		c := refCrc8(x)
		y := append(append([]byte(nil), x...), c>>4)
		if refCrc8(y)&15 == c&15 {
			found++
			r.wordsFrom("en", x)
			r.wordsFrom("en", y)
		}
	}
	for _, l := range []string{"", "EN", "sp", "en ", "fr", "english", "\x00"} {
		r.wordsFrom(l, r.bytes(r.Intn(20)))
		r.wordsTo(l, r.phrase(16))
		r.wordsTo(l, nil)
	}
	r.wordsTo("en", nil)
	r.wordsTo("en", []string{})
	// random word lists of every length, and damaged phrases
	for n := 1; n <= 33; n++ {
		for i := 0; i < r.num(8, 60); i++ {
			ws := make([]string, n)
			for k := range ws {
				ws[k] = english[r.Intn(2048)]
			}
			r.wordsTo("en", ws)
			for k := range ws {
				ws[k] = english[0]
			}
			ws[n-1] = english[r.Intn(2048)]
			r.wordsTo("en", ws)
		}
	}
	for i := 0; i < r.num(350, 4000); i++ {
		ws := r.phrase([]int{16, 16, 10, 11, 32, r.Intn(40)}[r.Intn(6)])
		k := r.Intn(len(ws))
		switch r.Intn(12) {
		case 0, 1:
			ws[k] = english[r.Intn(2048)]
		case 8, 9, 10, 11: // the right word, written otherwise
			ws[k] = r.variant(ws[k])
		case 2:
			j := r.Intn(len(ws))
			ws[k], ws[j] = ws[j], ws[k]
		case 3:
			ws = append(ws[:k:k], ws[k+1:]...)
		case 4:
			ws = append(ws, english[r.Intn(2048)])
		case 5:
			ws[k] = english[wordNo[ws[k]]^(1<<uint(r.Intn(11)))]
		case 6, 7:
			ws[k] = r.oddWord()
		}
		r.wordsTo("en", ws)
	}
	for i := 0; i < r.num(12, 100); i++ { // a phrase and those which differ from it in one place, in turn
		r.akinPhrases([]int{16, 16, 32, 11 + r.Intn(30)}[i%4], func(ws []string) {
			if i%3 == 0 {
				r.facadeTo("en", strings.Join(ws, " "))
			} else {
				r.wordsTo("en", ws)
			}
		})
		b := r.bytes(16 + r.Intn(17))
		for _, x := range r.kindred(b) {
			r.wordsFrom("en", x)
		}
	}
	for i := 0; i < r.num(80, 600); i++ { // one strange word, alone or last
		w := r.oddWord()
		r.wordsTo("en", []string{w})
		r.wordsTo("en", append(r.phrase(16)[:11], w))
	}
}

// a phrase for n bytes and those which differ from it in one place, in turn
func (r *R) akinPhrases(n int, ask func([]string)) {
	ws := r.phrase(n)
	ask(ws)
	for _, k := range []int{0, 1, r.Intn(len(ws)), len(ws) / 3, len(ws) - 2, len(ws) - 1} {
		vs := append([]string{}, ws...)
		switch r.Intn(4) {
		case 0:
			vs[k] = r.variant(vs[k])
		case 1:
			j := r.Intn(len(vs))
			vs[k], vs[j] = vs[j], vs[k]
		default:
			vs[k] = english[r.Intn(2048)]
		}
		ask(vs)
		ask(ws)
	}
}

func (r *R) prefix(lang, prefix string, max int) {
	var out string
	st := r.try(func() error {
		out = words.FromPrefix(lang, prefix, max)
		return nil
	})
	r.emit(fmt.Sprintf("words.FromPrefix(%q, %q, %d)", lang, prefix, max), 3, in(int64(st)), bl(lang == "en"), S(prefix), in(int64(max)), S(out))
}

func recC19(r *R) {
	r.prefix("en", "", 0)
	r.prefix("en", "", -1)
	for _, m := range []int{1, 2, 3, 2047, 2048, 2049, 1 << 40, -1 << 62} {
		r.prefix("en", "", m)
	}
	for c := 0; c < 256; c++ {
		r.prefix("en", string([]byte{byte(c)}), []int{0, 1, 5, -3}[c%4])
	}
	for c := 'a'; c <= 'z'; c++ {
		r.prefix("en", string(c), 0)
		r.prefix("en", string(c), 1+r.Intn(40))
	}
	for i := 0; i < r.num(150, 2500); i++ {
		w := english[r.Intn(2048)]
		p := w[:1+r.Intn(len(w))]
		switch r.Intn(8) {
		case 0:
			p = r.oddWord()
		case 1:
			b := []byte(p)
			b[r.Intn(len(b))] = byte(r.Intn(256))
			p = string(b)
		case 2:
			p = strings.ToUpper(p)
		case 3:
			p = w + " " + english[(wordNo[w]+1)%2048]
		}
		r.prefix("en", p, []int{0, -1, 1, 2, 3, 1 + r.Intn(20), 100}[r.Intn(7)])
	}
	// typing a word letter by letter, and deleting letters again
	for i := 0; i < r.num(60, 600); i++ {
		w := english[r.Intn(2048)]
		if i%3 == 0 { // a word which many others resemble
			w = []string{"c", "s", "p", "con", "re", "dis", "pro", "a"}[r.Intn(8)]
			for j := r.Intn(2048); ; j = (j + 1) % 2048 {
				if strings.HasPrefix(english[j], w) {
					w = english[j]
					break
				}
			}
		}
		limits := [][]int{{0}, {1}, {1, 0}, {2, 0}, {3, 5}, {0, 1}, {-1, 2, 0}}[r.Intn(7)]
		for l := 1; l <= len(w); l++ {
			r.prefix("en", w[:l], limits[l%len(limits)])
		}
		for l := len(w) - 1; l > 0; l -= 1 + r.Intn(3) {
			r.prefix("en", w[:l], limits[(l+1)%len(limits)])
		}
	}
	// the words a call gave are the caller's: changing them leaves the list as it is
	for n := 0; n < 40; n++ {
		ws := r.phrase([]int{0, 1, 2, 16, r.Intn(40), r.Intn(400)}[n%6])
		var ps []string
		for i := range ws {
			if len(ws[i]) > 1 {
				ps = append(ps, ws[i][:1+r.Intn(len(ws[i]))])
			}
			ws[i] = "zz" + ws[i]
		}
		for _, x := range ws[:cap(ws)][len(ws):] {
			if len(x) > 0 {
				ps = append(ps, x)
			}
		}
		if full := ws[:cap(ws)]; len(full) > len(ws) {
			full[len(ws)] = "zy"
		}
		for _, p := range ps[:min(len(ps), 3)] {
			r.prefix("en", p, 0)
		}
		r.prefix("en", "z", 0)
	}
	// the list is still the same after everything else, and the limits are exact
	for k := 0; k < r.num(40, 300); k++ {
		w := english[r.Intn(2048)]
		n := strings.Count(" "+strings.Join(english, " "), " "+w[:2])
		r.prefix("en", w[:2], n+r.Intn(3)-1)
	}
	for _, l := range []string{"", "EN", "sp", "en "} {
		r.prefix(l, "ab", 0)
		r.prefix(l, "", 3)
	}
	r.prefix("en", "", 0)
}

// C13: nothing panics, whatever the arguments
func recC13words(r *R) {
	for i := 0; i < r.num(300, 3000); i++ {
		ws := make([]string, r.Intn(30))
		for k := range ws {
			if r.Intn(4) == 0 {
				ws[k] = r.oddWord()
			} else {
				ws[k] = english[r.Intn(2048)]
			}
		}
		l := "en"
		if r.Intn(8) == 0 {
			l = string(r.bytes(r.Intn(4)))
		}
		r.wordsTo(l, ws)
		if i%3 == 0 {
			r.prefix(l, r.oddWord(), r.Intn(10)-3)
			r.wordsFrom(l, r.bytes(r.Intn(60)))
		}
	}
}
