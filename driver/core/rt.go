package main

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/rand"
	"os"
	"time"

	"verif.local/driver/covreg"
)

// outcome of a guarded call
const (
	sOK    = 0
	sErr   = 1
	sPanic = 2
	sHang  = 3
)

// R is a recorder of executions.
type R struct {
	*rand.Rand
	tier  string
	w     *bufio.Writer
	n     int
	hung  bool
	ints  []uint64 // constants the source has gained
	strs  []string
	lent  []loan
	nlent int
	// exploration: only executions which reach one of these blocks are written down
	targets  map[*uint32]int
	tail     int
	deadline time.Time
}

// explore makes r write down only the executions that reach given blocks of the instrumented code (and what follows
// them directly).
func (r *R) explore(file string) {
	var t struct {
		Blocks map[string][]int
		Until  float64
	}
	b, err := os.ReadFile(file)
	if err == nil {
		err = json.Unmarshal(b, &t)
	}
	if err != nil {
		fatal(err.Error())
	}
	r.targets = map[*uint32]int{}
	for _, f := range covreg.Files {
		for _, i := range t.Blocks[f.Name] {
			f.Count[i] = 0
			r.targets[&f.Count[i]] = 4
		}
	}
	r.deadline = time.Unix(int64(t.Until), 0)
}

// whether the record at hand is to be left out
func (r *R) unwanted() bool {
	for p, n := range r.targets {
		if *p > 0 {
			*p = 0
			r.tail = 5
			if n--; n == 0 {
				delete(r.targets, p)
			} else {
				r.targets[p] = n
			}
		}
	}
	if r.tail == 0 && (len(r.targets) == 0 || time.Now().After(r.deadline)) {
		r.w.Flush()
		os.Exit(0)
	}
	if r.tail == 0 {
		return true
	}
	r.tail--
	return false
}

type loan struct{ full, keep []byte }

func newR(seed int64, tier string, to io.Writer) *R {
	r := &R{Rand: rand.New(rand.NewSource(seed*7919 + 17)), tier: tier, w: bufio.NewWriterSize(to, 1<<20)}
	var d struct{ Ints, Strings []string }
	json.Unmarshal([]byte(os.Getenv("VERIF_LITERALS")), &d)
	for _, s := range d.Ints {
		if v, ok := new(big.Int).SetString(s, 10); ok {
			r.ints = append(r.ints, new(big.Int).And(v, new(big.Int).SetUint64(math.MaxUint64)).Uint64())
		}
	}
	r.strs = d.Strings
	return r
}

// now and then a number at a constant which the source has gained
func (r *R) near() (uint64, bool) {
	if len(r.ints) == 0 || r.Rand.Intn(8) > 0 {
		return 0, false
	}
	v := r.ints[r.Rand.Intn(len(r.ints))]
	switch r.Rand.Intn(8) {
	case 0:
		v++
	case 1:
		v--
	case 2:
		v = -v
	}
	return v, true
}

func (r *R) Uint64() uint64 {
	if v, ok := r.near(); ok {
		return v
	}
	return r.Rand.Uint64()
}

func (r *R) Uint32() uint32 {
	if v, ok := r.near(); ok {
		return uint32(v)
	}
	return r.Rand.Uint32()
}

func (r *R) Intn(n int) int { return int(r.Int63n(int64(n))) }

func (r *R) Int63n(n int64) int64 {
	if v, ok := r.near(); ok && v < uint64(n) {
		return int64(v)
	}
	if n <= math.MaxInt32 {
		return int64(r.Rand.Int31n(int32(n)))
	}
	return r.Rand.Int63n(n)
}

// lengths to try, up to a bound: constants which the source has gained, and their neighbours
func (r *R) lens(most int) []int {
	var l []int
	for _, v := range r.ints {
		for _, n := range []uint64{v - 1, v, v + 1} {
			if n <= uint64(most) && len(l) < 24 {
				l = append(l, int(n))
			}
		}
	}
	return l
}

// a text which the source has gained
func (r *R) gained() (string, bool) {
	if len(r.strs) == 0 || r.Rand.Intn(4) > 0 {
		return "", false
	}
	return r.strs[r.Rand.Intn(len(r.strs))], true
}

func (r *R) close() { r.w.Flush() }

// pick n for the tier
func (r *R) num(quick, thorough int) int {
	if r.tier == "thorough" {
		return thorough
	}
	return quick
}

func (r *R) bytes(n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	if v, ok := r.near(); ok && n > 0 {
		l := 1 << uint(r.Rand.Intn(4))
		at := []int{0, n - l, r.Rand.Intn(n)}[r.Rand.Intn(3)]
		for i := 0; i < l; i++ {
			if j := at + l - 1 - i; j >= 0 && j < n {
				b[j] = byte(v >> uint(8*i))
			}
		}
	}
	if s, ok := r.gained(); ok && len(s) <= n {
		copy(b[r.Rand.Intn(n-len(s)+1):], s)
	}
	return b
}

// I is an integer field, B a byte string field (value*2^16+length).
type I = *big.Int

func in(x int64) I  { return big.NewInt(x) }
func iu(x uint64) I { return new(big.Int).SetUint64(x) }
func bl(x bool) I {
	if x {
		return in(1)
	}
	return in(0)
}
func B(b []byte) I {
	if len(b) > 60100 {
		panic("byte string too long for a record")
	}
	v := new(big.Int).SetBytes(b)
	v.Lsh(v, 16)
	return v.Or(v, in(int64(len(b))))
}
func S(s string) I { return B([]byte(s)) }

// lend gives a copy of b with room behind it: memory that belongs to the caller and that no call may write to.
// The next record is followed by one that tells what became of it (op 1000: before, after).
func (r *R) lend(b []byte) []byte {
	full := make([]byte, len(b)+40)
	r.Rand.Read(full[len(b):])
	copy(full, b)
	r.lent = append(r.lent, loan{full, append([]byte{}, full...)})
	return full[:len(b)]
}

// scribble overwrites a lent slice, as its owner may
func (r *R) scribble(b []byte) {
	for i := range r.lent {
		l := &r.lent[i]
		if len(b) > 0 && &l.full[0] == &b[0] {
			for j := range b {
				b[j] ^= 0x5a
				l.keep[j] ^= 0x5a
			}
		}
	}
}

func (r *R) settle(desc string) {
	lent := r.lent
	r.lent = nil
	for _, l := range lent {
		r.nlent++
		if !bytes.Equal(l.full, l.keep) || r.nlent%64 == 0 {
			r.emit("memory of the caller during "+desc, 1000, B(l.keep), B(l.full))
		}
	}
}

// emit one record: op code, fields, and a description for humans
func (r *R) emit(desc string, op int, fields ...I) {
	if r.targets != nil && r.unwanted() {
		r.n++
		r.lent = nil
		return
	}
	type rec struct {
		F []string `json:"f"`
		D string   `json:"d"`
	}
	x := rec{D: desc}
	x.F = append(x.F, fmt.Sprint(op))
	for _, f := range fields {
		if f.Sign() < 0 {
			x.F = append(x.F, "-0x"+new(big.Int).Neg(f).Text(16))
		} else {
			x.F = append(x.F, "0x"+f.Text(16))
		}
	}
	b, _ := json.Marshal(x)
	r.w.Write(b)
	r.w.WriteByte('\n')
	r.n++
	if len(r.lent) > 0 {
		r.settle(desc)
	}
}

// try runs f, which reports its own error, and classifies the outcome.
func (r *R) try(f func() error) int {
	if r.hung {
		return sHang
	}
	st := guard(f)
	if st == sHang {
		r.hung = true
	}
	return st
}

func guard(f func() error) int {
	done := make(chan int, 1)
	go func() {
		st := sPanic
		defer func() {
			if x := recover(); x != nil {
				st = sPanic
			}
			done <- st
		}()
		if f() != nil {
			st = sErr
		} else {
			st = sOK
		}
	}()
	t := time.NewTimer(40 * time.Second)
	defer t.Stop()
	select {
	case st := <-done:
		return st
	case <-t.C:
		return sHang
	}
}

func hx(b []byte) string { return hex.EncodeToString(b) }

// byte strings which have nearly everything in common with b, b itself in between
func (r *R) kindred(b []byte) (l [][]byte) {
	dup := func() []byte { return append([]byte{}, b...) }
	l = append(l, dup())
	if n := len(b); n > 0 {
		for _, i := range []int{0, n - 1, r.Rand.Intn(n), n - 1 - r.Rand.Intn((n+3)/4)} {
			c := dup()
			c[i] ^= 1 << uint(r.Rand.Intn(8))
			l = append(l, c, dup())
		}
		l = append(l, dup()[:n-1], dup(), dup()[1:], dup())
	}
	return append(l, append(dup(), 0), dup(), append(dup(), byte(1+r.Rand.Intn(255))), append([]byte{0}, b...), dup())
}

// the same for texts, with characters out of set put in, changed and left out
func (r *R) kindredText(s, set string) (l []string) {
	ch := func() string { return string(set[r.Rand.Intn(len(set))]) }
	l = append(l, s)
	n := len(s)
	for _, i := range []int{0, n, r.Rand.Intn(n + 1), n - r.Rand.Intn(n/4+1)} {
		l = append(l, s[:i]+ch()+s[i:], s)
		if i < n {
			l = append(l, s[:i]+s[i+1:], s, s[:i]+ch()+s[i+1:], s)
		}
	}
	if n > 0 {
		l = append(l, s[:n-1], s)
	}
	return l
}
