package main

import (
	"crypto/sha256"
	"fmt"

	"github.com/ndau/ndaumath/pkg/b32"
)

func init() { recorders["C34"] = recC34 }

func recSum(r *R, b []byte) {
	x, y := r.lend(b), r.lend(b)
	var c, d []byte
	st := r.try(func() error { c = b32.Checksum16(x); return nil })
	h := sha256.Sum256(b)
	st2 := r.try(func() error { d = b32.Checksum24(y); return nil })
	r.emit("Checksum16 and Checksum24 of "+hx(b), 1, B(b), in(int64(st)), B(c), B(x), B(h[:]), in(int64(st2)), B(d), B(y))
}

func recCheckSum(r *R, b, c []byte) {
	x, y := r.lend(b), r.lend(c)
	var ok bool
	st := r.try(func() error { ok = b32.Check(x, y); return nil })
	r.emit(fmt.Sprintf("Check(%s, %s)", hx(b), hx(c)), 2, B(b), B(c), in(int64(st)), bl(ok), B(x), B(y))
}

func recDamage(r *R, b []byte, bits []int) {
	x := cp(b)
	for _, i := range bits {
		x[i/8] ^= 128 >> uint(i%8)
	}
	var ok bool
	st := r.try(func() error { ok = b32.Check(r.lend(x), b32.Checksum16(r.lend(b))); return nil })
	r.emit(fmt.Sprintf("%s with the bits %v damaged, against the checksum of the undamaged data", hx(b), bits), 3,
		B(b), B(x), in(int64(len(bits))), in(int64(st)), bl(ok))
}

func recC34(r *R) {
	// the checksum of data which ends in its checksum is constant, so equal tails are no accident
	for n := 0; n <= 130; n++ {
		b := r.bytes(n)
		recSum(r, b)
		c := b32.Checksum16(b)
		recCheckSum(r, b, c)
		if len(c) != 2 {
			continue
		}
		recCheckSum(r, b, []byte{c[1], c[0]})
		recCheckSum(r, b, []byte{c[0] ^ 1<<uint(r.Intn(8)), c[1]})
		recCheckSum(r, b, []byte{c[0], c[1] ^ 1<<uint(r.Intn(8))})
		recCheckSum(r, b, r.bytes(2))
	}
	for _, n := range []int{255, 256, 257, 511, 512, 513, 1000, 1 + r.Intn(2000)} {
		recSum(r, r.bytes(n))
		recSum(r, make([]byte, n))
	}
	for _, n := range append(r.lens(20000), 1024, 2047, 2048, 2049, 4095, 4096, 4097, 2001+r.Intn(6000), 10000+r.Intn(r.num(1000, 40000))) {
		if n == 0 {
			continue
		}
		b := r.bytes(n)
		recSum(r, b)
		c := b32.Checksum16(b)
		recCheckSum(r, b, c)
		if len(c) == 2 {
			recCheckSum(r, b, []byte{c[0], c[1] ^ 1<<uint(r.Intn(8))})
		}
		for j := 0; j < 3; j++ {
			one := r.Intn(8 * n)
			recDamage(r, b, []int{one})
			if two := r.Intn(8 * n); two != one && two-one < 32767 && one-two < 32767 {
				recDamage(r, b, []int{one, two})
			}
		}
	}
	for i := 0; i < 256; i++ {
		recSum(r, []byte{byte(i)})
		recSum(r, []byte{byte(i), byte(r.Intn(256)), 0})
	}
	for i := 0; i < r.num(300, 3000); i++ {
		b := r.bytes(1 + r.Intn(60))
		n := 8 * len(b)
		one := r.Intn(n)
		switch i % 4 {
		case 0:
			recDamage(r, b, []int{one})
		case 1: // within 16 bits
			bits := []int{one}
			for k := one + 1; k < n && k < one+16; k++ {
				if r.Intn(2) == 0 {
					bits = append(bits, k)
				}
			}
			recDamage(r, b, bits)
		case 2:
			if two := r.Intn(n); two != one {
				recDamage(r, b, []int{one, two})
			}
		default: // an odd number
			p := r.Perm(n)
			if k := 3 + 2*r.Intn(4); k < n {
				recDamage(r, b, p[:k])
			}
		}
	}
}
