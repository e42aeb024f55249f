package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/tinylib/msgp/msgp"
)

// shapes of binary values
const (
	wInt = iota
	wRow
	wTable
	wText
	wContainer
	wByte
)

type wireObj interface {
	MarshalMsg([]byte) ([]byte, error)
	EncodeMsg(*msgp.Writer) error
	Msgsize() int
}

type wireTarget interface {
	UnmarshalMsg([]byte) ([]byte, error)
	DecodeMsg(*msgp.Reader) error
}

// a type under test: how to make one, read it, and what a used one looks like
type wireType struct {
	name   string
	shape  int
	value  func(r *R) (wireObj, []I) // a value of it and its fields
	target func(r *R) wireTarget     // something to decode into
	fields func(t wireTarget) []I    // what it holds
	sample func(r *R) []byte         // some input; nil: made from the shape
}

func recWireEncode(r *R, t *wireType) []byte {
	v, fs := t.value(r)
	pre := r.bytes([]int{0, 0, 1, 5}[r.Intn(4)])
	var out []byte
	var buf bytes.Buffer
	size := 0
	st := r.try(func() (err error) {
		size = v.Msgsize()
		out, err = v.MarshalMsg(append(make([]byte, 0, r.Intn(30)+len(pre)), pre...))
		return
	})
	st2 := r.try(func() error {
		w := msgp.NewWriter(&buf)
		if err := v.EncodeMsg(w); err != nil {
			return err
		}
		return w.Flush()
	})
	if len(out) >= len(pre) {
		enc := out[len(pre):]
		recWireFail(r, t, v, fs, enc, r.Intn(2) == 0)
		for k := 0; k < 5 && len(enc) > 18; k++ {
			recWireFail(r, t, v, fs, enc, true)
		}
	}
	r.emit(fmt.Sprintf("%s: encoding of %v", t.name, fs), 1,
		append([]I{in(int64(t.shape)), B(pre), in(int64(st)), B(out), in(int64(st2)), B(buf.Bytes()), in(int64(size))}, fs...)...)
	if len(out) < len(pre) {
		return nil
	}
	return out[len(pre):]
}

// a stream that takes so many bytes and then fails, once or for good
type fullWriter struct {
	room  int
	got   []byte
	again bool
}

func (w *fullWriter) Write(p []byte) (int, error) {
	n := min(len(p), w.room-len(w.got))
	w.got = append(w.got, p[:n]...)
	if n < len(p) {
		if w.again {
			w.room = 1 << 30
		}
		return n, errors.New("no room")
	}
	return n, nil
}

// op 4: [encoding, room, status, what got through]
func recWireFail(r *R, t *wireType, v wireObj, fs []I, enc []byte, small bool) {
	w := &fullWriter{room: max(0, len(enc)+1-r.Intn(len(enc)+2)), again: r.Intn(2) == 0}
	room := w.room
	st := r.try(func() error {
		m := msgp.NewWriter(w)
		if small {
			m = msgp.NewWriterSize(w, 18+r.Intn(4)*r.Intn(12))
		}
		if err := v.EncodeMsg(m); err != nil {
			return err
		}
		return m.Flush()
	})
	r.emit(fmt.Sprintf("%s: %v onto a stream with room for %d bytes", t.name, fs, room), 4, B(enc), in(int64(room)), in(int64(st)), B(w.got))
}

// a stream that comes in pieces and then ends or fails
type pieces struct {
	b    []byte
	size int
	err  error
}

func (s *pieces) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, s.err
	}
	n := min(len(s.b), len(p), s.size)
	copy(p, s.b[:n])
	s.b = s.b[n:]
	if len(s.b) == 0 && s.size%2 == 0 && s.err == io.EOF { // another error along with data is lost on the msgp reader
		return n, s.err
	}
	return n, nil
}

func (r *R) pieces(b []byte) *msgp.Reader {
	s := &pieces{append([]byte{}, b...), []int{1, 2, 3, 7, 100000}[r.Intn(5)], io.EOF}
	if r.Intn(3) == 0 {
		s.err = errors.New("connection lost")
	}
	if r.Intn(2) == 0 {
		return msgp.NewReaderSize(s, 18)
	}
	return msgp.NewReader(s)
}

// never ask for gigabytes on behalf of a claim in the input (see recClaims)
func hugeClaim(t *wireType, b []byte) bool {
	return t.shape == wTable && len(b) >= 2 && b[0] == 0xdd && (b[1] != 0 || len(b) < 3 || b[2] > 2)
}

func recWireDecode(r *R, t *wireType, b []byte) {
	if hugeClaim(t, b) {
		return
	}
	x, y := t.target(r), t.target(r)
	left, left2 := -1, -1
	st := r.try(func() error {
		in := r.lend(b)
		rest, err := x.UnmarshalMsg(in)
		defer r.scribble(in)
		if err == nil {
			left = len(rest)
			if !bytes.Equal(rest, b[len(b)-min(len(b), len(rest)):]) {
				left = -2
			}
		}
		return err
	})
	st2 := r.try(func() error {
		rd := r.pieces(b)
		err := y.DecodeMsg(rd)
		if err == nil {
			k := 0
			for {
				if _, e := rd.R.ReadByte(); e != nil {
					break
				}
				k++
			}
			left2 = k
			// whatever the reader does next
			rd.Reset(bytes.NewReader(r.bytes(8192)))
			rd.R.Next(4000)
		}
		return err
	})
	var fx, fy []I
	if st == sOK {
		fx = t.fields(x)
	}
	if st2 == sOK {
		fy = t.fields(y)
	}
	f := []I{in(int64(t.shape)), B(b), in(int64(st)), in(int64(left)), in(int64(st2)), in(int64(left2)), in(int64(len(fx)))}
	r.emit(fmt.Sprintf("%s: decoding of %s", t.name, hx(b)), 2, append(append(f, fx...), fy...)...)
}

// integers in any of their encodings
func (r *R) wireInt(v int64) []byte {
	be := func(c byte, n int) []byte {
		b := []byte{c}
		for i := n - 1; i >= 0; i-- {
			b = append(b, byte(uint64(v)>>(8*uint(i))))
		}
		return b
	}
	var l [][]byte
	if v >= 0 && v < 128 || v < 0 && v >= -32 {
		l = append(l, []byte{byte(v)})
	}
	for i, n := range []int{1, 2, 4, 8} {
		if n == 8 || v >= -(1<<(8*n-1)) && v < 1<<(8*n-1) {
			l = append(l, be(0xd0+byte(i), n))
		}
		if v >= 0 && (n == 8 || v < 1<<(8*n)) {
			l = append(l, be(0xcc+byte(i), n))
		}
	}
	return l[r.Intn(len(l))]
}

func (r *R) wireHead(n int) []byte {
	switch r.Intn(4) {
	case 0:
		return []byte{0xdc, byte(n >> 8), byte(n)}
	case 1:
		return []byte{0xdd, 0, 0, byte(n >> 8), byte(n)}
	}
	if n < 16 {
		return []byte{0x90 + byte(n)}
	}
	return []byte{0xdc, byte(n >> 8), byte(n)}
}

func (r *R) wireLong(d []byte, codes [3]byte) []byte {
	n := len(d)
	switch k := r.Intn(4); {
	case k == 0 || n > 65535:
		return append([]byte{codes[2], byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}, d...)
	case k == 1 || n > 255:
		return append([]byte{codes[1], byte(n >> 8), byte(n)}, d...)
	}
	return append([]byte{codes[0], byte(n)}, d...)
}

func (r *R) wireI64() int64 {
	x := int64(r.Uint64() >> uint(r.Intn(64)))
	switch r.Intn(6) {
	case 0:
		x = int64(1)<<uint(r.Intn(64)) + int64(r.Intn(3)) - 1
	case 1:
		x = -x
	case 2:
		x = int64(r.Intn(300)) - 150
	}
	return x
}

// some input of the shape, in any of the forms the format knows
func (r *R) wireSample(shape int) []byte {
	switch shape {
	case wInt:
		return r.wireInt(r.wireI64())
	case wRow:
		return append(append(r.wireHead(2), r.wireInt(r.wireI64())...), r.wireInt(r.wireI64())...)
	case wTable:
		n := r.Intn(5)
		if r.Intn(10) == 0 {
			n = 15 + r.Intn(4)
		}
		b := r.wireHead(n)
		for ; n > 0; n-- {
			b = append(b, r.wireSample(wRow)...)
		}
		return b
	case wText:
		s := r.bytes([]int{0, 1, 31, 32, 48, 255, 256}[r.Intn(7)])
		for i := range s {
			s[i] = s[i]&63 + 48
		}
		if len(s) < 32 && r.Intn(2) == 0 {
			return append(append(r.wireHead(1), 0xa0+byte(len(s))), s...)
		}
		return append(r.wireHead(1), r.wireLong(s, [3]byte{0xd9, 0xda, 0xdb})...)
	case wContainer:
		return append(append(r.wireHead(2), r.wireInt(int64(r.Intn(256)))...), r.wireLong(r.bytes([]int{0, 1, 33, 64, 100, 255, 256}[r.Intn(7)]), [3]byte{0xc4, 0xc5, 0xc6})...)
	}
	return r.wireInt(int64(r.Intn(300)) - 20)
}

func recWire(r *R, types []*wireType) {
	n := r.num(70, 1500)
	for _, t := range types {
		for i := 0; i < n; i++ {
			b := recWireEncode(r, t)
			if i%2 == 0 {
				recWireDecode(r, t, append(b, r.bytes(r.Intn(3))...))
			}
			s := r.wireSample(t.shape)
			recWireDecode(r, t, append(s, r.bytes(r.Intn(4)*r.Intn(2))...))
			if len(s) > 0 {
				recWireDecode(r, t, s[:r.Intn(len(s))])
				m := append([]byte{}, s...)
				m[r.Intn(min(len(m), 4))] = []byte{0x00, 0x7f, 0x80, 0x8f, 0x90, 0x91, 0x92, 0x93, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xc3, 0xc4, 0xc7, 0xca, 0xcb, 0xcc, 0xcf, 0xd0, 0xd3, 0xd4, 0xd9, 0xdc, 0xde, 0xdf, 0xe0, 0xff, byte(r.Intn(256))}[r.Intn(31)]
				recWireDecode(r, t, m)
			}
		}
		for c := 0; c < 256; c++ { // every first byte, alone and followed by zeros
			recWireDecode(r, t, []byte{byte(c)})
			if c%2 == 0 || r.tier == "thorough" {
				recWireDecode(r, t, append([]byte{byte(c)}, make([]byte, 9)...))
			}
		}
		recWireDecode(r, t, nil)
	}
}
