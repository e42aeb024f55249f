package main

import (
	"encoding"
	"encoding/json"
	"fmt"
	"strings"
)

// ---- values inside JSON documents and formatted output (C38) ----------------------
// shared by both drivers

const jsonShapes = 10

// what to try with a type: text gives the text of a value
type jsonKind struct {
	kind  int
	names string
	doc   func(shape int) (doc string, stM int, back func() (int, string, string))
	other func(doc string) (int, string)
	fresh func(doc string) (int, string)
	print func() (int, []string)
}

func kindOf[T any](r *R, a, b *T, text func(*T) string, key func(shape int) (interface{}, func(string) (string, string, error))) jsonKind {
	// the text in a document by itself (a copy of the value itself would share memory with it)
	item := func(t string) []byte {
		if _, ok := interface{}(a).(encoding.TextUnmarshaler); ok {
			t = "\"" + t + "\""
		}
		return []byte(t)
	}
	field := func(v interface{}) (string, int) {
		var d []byte
		st := r.try(func() (err error) { d, err = json.Marshal(v); return })
		return string(d), st
	}
	var k jsonKind
	k.doc = func(shape int) (string, int, func() (int, string, string)) {
		var v interface{}
		var read func(d []byte) (string, string, error)
		two := func(x, y *T, err error) (string, string, error) {
			if err != nil {
				return "", "", err
			}
			return text(x), text(y), nil
		}
		switch shape {
		case 0, 1:
			if v = *a; shape == 1 {
				v = a
			}
			read = func(d []byte) (string, string, error) {
				x := new(T)
				if shape == 1 { // a used one
					json.Unmarshal(item(text(b)), x)
				}
				err := json.Unmarshal(d, x)
				return two(x, x, err)
			}
		case 2:
			v = struct{ V T }{*a}
			read = func(d []byte) (string, string, error) {
				var x struct{ V T }
				err := json.Unmarshal(d, &x)
				return two(&x.V, &x.V, err)
			}
		case 3:
			v = struct{ V *T }{a}
			read = func(d []byte) (string, string, error) {
				var x struct{ V *T }
				if err := json.Unmarshal(d, &x); err != nil || x.V == nil {
					return "", "", err
				}
				return two(x.V, x.V, nil)
			}
		case 7:
			v = map[string]T{"b": *b, "a": *a}
			read = func(d []byte) (string, string, error) {
				var m map[string]T
				err := json.Unmarshal(d, &m)
				x, y := m["a"], m["b"]
				return two(&x, &y, err)
			}
		case 9:
			if key == nil {
				return "", -1, nil
			}
			v, read = func() (interface{}, func(d []byte) (string, string, error)) {
				v, f := key(0)
				return v, func(d []byte) (string, string, error) { return f(string(d)) }
			}()
		default:
			switch shape {
			case 4:
				v = []T{*a, *b}
			case 5:
				v = []*T{a, b}
			case 6:
				v = [2]T{*a, *b}
			case 8:
				v = []interface{}{*a, *b}
			}
			read = func(d []byte) (string, string, error) {
				var l []T
				if err := json.Unmarshal(d, &l); err != nil || len(l) != 2 {
					return "", "", err
				}
				return two(&l[0], &l[1], nil)
			}
		}
		d, st := field(v)
		return d, st, func() (st int, x, y string) {
			st = r.try(func() (err error) { x, y, err = read([]byte(d)); return })
			return
		}
	}
	k.other = func(doc string) (int, string) {
		x := new(T)
		json.Unmarshal(item(text(a)), x)
		st := r.try(func() error { return json.Unmarshal([]byte(doc), x) })
		return st, text(x)
	}
	k.fresh = func(doc string) (int, string) {
		x := new(T)
		st := r.try(func() error { return json.Unmarshal([]byte(doc), x) })
		return st, text(x)
	}
	k.print = func() (int, []string) {
		var o []string
		var n T
		if _, ok := interface{}(&n).(fmt.Stringer); !ok {
			return -1, nil
		}
		st := r.try(func() error {
			for _, x := range []interface{}{*a, a, []T{*a, *b}, struct{ V T }{*a}} {
				o = append(o, fmt.Sprint(x))
			}
			o = append([]string{interface{}(a).(fmt.Stringer).String(), interface{}(b).(fmt.Stringer).String()}, o...)
			return nil
		})
		return st, o
	}
	return k
}

// types that can be keys of a map
func keyOf[T comparable](a, b *T, text func(*T) string) func(int) (interface{}, func(string) (string, string, error)) {
	return func(int) (interface{}, func(string) (string, string, error)) {
		return map[T]int{*a: 1, *b: 2}, func(d string) (x, y string, err error) {
			var m map[T]int
			if err = json.Unmarshal([]byte(d), &m); err != nil {
				return
			}
			for k, n := range m {
				k := k
				if n == 1 {
					x = text(&k)
				} else {
					y = text(&k)
				}
			}
			return
		}
	}
}

func textual[T any](v *T) string {
	m, ok := interface{}(v).(encoding.TextMarshaler)
	if !ok {
		return "no text marshaler"
	}
	var b []byte
	var err error
	func() {
		defer func() { recover() }()
		err = fmt.Errorf("panic")
		b, err = m.MarshalText()
	}()
	if err != nil {
		return fmt.Sprint("no text ", err)
	}
	return string(b)
}

var notStrings = []string{"null", "5", "-1", "true", "{}", "[]", "0.5", "{\"key\":\"x\"}", "[1,2]", "false", "1e3"}
var numerals = []string{"null", "0", "-1", "1.5", "1e3", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "true", "{}",
	"[]", "\"x\"", "123456789012345678", "\"\"", "1e400", "9007199254740993"}

func recJSON(r *R, name string, kind int, k jsonKind, t1, t2 string) {
	k.kind = kind
	for shape := 0; shape < jsonShapes; shape++ {
		d, st, back := k.doc(shape)
		if st < 0 {
			continue
		}
		st2, x, y := sErr, "", ""
		if st == sOK {
			st2, x, y = back()
		}
		r.emit(fmt.Sprintf("JSON of %s %q, %q in shape %d: %s", name, t1, t2, shape, d), 1, in(int64(kind)), in(int64(shape)), S(t1), S(t2),
			in(int64(st)), S(d), in(int64(st2)), S(x), S(y))
	}
	docs := notStrings
	if kind >= 8 {
		docs = numerals
		if r.Intn(2) == 0 {
			docs = append([]string{fmt.Sprint(int64(r.Uint64()))}, docs...)
		}
	}
	for i := 0; i < 4; i++ {
		d := docs[r.Intn(len(docs))]
		st, after := k.other(d)
		r.emit(fmt.Sprintf("%s read from JSON %s", name, d), 2, in(int64(kind)), S(d), in(int64(st)), S(t1), S(after))
	}
	if kind < 8 { // the same with escapes
		var sb strings.Builder
		for _, c := range []byte(t1) {
			switch {
			case c == '/' && r.Intn(2) == 0:
				sb.WriteString("\\/")
			case r.Intn(6) == 0:
				fmt.Fprintf(&sb, []string{"\\u%04x", "\\u%04X"}[r.Intn(2)], c)
			default:
				sb.WriteByte(c)
			}
		}
		d := "\"" + sb.String() + "\""
		st, after := k.other(d)
		r.emit(fmt.Sprintf("%s read from JSON %s", name, d), 3, in(int64(kind)), S(d), in(int64(st)), S(after))
	}
	// what a document gives does not depend on what the variable held before
	other := []string{"\"\"", "\" \"", t2, "\"0\"", "\"" + t1 + " \""}
	if kind < 8 {
		other[2] = "\"" + t2 + "\""
		if n := len(t1); n > 0 {
			other = append(other, "\""+t1[:n-1]+"\"", "\""+t1[:r.Intn(n)]+"\"", "\""+t1[r.Intn(n):]+"\"")
		}
	}
	for _, d := range other {
		st1, x := k.fresh(d)
		st2, y := k.other(d)
		if st1 != sOK {
			x = ""
		}
		if st2 != sOK {
			y = ""
		}
		r.emit(fmt.Sprintf("JSON %s read into a new variable and one that held %s %q: status %d %q, %d %q", d, name, t1, st1, x, st2, y),
			5, in(int64(kind)), S(d), in(int64(st1)), S(x), in(int64(st2)), S(y))
	}
	if st, o := k.print(); st >= 0 {
		f := []I{in(int64(kind)), in(int64(st))}
		for len(o) < 6 {
			o = append(o, "")
		}
		for _, s := range o {
			f = append(f, S(s))
		}
		r.emit(fmt.Sprintf("printed %s: %q", name, o), 4, f...)
	}
}
