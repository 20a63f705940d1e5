package main

import (
	"bytes"
	"math"
	"reflect"
	"strings"

	"github.com/funny-falcon/go-iproto/marshal"
	"verif/seq/enum"
)

// fixed is the fixed-width layout of a number.
func fixed(b []byte, v reflect.Value) []byte {
	var u uint64
	n := int(v.Type().Size())
	switch v.Kind() {
	case reflect.Float32:
		u = uint64(math.Float32bits(float32(v.Float())))
	case reflect.Float64:
		u = math.Float64bits(v.Float())
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		u = uint64(v.Int())
	default:
		u = v.Uint()
	}
	for i := 0; i < n; i++ {
		b = append(b, byte(u>>(8*i)))
	}
	return b
}

// fill gives a number the i-th of some values.
func fill(v reflect.Value, i int) {
	u := []uint64{0, 1, 0x7f, 0x80, 0x8182838485868788, math.MaxUint64, 0x0102030405060708}[i%7]
	switch v.Kind() {
	case reflect.Float32, reflect.Float64:
		v.SetFloat([]float64{0, 1, -1.5, math.Inf(1), math.MaxFloat32, 0.1, -0.0}[i%7])
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(u) << (64 - v.Type().Bits()) >> (64 - v.Type().Bits()))
	default:
		v.SetUint(u << (64 - v.Type().Bits()) >> (64 - v.Type().Bits()))
	}
}

func methodOf(x interface{}, name string) func(v reflect.Value) {
	m := reflect.ValueOf(x).MethodByName(name)
	return func(v reflect.Value) { m.Call([]reflect.Value{reflect.ValueOf(v)}) }
}

func vals(add func(enum.Scenario)) {
	add(enum.Scenario{
		Name:  "C18.values",
		Doc:   "the methods of Writer and Reader that take a reflect.Value, used directly by types that encode themselves",
		Quick: "Val, slVal and slValTail of the 10 number types and named ones, x 7 values x 0..4 elements x slices, arrays, addressable or not, prepared with 0..5 elements; VarVal, VarslVal, StringVal, Uint64varVal; IntUint8..IntUint64 and Intvar of numbers around every power of 2",
		Run: func(c *enum.C) {
			ts := append(scalars[:10:10], typ(nU8(0)), typ(nI64(0)))
			pre, suf := []byte{0xaa, 0xbb}, []byte{0xcc, 0xdd, 0xee}
			var w marshal.Writer
			w.Bytes(pre)
			kind := c.Pick(6)
			if kind == 5 {
				u := boundary(c)
				n := int(u)
				if n < 0 {
					c.Skip()
				}
				width := c.Pick(5)
				f := []func(int){w.IntUint8, w.IntUint16, w.IntUint32, w.IntUint64, w.Intvar}[width]
				c.Op(1)
				if width < 3 && u>>(8<<width) != 0 {
					c.Check(refused(func() { f(n) }), "%#x was written in %d bytes", n, 1<<width)
					return
				}
				f(n)
				want := append([]byte(nil), pre...)
				if width == 4 {
					want = varint(want, u)
				} else {
					for i := 0; i < 1<<width; i++ {
						want = append(want, byte(u>>(8*i)))
					}
				}
				b := w.Written()
				c.Check(bytes.Equal(b, want), "%#x is written as [% x], want [% x]", n, b, want)
				return
			}
			t := ts[c.Pick(len(ts))]
			name := strings.Title(t.Kind().String())
			vi := c.Pick(7)
			if kind == 0 {
				v := reflect.New(t).Elem()
				fill(v, vi)
				want := fixed(append([]byte(nil), pre...), v)
				methodOf(&w, name+"Val")(reflect.ValueOf(v.Interface()))
				methodOf(&w, name+"Val")(v)
				want = fixed(want, v)
				b := w.Written()
				c.Check(bytes.Equal(b, want), "%sVal writes [% x], want [% x]", name, b, want)
				r := marshal.Reader{Body: append(b[2:len(b):len(b)], suf...)}
				for i := 0; i < 2; i++ {
					g := reflect.New(t).Elem()
					fill(g, vi+1)
					methodOf(&r, name+"Val")(g)
					c.Op(2)
					c.Check(r.Err == nil && same(g, v), "%sVal reads %v, want %v (error %v)", name, g, v, r.Err)
				}
				c.Check(bytes.Equal(r.Body, suf), "%sVal leaves [% x], want [% x]", name, r.Body, suf)
				return
			}
			n := c.Pick(5)
			sl := reflect.MakeSlice(reflect.SliceOf(t), n, n+1)
			for i := 0; i < n; i++ {
				fill(sl.Index(i), vi+i)
			}
			if kind == 4 {
				// variable-length numbers and strings
				if t.Kind() < reflect.Uint8 || t.Kind() > reflect.Uint64 {
					c.Skip()
				}
				want := append([]byte(nil), pre...)
				for i := 0; i < n; i++ {
					want = varint(want, sl.Index(i).Uint())
				}
				w.VarslVal(sl)
				for i := 0; i < n; i++ {
					w.VarVal(sl.Index(i))
					want = varint(want, sl.Index(i).Uint())
				}
				s := strings.Repeat("s", n)
				w.StringVal(reflect.ValueOf(s))
				want = append(want, s...)
				b := w.Written()
				c.Check(bytes.Equal(b, want), "variable-length numbers and a string are written as [% x], want [% x]", b, want)
				r := marshal.Reader{Body: append([]byte(nil), b[2:]...)}
				for i := 0; i < 2*n; i++ {
					g := reflect.New(t).Elem()
					r.Uint64varVal(g)
					c.Op(2)
					c.Check(r.Err == nil && same(g, sl.Index(i%n)), "Uint64varVal reads %v, want %v (error %v)", g, sl.Index(i%n), r.Err)
				}
				c.Check(r.String(n) == s && len(r.Body) == 0 && r.Err == nil, "after variable-length numbers %d bytes are left, error %v", len(r.Body), r.Err)
				return
			}
			want := append([]byte(nil), pre...)
			for i := 0; i < n; i++ {
				want = fixed(want, sl.Index(i))
			}
			arr := reflect.New(reflect.ArrayOf(n, t)).Elem()
			reflect.Copy(arr, sl)
			src := []reflect.Value{sl, arr, reflect.ValueOf(arr.Interface())}[c.Pick(3)]
			methodOf(&w, name+"slVal")(src)
			b := w.Written()
			c.Op(1)
			c.Check(bytes.Equal(b, want), "%sslVal of %v writes [% x], want [% x]", name, src.Type(), b, want)
			r := marshal.Reader{Body: append(b[2:len(b):len(b)], suf...)}
			switch kind {
			case 1: // a slice or an array of the same length
				g := reflect.New(arr.Type()).Elem()
				if src.Kind() == reflect.Slice {
					g = reflect.MakeSlice(sl.Type(), n, n)
				}
				methodOf(&r, name+"slVal")(g)
				c.Op(1)
				c.Check(r.Err == nil && bytes.Equal(r.Body, suf), "%sslVal of %v leaves [% x], want [% x], error %v", name, g.Type(), r.Body, suf, r.Err)
				for i := 0; i < n; i++ {
					c.Check(same(g.Index(i), sl.Index(i)), "%sslVal of %v reads %v, want %v", name, g.Type(), g, sl)
				}
			case 2: // the rest, into a slice variable used before
				if src.Kind() != reflect.Slice {
					c.Skip()
				}
				r.Body = r.Body[:len(r.Body)-len(suf)]
				g := reflect.New(sl.Type()).Elem()
				if k := c.Pick(3); k > 0 {
					g.Set(reflect.MakeSlice(sl.Type(), 5*(k-1), 5))
				}
				methodOf(&r, name+"slValTail")(g)
				c.Op(1)
				c.Check(r.Err == nil && len(r.Body) == 0 && g.Len() == n, "%sslValTail of %d numbers reads %d, %d bytes left, error %v", name, n, g.Len(), len(r.Body), r.Err)
				for i := 0; i < n; i++ {
					c.Check(same(g.Index(i), sl.Index(i)), "%sslValTail reads %v, want %v", name, g, sl)
				}
			case 3: // the rest, into a slice passed by value
				if src.Kind() != reflect.Slice {
					c.Skip()
				}
				m := c.Pick(6)
				r.Body = r.Body[:len(r.Body)-len(suf)]
				g := reflect.MakeSlice(sl.Type(), m, m)
				methodOf(&r, name+"slValTail")(reflect.ValueOf(g.Interface()))
				c.Op(1)
				if m > n {
					c.Check(r.Err != nil, "%sslValTail fills %d places from %d numbers without an error", name, m, n)
					return
				}
				sz := int(t.Size())
				c.Check(r.Err == nil && len(r.Body) == (n-m)*sz, "%sslValTail into %d places from %d numbers leaves %d bytes, error %v", name, m, n, len(r.Body), r.Err)
				for i := 0; i < m; i++ {
					c.Check(same(g.Index(i), sl.Index(i)), "%sslValTail reads %v, want %v", name, g, sl)
				}
			}
		},
	})
}
