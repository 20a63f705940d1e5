// Harness marshal: the layout of values (C18) and malformed input (C19).
package main

import (
	"bytes"
	"fmt"
	"os"
	"reflect"
	"runtime/pprof"

	"github.com/funny-falcon/go-iproto/marshal"
	"verif/seq/enum"
)

// show and hex are formatted only when they are printed.
type show reflect.Value

func (s show) String() string {
	v := reflect.Value(s)
	for v.Kind() == reflect.Ptr && !v.IsNil() {
		v = v.Elem()
	}
	t := fmt.Sprintf("%+v", v.Interface())
	if len(t) > 200 {
		t = t[:200]
	}
	return t
}

type hex []byte

func (b hex) String() string {
	if len(b) > 64 {
		return fmt.Sprintf("% x... (%d bytes)", []byte(b[:64]), len(b))
	}
	return fmt.Sprintf("% x", []byte(b))
}

var trailer = []byte{0xd1, 0xd2, 0xd3}

// roundtrip compares the library with the specification on one value.
func roundtrip(c *enum.C, v reflect.Value) {
	t := v.Type()
	a, tail, ok := encode(v)
	if !ok {
		c.Skip()
	}
	c.Note("type %v", t)
	c.Note("value %s", show(v))
	c.Note("specified: % x", a)
	p := v.Addr()
	eq := func(how string, got, want []byte) {
		c.Op(1)
		c.Check(bytes.Equal(got, want), "%s of %v %s gives [%s], want [%s]", how, t, show(v), hex(got), hex(want))
	}
	var kept [][]byte
	by := marshal.Write(v.Interface())
	eq("Write", by, a)
	kept = append(kept, by)
	by = marshal.Write(p.Interface())
	eq("Write of a pointer", by, a)
	kept = append(kept, by)
	var w marshal.Writer
	w.Uint8(7)
	w.WriteValue(v)
	eq("WriteValue", w.Written(), append([]byte{7}, a...))
	by = marshal.WriteTail(v.Interface())
	eq("WriteTail", by, tail)
	for _, b := range kept {
		_ = append(b, 0xee, 0xee)
	}
	for _, b := range kept {
		eq("keeping the result", b, a)
	}
	got := func(how string, f reflect.Value, err error) {
		c.Op(1)
		c.Check(err == nil, "%s of [%s] into %v: %v", how, hex(a), t, err)
		c.Check(same(f.Elem(), v), "%s of [%s] into %v gives %s, want %s", how, hex(a), t, show(f.Elem()), show(v))
		if appendAll(f.Elem()) > 0 {
			c.Check(same(f.Elem(), v), "%s of [%s] into %v gives byte strings that overwrite each other when they are appended to", how, hex(a), t)
		}
	}
	if readable(t, false, map[reflect.Type]bool{}) {
		f := reflect.New(t)
		if n, why := decode(a, f.Elem(), false); why != "" || n != len(a) || !same(f.Elem(), v) {
			c.Fail("specification is wrong: %v %s is encoded as [%s] and read as %s (%s)", t, show(v), hex(a), show(f.Elem()), why)
		}
		f = reflect.New(t)
		r := marshal.Reader{Body: append(append([]byte(nil), a...), trailer...)}
		err := r.Read(f.Interface())
		got("Read", f, err)
		c.Check(bytes.Equal(r.Body, trailer), "Read of [%s] into %v leaves [%s], want [%s]", hex(a), t, hex(r.Body), hex(trailer))
		// an earlier reading that failed has no effect
		var x uint16
		c.Check(marshal.Read([]byte{1}, &x) != nil, "Read of one byte into a uint16 gives no error")
		f = reflect.New(t)
		got("Read of exactly", f, marshal.Read(a, f.Interface()))
		if l := cache[t]; len(l) > 1 {
			// into a target used before
			for _, u := range []reflect.Value{l[0], l[len(l)-1]} {
				if b, _, ok := encode(u); ok {
					f = reflect.New(t)
					marshal.Read(b, f.Interface())
					got("Read into a used target", f, marshal.Read(a, f.Interface()))
				}
			}
		}
		f = reflect.New(t)
		r = marshal.Reader{Body: append([]byte(nil), a...)}
		err = r.ReadValueAuto(f.Elem())
		got("ReadValueAuto", f, err)
		c.Check(r.Done() && r.Error() == nil, "ReadValueAuto of [%s] into %v does not use all", hex(a), t)
	}
	if t.Kind() == reflect.Ptr && len(tail) == 0 && !v.IsNil() {
		return // would be read back as nil
	}
	if readable(t, true, map[reflect.Type]bool{}) && !uncounted(v, false) {
		f := reflect.New(t)
		if n, why := decode(tail, f.Elem(), true); why != "" || n != len(tail) || !same(f.Elem(), v) {
			c.Fail("specification is wrong: %v %s is encoded as [%s] and read as %s (%s)", t, show(v), hex(tail), show(f.Elem()), why)
		}
		f = reflect.New(t)
		a = tail
		var x uint16
		c.Check(marshal.ReadTail([]byte{1, 2, 3}, &x) != nil, "ReadTail of 3 bytes into a uint16 gives no error")
		got("ReadTail", f, marshal.ReadTail(tail, f.Interface()))
		if l := cache[t]; len(l) > 1 {
			for _, u := range []reflect.Value{l[0], l[len(l)-1]} {
				if _, b, ok := encode(u); ok {
					f = reflect.New(t)
					marshal.ReadTail(b, f.Interface())
					got("ReadTail into a used target", f, marshal.ReadTail(tail, f.Interface()))
				}
			}
		}
	}
}

// appendAll appends to every byte string in v, without keeping the result.
func appendAll(v reflect.Value) (n int) {
	switch v.Kind() {
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := v.Bytes()
			_ = append(b, 0xee, 0xee, 0xee, 0xee, 0xee)
			return 1
		}
		fallthrough
	case reflect.Array:
		switch v.Type().Elem().Kind() {
		case reflect.Slice, reflect.Array, reflect.Struct, reflect.Ptr, reflect.Interface:
			for i := 0; i < v.Len(); i++ {
				n += appendAll(v.Index(i))
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			n += appendAll(v.Field(i))
		}
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			n += appendAll(v.Elem())
		}
	}
	return
}

// input compares the library with the specification on one byte string.
func input(c *enum.C, t reflect.Type, b []byte, tail bool) {
	c.Note("type %v, input % x, rest-of-body %v", t, b, tail)
	want, got := reflect.New(t), reflect.New(t)
	n, why := decode(b, want.Elem(), tail)
	in := append([]byte(nil), b...)
	r := marshal.Reader{Body: in}
	var err error
	if tail {
		err = r.ReadTail(got.Interface())
	} else {
		err = r.Read(got.Interface())
	}
	c.Op(1)
	how := "Read"
	if tail {
		how = "ReadTail"
	}
	if why == "" {
		c.Check(err == nil, "%s of [%s] into %v: error %v, want %s", how, hex(b), t, err, show(want.Elem()))
		c.Check(same(got.Elem(), want.Elem()), "%s of [%s] into %v gives %s, want %s", how, hex(b), t, show(got.Elem()), show(want.Elem()))
		c.Check(len(r.Body) == len(b)-n, "%s of [%s] into %v leaves %d bytes, want %d", how, hex(b), t, len(r.Body), len(b)-n)
		return
	}
	c.Check(err != nil, "%s of [%s] into %v gives %s without an error (%s)", how, hex(b), t, show(got.Elem()), why)
	c.Check(r.Err != nil, "%s of [%s] into %v returns %v but the reader goes on", how, hex(b), t, err)
	left := len(r.Body)
	var x uint8
	var s []byte
	c.Check(r.Read(&x) != nil && r.Read(&s) != nil && r.Uint8() == 0 && len(r.Body) == left && r.Err != nil, "after an error (%v) the reader goes on", err)
	c.Check(bytes.Equal(in, b), "the input was changed")
}

// mutate picks a variation of b: cut off, one byte changed, one inserted, one
// removed.
func mutate(c *enum.C, b []byte, few bool) []byte {
	k := c.Pick(4)
	if len(b) > 40 {
		b = b[:40:40]
	}
	switch k {
	case 0:
		return b[:c.Pick(len(b)+1)]
	case 1:
		i := c.Pick(len(b))
		m := append([]byte(nil), b...)
		j := 0
		if few {
			j = []int{0, 2, 7}[c.Pick(3)]
		} else {
			j = c.Pick(8)
		}
		switch j {
		case 0:
			m[i]++
		case 1:
			m[i]--
		case 2:
			m[i] ^= 0x80
		default:
			x := []byte{0, 1, 0x7f, 0x80, 0xff}[j-3]
			if x == m[i] {
				c.Skip()
			}
			m[i] = x
		}
		return m
	case 2:
		i := c.Pick(len(b) + 1)
		x := byte(0x81)
		if !few {
			x = []byte{0, 0x81, 0xff}[c.Pick(3)]
		}
		return append(append(append([]byte(nil), b[:i]...), x), b[i:]...)
	}
	i := c.Pick(len(b))
	return append(append([]byte(nil), b[:i]...), b[i+1:]...)
}

func main() {
	if p := os.Getenv("PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	var s []enum.Scenario
	add := func(x enum.Scenario) { s = append(s, x) }
	layout(add)
	targets(add)
	tooLong(add)
	vals(add)
	nest(add)
	bad(add)
	box(add)
	enum.Main(s)
}
