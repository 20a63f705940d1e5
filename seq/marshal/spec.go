package main

import (
	"encoding/binary"
	"math"
	"reflect"
	"strings"
)

// An encoder and a decoder written from the description of the layout, which
// share nothing with the library but the struct tags.

var le = binary.LittleEndian

// unfit is raised for values that have no encoding (a nil pointer where
// something must be written, a length that its width cannot hold).
type unfit struct{}

// tag is a parsed iproto tag.
type tag struct {
	size, cnt     string // ber, i8, i16, i32, i64
	rest          bool   // size(no), cnt(no)
	ber, skip     bool
	cntDone, free bool
}

func parse(f reflect.StructField) (t tag) {
	for _, m := range strings.Split(f.Tag.Get("iproto"), ",") {
		switch {
		case m == "skip":
			t.skip = true
		case m == "ber":
			t.ber = true
		case m == "size(no)", m == "cnt(no)":
			t.rest = true
		case strings.HasPrefix(m, "size("):
			t.size = m[5 : len(m)-1]
		case strings.HasPrefix(m, "cnt("):
			t.cnt = m[4 : len(m)-1]
		}
	}
	if f.PkgPath != "" {
		t.skip = true
	}
	return
}

func varint(b []byte, u uint64) []byte {
	n := 1
	for x := u >> 7; x > 0; x >>= 7 {
		n++
	}
	for n--; n > 0; n-- {
		b = append(b, byte(u>>(7*n))|0x80)
	}
	return append(b, byte(u&0x7f))
}

func number(b []byte, width string, n int) []byte {
	u := uint64(n)
	switch width {
	case "ber":
		return varint(b, u)
	case "i8":
		if u > 0xff {
			panic(unfit{})
		}
		return append(b, byte(u))
	case "i16":
		if u > 0xffff {
			panic(unfit{})
		}
		return le.AppendUint16(b, uint16(u))
	case "i32":
		return le.AppendUint32(b, uint32(u))
	}
	return le.AppendUint64(b, u)
}

func scalar(b []byte, v reflect.Value) ([]byte, bool) {
	switch v.Kind() {
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		u := uint64(v.Int())
		for i := uintptr(0); i < v.Type().Size(); i++ {
			b = append(b, byte(u>>(8*i)))
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		u := v.Uint()
		for i := uintptr(0); i < v.Type().Size(); i++ {
			b = append(b, byte(u>>(8*i)))
		}
	case reflect.Float32:
		b = le.AppendUint32(b, math.Float32bits(float32(v.Float())))
	case reflect.Float64:
		b = le.AppendUint64(b, math.Float64bits(v.Float()))
	default:
		return b, false
	}
	return b, true
}

// plain encodes v without the count of its outermost level.
func plain(b []byte, v reflect.Value, ber bool) []byte {
	if u := custom(v.Type()); u != nil {
		return u.plain(b, v)
	}
	switch v.Kind() {
	case reflect.String:
		return append(b, v.String()...)
	case reflect.Array, reflect.Slice:
		if !ber && v.Type() == typ([]byte{}) {
			return append(b, v.Bytes()...)
		}
		for i := 0; i < v.Len(); i++ {
			b = auto(b, v.Index(i), ber)
		}
		return b
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return b
		}
		return plain(b, v.Elem(), ber)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			b = field(b, v.Field(i), parse(v.Type().Field(i)))
		}
		return b
	}
	if ber {
		return varint(b, v.Uint())
	}
	b, ok := scalar(b, v)
	if !ok {
		panic("no layout for " + v.Type().String())
	}
	return b
}

// auto encodes v with the count it needs.
func auto(b []byte, v reflect.Value, ber bool) []byte {
	if u := custom(v.Type()); u != nil {
		if u.counted {
			b = le.AppendUint32(b, uint32(v.Len()))
		}
		return u.plain(b, v)
	}
	switch v.Kind() {
	case reflect.String, reflect.Slice:
		b = le.AppendUint32(b, uint32(v.Len()))
	case reflect.Ptr:
		if v.IsNil() {
			panic(unfit{})
		}
		return auto(b, v.Elem(), ber)
	case reflect.Interface:
		if v.IsNil() {
			return b
		}
		return auto(b, v.Elem(), ber)
	}
	return plain(b, v, ber)
}

func count(v reflect.Value) int {
	if u := custom(v.Type()); u != nil {
		if !u.counted {
			panic(unfit{})
		}
		return v.Len()
	}
	switch v.Kind() {
	case reflect.String, reflect.Slice, reflect.Array:
		return v.Len()
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return 0
		}
		if n := count(v.Elem()); n > 0 {
			return n
		}
		panic(unfit{}) // would be read back as nil
	}
	return 1
}

// uncounted: v is a list with elements of no bytes, which only a count can
// tell from an empty one.
func uncounted(v reflect.Value, ber bool) bool {
	for (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) && !v.IsNil() && custom(v.Type()) == nil {
		v = v.Elem()
	}
	if v.Kind() != reflect.Slice || custom(v.Type()) != nil {
		return false
	}
	for i := 0; i < v.Len(); i++ {
		if i > 8 && isUint(v.Type().Elem()) {
			break
		}
		if len(auto(nil, v.Index(i), ber)) == 0 {
			return true
		}
	}
	return false
}

func field(b []byte, v reflect.Value, t tag) []byte {
	if !t.skip && (t.size != "" || t.rest) && uncounted(v, t.ber) {
		panic(unfit{})
	}
	switch {
	case t.skip:
		return b
	case t.size != "":
		body := plain(nil, v, t.ber)
		if k := v.Kind(); (k == reflect.Ptr || k == reflect.Interface) && !v.IsNil() && len(body) == 0 {
			panic(unfit{}) // would be read back as nil
		}
		return append(number(b, t.size, len(body)), body...)
	case t.cnt != "":
		return plain(number(b, t.cnt, count(v)), v, t.ber)
	case t.rest:
		if k := v.Kind(); (k == reflect.Ptr || k == reflect.Interface) && !v.IsNil() && len(plain(nil, v, t.ber)) == 0 {
			panic(unfit{})
		}
		return plain(b, v, t.ber)
	}
	return auto(b, v, t.ber)
}

// encode returns the encoding of v in the plain and in the rest-of-body form;
// ok is false when it has none.
func encode(v reflect.Value) (a, tail []byte, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unfit); !is {
				panic(r)
			}
			ok = false
		}
	}()
	return auto(nil, v, false), plain(nil, v, false), true
}

// dec reads values; bad is set by malformed input.
type dec struct {
	b   []byte
	bad string
}

type malformed struct{ why string }

func (d *dec) fail(why string) { panic(malformed{why}) }

func (d *dec) take(n int) []byte {
	if n < 0 || n > len(d.b) {
		d.fail("not enough data")
	}
	r := d.b[:n]
	d.b = d.b[n:]
	return r
}

func (d *dec) uint(n int) (u uint64) {
	for i, x := range d.take(n) {
		u |= uint64(x) << (8 * i)
	}
	return
}

func (d *dec) varint() (u uint64) {
	for i, x := range d.b {
		if u>>57 != 0 {
			d.fail("number too big")
		}
		u = u<<7 | uint64(x&0x7f)
		if x < 0x80 {
			d.b = d.b[i+1:]
			return
		}
	}
	if u>>57 != 0 {
		d.fail("number too big")
	}
	d.fail("not enough data")
	return
}

func (d *dec) number(width string) int {
	var u uint64
	switch width {
	case "ber":
		u = d.varint()
	case "i8":
		u = d.uint(1)
	case "i16":
		u = d.uint(2)
	case "i32":
		u = d.uint(4)
	default:
		u = d.uint(8)
	}
	if u > math.MaxInt64 {
		d.fail("number too big")
	}
	return int(u)
}

func (d *dec) scalar(v reflect.Value, ber bool) {
	switch v.Kind() {
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n := v.Type().Bits()
		v.SetInt(int64(d.uint(n/8)) << (64 - n) >> (64 - n))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if ber {
			u := d.varint()
			if v.OverflowUint(u) {
				d.fail("number too big")
			}
			v.SetUint(u)
		} else {
			v.SetUint(d.uint(int(v.Type().Size())))
		}
	case reflect.Float32:
		v.SetFloat(float64(math.Float32frombits(uint32(d.uint(4)))))
	case reflect.Float64:
		v.SetFloat(math.Float64frombits(d.uint(8)))
	default:
		panic("no layout for " + v.Type().String())
	}
}

// items reads n elements.
func (d *dec) items(v reflect.Value, n int, ber bool) {
	if !ber && v.Type() == typ([]byte{}) {
		v.SetBytes(append([]byte(nil), d.take(n)...))
		return
	}
	s := reflect.MakeSlice(v.Type(), 0, 0)
	for i := 0; i < n; i++ {
		e := reflect.New(v.Type().Elem()).Elem()
		d.auto(e, ber)
		s = reflect.Append(s, e)
	}
	v.Set(s)
}

func (d *dec) auto(v reflect.Value, ber bool) {
	if u := custom(v.Type()); u != nil {
		n := -1
		if u.counted {
			n = d.number("i32")
		}
		u.read(d, v, n)
		return
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString(string(d.take(d.number("i32"))))
	case reflect.Slice:
		d.items(v, d.number("i32"), ber)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			d.auto(v.Index(i), ber)
		}
	case reflect.Ptr:
		if v.IsNil() {
			v.Set(reflect.New(v.Type().Elem()))
		}
		d.auto(v.Elem(), ber)
	case reflect.Interface:
		if !v.IsNil() {
			d.auto(v.Elem(), ber)
		}
	case reflect.Struct:
		d.fields(v, false)
	default:
		d.scalar(v, ber)
	}
}

// tail reads v from all that is left.
func (d *dec) tail(v reflect.Value, ber bool) {
	if u := custom(v.Type()); u != nil {
		if u.counted {
			if len(d.b)%2 != 0 {
				d.fail("size does not fit")
			}
			u.read(d, v, len(d.b)/2)
		} else {
			u.read(d, v, -1)
		}
		return
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString(string(d.take(len(d.b))))
	case reflect.Slice:
		if !ber && v.Type() == typ([]byte{}) {
			v.SetBytes(append([]byte(nil), d.take(len(d.b))...))
			return
		}
		s := reflect.MakeSlice(v.Type(), 0, 0)
		for len(d.b) > 0 {
			was := len(d.b)
			e := reflect.New(v.Type().Elem()).Elem()
			d.auto(e, ber)
			s = reflect.Append(s, e)
			if len(d.b) == was {
				d.fail("elements without bytes")
			}
		}
		v.Set(s)
	case reflect.Ptr:
		if len(d.b) == 0 {
			return
		}
		if v.IsNil() {
			v.Set(reflect.New(v.Type().Elem()))
		}
		d.tail(v.Elem(), ber)
	case reflect.Interface:
		if !v.IsNil() {
			d.tail(v.Elem(), ber)
		}
	case reflect.Struct:
		d.fields(v, true)
	default:
		d.auto(v, ber)
	}
}

// counted reads a value with the given count.
func (d *dec) counted(v reflect.Value, n int, ber bool) {
	if u := custom(v.Type()); u != nil && u.counted {
		u.read(d, v, n)
		return
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString(string(d.take(n)))
	case reflect.Slice:
		d.items(v, n, ber)
	case reflect.Array:
		if n != v.Len() {
			d.fail("wrong count")
		}
		d.auto(v, ber)
	case reflect.Ptr:
		if n == 0 {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		if v.IsNil() {
			v.Set(reflect.New(v.Type().Elem()))
		}
		d.counted(v.Elem(), n, ber)
	case reflect.Interface:
		if n == 0 {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		if v.IsNil() {
			d.fail("nothing to read into")
		}
		d.counted(v.Elem(), n, ber)
	default:
		if n != 1 {
			d.fail("wrong count")
		}
		d.auto(v, ber)
	}
}

func (d *dec) fields(v reflect.Value, tail bool) {
	for i := 0; i < v.NumField(); i++ {
		t := parse(v.Type().Field(i))
		f := v.Field(i)
		switch {
		case t.skip:
		case t.size != "":
			n := d.number(t.size)
			sub := dec{b: d.take(n)}
			if n == 0 && f.Kind() == reflect.Interface {
				f.Set(reflect.Zero(f.Type()))
				continue
			}
			sub.tail(f, t.ber)
			if len(sub.b) > 0 {
				d.fail("size does not fit")
			}
		case t.cnt != "":
			d.counted(f, d.number(t.cnt), t.ber)
		case t.rest:
			if !tail {
				panic("only for the rest-of-body form")
			}
			d.tail(f, t.ber)
		default:
			d.auto(f, t.ber)
		}
	}
}

// decode reads a value of v's type; it returns the number of bytes used and
// why the input is malformed.
func decode(b []byte, v reflect.Value, tail bool) (n int, why string) {
	defer func() {
		if r := recover(); r != nil {
			m, is := r.(malformed)
			if !is {
				panic(r)
			}
			why = m.why
		}
	}()
	d := dec{b: b}
	if tail {
		d.tail(v, false)
		if len(d.b) > 0 {
			return len(b) - len(d.b), "bytes left over"
		}
	} else {
		d.auto(v, false)
	}
	return len(b) - len(d.b), ""
}

// same compares values; nil and empty slices are equal, and so are NaNs.
func same(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Float32, reflect.Float64:
		x, y := a.Float(), b.Float()
		return math.Float64bits(x) == math.Float64bits(y) || x != x && y != y
	case reflect.String:
		return a.String() == b.String()
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		if a.Type() == typ([]byte{}) {
			return string(a.Bytes()) == string(b.Bytes())
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !parse(a.Type().Field(i)).skip && !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	}
	return a.Uint() == b.Uint()
}

// readable tells whether values of t can be read in the given form.
func readable(t reflect.Type, tail bool, seen map[reflect.Type]bool) bool {
	if seen[t] || custom(t) != nil {
		return true
	}
	seen[t] = true
	defer delete(seen, t)
	switch t.Kind() {
	case reflect.Ptr:
		return readable(t.Elem(), tail, seen)
	case reflect.Slice, reflect.Array:
		return readable(t.Elem(), false, seen)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			tg := parse(t.Field(i))
			if !tg.skip && (tg.rest && !tail || !readable(t.Field(i).Type, tg.size != "" || tg.rest, seen)) {
				return false
			}
		}
	}
	return true
}
