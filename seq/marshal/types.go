package main

import (
	"errors"
	"reflect"

	"github.com/funny-falcon/go-iproto/marshal"
)

// self describes a self-encoding type to the specification.
type self struct {
	plain   func(b []byte, v reflect.Value) []byte
	read    func(d *dec, v reflect.Value, n int)
	counted bool
}

var selves = map[reflect.Type]*self{}

func custom(t reflect.Type) *self { return selves[t] }

// two bytes, in the other order and disguised.
type (
	two1 struct{ A, B uint8 } // short interface, value receiver
	two2 struct{ A, B uint8 } // short interface, pointer receiver
	two3 struct{ A, B uint8 } // long interface, value receiver
	two4 struct{ A, B uint8 } // long interface, pointer receiver
)

func (t two1) IWrite(w *marshal.Writer)                    { w.Uint8(t.B); w.Uint8(t.A ^ 0x55) }
func (t *two2) IWrite(w *marshal.Writer)                   { w.Uint8(t.B); w.Uint8(t.A ^ 0x55) }
func (t two3) IWrite(_ interface{}, w *marshal.Writer)     { w.Uint8(t.B); w.Uint8(t.A ^ 0x55) }
func (t *two4) IWrite(self interface{}, w *marshal.Writer) { w.Uint8(t.B); w.Uint8(t.A ^ 0x55) }
func (t *two1) IRead(r *marshal.Reader)                    { t.B = r.Uint8(); t.A = r.Uint8() ^ 0x55 }
func (t *two2) IRead(r *marshal.Reader)                    { t.B = r.Uint8(); t.A = r.Uint8() ^ 0x55 }
func (t *two3) IRead(_ interface{}, r *marshal.Reader)     { t.B = r.Uint8(); t.A = r.Uint8() ^ 0x55 }
func (t *two4) IRead(self interface{}, r *marshal.Reader)  { t.B = r.Uint8(); t.A = r.Uint8() ^ 0x55 }
func twoPlain(b []byte, v reflect.Value) []byte {
	return append(b, uint8(v.Field(1).Uint()), uint8(v.Field(0).Uint())^0x55)
}
func twoRead(d *dec, v reflect.Value, n int) {
	v.Field(1).SetUint(d.uint(1))
	v.Field(0).SetUint(d.uint(1) ^ 0x55)
}

// one byte, disguised; not to be taken for a plain one in lists.
type (
	oct1 uint8 // short interface
	oct2 uint8 // long interface
)

func (t *oct1) IWrite(w *marshal.Writer)               { w.Uint8(uint8(*t) ^ 0xa5) }
func (t *oct1) IRead(r *marshal.Reader)                { *t = oct1(r.Uint8() ^ 0xa5) }
func (t oct2) IWrite(_ interface{}, w *marshal.Writer) { w.Uint8(uint8(t) ^ 0xa5) }
func (t *oct2) IRead(_ interface{}, r *marshal.Reader) { *t = oct2(r.Uint8() ^ 0xa5) }
func octPlain(b []byte, v reflect.Value) []byte        { return append(b, uint8(v.Uint())^0xa5) }
func octRead(d *dec, v reflect.Value, n int)           { v.SetUint(d.uint(1) ^ 0xa5) }

// a string after its length, which knows its size.
type (
	str1 struct{ S string }
	str2 struct{ S string }
	str3 struct{ S string }
	str4 struct{ S string }
)

func (t str1) IWrite(w *marshal.Writer)                    { w.Uint8(uint8(len(t.S))); w.String(t.S) }
func (t *str2) IWrite(w *marshal.Writer)                   { w.Uint8(uint8(len(t.S))); w.String(t.S) }
func (t str3) IWrite(_ interface{}, w *marshal.Writer)     { w.Uint8(uint8(len(t.S))); w.String(t.S) }
func (t *str4) IWrite(self interface{}, w *marshal.Writer) { w.Uint8(uint8(len(t.S))); w.String(t.S) }
func (t str1) ISize() int                                  { return 1 + len(t.S) }
func (t *str2) ISize() int                                 { return 1 + len(t.S) }
func (t str3) ISize(interface{}) int                       { return 1 + len(t.S) }
func (t *str4) ISize(interface{}) int                      { return 1 + len(t.S) }
func (t *str1) IRead(r *marshal.Reader)                    { t.S = r.String(r.IntUint8()) }
func (t *str2) IRead(r *marshal.Reader)                    { t.S = r.String(r.IntUint8()) }
func (t *str3) IRead(_ interface{}, r *marshal.Reader)     { t.S = r.String(r.IntUint8()) }
func (t *str4) IRead(self interface{}, r *marshal.Reader)  { t.S = r.String(r.IntUint8()) }
func strPlain(b []byte, v reflect.Value) []byte {
	s := v.Field(0).String()
	return append(append(b, uint8(len(s))), s...)
}
func strRead(d *dec, v reflect.Value, n int) { v.Field(0).SetString(string(d.take(d.number("i8")))) }

// big-endian numbers, which know their count.
type (
	num1 []uint16 // short interfaces
	num2 []uint16 // long interfaces
)

var errOdd = errors.New("odd size")

func setNums(t *[]uint16, n int) error {
	if n < 0 || n > 1<<16 {
		return errOdd
	}
	*t = make([]uint16, n)
	return nil
}
func putNums(t []uint16, w *marshal.Writer) {
	for _, x := range t {
		w.Uint8(uint8(x >> 8))
		w.Uint8(uint8(x))
	}
}
func getNums(t []uint16, r *marshal.Reader) {
	for i := range t {
		t[i] = uint16(r.Uint8()) << 8
		t[i] |= uint16(r.Uint8())
	}
}
func restNums(t *[]uint16, r *marshal.Reader) {
	if len(r.Body)%2 != 0 && r.Err == nil {
		r.Err = errOdd
		return
	}
	*t = make([]uint16, len(r.Body)/2)
	getNums(*t, r)
}
func (t *num1) IWrite(w *marshal.Writer)    { putNums(*t, w) }
func (t *num1) ISize() int                  { return 2 * len(*t) }
func (t *num1) ICount() int                 { return len(*t) }
func (t *num1) IRead(r *marshal.Reader)     { getNums(*t, r) }
func (t *num1) IReadTail(r *marshal.Reader) { restNums((*[]uint16)(t), r) }
func (t *num1) ISetCount(n int) error       { return setNums((*[]uint16)(t), n) }
func (t *num1) ISetSize(n int) (bool, error) {
	if n%2 != 0 {
		return false, errOdd
	}
	return true, setNums((*[]uint16)(t), n/2)
}
func (t *num2) IWrite(_ interface{}, w *marshal.Writer)    { putNums(*t, w) }
func (t *num2) ISize(interface{}) int                      { return 2 * len(*t) }
func (t *num2) ICount(interface{}) int                     { return len(*t) }
func (t *num2) IRead(_ interface{}, r *marshal.Reader)     { getNums(*t, r) }
func (t *num2) IReadTail(_ interface{}, r *marshal.Reader) { restNums((*[]uint16)(t), r) }
func (t *num2) ISetCount(_ interface{}, n int) error       { return setNums((*[]uint16)(t), n) }
func (t *num2) ISetSize(_ interface{}, n int) (bool, error) {
	if n%2 != 0 {
		return false, errOdd
	}
	return true, setNums((*[]uint16)(t), n/2)
}
func numPlain(b []byte, v reflect.Value) []byte {
	for i := 0; i < v.Len(); i++ {
		x := v.Index(i).Uint()
		b = append(b, byte(x>>8), byte(x))
	}
	return b
}
func numRead(d *dec, v reflect.Value, n int) {
	if n < 0 {
		panic("count needed")
	}
	v.Set(reflect.MakeSlice(v.Type(), 0, 0))
	for i := 0; i < n; i++ {
		x := d.take(2)
		v.Set(reflect.Append(v, reflect.ValueOf(uint16(x[0])<<8|uint16(x[1]))))
	}
}

type (
	nBytes []byte
	nStr   string
	nU8    uint8
	nI64   int64
	nF32s  []float32
)

func typ(x interface{}) reflect.Type { return reflect.TypeOf(x) }

var (
	ints = []reflect.Type{typ(int8(0)), typ(int16(0)), typ(int32(0)), typ(int64(0)), typ(uint8(0)), typ(uint16(0)), typ(uint32(0)), typ(uint64(0))}

	scalars = append(ints[:8:8], typ(float32(0)), typ(float64(0)))
	named   = []reflect.Type{typ(nBytes{}), typ(nStr("")), typ(nU8(0)), typ(nI64(0)), typ(nF32s{}), typ([]nU8{}), typ([]nI64{})}
	selfs   = []reflect.Type{typ(two1{}), typ(two2{}), typ(two3{}), typ(two4{}), typ(str1{}), typ(str2{}), typ(str3{}), typ(str4{}), typ(num1{}), typ(num2{}), typ(oct1(0)), typ(oct2(0))}
	leaves  []reflect.Type
	few     = []reflect.Type{typ(uint8(0)), typ(int32(0)), typ(""), typ([]byte{}), typ(num1{})}
)

func init() {
	for _, t := range selfs[:4] {
		selves[t] = &self{plain: twoPlain, read: twoRead}
	}
	for _, t := range selfs[4:8] {
		selves[t] = &self{plain: strPlain, read: strRead}
	}
	for _, t := range selfs[8:10] {
		selves[t] = &self{plain: numPlain, read: numRead, counted: true}
	}
	for _, t := range selfs[10:] {
		selves[t] = &self{plain: octPlain, read: octRead}
	}
	leaves = append(leaves, scalars...)
	leaves = append(leaves, typ(""), typ([]byte{}))
	leaves = append(leaves, named...)
	leaves = append(leaves, selfs...)
}
