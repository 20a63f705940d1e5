package main

import (
	"bytes"
	"reflect"
	"strings"

	"github.com/funny-falcon/go-iproto/marshal"
	"verif/seq/enum"
)

// refused: f panics.
func refused(f func()) (r bool) {
	defer func() { r = recover() != nil }()
	f()
	return
}

func tooLong(add func(enum.Scenario)) {
	add(enum.Scenario{
		Name:  "C18.too-long",
		Doc:   "a size or count that its field cannot tell is refused: no encoding claims less than what follows; writing goes on unharmed",
		Quick: "string, []byte, []int8, []uint16, []string, [300]byte, *string, interface{string}, struct{string} x size/cnt of i8, i16 (and ber) x lengths 254..258, 300, 511..513, 65534..65537, 66000, 131072; in a field, in a slice of structs and in a field with a size; encoded by Write, WriteTail and WriteValue",
		Run: func(c *enum.C) {
			kind := c.Pick(9)
			g := []string{"size(i8)", "cnt(i8)", "size(i16)", "cnt(i16)", "ber,size(i8)", "ber,cnt(i16)"}[c.Pick(6)]
			ber := strings.HasPrefix(g, "ber")
			if ber && kind != 1 && kind != 3 {
				c.Skip()
			}
			lens := []int{254, 255, 256, 257, 258, 300, 511, 512, 513, 65534, 65535, 65536, 65537, 66000, 131072}
			n := lens[c.Pick(len(lens))]
			s := strings.Repeat("x", n)
			var fv reflect.Value
			switch kind {
			case 0:
				fv = reflect.ValueOf(s)
			case 1:
				fv = reflect.ValueOf([]byte(s))
			case 2:
				fv = reflect.ValueOf(make([]int8, n))
			case 3:
				fv = reflect.ValueOf(make([]uint16, n))
			case 4:
				fv = reflect.ValueOf(make([]string, n))
			case 5:
				if n != 300 {
					c.Skip()
				}
				fv = reflect.ValueOf([300]byte{1, 2})
			case 6:
				fv = reflect.ValueOf(&s)
			case 7:
				fv = reflect.New(reflect.TypeOf((*interface{})(nil)).Elem()).Elem()
				fv.Set(reflect.ValueOf(s))
			case 8:
				fv = reflect.ValueOf(struct{ S string }{s})
			}
			v := reflect.New(structOf(fv.Type(), tg(g))).Elem()
			v.Field(0).Set(fv)
			switch c.Pick(3) {
			case 1:
				l := reflect.MakeSlice(reflect.SliceOf(v.Type()), 2, 2)
				l.Index(1).Set(v)
				if kind == 6 || kind == 7 {
					l.Index(0).Set(v)
				}
				v = l
			case 2:
				w := reflect.New(structOf(v.Type(), tg("size(ber)"), typ(uint8(0)), "")).Elem()
				w.Field(0).Set(v)
				v = w
			}
			a, tail, ok := encode(v)
			c.Note("%v, length %d", v.Type(), n)
			how := func(name string, want []byte, f func() []byte) {
				c.Op(1)
				var got []byte
				p := refused(func() { got = f() })
				if ok {
					c.Check(!p && bytes.Equal(got, want), "%s of %v with a length of %d: panic %v, %d bytes, want %d", name, v.Type(), n, p, len(got), len(want))
				} else {
					c.Check(p, "%s of %v with a length of %d, which does not fit, is not refused: [% x...]", name, v.Type(), n, got[:min(len(got), 8)])
				}
				x := marshal.Write(struct {
					A uint16
					S []string
				}{5, []string{"ab", ""}})
				c.Check(bytes.Equal(x, []byte{5, 0, 2, 0, 0, 0, 2, 0, 0, 0, 'a', 'b', 0, 0, 0, 0}), "a value written after that is [% x]", x)
			}
			how("Write", a, func() []byte { return marshal.Write(v.Interface()) })
			how("WriteTail", tail, func() []byte { return marshal.WriteTail(v.Interface()) })
			how("WriteValue", a, func() []byte {
				var w marshal.Writer
				w.WriteValue(v)
				return w.Written()
			})
		},
	})
}
