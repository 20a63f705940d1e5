package main

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/funny-falcon/go-iproto/marshal"
	"verif/seq/enum"
)

type oneTag struct {
	t   reflect.Type
	tag string
}

// tagged lists all struct types with one field of one of the types.
func tagged(l []reflect.Type) (r []oneTag) {
	for _, t := range l {
		for _, g := range tags(t) {
			r = append(r, oneTag{t, g})
		}
	}
	return
}

// boundary returns 2^k-1, 2^k or 2^k+1 for all k, and their negatives.
func boundary(c *enum.C) uint64 {
	u := uint64(1)<<c.Pick(64) + uint64(c.Pick(3)) - 1
	if c.Bool() {
		u = -u
	}
	return u
}

type listNode struct {
	V    uint16
	Next *listNode `iproto:"size(ber)"`
}

type treeNode struct {
	V    uint8
	L, R *treeNode `iproto:"cnt(i8)"`
}

type bush struct {
	N string `iproto:"size(i8)"`
	K []bush
}

type ping struct {
	A uint8
	B []pong `iproto:"size(i16)"`
}

type pong struct {
	C *ping `iproto:"size(ber)"`
	D []uint16
}

func tree(c *enum.C, depth int) *treeNode {
	if depth == 0 || !c.Bool() {
		return nil
	}
	return &treeNode{V: uint8(depth), L: tree(c, depth-1), R: tree(c, depth-1)}
}

func bushOf(c *enum.C, depth int) (b bush) {
	b.N = "abc"[:depth]
	if depth > 0 {
		for n := c.Pick(3); n > 0; n-- {
			b.K = append(b.K, bushOf(c, depth-1))
		}
	}
	return
}

func pingOf(c *enum.C, depth int) (p ping) {
	p.A = uint8(depth)
	if depth > 0 {
		for n := c.Pick(3); n > 0; n-- {
			q := pong{D: make([]uint16, n)}
			if c.Bool() {
				x := pingOf(c, depth-1)
				q.C = &x
			}
			p.B = append(p.B, q)
		}
	}
	return
}

func layout(add func(enum.Scenario)) {
	add(enum.Scenario{
		Name:  "C18.numbers",
		Doc:   "every 16-bit integer and boundary values of the wider ones, alone, in arrays, slices and structs",
		Quick: "int8..uint16: all 65536 values; int32..uint64: all 2^k, 2^k-1, 2^k+1 and negatives; x alone, [3]T, []T, struct{T}; with the fixed-width slice and number methods",
		Run: func(c *enum.C) {
			t := ints[c.Pick(len(ints))]
			var u uint64
			if t.Bits() <= 16 {
				u = uint64(c.Pick(1 << t.Bits()))
			} else {
				u = boundary(c)
			}
			v := reflect.New(t).Elem()
			if t.Kind() <= reflect.Int64 {
				v.SetInt(int64(u))
			} else {
				v.SetUint(u)
			}
			switch c.Pick(4) {
			case 1:
				a := reflect.New(reflect.ArrayOf(3, t)).Elem()
				a.Index(1).Set(v)
				v = a
			case 2:
				a := reflect.New(reflect.SliceOf(t)).Elem()
				a.Set(reflect.MakeSlice(a.Type(), 2, 2))
				a.Index(1).Set(v)
				v = a
			case 3:
				a := reflect.New(structOf(t, "", t, "")).Elem()
				a.Field(1).Set(v)
				v = a
			}
			roundtrip(c, v)
		},
	})
	add(enum.Scenario{
		Name:  "C18.varints",
		Doc:   "variable-length numbers: encoding, size in advance, reading; in fields with and without declared sizes",
		Quick: "all 2^k, 2^k-1, 2^k+1 and negatives for 64 bits, all numbers below 2^15; Uint64var, Varsize; ber fields of uint8..uint64 x {none, size(ber), size(i8), cnt(ber)}, ber arrays and slices of them with declared sizes",
		Run: func(c *enum.C) {
			k, g, t := 0, "", reflect.Type(nil)
			var u uint64
			if c.Bool() {
				// numbers alone: all below 2^15
				u = uint64(c.Pick(1 << 15))
			} else {
				u = boundary(c)
				t = ints[4+c.Pick(4)]
				g = []string{"ber", "size(ber),ber", "size(i8),ber", "cnt(ber),ber"}[c.Pick(4)]
				k = c.Pick(3)
			}
			want := varint(nil, u)
			var w marshal.Writer
			w.Uint64var(u)
			b := w.Written()
			c.Op(1)
			c.Check(bytes.Equal(b, want), "Uint64var(%#x) gives [% x], want [% x]", u, b, want)
			if n := int(u); n >= 0 {
				c.Check(marshal.Varsize(n) == len(want), "Varsize(%#x) gives %d, want %d", n, marshal.Varsize(n), len(want))
			}
			r := marshal.Reader{Body: append(b, 0x99)}
			x := r.Uint64var()
			c.Check(r.Err == nil && x == u && len(r.Body) == 1, "Uint64var of [% x] gives %#x, error %v", want, x, r.Err)
			if t == nil {
				t, g = ints[7], "ber"
			}
			if t.Bits() < 64 && u>>t.Bits() != 0 {
				c.Skip()
			}
			v := reflect.New(t).Elem()
			v.SetUint(u)
			switch k {
			case 1:
				a := reflect.New(reflect.ArrayOf(2, t)).Elem()
				a.Index(1).Set(v)
				v = a
			case 2:
				a := reflect.New(reflect.SliceOf(t)).Elem()
				a.Set(reflect.MakeSlice(a.Type(), 3, 3))
				a.Index(1).Set(v)
				v = a
			}
			a := reflect.New(structOf(v.Type(), tg(g))).Elem()
			a.Field(0).Set(v)
			roundtrip(c, a)
		},
	})
	one := tagged(fieldTypes(leaves))
	one = append(one, tagged(append(fieldTypes([]reflect.Type{structOf(typ(uint8(0)), "", typ(""), ""), structOf(typ(uint32(0)), tg("cnt(i8)"))}), structOf()))...)
	names := []string{"fields", "in-size", "in-slice", "slices", "in-array", "in-pointer", "in-rest"}
	for k := range names {
		k := k
		add(enum.Scenario{
			Name:  "C18." + names[k],
			Doc:   "structs with one field of every type with every tag: " + []string{"alone", "in a field with a variable-length size", "as elements of a slice with a size", "as elements of a slice", "in arrays with sizes and in fields with counts", "behind pointers with sizes and in slices of pointers", "as the rest of the body"}[k],
			Quick: fmt.Sprintf("%d combinations of 28 leaf types and 2 structs, arrays of 0 and 2, slices and pointers of them, and the empty struct, with all tags; "+map[bool]string{true: "long value sets", false: "short value sets (thorough: long)"}[k == 0], len(one)),
			Run: func(c *enum.C) {
				l, level := one, short
				if c.Deep || k == 0 {
					level = long
				}
				x := l[c.Pick(len(l))]
				roundtrip(c, value(c, wrap(k, structOf(x.t, tg(x.tag))), level))
			},
		})
	}
	add(enum.Scenario{
		Name:  "C18.pairs",
		Doc:   "structs of two fields of all types and tags of a small set, as they are and in a field and a slice with declared sizes",
		Quick: "ordered pairs of 42 fields of types uint8, uint32, string, []byte, []uint16, [2]uint8, empty struct, struct with string, self-encoding, with typical tags; x 3 contexts; short value sets",
		Run: func(c *enum.C) {
			l := []oneTag{}
			for _, t := range []reflect.Type{typ(uint8(0)), typ(uint32(0)), typ(""), typ([]byte{}), typ([]uint16{}), typ([2]uint8{}), structOf(), structOf(typ(uint8(0)), "", typ(""), ""), typ(two2{}), typ(num1{})} {
				l = append(l, oneTag{t, ""}, oneTag{t, "size(ber)"}, oneTag{t, "size(i16)"})
				if countable(t) {
					l = append(l, oneTag{t, "cnt(i8)"})
				}
				if isUint(t) || t.Kind() == reflect.Slice && isUint(t.Elem()) && custom(t) == nil {
					l = append(l, oneTag{t, "ber"})
				}
			}
			a, b := l[c.Pick(len(l))], l[c.Pick(len(l))]
			t := structOf(a.t, tg(a.tag), b.t, tg(b.tag))
			k := c.Pick(3)
			if k > 0 && !c.Deep && a.t != b.t && a.tag != b.tag && a.tag != "" {
				c.Skip()
			}
			if k > 0 {
				t = wrap(k, t)
			}
			roundtrip(c, value(c, t, short))
		},
	})
	add(enum.Scenario{
		Name:  "C18.deep",
		Doc:   "all types built in three levels (thorough: four) from a few leaves",
		Quick: "leaves uint8, uint32, string, []byte, self-encoding with a count; constructors slice, array of 2, struct with a field tagged none/size(ber)/size(i32)/cnt(i16) and a number before it",
		Run: func(c *enum.C) {
			l := []reflect.Type{typ(uint8(0)), typ(uint32(0)), typ(""), typ([]byte{}), typ(num2{})}
			t := l[c.Pick(len(l))]
			n := 3
			if c.Deep {
				n = 4
			}
			for i := 0; i < n; i++ {
				switch k := c.Pick(6); k {
				case 0:
					t = reflect.SliceOf(t)
				case 1:
					t = reflect.ArrayOf(2, t)
				default:
					t = structOf(typ(uint8(0)), "", t, tg([]string{"", "size(ber)", "size(i32)", "cnt(i16)"}[k-2]))
				}
			}
			roundtrip(c, value(c, t, short))
		},
	})
	add(enum.Scenario{
		Name:  "C18.lengths",
		Doc:   "strings and slices of lengths around the thresholds of their sizes and counts",
		Quick: "string, []byte, []int8, []uint16, []float64, []string, []nI64, num1 x all tags x lengths 0..5, 30..33, 62..66, 126..130, 254..258, 510..514, 8190..8194, 16382..16386, 32767, 32768, 65534..65537; also in a field with a variable-length size (without thorough: above 300 only 65536 for small elements other than bytes, no long lists of large elements, no odd long lengths but 65535)",
		Run: func(c *enum.C) {
			var lens []int
			for _, r := range [][2]int{{0, 5}, {30, 33}, {62, 66}, {126, 130}, {254, 258}, {510, 514}, {8190, 8194}, {16382, 16386}, {32767, 32768}, {65534, 65537}} {
				for i := r[0]; i <= r[1]; i++ {
					lens = append(lens, i)
				}
			}
			t := []reflect.Type{typ(""), typ([]byte{}), typ([]int8{}), typ([]uint16{}), typ([]float64{}), typ([]string{}), typ([]nI64{}), typ(num1{})}[c.Pick(8)]
			g := tags(t)
			x := g[c.Pick(len(g))]
			n := lens[c.Pick(len(lens))]
			if n > 300 && !c.Deep && t.Kind() != reflect.String && (t != typ([]byte{}) && n != 65536 || t.Elem().Size() > 2) {
				c.Skip()
			}
			// the same types in all long lengths are slow: the specification
			// works element by element
			if n > 600 && !c.Deep && (n%2 != 0 && n != 65535 || n == 8190 || n == 8194) {
				c.Skip()
			}
			v := reflect.New(structOf(t, tg(x))).Elem()
			if t.Kind() == reflect.String {
				b := make([]byte, n)
				for i := range b {
					b[i] = byte(i * 3)
				}
				v.Field(0).SetString(string(b))
			} else {
				v.Field(0).Set(reflect.MakeSlice(t, n, n))
				e := values(t.Elem(), short)
				for i := 0; i < n; i++ {
					v.Field(0).Index(i).Set(e[i%len(e)])
				}
			}
			if c.Bool() {
				w := reflect.New(structOf(v.Type(), tg("size(ber)"), typ(uint8(0)), "")).Elem()
				w.Field(0).Set(v)
				v = w
			}
			roundtrip(c, v)
		},
	})
	add(enum.Scenario{
		Name:  "C18.recursive",
		Doc:   "types that refer to themselves and to each other",
		Quick: "linked lists of 0..4 nodes, trees and bushes of depth 3 (thorough 4), mutually recursive structs of depth 2 (thorough 3), in a field with a size and on their own",
		Run: func(c *enum.C) {
			d := 0
			if c.Deep {
				d = 1
			}
			var x interface{}
			switch c.Pick(4) {
			case 0:
				n := &listNode{V: 9}
				x = n
				for k := c.Pick(5); k > 0; k-- {
					n.Next = &listNode{V: uint16(k)}
					n = n.Next
				}
			case 1:
				x = &treeNode{V: 8, L: tree(c, 2+d), R: tree(c, 2)}
			case 2:
				b := bushOf(c, 2+d)
				x = &b
			case 3:
				p := pingOf(c, 2+d)
				x = &p
			}
			v := reflect.ValueOf(x).Elem()
			if c.Bool() {
				w := reflect.New(structOf(v.Type(), tg("size(ber)"), typ(uint8(0)), "")).Elem()
				w.Field(0).Set(v)
				v = w
			}
			roundtrip(c, v)
		},
	})
	add(enum.Scenario{
		Name:  "C18.rows",
		Doc:   "values written one after another with one writer and with the pooled writers: no result changes later",
		Quick: "4 writes with sizes 0, 1, 100, 300, 511, 513, 2000 (thorough: also 3, 250, 512) bytes, each handed out at once or with the next one, after an optional reset; initial sizes default, 16, 512",
		Run: func(c *enum.C) {
			w := marshal.Writer{DefSize: []int{0, 16, 512}[c.Pick(3)]}
			type kept struct{ got, want []byte }
			var all []kept
			var want []byte
			n, sizes := 4, []int{0, 1, 100, 300, 511, 513, 2000}
			if c.Deep {
				sizes = []int{0, 1, 3, 100, 250, 300, 511, 512, 513, 2000}
			}
			for i := 0; i < n; i++ {
				size := sizes[c.Pick(len(sizes))]
				b := bytes.Repeat([]byte{byte(i + 1)}, size)
				switch i % 3 {
				case 0:
					w.Bytes(b)
				case 1:
					copy(w.Need(size), b)
				case 2:
					for _, x := range b {
						w.Uint8(x)
					}
				}
				c.Op(1)
				want = append(want, b...)
				switch c.Pick(3) {
				case 0:
					p := w.Written()
					_ = append(p, 0xbb, 0xbb, 0xbb)
					all = append(all, kept{p, want}, kept{append(p, 0xcc, 0xcc), append(append([]byte(nil), want...), 0xcc, 0xcc)})
					want = nil
				case 1:
					w.Reset()
					want = nil
				}
				p := marshal.WriteTail(b)
				all = append(all, kept{p, append([]byte(nil), b...)}, kept{append(p, 0xdd), append(append([]byte(nil), b...), 0xdd)})
			}
			all = append(all, kept{w.Written(), want})
			for i, k := range all {
				c.Check(bytes.Equal(k.got, k.want), "result %d is now [%s], was [%s]", i, hex(k.got), hex(k.want))
				k.got = append(k.got, 0xaa, 0xaa)
			}
			for i, k := range all {
				c.Check(bytes.Equal(k.got, k.want), "result %d changed when others were appended to", i)
			}
		},
	})
	add(enum.Scenario{
		Name:  "C18.interfaces",
		Doc:   "interface fields, slices and arrays of interfaces, lists of mixed values: written by their contents, read into prepared values",
		Quick: "1 and 2 interfaces holding nil or (pointers to) uint8, int32, string, []byte, []uint16, [2]uint8, struct, self-encoding; in a field x {none, cnt(i16), size(ber)}, slice, array, []interface{} at top level; short value sets",
		Run:   interfaces,
	})
	add(enum.Scenario{
		Name:  "C18.with-size",
		Doc:   "WriteWithSize and ReadWithSize of every type with every width",
		Quick: "all leaf types, slices and arrays of them and structs; 5 widths; by value and by pointer; long value sets",
		Run: func(c *enum.C) {
			l := append(fieldTypes(leaves), structOf(typ(uint8(0)), "", typ(""), ""), structOf(typ(uint32(0)), "", typ([]uint16{}), tg("size(no)")))
			t := l[c.Pick(len(l))]
			if t.Kind() == reflect.Ptr {
				c.Skip()
			}
			k := c.Pick(5)
			v := value(c, t, long)
			want, _, ok := encode(func() reflect.Value {
				s := reflect.New(structOf(t, tg("size("+widths[k]+")"))).Elem()
				s.Field(0).Set(v)
				return s
			}())
			if !ok {
				c.Skip()
			}
			c.Note("type %v width %s value %s", t, widths[k], show(v))
			check := func(how string, f func(w *marshal.Writer)) {
				var w marshal.Writer
				f(&w)
				c.Op(1)
				got := w.Written()
				c.Check(bytes.Equal(got, want), "%s(%s) of %v %s gives [%s], want [%s]", how, widths[k], t, show(v), hex(got), hex(want))
			}
			check("WriteWithSize", func(w *marshal.Writer) { w.WriteWithSize(v.Interface(), put[k]) })
			check("WriteWithSize of a pointer", func(w *marshal.Writer) { w.WriteWithSize(v.Addr().Interface(), put[k]) })
			check("WriteValueWithSize", func(w *marshal.Writer) { w.WriteValueWithSize(v, put[k]) })
			for i := 0; i < 2; i++ {
				f := reflect.New(t)
				r := marshal.Reader{Body: append(append([]byte(nil), want...), trailer...)}
				if i == 0 {
					r.ReadWithSize(f.Interface(), get[k])
				} else {
					r.ReadValueWithSize(f.Elem(), get[k])
				}
				c.Op(1)
				c.Check(r.Err == nil, "reading [%s] with a size into %v: %v", hex(want), t, r.Err)
				c.Check(same(f.Elem(), v) && len(r.Body) == len(trailer), "reading [%s] with a size into %v gives %s (%d bytes left), want %s", hex(want), t, show(f.Elem()), len(r.Body), show(v))
			}
		},
	})
}

var put = []func(*marshal.Writer, int){(*marshal.Writer).Intvar, (*marshal.Writer).IntUint8, (*marshal.Writer).IntUint16, (*marshal.Writer).IntUint32, (*marshal.Writer).IntUint64}
var get = []func(*marshal.Reader) int{(*marshal.Reader).Intvar, (*marshal.Reader).IntUint8, (*marshal.Reader).IntUint16, (*marshal.Reader).IntUint32, (*marshal.Reader).IntUint64}

var mixed = []reflect.Type{typ(uint8(0)), typ(int32(0)), typ(""), typ([]byte{}), typ([]uint16{}), typ([2]uint8{}), structOf(typ(uint8(0)), "", typ(""), ""), typ(two1{}), typ(num2{})}

// something picks nil, a value of one of the mixed types or a pointer to it;
// hole is what it is read into.
func something(c *enum.C, i interface{}) (v, hole reflect.Value) {
	t := reflect.TypeOf(i).Elem()
	v, hole = reflect.New(t).Elem(), reflect.New(t).Elem()
	k := c.Pick(len(mixed) + 1)
	if k == len(mixed) {
		return
	}
	x := value(c, mixed[k], short)
	hole.Set(reflect.New(x.Type()))
	if c.Bool() {
		v.Set(x)
	} else {
		v.Set(x.Addr())
	}
	return
}

// deref strips pointers inside interfaces.
func deref(v reflect.Value) reflect.Value {
	for (v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr) && !v.IsNil() {
		v = v.Elem()
	}
	return v
}

func interfaces(c *enum.C) {
	var any interface{}
	form := c.Pick(6)
	n := 1
	if form >= 3 {
		n = c.Pick(3)
	}
	var items, holes []interface{}
	for i := 0; i < n; i++ {
		v, h := something(c, &any)
		if x := deref(v); form == 5 && custom(x.Type()) != nil && custom(x.Type()).counted {
			c.Skip() // at top level, a value that writes itself is asked to
		}
		items = append(items, v.Interface())
		holes = append(holes, h.Interface())
	}
	var x, hole interface{}
	switch form {
	case 0:
		type T struct {
			A uint8
			I interface{}
		}
		x, hole = &T{1, items[0]}, &T{0, holes[0]}
	case 1:
		type T struct {
			I interface{} `iproto:"cnt(i16)"`
			A uint8
		}
		x, hole = &T{items[0], 1}, &T{holes[0], 0}
	case 2:
		type T struct {
			I interface{} `iproto:"size(ber)"`
			A uint8
		}
		x, hole = &T{items[0], 1}, &T{holes[0], 0}
	case 3:
		type T struct {
			I []interface{} `iproto:"cnt(i8)"`
			A uint8
		}
		x, hole = &T{items, 1}, &T{holes, 0}
	case 4:
		if n != 2 {
			c.Skip()
		}
		type T struct {
			I [2]interface{}
			A uint8
		}
		x, hole = &T{[2]interface{}{items[0], items[1]}, 1}, &T{[2]interface{}{holes[0], holes[1]}, 0}
	case 5:
		x, hole = &items, &holes
	}
	v := reflect.ValueOf(x).Elem()
	want, _, ok := encode(v)
	if !ok {
		c.Skip()
	}
	c.Note("value %s, specified: % x", show(v), want)
	got := marshal.Write(v.Interface())
	c.Op(1)
	c.Check(bytes.Equal(got, want), "Write of %v %s gives [%s], want [%s]", v.Type(), show(v), hex(got), hex(want))
	if form == 3 || form == 5 {
		// reading does not replace the slice of prepared values
		hv := reflect.ValueOf(hole).Elem()
		if form == 3 {
			hv = hv.Field(0)
		}
		if hv.Len() != n {
			c.Skip()
		}
	}
	r := marshal.Reader{Body: append(append([]byte(nil), want...), trailer...)}
	err := r.Read(hole)
	c.Op(1)
	c.Check(err == nil && len(r.Body) == len(trailer), "Read of [%s] into %v: error %v, %d bytes left", hex(want), v.Type(), err, len(r.Body))
	var back []interface{}
	hv := reflect.ValueOf(hole).Elem()
	switch form {
	case 0:
		back = []interface{}{hv.Field(1).Interface()}
	case 1, 2:
		back = []interface{}{hv.Field(0).Interface()}
	case 3:
		back = hv.Field(0).Interface().([]interface{})
	case 4:
		back = hv.Field(0).Slice(0, 2).Interface().([]interface{})
	case 5:
		back = *hole.(*[]interface{})
	}
	for i := range items {
		a, b := deref(reflect.ValueOf(&items[i]).Elem()), deref(reflect.ValueOf(&back[i]).Elem())
		if !a.IsValid() || a.Kind() == reflect.Interface || a.Kind() == reflect.Ptr {
			c.Check(b.Kind() == reflect.Interface && b.IsNil(), "nil was read back as %v", b)
			continue
		}
		c.Check(same(a, b), "%s was read back as %s", show(a), show(b))
	}
}
