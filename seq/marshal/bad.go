package main

import (
	"fmt"
	"math"
	"reflect"
	"runtime"
	"runtime/metrics"

	"github.com/funny-falcon/go-iproto/marshal"
	"verif/seq/enum"
)

var alphabet = []byte{0, 1, 2, 0x7f, 0x80, 0xff}

// form picks the plain or the rest-of-body form if t can be read in it.
func form(c *enum.C, t reflect.Type) bool {
	tail := c.Bool()
	if !readable(t, tail, map[reflect.Type]bool{}) {
		c.Skip()
	}
	return tail
}

// noBytes: values of t are encoded as nothing.
func noBytes(t reflect.Type) bool {
	if custom(t) != nil {
		return false
	}
	switch t.Kind() {
	case reflect.Array:
		return t.Len() == 0 || noBytes(t.Elem())
	case reflect.Ptr:
		return noBytes(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if g := parse(t.Field(i)); !g.skip && (g.size != "" || g.cnt != "" || !noBytes(t.Field(i).Type)) {
				return false
			}
		}
		return true
	}
	return false
}

// emptyElems: t contains lists of elements without bytes; four billion of
// them are well-formed.
func emptyElems(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Slice:
		return noBytes(t.Elem()) || emptyElems(t.Elem())
	case reflect.Array, reflect.Ptr:
		return emptyElems(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if emptyElems(t.Field(i).Type) {
				return true
			}
		}
	}
	return false
}

func bad(add func(enum.Scenario)) {
	one := tagged(fieldTypes(leaves))
	sub := tagged(append(fieldTypes(few), structOf(typ(uint8(0)), "", typ(""), ""), structOf(typ(uint32(0)), tg("cnt(i8)"))))
	for _, name := range []string{"strings", "strings-in-structs"} {
		name := name
		add(enum.Scenario{
			Name:  "C19." + name,
			Doc:   "all short byte strings read as every type",
			Quick: fmt.Sprintf("all byte strings of length <= 4 (thorough 6) over %v, read in both forms as: "+map[bool]string{true: "all leaf types, arrays, slices of them", false: "structs with one field of %d combinations of types and tags"}[name == "strings"], append([]interface{}{alphabet}, []interface{}{len(sub)}[:len(name)/10]...)...),
			Run:   func(c *enum.C) { shorts(c, name == "strings", sub) },
		})
	}
	add(enum.Scenario{
		Name:  "C19.fields",
		Doc:   "encodings of structs with one field of every type and tag, cut off, with one byte changed, inserted or removed",
		Quick: fmt.Sprintf("%d combinations of types and tags, last value of the short sets (thorough: all of the long sets), all truncations, all single bytes x 8 changes, all insertions of 0, 0x81, 0xff, all removals; both forms", len(one)),
		Run: func(c *enum.C) {
			x := one[c.Pick(len(one))]
			t := structOf(x.t, tg(x.tag))
			tail := form(c, t)
			level := short
			if c.Deep {
				level = long
			}
			l := values(t, level)
			k := len(l) - 1
			if c.Deep {
				k = c.Pick(len(l))
			}
			a, b, ok := encode(l[k])
			if !ok {
				c.Skip()
			}
			if tail {
				a = b
			}
			input(c, t, mutate(c, a, false), tail)
		},
	})
	add(enum.Scenario{
		Name:  "C19.nested",
		Doc:   "the same for structs inside sized fields, slices, arrays, pointers",
		Quick: fmt.Sprintf("%d combinations of types and tags x 6 contexts, short value sets, all truncations, single bytes +1, ^0x80, 0xff, insertions of 0x81, removals (thorough: all variations); both forms (without thorough: every value set is cut to its last value)", len(sub)),
		Run: func(c *enum.C) {
			x := sub[c.Pick(len(sub))]
			t := wrap(1+c.Pick(6), structOf(x.t, tg(x.tag)))
			if emptyElems(t) {
				c.Skip()
			}
			tail := form(c, t)
			l := values(t, short)
			k := len(l) - 1
			if c.Deep {
				k = c.Pick(len(l))
			}
			a, b, ok := encode(l[k])
			if !ok {
				c.Skip()
			}
			if tail {
				a = b
			}
			input(c, t, mutate(c, a, !c.Deep), tail)
		},
	})
	add(enum.Scenario{
		Name:  "C19.recursive",
		Doc:   "variations of encodings of recursive types",
		Quick: "a list, a tree, a bush and mutually recursive structs: all truncations, changes, insertions, removals; both forms",
		Run: func(c *enum.C) {
			x := []interface{}{
				&listNode{1, &listNode{2, &listNode{3, nil}}},
				&treeNode{1, &treeNode{2, nil, nil}, &treeNode{3, &treeNode{}, nil}},
				&bush{"ab", []bush{{"", nil}, {"c", []bush{{"d", nil}}}}},
				&ping{1, []pong{{&ping{2, nil}, nil}, {nil, []uint16{1, 2}}}},
			}[c.Pick(4)]
			v := reflect.ValueOf(x).Elem()
			tail := c.Bool()
			a, b, _ := encode(v)
			if tail {
				a = b
			}
			input(c, v.Type(), mutate(c, a, false), tail)
		},
	})
	var huge []oneTag
	for _, t := range leaves {
		for _, t := range []reflect.Type{t, reflect.SliceOf(t), reflect.PtrTo(reflect.SliceOf(t)), reflect.SliceOf(reflect.SliceOf(t))} {
			if t.Kind() == reflect.Slice || t.Kind() == reflect.String || t.Kind() == reflect.Ptr {
				for _, g := range tags(t) {
					huge = append(huge, oneTag{t, g})
				}
			}
		}
	}
	add(enum.Scenario{
		Name:  "C19.huge",
		Doc:   "sizes and counts that announce far more than there is: an error, and no memory is reserved for what cannot follow",
		Quick: "slices and strings of every leaf type x all size and count tags x values 2^k-1, 2^k (thorough: 2^k+1) for k = 5, 7, 8, 15, 16, 24, 30, 31, 32, 40, 61..63 (thorough: 5..63) and maximal ones, followed by 0, 9 (thorough: 1, 40) bytes; allocation limited to 64 KB",
		Run: func(c *enum.C) {
			x := huge[c.Pick(len(huge))]
			top := x.tag == ""
			t := structOf(x.t, tg(x.tag))
			if top && c.Bool() {
				t = x.t
				if t.Kind() == reflect.Ptr {
					c.Skip()
				}
			}
			g := parse(reflect.StructField{Tag: reflect.StructTag(tg(x.tag))})
			width := g.size + g.cnt
			if g.skip || g.rest {
				c.Skip()
			}
			if width == "" {
				width = "i32"
			}
			ks := []int{5, 7, 8, 15, 16, 24, 30, 31, 32, 40, 61, 62, 63}
			if c.Deep {
				ks = ks[:0]
				for k := 5; k < 64; k++ {
					ks = append(ks, k)
				}
			}
			k := ks[c.Pick(len(ks))]
			near, follow := 2, []int{0, 9}
			if c.Deep {
				near, follow = 3, []int{0, 1, 9, 40}
			}
			u := uint64(1)<<k + uint64(c.Pick(near)) - 1
			if k == 63 && c.Bool() {
				u = math.MaxUint64
			}
			var b []byte
			switch width {
			case "ber":
				b = varint(nil, u)
			case "i64":
				b = le.AppendUint64(nil, u)
			case "i32":
				if k > 32 {
					c.Skip()
				}
				b = le.AppendUint32(nil, uint32(u))
			case "i16":
				if k > 16 {
					c.Skip()
				}
				b = le.AppendUint16(nil, uint16(u))
			case "i8":
				if k > 8 {
					c.Skip()
				}
				b = append(b, uint8(u))
			}
			for i, n := 0, follow[c.Pick(len(follow))]; i < n; i++ {
				b = append(b, byte(i))
			}
			if u := custom(x.t); u != nil && g.size == "" {
				c.Skip() // what a value that reads itself reserves is its own
			}
			var m1, m2 uint64
			f := reflect.New(t)
			marshal.Read(nil, f.Interface()) // builds the codec
			m1 = allocated()
			marshal.Read(b, f.Interface())
			m2 = allocated()
			if m2-m1 >= 64<<10 {
				// the cheap figure comes in lumps: measure again
				var s1, s2 runtime.MemStats
				f := reflect.New(t)
				runtime.ReadMemStats(&s1)
				marshal.Read(b, f.Interface())
				runtime.ReadMemStats(&s2)
				m1, m2 = s1.TotalAlloc, s2.TotalAlloc
			}
			c.Check(m2-m1 < 64<<10, "reading %d bytes [%s] into %v reserved %d bytes", len(b), hex(b), t, m2-m1)
			input(c, t, b, false)
		},
	})
	add(enum.Scenario{
		Name:  "C19.varints",
		Doc:   "variable-length numbers of all shapes: those that do not fit, or do not end, are errors",
		Quick: "0..11 bytes with the continuation bit, each 0x80 or 0xff or, at one place, 0x81, then one of 0, 1, 0x7f or nothing; Uint64var, Intvar, ber fields of uint8..uint64, size(ber) of a string",
		Run: func(c *enum.C) {
			n := c.Pick(12)
			b := make([]byte, n)
			first := []byte{0x80, 0xff}[c.Pick(2)]
			for i := range b {
				b[i] = first
			}
			if n > 0 {
				if k := c.Pick(n + 1); k < n {
					b[k] = []byte{0x81, 0x82, 0x83, 0xff, 0x80}[c.Pick(5)]
				}
			}
			if k := c.Pick(4); k > 0 {
				b = append(b, []byte{0, 1, 0x7f}[k-1])
			}
			switch k := c.Pick(6); k {
			case 0:
				r := marshal.Reader{Body: append([]byte(nil), b...)}
				u := r.Uint64var()
				d := dec{b: b}
				var want uint64
				why := ""
				func() {
					defer func() {
						if x, is := recover().(malformed); is {
							why = x.why
						}
					}()
					want = d.varint()
				}()
				c.Op(1)
				c.Check((r.Err != nil) == (why != ""), "Uint64var of [% x]: error %v, want %q", b, r.Err, why)
				c.Check(why != "" || u == want && len(r.Body) == len(d.b), "Uint64var of [% x] gives %#x, want %#x", b, u, want)
			case 5:
				input(c, structOf(typ(""), tg("size(ber)")), b, false)
			default:
				input(c, structOf(ints[3+k], tg("ber")), b, false)
			}
		},
	})
	add(enum.Scenario{
		Name:  "C19.with-size",
		Doc:   "ReadWithSize of every type from all short byte strings",
		Quick: "all leaf types, arrays and slices of them, two structs; sizes 0..9 in 5 widths, followed by 0..9 bytes",
		Run: func(c *enum.C) {
			l := append(fieldTypes(leaves), structOf(typ(uint8(0)), "", typ(""), ""), structOf(typ(uint32(0)), "", typ([]uint16{}), tg("size(no)")))
			t := l[c.Pick(len(l))]
			if t.Kind() == reflect.Ptr {
				c.Skip()
			}
			k := c.Pick(5)
			size := c.Pick(10)
			b := number(nil, widths[k], size)
			for i, n := 0, c.Pick(10); i < n; i++ {
				b = append(b, []byte{0, 1, 0, 0, 0, 2, 0, 0, 0}[i])
			}
			c.Note("type %v size %d width %s input % x", t, size, widths[k], b)
			want := reflect.New(structOf(t, tg("size("+widths[k]+")")))
			n, why := decode(b, want.Elem(), false)
			for i := 0; i < 2; i++ {
				r := marshal.Reader{Body: append([]byte(nil), b...)}
				f := reflect.New(t)
				var err error
				if i == 0 {
					err = r.ReadWithSize(f.Interface(), get[k])
				} else {
					err = r.ReadValueWithSize(f.Elem(), get[k])
				}
				c.Op(1)
				if why == "" {
					c.Check(err == nil && len(r.Body) == len(b)-n && same(f.Elem(), want.Elem().Field(0)), "reading [%s] with a size into %v gives %s (error %v, %d bytes left), want %s", hex(b), t, show(f.Elem()), err, len(r.Body), show(want.Elem().Field(0)))
				} else {
					c.Check(err != nil && r.Err != nil, "reading [%s] with a size into %v gives %s without an error (%s)", hex(b), t, show(f.Elem()), why)
				}
			}
		},
	})
	add(enum.Scenario{
		Name:  "C19.methods",
		Doc:   "every reading method on input that is too short, or after an error: reports an error, gives nothing, consumes nothing",
		Quick: "all number, slice, string and list methods of Reader x input lengths 0..20 x fresh or failed reader",
		Run:   methods,
	})
	add(enum.Scenario{
		Name:  "C19.interfaces",
		Doc:   "interface fields and lists of prepared values with counts and sizes that do not fit",
		Quick: "struct{interface cnt(i8)}, struct{interface size(ber)}, []interface{} of length 0..2 holding nil, *uint8, *string, *[]uint16, *struct: all byte strings of length <= 4 over 4 values",
		Run: func(c *enum.C) {
			hole := func() (h interface{}) { return }
			k := c.Pick(6)
			switch k {
			case 1:
				hole = func() interface{} { return new(uint8) }
			case 2:
				hole = func() interface{} { return new(string) }
			case 3:
				hole = func() interface{} { return new([]uint16) }
			case 4:
				hole = func() interface{} { return new(bush) }
			case 5:
				hole = func() interface{} { return new([2]uint8) }
			}
			type C struct {
				I interface{} `iproto:"cnt(i8)"`
			}
			type S struct {
				I interface{} `iproto:"size(ber)"`
			}
			type P struct {
				I interface{}
			}
			f := c.Pick(3)
			mk := func() reflect.Value {
				switch f {
				case 0:
					return reflect.ValueOf(&C{hole()})
				case 1:
					return reflect.ValueOf(&S{hole()})
				}
				return reflect.ValueOf(&P{hole()})
			}
			b := make([]byte, c.Pick(5))
			for i := range b {
				b[i] = []byte{0, 1, 2, 0xff}[c.Pick(4)]
			}
			want, got := mk(), mk()
			n, why := decode(b, want.Elem(), false)
			r := marshal.Reader{Body: append([]byte(nil), b...)}
			err := r.Read(got.Interface())
			c.Op(1)
			if why != "" {
				c.Check(err != nil, "Read of [% x] into %v holding %T gives no error (%s)", b, got.Type(), hole(), why)
			} else {
				c.Check(err == nil && len(r.Body) == len(b)-n && same(got.Elem(), want.Elem()), "Read of [% x] into %v holding %T: error %v, %d bytes left, want %d", b, got.Type(), hole(), err, len(r.Body), len(b)-n)
			}
		},
	})
}

func shorts(c *enum.C, alone bool, sub []oneTag) {
	var t reflect.Type
	if alone {
		l := fieldTypes(leaves)
		t = l[c.Pick(len(l))]
		if t.Kind() == reflect.Ptr || custom(t) != nil && custom(t).counted {
			c.Skip()
		}
	} else {
		x := sub[c.Pick(len(sub))]
		t = structOf(x.t, tg(x.tag))
	}
	tail := form(c, t)
	n := 4
	if c.Deep {
		n = 6
	}
	b := make([]byte, c.Pick(n+1))
	for i := range b {
		b[i] = alphabet[c.Pick(len(alphabet))]
	}
	input(c, t, b, tail)
}

func methods(c *enum.C) {
	type method struct {
		need int
		f    func(r *marshal.Reader) bool // gave nothing
	}
	l := []method{
		{1, func(r *marshal.Reader) bool { return r.Uint8() == 0 }},
		{1, func(r *marshal.Reader) bool { return r.Int8() == 0 }},
		{2, func(r *marshal.Reader) bool { return r.Uint16() == 0 }},
		{2, func(r *marshal.Reader) bool { return r.Int16() == 0 }},
		{4, func(r *marshal.Reader) bool { return r.Uint32() == 0 }},
		{4, func(r *marshal.Reader) bool { return r.Int32() == 0 }},
		{8, func(r *marshal.Reader) bool { return r.Uint64() == 0 }},
		{8, func(r *marshal.Reader) bool { return r.Int64() == 0 }},
		{4, func(r *marshal.Reader) bool { return r.Float32() == 0 }},
		{8, func(r *marshal.Reader) bool { return r.Float64() == 0 }},
		{1, func(r *marshal.Reader) bool { return r.Uint64var() == 0 }},
		{1, func(r *marshal.Reader) bool { return r.Intvar() == 0 }},
		{1, func(r *marshal.Reader) bool { return r.IntUint8() == 0 }},
		{2, func(r *marshal.Reader) bool { return r.IntUint16() == 0 }},
		{4, func(r *marshal.Reader) bool { return r.IntUint32() == 0 }},
		{8, func(r *marshal.Reader) bool { return r.IntUint64() == 0 }},
		{3, func(r *marshal.Reader) bool { return r.Slice(3) == nil }},
		{3, func(r *marshal.Reader) bool { return r.String(3) == "" }},
		{5, func(r *marshal.Reader) bool { x := make([]byte, 5); r.Bytes(x); return x[0] == 0 }},
		{5, func(r *marshal.Reader) bool { x := make([]uint8, 5); r.Uint8sl(x); return x[0] == 0 }},
		{5, func(r *marshal.Reader) bool { x := make([]int8, 5); r.Int8sl(x); return x[0] == 0 }},
		{4, func(r *marshal.Reader) bool { x := make([]uint16, 2); r.Uint16sl(x); return x[0] == 0 }},
		{4, func(r *marshal.Reader) bool { x := make([]int16, 2); r.Int16sl(x); return x[0] == 0 }},
		{8, func(r *marshal.Reader) bool { x := make([]uint32, 2); r.Uint32sl(x); return x[0] == 0 }},
		{8, func(r *marshal.Reader) bool { x := make([]int32, 2); r.Int32sl(x); return x[0] == 0 }},
		{16, func(r *marshal.Reader) bool { x := make([]uint64, 2); r.Uint64sl(x); return x[0] == 0 }},
		{16, func(r *marshal.Reader) bool { x := make([]int64, 2); r.Int64sl(x); return x[0] == 0 }},
		{8, func(r *marshal.Reader) bool { x := make([]float32, 2); r.Float32sl(x); return x[0] == 0 }},
		{16, func(r *marshal.Reader) bool { x := make([]float64, 2); r.Float64sl(x); return x[0] == 0 }},
		{1 << 30, func(r *marshal.Reader) bool { return r.Slice(-1) == nil }},
		{1 << 30, func(r *marshal.Reader) bool { return r.String(-1) == "" }},
		{1 << 30, func(r *marshal.Reader) bool { return r.Slice(math.MinInt64) == nil }},
		{0, func(r *marshal.Reader) bool { return len(r.Slice(0)) == 0 }},
		{0, func(r *marshal.Reader) bool { return r.Tail() == nil }},
	}
	x := l[c.Pick(len(l))]
	n := c.Pick(21)
	b := make([]byte, n)
	for i := range b {
		b[i] = 0x11
	}
	r := marshal.Reader{Body: b}
	failed := c.Bool()
	if failed {
		r.Slice(1000)
		c.Check(r.Err != nil && len(r.Body) == n, "Slice(1000) of %d bytes: error %v, %d bytes left", n, r.Err, len(r.Body))
	}
	err := r.Err
	nothing := x.f(&r)
	c.Op(1)
	switch {
	case failed:
		c.Check(nothing && r.Err == err && len(r.Body) == n, "a failed reader gave something, error %v, %d of %d bytes left", r.Err, len(r.Body), n)
	case n < x.need:
		c.Check(nothing && r.Err != nil && len(r.Body) == n, "%d of %d bytes: error %v, %d bytes left", n, x.need, r.Err, len(r.Body))
	case x.need > 0:
		c.Check(!nothing && r.Err == nil && len(r.Body) == n-x.need, "%d of %d bytes: error %v, %d bytes left", n, x.need, r.Err, len(r.Body))
	}
}

func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}
