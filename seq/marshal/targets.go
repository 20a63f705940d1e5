package main

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/funny-falcon/go-iproto/marshal"
	"github.com/funny-falcon/go-iproto/sbox"
	"verif/seq/enum"
)

// references: values that read themselves without being addressed.
type (
	ref1 struct{ P *num1 } // short interfaces
	ref2 struct{ P *num2 } // long interfaces
)

func (t ref1) IWrite(w *marshal.Writer)                    { t.P.IWrite(w) }
func (t ref1) ISize() int                                  { return t.P.ISize() }
func (t ref1) ICount() int                                 { return t.P.ICount() }
func (t ref1) IRead(r *marshal.Reader)                     { t.P.IRead(r) }
func (t ref1) IReadTail(r *marshal.Reader)                 { t.P.IReadTail(r) }
func (t ref1) ISetCount(n int) error                       { return t.P.ISetCount(n) }
func (t ref1) ISetSize(n int) (bool, error)                { return t.P.ISetSize(n) }
func (t ref2) IWrite(x interface{}, w *marshal.Writer)     { t.P.IWrite(x, w) }
func (t ref2) ISize(x interface{}) int                     { return t.P.ISize(x) }
func (t ref2) ICount(x interface{}) int                    { return t.P.ICount(x) }
func (t ref2) IRead(x interface{}, r *marshal.Reader)      { t.P.IRead(x, r) }
func (t ref2) IReadTail(x interface{}, r *marshal.Reader)  { t.P.IReadTail(x, r) }
func (t ref2) ISetCount(x interface{}, n int) error        { return t.P.ISetCount(x, n) }
func (t ref2) ISetSize(x interface{}, n int) (bool, error) { return t.P.ISetSize(x, n) }

// nums lists the contents of references.
func nums(c *enum.C) []uint16 {
	return [][]uint16{{}, {0x102}, {0x8001, 7, 0xffff}}[c.Pick(3)]
}

// listItem is one element of a list of readers or writers.
type listItem struct {
	w     interface{}
	fresh func() interface{}
	bytes []byte
	back  func(x interface{}) bool
}

func item(w interface{}, fresh func() interface{}) listItem {
	v := reflect.ValueOf(w)
	for v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	return listItem{w, fresh, plain(nil, v, false), func(x interface{}) bool {
		return same(reflect.ValueOf(x).Elem(), v)
	}}
}

func targets(add func(enum.Scenario)) {
	alone := append(fieldTypes(leaves), structOf(), typ([][]uint16{}), typ([]string{}), typ([][2]float32{}))
	add(enum.Scenario{
		Name:  "C18.alone",
		Doc:   "values of every leaf type, arrays, slices and pointers of them, passed directly",
		Quick: fmt.Sprintf("%d types, long value sets", len(alone)),
		Run: func(c *enum.C) {
			t := alone[c.Pick(len(alone))]
			u := t
			for u.Kind() == reflect.Ptr {
				u = u.Elem()
			}
			if s := custom(u); s != nil && s.counted {
				c.Skip() // is simply asked to write itself
			}
			roundtrip(c, value(c, t, long))
		},
	})
	add(enum.Scenario{
		Name:  "C18.lists",
		Doc:   "lists of values that write and read themselves, in both interfaces, plain and as the rest of the body",
		Quick: "lists of 0..3 of 4 values each of the short and the long interfaces",
		Run: func(c *enum.C) {
			long := c.Bool()
			var all []listItem
			if long {
				n := num2{1, 0xfffe}
				all = []listItem{
					item(two3{1, 2}, func() interface{} { return &two3{} }),
					item(&two4{3, 0xfe}, func() interface{} { return &two4{} }),
					item(str3{"ab"}, func() interface{} { return &str3{} }),
					item(&n, func() interface{} { n := make(num2, 2); return &n }),
				}
			} else {
				n := num1{1, 0xfffe}
				all = []listItem{
					item(two1{1, 2}, func() interface{} { return &two1{} }),
					item(&two2{3, 0xfe}, func() interface{} { return &two2{} }),
					item(str1{"ab"}, func() interface{} { return &str1{} }),
					item(&n, func() interface{} { n := make(num1, 2); return &n }),
				}
			}
			n := c.Pick(4)
			var l []listItem
			var body []byte
			for i := 0; i < n; i++ {
				x := all[c.Pick(len(all))]
				l = append(l, x)
				body = append(body, x.bytes...)
			}
			counted := append(le.AppendUint32(nil, uint32(n)), body...)
			var list interface{}
			var fresh []interface{}
			mk := func() (slice, ptr interface{}) {
				fresh = nil
				for _, x := range l {
					fresh = append(fresh, x.fresh())
				}
				if long {
					s := []marshal.IReader{}
					for _, x := range fresh {
						s = append(s, x.(marshal.IReader))
					}
					return s, &s
				}
				s := []marshal.IShortReader{}
				for _, x := range fresh {
					s = append(s, x.(marshal.IShortReader))
				}
				return s, &s
			}
			if long {
				s := []marshal.IWriter{}
				for _, x := range l {
					s = append(s, x.w.(marshal.IWriter))
				}
				list = s
			} else {
				s := []marshal.IShortWriter{}
				for _, x := range l {
					s = append(s, x.w.(marshal.IShortWriter))
				}
				list = s
			}
			c.Note("list %v", list)
			got := marshal.Write(list)
			c.Check(bytes.Equal(got, counted), "Write of a list of %d writers gives [%s], want [%s]", n, hex(got), hex(counted))
			got = marshal.WriteTail(list)
			c.Check(bytes.Equal(got, body), "WriteTail of a list of %d writers gives [%s], want [%s]", n, hex(got), hex(body))
			check := func(how string, err error, left []byte) {
				c.Op(1)
				c.Check(err == nil, "%s a list of %d readers: %v", how, n, err)
				c.Check(bytes.Equal(left, trailer) || left == nil, "%s a list of %d readers leaves [%s]", how, n, hex(left))
				for i, x := range l {
					c.Check(x.back(fresh[i]), "%s a list of %d readers: element %d is %+v, want %+v", how, n, i, fresh[i], x.w)
				}
			}
			s, _ := mk()
			r := marshal.Reader{Body: append(append([]byte{}, body...), trailer...)}
			check("Read into", r.Read(s), r.Body)
			_, p := mk()
			r = marshal.Reader{Body: append(append([]byte{}, counted...), trailer...)}
			check("Read into a pointer to", r.Read(p), r.Body)
			s, _ = mk()
			check("ReadTail into", marshal.ReadTail(body, s), nil)
			// passed one by one
			w := &marshal.Writer{}
			for _, x := range l {
				w.Write(x.w)
			}
			got = w.Written()
			c.Check(bytes.Equal(got, body), "writing %d writers gives [%s], want [%s]", n, hex(got), hex(body))
			if n == 1 {
				got = marshal.WriteTail(l[0].w)
				c.Check(bytes.Equal(got, body), "WriteTail of a writer gives [%s], want [%s]", hex(got), hex(body))
				mk()
				if k := reflect.TypeOf(l[0].w); k != typ(&num1{}) && k != typ(&num2{}) {
					check("ReadTail into an element of", marshal.ReadTail(body, fresh[0]), nil)
				}
			}
			mk()
			r = marshal.Reader{Body: append(append([]byte{}, body...), trailer...)}
			for _, f := range fresh {
				r.Read(f)
			}
			check("Read one by one into", r.Err, r.Body)
		},
	})
	add(enum.Scenario{
		Name:  "C18.prepared",
		Doc:   "slices passed by value are filled with exactly as many elements as they have, read plainly, with a size, or as the last field without a count",
		Quick: "slices of all leaf types and arrays, slices and structs of them; 0..3 elements; five ways of reading, 5 widths of sizes",
		Run: func(c *enum.C) {
			l := append(fieldTypes(leaves), structOf(typ(uint8(0)), "", typ(""), ""))
			e := l[c.Pick(len(l))]
			if e.Kind() == reflect.Ptr {
				c.Skip()
			}
			n := c.Pick(4)
			t := reflect.SliceOf(e)
			v := reflect.New(t).Elem()
			v.Set(reflect.MakeSlice(t, n, n))
			x := values(e, short)
			k := c.Pick(len(x))
			for i := 0; i < n; i++ {
				v.Index(i).Set(x[(i+k)%len(x)])
			}
			var body []byte
			body = plain(body, v, false)
			c.Note("type %v value %s", t, show(v))
			f := reflect.MakeSlice(t, n, n)
			var err error
			r := marshal.Reader{}
			how := c.Pick(5)
			switch how {
			case 0:
				r.Body = append(append([]byte{}, body...), trailer...)
				err = r.Read(f.Interface())
			case 1:
				r.Body = append(append([]byte{}, body...), trailer...)
				err = r.ReadValueFixed(f)
			case 2:
				if noBytes(e) && n > 0 {
					c.Skip()
				}
				w := widths[c.Pick(5)]
				if w == "i8" && len(body) > 255 {
					c.Skip()
				}
				for i, x := range widths {
					if x == w {
						r.Body = append(append(number(nil, w, len(body)), body...), trailer...)
						if e != typ(uint8(0)) && !fixedSize(e) {
							c.Skip() // only lists of known sizes can be told to fit
						}
						err = r.ReadWithSize(f.Interface(), get[i])
					}
				}
			case 3:
				r.Body = append([]byte{}, body...)
				err = r.ReadTail(f.Interface())
				r.Body = append(r.Body, trailer...)
			case 4:
				st := structOf(typ(uint8(0)), "", t, tg("size(no)"))
				s := reflect.New(st)
				s.Elem().Field(1).Set(f)
				r.Body = append(append([]byte{5}, body...), trailer...)
				err = r.Read(s.Interface())
				c.Check(err != nil || s.Elem().Field(0).Uint() == 5 && s.Elem().Field(1).Len() == n, "reading a struct with a prepared list of %d gives %s", n, show(s.Elem()))
				f = s.Elem().Field(1)
			}
			c.Op(1)
			c.Check(err == nil, "reading [%s] into %d prepared elements of %v (%d): %v", hex(body), n, e, how, err)
			c.Check(bytes.Equal(r.Body, trailer), "reading [%s] into %d prepared elements of %v (%d) leaves [%s]", hex(body), n, e, how, hex(r.Body))
			c.Check(same(f, v), "reading [%s] into %d prepared elements of %v (%d) gives %s, want %s", hex(body), n, e, how, show(f), show(v))
		},
	})
	add(enum.Scenario{
		Name:  "C18.big",
		Doc:   "structs of fixed sizes with large arrays and variable-length sizes and counts, alone, in lists, and behind sizes",
		Quick: "arrays of 0, 1, 127, 128, 129 numbers of 3 types, 16383..16385 bytes with variable-length sizes and counts (thorough: numbers with all); size and cnt in 5 widths or none; alone, in slices and arrays of 0..2, in pointers, with a size around it in 3 widths",
		Run: func(c *enum.C) {
			n := []int{0, 1, 127, 128, 129, 16383, 16384, 16385}[c.Pick(8)]
			e := []reflect.Type{typ(uint8(0)), typ(int16(0)), typ(float64(0))}[c.Pick(3)]
			k := c.Pick(11)
			if !c.Deep && n > 1000 && (e != typ(uint8(0)) || k != 0 && k != 1 && k != 6) {
				c.Skip()
			}
			g := ""
			switch {
			case k > 5:
				g = tg("size(" + widths[k-6] + ")")
			case k > 0:
				g = tg("cnt(" + widths[k-1] + ")")
			}
			t := structOf(reflect.ArrayOf(n, e), g, typ(uint8(0)), "")
			if c.Bool() {
				t = structOf(typ(uint16(0)), "", t, "")
			}
			m := 1
			switch form := c.Pick(7); form {
			case 1:
				m = c.Pick(3)
				t = reflect.SliceOf(t)
			case 2:
				m = c.Pick(3)
				t = reflect.ArrayOf(m, t)
			case 3:
				t = structOf(reflect.PtrTo(t), "", typ(uint8(0)), "")
			case 4, 5, 6:
				m = c.Pick(3)
				t = structOf(reflect.SliceOf(t), tg("size("+widths[[]int{0, 2, 3}[form-4]]+")"), typ(uint8(0)), "")
			}
			v := reflect.New(t).Elem()
			x := 0
			var fill func(v reflect.Value)
			fill = func(v reflect.Value) {
				x++
				switch v.Kind() {
				case reflect.Ptr:
					v.Set(reflect.New(v.Type().Elem()))
					fill(v.Elem())
				case reflect.Struct:
					for i := 0; i < v.NumField(); i++ {
						fill(v.Field(i))
					}
				case reflect.Slice:
					v.Set(reflect.MakeSlice(v.Type(), m, m))
					fallthrough
				case reflect.Array:
					for i := 0; i < v.Len(); i++ {
						fill(v.Index(i))
					}
				case reflect.Float64:
					v.SetFloat(float64(x))
				case reflect.Int16:
					v.SetInt(int64(int16(x)))
				default:
					v.SetUint(uint64(x) % 251)
				}
			}
			fill(v)
			roundtrip(c, v)
		},
	})
	add(enum.Scenario{
		Name:  "C18.set-pointers",
		Doc:   "what a pointer in a target points at is filled in; a nil pointer is set to something new",
		Quick: "pointers to values of all leaf types, slices, arrays and structs of them, in fields, slices, arrays and lists; all values of the short sets after all others",
		Run: func(c *enum.C) {
			l := append(fieldTypes(leaves), structOf(typ(uint8(0)), "", typ(""), ""))
			e := l[c.Pick(len(l))]
			if e.Kind() == reflect.Ptr {
				c.Skip()
			}
			set := values(e, short)
			v, old := set[c.Pick(len(set))], set[c.Pick(len(set))]
			p := reflect.PtrTo(e)
			form := c.Pick(4)
			var t reflect.Type
			switch form {
			case 0:
				t = structOf(typ(uint8(0)), "", p, "", typ(uint8(0)), "")
			case 1:
				t = structOf(p, tg("size(i16)"))
			case 2:
				t = reflect.ArrayOf(2, p)
			case 3:
				t = structOf(typ([]interface{}{}), tg("cnt(i8)"))
			}
			mk := func(v reflect.Value) (x, y reflect.Value) {
				x = reflect.New(t)
				y = reflect.New(e)
				y.Elem().Set(clone(v))
				switch form {
				case 0:
					x.Elem().Field(1).Set(y)
				case 1:
					x.Elem().Field(0).Set(y)
				case 2:
					x.Elem().Index(1).Set(y)
					z := reflect.New(e)
					z.Elem().Set(clone(v))
					x.Elem().Index(0).Set(z)
				case 3:
					x.Elem().Field(0).Set(reflect.ValueOf([]interface{}{y.Interface()}))
				}
				return
			}
			x, _ := mk(v)
			if form == 3 {
				// only values of the own types need no count of theirs
				if u := custom(e); u != nil && u.counted {
					c.Skip()
				}
			}
			b, _, ok := encode(x.Elem())
			if !ok || form == 1 && (noBytes(e) || len(b) == 2) {
				c.Skip()
			}
			if form == 1 && !readable(t, false, map[reflect.Type]bool{}) || !readable(e, false, map[reflect.Type]bool{}) {
				c.Skip()
			}
			if form == 1 && uncounted(x.Elem(), false) {
				c.Skip()
			}
			f, y := mk(old)
			c.Note("type %v, %s over %s, encoded as % x", t, show(v), show(old), b)
			err := marshal.Read(b, f.Interface())
			c.Op(1)
			c.Check(err == nil, "Read of [%s] into a used %v: %v", hex(b), t, err)
			c.Check(same(y.Elem(), v), "Read of [%s] into a used %v leaves %s where its pointer points, want %s", hex(b), t, show(y.Elem()), show(v))
			if form != 3 {
				c.Check(same(f.Elem(), x.Elem()), "Read of [%s] into a used %v gives %s, want %s", hex(b), t, show(f.Elem()), show(x.Elem()))
			}
		},
	})
	add(enum.Scenario{
		Name:  "C21.prepared",
		Doc:   "tuples read into slices passed by value, which are filled with as many fields as they have places",
		Quick: "tuples of 0..4 fields of 13 types, 0..4 places; single byte strings of sizes 0..3 into 0..3 prepared bytes; whole and truncated; alone, with a size, as results, in lists of destinations",
		Run: func(c *enum.C) {
			types := []reflect.Type{tu16, ti32, tu64, typ(float32(0)), tstr, tbytes, sl(tu16), sl(tstr), typ([2]int32{}), structOf(tu8, "", tstr, ""), typ(two1{}), typ(two4{}), typ(str2{})}
			k := c.Pick(len(types) + 1)
			n, m := c.Pick(5), c.Pick(5)
			var b []byte
			var dst, want reflect.Value
			bad := ""
			if k == len(types) {
				s := []byte{1, 2, 3, 4}[:n]
				b = tuple(nil, reflect.ValueOf(s))
				dst = reflect.ValueOf(make([]byte, m))
				want = reflect.ValueOf(s)
				if m != n {
					bad = "sizes differ"
				}
			} else {
				t := types[k]
				set := values(t, short)
				s := reflect.MakeSlice(sl(t), n, n)
				for i := 0; i < n; i++ {
					s.Index(i).Set(set[len(set)-1-i%len(set)])
				}
				if !fitted(func() { b = tuple(nil, s) }) {
					c.Skip()
				}
				dst = reflect.MakeSlice(sl(t), m, m)
				if m > n {
					bad = "too few fields"
				} else {
					want = s.Slice(0, m)
				}
			}
			full := len(b)
			b = b[:c.Pick(len(b)+1)]
			form := c.Pick(4)
			c.Note("%d places of %v, input % x, form %d", m, dst.Type(), b, form)
			if bad == "" {
				_, bad = attempt(b, func(d *dec) {
					d.number("i32")
					for i := 0; i < m && (k < len(types) || i == 0); i++ {
						d.take(d.number("ber"))
					}
				})
			}
			if k == len(types) && len(b) < full {
				bad = "cut"
			}
			var err error
			switch form {
			case 0:
				r := marshal.Reader{Body: append([]byte(nil), b...)}
				err = sbox.ReadRawTuple(&r, dst.Interface())
			case 1:
				if len(b) < 4 {
					c.Skip()
				}
				r := marshal.Reader{Body: append(append(le.AppendUint32(nil, uint32(len(b)-4)), b...), trailer...)}
				err = sbox.ReadSizedTuple(&r, dst.Interface())
				c.Check(err != nil || bytes.Equal(r.Body, trailer), "ReadSizedTuple of [%s] leaves [%s]", hex(b), hex(r.Body))
			case 2:
				if len(b) < 4 {
					c.Skip()
				}
				var read bool
				var total int
				read, total, err = sbox.ReadFirst(append(le.AppendUint32([]byte{1, 0, 0, 0}, uint32(len(b)-4)), b...), dst.Interface())
				c.Check(read && total == 1, "ReadFirst of one tuple gives %v, %d", read, total)
			case 3:
				if len(b) < 4 || k == len(types) {
					c.Skip()
				}
				one := append(le.AppendUint32(nil, uint32(len(b)-4)), b...)
				var read, total int
				// a slice of slices, all prepared
				l := reflect.MakeSlice(sl(dst.Type()), 1, 1)
				l.Index(0).Set(dst)
				if !l.Index(0).CanSet() {
					c.Skip()
				}
				read, total, err = sbox.ReadMany(append([]byte{1, 0, 0, 0}, one...), l.Interface())
				// its places are set, whatever they hold
				n := 0
				_, bad = attempt(b, func(d *dec) {
					n = d.number("i32")
					if n > len(d.b) {
						d.fail("more fields than bytes")
					}
					for i := 0; i < n; i++ {
						d.take(d.number("ber"))
					}
				})
				c.Check(err != nil || read == 1 && total == 1, "ReadMany of one tuple gives %d, %d", read, total)
				c.Check((err == nil) == (bad == ""), "ReadMany of [%s] gives %v (%s)", hex(one), err, bad)
				if err == nil {
					v := l.Index(0)
					c.Check(v.Len() == n, "ReadMany of [%s] makes %d fields, want %d", hex(one), v.Len(), n)
				}
				return
			}
			c.Op(1)
			if bad != "" {
				c.Check(err != nil, "reading [%s] into %d prepared places gives no error (%s)", hex(b), m, bad)
				return
			}
			c.Check(err == nil, "reading [%s] into %d prepared places: %v", hex(b), m, err)
			c.Check(same(dst, want), "reading [%s] into %d prepared places gives %s, want %s", hex(b), m, show(dst), show(want))
		},
	})
	add(enum.Scenario{
		Name:  "C18.references",
		Doc:   "values that write and read themselves through a reference they hold, in fields with all tags, lists and interfaces",
		Quick: "short and long interfaces x {none, cnt, size in 5 widths, rest of the body, in a slice, in an interface} x 3 contents; also with a wrong size (an error)",
		Run: func(c *enum.C) {
			x := nums(c)
			long := c.Bool()
			mk := func(l []uint16) reflect.Value {
				if long {
					n := num2(append([]uint16{}, l...))
					return reflect.ValueOf(ref2{&n})
				}
				n := num1(append([]uint16{}, l...))
				return reflect.ValueOf(ref1{&n})
			}
			content := func(v reflect.Value) []uint16 {
				if long {
					return []uint16(*v.Interface().(ref2).P)
				}
				return []uint16(*v.Interface().(ref1).P)
			}
			t := mk(nil).Type()
			var body []byte
			for _, u := range x {
				body = append(body, byte(u>>8), byte(u))
			}
			how := c.Pick(14)
			var f reflect.Type
			var want []byte
			tail := false
			switch {
			case how == 0:
				f = structOf(t, "", typ(uint8(0)), "")
				want = append(number(nil, "i32", len(x)), body...)
			case how <= 5:
				w := widths[how-1]
				f = structOf(t, tg("cnt("+w+")"), typ(uint8(0)), "")
				want = append(number(nil, w, len(x)), body...)
			case how <= 10:
				w := widths[how-6]
				f = structOf(t, tg("size("+w+")"), typ(uint8(0)), "")
				want = append(number(nil, w, len(body)), body...)
			case how == 11:
				f = structOf(t, tg("size(no)"))
				want, tail = body, true
			case how == 12:
				f = structOf(reflect.ArrayOf(1, t), "", typ(uint8(0)), "")
				want = append(number(nil, "i32", len(x)), body...)
			case how == 13:
				f = structOf(typ(struct{ I interface{} }{}).Field(0).Type, tg("cnt(i8)"), typ(uint8(0)), "")
				want = append(number(nil, "i8", len(x)), body...)
				if len(x) == 0 {
					c.Skip()
				}
			}
			put := func(l []uint16) reflect.Value {
				s := reflect.New(f)
				if how == 12 {
					s.Elem().Field(0).Index(0).Set(mk(l))
				} else {
					s.Elem().Field(0).Set(mk(l))
				}
				if !tail {
					s.Elem().Field(1).SetUint(9)
				}
				return s
			}
			if !tail {
				want = append(want, 9)
			}
			s := put(x)
			var got []byte
			if tail {
				got = marshal.WriteTail(s.Interface())
			} else {
				got = marshal.Write(s.Interface())
			}
			c.Op(1)
			c.Check(bytes.Equal(got, want), "writing %v holding %v gives [%s], want [%s]", f, x, hex(got), hex(want))
			b := put([]uint16{1, 2})
			var err error
			if tail {
				err = marshal.ReadTail(want, b.Interface())
			} else {
				err = marshal.Read(want, b.Interface())
			}
			c.Op(1)
			c.Check(err == nil, "reading [%s] into %v: %v", hex(want), f, err)
			if err == nil {
				v := b.Elem().Field(0)
				if how == 12 {
					v = v.Index(0)
				}
				if how == 13 {
					v = v.Elem()
				}
				y := content(v)
				c.Check(fmt.Sprint(y) == fmt.Sprint(x), "reading [%s] into %v gives %v, want %v", hex(want), f, y, x)
			}
			// sizes that do not fit
			if how >= 6 && how <= 11 {
				bad := append([]byte{}, body...)
				bad = append(bad, 1)
				in := bad
				if !tail {
					in = append(append(number(nil, widths[how-6], len(bad)), bad...), 9)
				}
				b := put(nil)
				if tail {
					err = marshal.ReadTail(in, b.Interface())
				} else {
					err = marshal.Read(in, b.Interface())
				}
				c.Check(err != nil, "reading [%s] into %v gives no error", hex(in), f)
			}
		},
	})
	add(enum.Scenario{
		Name:  "C19.lists",
		Doc:   "prepared lists and slices with counts, sizes and bodies that do not fit: errors, no crash",
		Quick: "lists of 0..3 readers of both interfaces, of pointers in interfaces, and slices passed by value; announced counts 0..4 and 2^32-1; all truncations",
		Run: func(c *enum.C) {
			n := c.Pick(4)
			kind := c.Pick(3)
			mk := func() (interface{}, interface{}) {
				switch kind {
				case 0:
					s := make([]marshal.IReader, n)
					for i := range s {
						s[i] = &two4{}
					}
					return s, &s
				case 1:
					s := make([]marshal.IShortReader, n)
					for i := range s {
						s[i] = &two2{}
					}
					return s, &s
				}
				s := make([]interface{}, n)
				for i := range s {
					s[i] = new(uint16)
				}
				return s, &s
			}
			k := c.Pick(6)
			cnt := uint32(k)
			if k == 5 {
				cnt = 1<<32 - 1
			}
			full := le.AppendUint32(nil, cnt)
			for i := 0; i < 2*k; i++ {
				full = append(full, byte(i+1))
			}
			cut := c.Pick(len(full) + 1)
			in := full[:cut]
			c.Note("list of %d kind %d count %d input % x", n, kind, cnt, in)
			fits := uint32(n) == cnt && len(in) >= 4+2*n
			_, p := mk()
			r := marshal.Reader{Body: append([]byte{}, in...)}
			err := r.Read(p)
			c.Op(1)
			c.Check((err == nil) == fits && (r.Err == nil) == fits, "Read of [%s] into a list of %d: error %v", hex(in), n, err)
			if fits {
				c.Check(len(r.Body) == len(in)-4-2*n && r.Done() == (len(r.Body) == 0), "Read of [%s] into a list of %d leaves %d bytes", hex(in), n, len(r.Body))
				c.Check((r.Error() == nil) == (len(r.Body) == 0), "%d bytes are left, Error() gives %v", len(r.Body), r.Error())
			} else {
				c.Check(!r.Done() && r.Error() != nil, "after an error Done() is %v, Error() is %v", r.Done(), r.Error())
				left := len(r.Body)
				var x uint8
				y := []uint16{0}
				c.Check(r.Read(&x) != nil && r.Read(y) != nil && r.ReadTail(&y) != nil && r.ReadWithSize(&x, nil) != nil && r.ReadValueAuto(reflect.ValueOf(&x).Elem()) != nil && r.ReadValueFixed(reflect.ValueOf(y)) != nil && r.ReadValueWithSize(reflect.ValueOf(&x).Elem(), nil) != nil && len(r.Body) == left, "after an error the reader goes on")
			}
			in = full[:cut]
			if cut >= 4 {
				in = full[4:cut]
			}
			s, _ := mk()
			fits = len(in) == 2*n
			err = marshal.ReadTail(in, s)
			c.Check((err == nil) == fits, "ReadTail of [%s] into a list of %d: error %v", hex(in), n, err)
			// a slice passed by value
			y := make([]uint16, n)
			err = marshal.ReadTail(in, y)
			c.Check((err == nil) == fits, "ReadTail of [%s] into %d elements: error %v", hex(in), n, err)
			r = marshal.Reader{Body: append([]byte{}, in...)}
			err = r.Read(y)
			c.Check((err == nil) == (len(in) >= 2*n), "Read of [%s] into %d elements: error %v", hex(in), n, err)
			// with a size
			z := make([]byte, n)
			for i, t := range []interface{}{z, make([]int8, n), &z} {
				in := append(number(nil, "i16", k), full[4:min(len(full), 4+cut)]...)
				r = marshal.Reader{Body: in}
				err = r.ReadWithSize(t, (*marshal.Reader).IntUint16)
				fits = (k == n || i == 2) && len(in) >= 2+k
				c.Check((err == nil) == fits && (r.Err == nil) == fits, "reading [%s] with a size into %T of %d: error %v", hex(in), t, n, err)
			}
		},
	})
}

// clone copies v with all it refers to.
func clone(v reflect.Value) reflect.Value {
	w := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			w.Set(reflect.New(v.Type().Elem()))
			w.Elem().Set(clone(v.Elem()))
		}
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice {
			w.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
		}
		for i := 0; i < v.Len(); i++ {
			w.Index(i).Set(clone(v.Index(i)))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			w.Field(i).Set(clone(v.Field(i)))
		}
	default:
		w.Set(v)
	}
	return w
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// fixedSize: all values of t have as many bytes.
func fixedSize(t reflect.Type) bool {
	if custom(t) != nil {
		return false
	}
	switch t.Kind() {
	case reflect.Array:
		return fixedSize(t.Elem())
	case reflect.Slice, reflect.String, reflect.Struct, reflect.Ptr:
		return false
	}
	return true
}
