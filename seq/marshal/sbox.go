package main

import (
	"bytes"
	"math"
	"reflect"
	"strings"

	"github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/marshal"
	"github.com/funny-falcon/go-iproto/sbox"
	"verif/seq/enum"
)

// The tuple layout: a 32-bit number of fields, each with a variable-length
// size and its bytes.

const (
	noTail = iota
	tail
	tailSplit
)

func tailKind(f reflect.StructField) int {
	switch f.Tag.Get("sbox") {
	case "tail":
		return tail
	case "tailsplit":
		return tailSplit
	}
	return noTail
}

func isBytes(t reflect.Type) bool {
	return (t.Kind() == reflect.Slice || t.Kind() == reflect.Array) && t.Elem().Kind() == reflect.Uint8
}

// body encodes the bytes of one field.
func body(v reflect.Value, ber bool) []byte {
	return field(nil, v, tag{size: "ber", ber: ber})
}

// noField: fields of this type and tag have no bytes and take no part.
func noField(f reflect.StructField) bool {
	g := parse(f)
	return g.skip || g.size == "" && g.cnt == "" && noBytes(f.Type)
}

// fields encodes the fields of a tuple.
func tupleFields(v reflect.Value) (l [][]byte) {
	switch t := v.Type(); t.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			panic(unfit{})
		}
		return tupleFields(v.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f, fv := t.Field(i), v.Field(i)
			if noField(f) {
				continue
			}
			g := parse(f)
			switch tailKind(f) {
			case tail:
				for j := 0; j < fv.Len(); j++ {
					l = append(l, body(fv.Index(j), g.ber))
				}
			case tailSplit:
				for j := 0; j < fv.Len(); j++ {
					l = append(l, tupleFields(fv.Index(j))...)
				}
			default:
				l = append(l, body(fv, g.ber))
			}
		}
		return
	case reflect.Array, reflect.Slice:
		if !isBytes(t) {
			for i := 0; i < v.Len(); i++ {
				l = append(l, body(v.Index(i), false))
			}
			return
		}
	}
	return [][]byte{body(v, false)}
}

func tuple(b []byte, v reflect.Value) []byte {
	l := tupleFields(v)
	b = le.AppendUint32(b, uint32(len(l)))
	for _, f := range l {
		b = append(b, f...)
	}
	return b
}

// fitted runs f and tells whether its values can be encoded.
func fitted(f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unfit); !is {
				panic(r)
			}
			ok = false
		}
	}()
	f()
	return true
}

// field reads one field.
func (d *dec) field(v reflect.Value, ber bool) {
	n := d.number("ber")
	sub := dec{b: d.take(n)}
	if n == 0 && v.Kind() == reflect.Interface {
		v.Set(reflect.Zero(v.Type()))
		return
	}
	sub.tail(v, ber)
	if len(sub.b) > 0 {
		d.fail("size does not fit")
	}
}

// tuple reads a tuple into v.
func (d *dec) tuple(v reflect.Value) {
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			v.Set(reflect.New(v.Type().Elem()))
		}
		d.tuple(v.Elem())
		return
	}
	n := d.number("i32")
	switch t := v.Type(); t.Kind() {
	case reflect.Struct:
		if n > len(d.b) {
			d.fail("more fields than bytes")
		}
		for i := 0; i < t.NumField(); i++ {
			f, fv := t.Field(i), v.Field(i)
			if noField(f) {
				continue
			}
			g := parse(f)
			switch tailKind(f) {
			case tail:
				if n < 0 {
					return
				}
				fv.Set(reflect.MakeSlice(f.Type, n, n))
				for j := 0; j < n; j++ {
					d.field(fv.Index(j), g.ber)
				}
			case tailSplit:
				if n < 0 {
					return
				}
				var in []int
				for j := 0; j < f.Type.Elem().NumField(); j++ {
					if !noField(f.Type.Elem().Field(j)) {
						in = append(in, j)
					}
				}
				k := n / len(in)
				fv.Set(reflect.MakeSlice(f.Type, k, k))
				for j := 0; j < k; j++ {
					for _, x := range in {
						d.field(fv.Index(j).Field(x), parse(f.Type.Elem().Field(x)).ber)
					}
				}
			default:
				if n--; n >= 0 {
					d.field(fv, g.ber)
				}
			}
		}
		return
	case reflect.Array, reflect.Slice:
		if isBytes(t) {
			break
		}
		if t.Kind() == reflect.Slice {
			if n > len(d.b) {
				d.fail("more fields than bytes")
			}
			v.Set(reflect.MakeSlice(t, n, n))
		} else if n < v.Len() {
			d.fail("too few fields")
		}
		for i := 0; i < v.Len(); i++ {
			d.field(v.Index(i), false)
		}
		return
	}
	if n < 1 {
		d.fail("no field")
	}
	d.field(v, false)
}

// attempt runs f on a decoder of b and returns why b is malformed.
func attempt(b []byte, f func(d *dec)) (d *dec, why string) {
	d = &dec{b: b}
	defer func() {
		if r := recover(); r != nil {
			m, is := r.(malformed)
			if !is {
				panic(r)
			}
			why = m.why
		}
	}()
	f(d)
	return
}

func tagged2(f ...interface{}) reflect.Type {
	for i := 1; i < len(f); i += 2 {
		s := f[i].(string)
		if j := strings.Index(s, "tail"); j >= 0 {
			g := `sbox:"` + s[j:] + `"`
			if j > 0 {
				g = tg(s[:j-1]) + " " + g
			}
			f[i] = g
		} else {
			f[i] = tg(s)
		}
	}
	return structOf(f...)
}

var (
	tu8, tu16, tu32, tu64, tstr, tbytes = typ(uint8(0)), typ(uint16(0)), typ(uint32(0)), typ(uint64(0)), typ(""), typ([]byte{})
	ti32                                = typ(int32(0))
)

func sl(t reflect.Type) reflect.Type { return reflect.SliceOf(t) }

// tupleTypes lists types of tuples.
func tupleTypes() (l []reflect.Type) {
	var plainLeaves []reflect.Type
	for _, t := range leaves {
		if custom(t) == nil {
			plainLeaves = append(plainLeaves, t)
		}
	}
	l = append(l, plainLeaves...)
	for _, t := range append(plainLeaves[:len(plainLeaves):len(plainLeaves)], typ(two1{}), typ(two4{}), typ(str2{}), typ(num1{}), sl(tu16), structOf(tu8, "", tstr, "")) {
		l = append(l, sl(t), reflect.ArrayOf(2, t), sl(reflect.PtrTo(t)), tagged2(t, ""), tagged2(t, "", tu8, ""), tagged2(sl(t), "tail"), tagged2(tu32, "", sl(t), "tail"))
	}
	fields := []reflect.Type{tu8, tu64, tstr, tbytes, sl(tu16), reflect.ArrayOf(2, tu8), reflect.PtrTo(tu32), structOf(tu8, "", tstr, ""), typ(two2{}), typ(num2{}), sl(tstr)}
	for _, a := range fields {
		for _, b := range fields {
			l = append(l, tagged2(a, "", b, ""), tagged2(sl(structOf(a, "", b, "")), "tailsplit"))
			if a.Kind() != reflect.Ptr {
				l = append(l, tagged2(a, "size(i8)", b, "", tu8, "skip", sl(b), "tail"), tagged2(a, "", sl(structOf(b, "", tu16, tg("ber"), tstr, tg("skip"))), "tailsplit"))
			}
		}
	}
	l = append(l,
		tagged2(tu32, "ber", tu8, "ber"), tagged2(sl(tu32), "ber", tu8, ""), tagged2(reflect.ArrayOf(2, tu32), "ber"), tagged2(tu8, "", sl(tu32), "ber,tail"),
		tagged2(tu8, "cnt(i8)", sl(tu32), "cnt(ber)", tstr, "size(i32)"),
		tagged2(tu8, "skip", tu16, "", sl(tu32), "tail"), tagged2(tu8, "", tu16, "skip", sl(structOf(tu8, tg("skip"), tu32, "", tstr, "")), "tailsplit"),
		tagged2(tagged2(tu8, "", tu16, ""), "", tu8, ""), tagged2(typ([0]uint8{}), "", tu8, ""), tagged2(typ(struct{}{}), "size(i8)", tu8, ""),
		structOf(), reflect.PtrTo(tu32), reflect.PtrTo(sl(tstr)), reflect.PtrTo(structOf(tu8, "", tstr, "")), sl(sl(sl(tu8))), reflect.ArrayOf(3, tstr), reflect.ArrayOf(0, tu32))
	return
}

func box(add func(enum.Scenario)) {
	types := tupleTypes()
	add(enum.Scenario{
		Name:  "C21.tuples",
		Doc:   "tuples of every type: layout, and reading them back alone, with a size, and as results",
		Quick: "leaf types; slices, arrays, pointer slices, one- and two-field structs and tails of 24 types; structs, tails and split tails of all pairs of 11 types; tags size, cnt, ber, skip; value sets: long for simple ones, short for pairs",
		Run: func(c *enum.C) {
			t := types[c.Pick(len(types))]
			level := short
			if c.Deep || t.Kind() != reflect.Struct {
				level = long
			}
			v := value(c, t, level)
			var want []byte
			if !fitted(func() { want = tuple(nil, v) }) {
				c.Skip()
			}
			c.Note("type %v value %s specified % x", t, show(v), want)
			written := func(how string, x interface{}) {
				var w marshal.Writer
				w.Uint8(9)
				sbox.WriteTuple(&w, x)
				b := w.Written()
				c.Op(1)
				c.Check(b[0] == 9 && bytes.Equal(b[1:], want), "%s of %v %s gives [%s], want [%s]", how, t, show(v), hex(b[1:]), hex(want))
			}
			written("WriteTuple", v.Interface())
			written("WriteTuple of a pointer", v.Addr().Interface())
			f := reflect.New(t)
			if d, why := attempt(want, func(d *dec) { d.tuple(f.Elem()) }); why != "" || len(d.b) > 0 || !same(f.Elem(), v) {
				c.Fail("specification is wrong: %v %s is encoded as [%s] and read as %s (%s)", t, show(v), hex(want), show(f.Elem()), why)
			}
			got := func(how string, f reflect.Value, err error) {
				c.Op(1)
				c.Check(err == nil, "%s of [%s] into %v: %v", how, hex(want), t, err)
				c.Check(same(f.Elem(), v), "%s of [%s] into %v gives %s, want %s", how, hex(want), t, show(f.Elem()), show(v))
				if appendAll(f.Elem()) > 0 {
					c.Check(same(f.Elem(), v), "%s of [%s] into %v gives byte strings that overwrite each other when they are appended to", how, hex(want), t)
				}
			}
			f = reflect.New(t)
			r := marshal.Reader{Body: append(append([]byte(nil), want...), trailer...)}
			err := sbox.ReadRawTuple(&r, f.Interface())
			got("ReadRawTuple", f, err)
			c.Check(bytes.Equal(r.Body, trailer), "ReadRawTuple of [%s] into %v leaves [%s]", hex(want), t, hex(r.Body))
			if l := cache[t]; len(l) > 1 && t.Kind() != reflect.Array {
				for _, u := range []reflect.Value{l[0], l[len(l)-1]} {
					var b []byte
					if !fitted(func() { b = tuple(nil, u) }) || t.Kind() == reflect.Ptr && u.IsNil() {
						continue
					}
					f = reflect.New(t)
					sbox.ReadRawTuple(&marshal.Reader{Body: append([]byte(nil), b...)}, f.Interface())
					err = sbox.ReadRawTuple(&marshal.Reader{Body: append([]byte(nil), want...)}, f.Interface())
					got("ReadRawTuple into a used target", f, err)
				}
			}
			sized := append(le.AppendUint32(nil, uint32(len(want)-4)), want...)
			r = marshal.Reader{Body: append(append([]byte(nil), sized...), trailer...)}
			f = reflect.New(t)
			err = sbox.ReadSizedTuple(&r, f.Interface())
			got("ReadSizedTuple", f, err)
			c.Check(bytes.Equal(r.Body, trailer), "ReadSizedTuple of [%s] into %v leaves [%s]", hex(want), t, hex(r.Body))
			f = reflect.New(t)
			result := append([]byte{1, 0, 0, 0}, sized...)
			read, total, err := sbox.ReadFirst(result, f.Interface())
			got("ReadFirst", f, err)
			c.Check(read && total == 1, "ReadFirst of one tuple gives %v %d", read, total)
		},
	})
	add(enum.Scenario{
		Name:  "C21.lists",
		Doc:   "tuples given as lists of mixed values, and read into lists of pointers",
		Quick: "0..3 values of 9 types or pointers to them, or nil; read into lists of pointers of the same or a smaller length",
		Run: func(c *enum.C) {
			n := c.Pick(4)
			var list, holes []interface{}
			want := le.AppendUint32(nil, uint32(n))
			var any interface{}
			ok := fitted(func() {
				for i := 0; i < n; i++ {
					v, h := something(c, &any)
					if n == 3 && i == 0 && !c.Deep && v.IsValid() && !v.IsNil() && v.Elem().Kind() != reflect.Int32 {
						c.Skip()
					}
					list = append(list, v.Interface())
					holes = append(holes, h.Interface())
					want = append(want, body(v, false)...)
				}
			})
			if !ok {
				c.Skip()
			}
			var w marshal.Writer
			sbox.WriteTuple(&w, list)
			b := w.Written()
			c.Op(1)
			c.Check(bytes.Equal(b, want), "WriteTuple of %d values gives [%s], want [%s]", n, hex(b), hex(want))
			sbox.WriteTuple(&w, &list)
			b = w.Written()
			c.Op(1)
			c.Check(bytes.Equal(b, want), "WriteTuple of a pointer to %d values gives [%s], want [%s]", n, hex(b), hex(want))
			k := c.Pick(n + 1)
			r := marshal.Reader{Body: want}
			err := sbox.ReadRawTuple(&r, holes[:k])
			c.Op(1)
			c.Check(err == nil, "ReadRawTuple of [%s] into %d of %d values: %v", hex(want), k, n, err)
			for i := range holes[:k] {
				a, b := deref(reflect.ValueOf(&list[i]).Elem()), deref(reflect.ValueOf(&holes[i]).Elem())
				if !a.IsValid() || a.Kind() == reflect.Interface || a.Kind() == reflect.Ptr {
					continue
				}
				c.Check(b.IsValid() && a.Type() == b.Type() && same(a, b), "value %d is read back from [%s] as %v", i, hex(want), b)
			}
			if n < 3 {
				r = marshal.Reader{Body: want}
				more := append(holes, new(uint8))
				c.Check(sbox.ReadRawTuple(&r, more) != nil, "ReadRawTuple of %d fields into %d values gives no error", n, n+1)
			}
		},
	})
	add(enum.Scenario{
		Name:  "C21.malformed",
		Doc:   "tuples cut off, with one byte changed, inserted or removed, read as every type: an error or what the layout says, no crash",
		Quick: "all tuple types, last value of the short sets (thorough: all), all truncations, bytes +1, ^0x80, 0xff, insertions of 0x81, removals (thorough: more)",
		Run: func(c *enum.C) {
			t := types[c.Pick(len(types))]
			if emptyElems(t) {
				c.Skip()
			}
			l := values(t, short)
			k := len(l) - 1
			if c.Deep {
				k = c.Pick(len(l))
			}
			var b []byte
			if !fitted(func() { b = tuple(nil, l[k]) }) {
				c.Skip()
			}
			b = mutate(c, b, !c.Deep)
			c.Note("type %v input % x", t, b)
			want, got := reflect.New(t), reflect.New(t)
			_, why := attempt(b, func(d *dec) { d.tuple(want.Elem()) })
			r := marshal.Reader{Body: append([]byte(nil), b...)}
			err := sbox.ReadRawTuple(&r, got.Interface())
			c.Op(1)
			if why != "" {
				c.Check(err != nil, "ReadRawTuple of [%s] into %v gives %s without an error (%s)", hex(b), t, show(got.Elem()), why)
			} else {
				c.Check(err == nil && same(got.Elem(), want.Elem()), "ReadRawTuple of [%s] into %v gives %s (error %v), want %s", hex(b), t, show(got.Elem()), err, show(want.Elem()))
			}
			m := marshal.Reader{Body: append(le.AppendUint32(nil, uint32(len(b)-4)), b...)}
			if len(b) >= 4 {
				got2 := reflect.New(t)
				err2 := sbox.ReadSizedTuple(&m, got2.Interface())
				c.Check((err2 != nil) == (err != nil) && same(got.Elem(), got2.Elem()), "ReadSizedTuple of [%s] into %v: %v, ReadRawTuple: %v", hex(b), t, err2, err)
			}
		},
	})
	add(enum.Scenario{
		Name:  "C21.results",
		Doc:   "results of several tuples, whole and truncated, read as the first tuple, and into values, arrays, slices and lists of destinations",
		Quick: "0..3 tuples of 10 types, optionally with one byte changed; ReadFirst into value, nil; ReadMany into *T, *[]T, *[2]T, []*T, [2]*T, lists of two and four destinations; after a reading that failed or not; announced counts n-1..n+1 and a huge one; all truncations",
		Run:   results,
	})
	add(enum.Scenario{
		Name:  "C21.select",
		Doc:   "select requests: number of keys, limit and keys for every form of keys",
		Quick: "keys: all tuple types and pointers to, slices and arrays of 0..2 of 20 of them, lists of up to 3 of 12 mixed keys; limits -3..1, 100, maximum; by value and by pointer",
		Run:   selects,
	})
	add(enum.Scenario{
		Name:  "C21.modify",
		Doc:   "store, delete, update and call requests",
		Quick: "tuples of 14 types; all flags; all modes; 0..2 operations of all kinds (as letters and as numbers) with values of 14 types, splices, nothing; calls with 0..2 arguments of lengths 0, 1, 127, 128, 300",
		Run:   modify,
	})
}

var resultTypes = []reflect.Type{ti32, tstr, tbytes, sl(tu16), typ([2]string{}), structOf(tu8, "", tstr, ""), tagged2(tu8, "", sl(tstr), "tail"), tagged2(sl(structOf(tu8, "", tstr, "")), "tailsplit"), sl(tbytes), reflect.PtrTo(structOf(tu8, "", tstr, ""))}

func results(c *enum.C) {
	t := resultTypes[c.Pick(len(resultTypes))]
	n := c.Pick(4)
	b := le.AppendUint32(nil, uint32(n))
	set := values(t, short)
	k := 0
	if t.Kind() == reflect.Ptr {
		set = set[1:]
	}
	if n > 0 {
		k = c.Pick(len(set))
	}
	var ends []int
	for i := 0; i < n; i++ {
		one := tuple(nil, set[(k+i)%len(set)])
		b = append(le.AppendUint32(b, uint32(len(one)-4)), one...)
		ends = append(ends, len(b))
	}
	total := n
	switch c.Pick(4) {
	case 0:
		b = b[:c.Pick(len(b)+1)]
	case 1:
		total = n + []int{-1, 1, 1<<31 - 1, 1<<32 - 1 - n}[c.Pick(4)]
		if total < 0 {
			c.Skip()
		}
		le.PutUint32(b, uint32(total))
	case 2:
		if n == 0 {
			c.Skip()
		}
		i := 4 + c.Pick(len(b)-4)
		b[i] += []byte{1, 0x80, 0xff}[c.Pick(3)]
	}
	in := append([]byte(nil), b...)
	c.Note("type %v, %d tuples, result % x", t, n, b)

	// one reads the next tuple of the result.
	one := func(d *dec, v reflect.Value) {
		sub := dec{b: d.take(d.number("i32") + 4)}
		sub.tuple(v)
	}
	defer func() { c.Check(bytes.Equal(in, b), "the result was changed") }()
	// an earlier reading that failed or was left half-way has no effect
	switch c.Pick(3) {
	case 1:
		var x uint32
		_, _, err := sbox.ReadFirst([]byte{1, 0, 0, 0, 2, 0, 0, 0, 1, 0, 0, 0, 1, 5}, &x)
		c.Check(err != nil, "ReadFirst of a byte into four gives no error")
	case 2:
		var x []string
		_, _, err := sbox.ReadMany([]byte{2, 0, 0, 0, 2, 0, 0, 0, 1, 0, 0, 0, 1, 5, 2, 0, 0, 0, 1, 0, 0, 0, 2, 5}, &x)
		c.Check(err != nil, "ReadMany of a cut tuple gives no error")
	}
	form := c.Pick(9)
	// the library reads []X and [N]X as lists of tuples, not as one tuple
	if (form == 2 || form == 7 || form == 8) && (t.Kind() == reflect.Slice || t.Kind() == reflect.Array) {
		c.Skip()
	}
	// lists of lists of lists are refused
	if form > 1 && t == sl(tbytes) {
		c.Skip()
	}
	switch form {
	case 0, 1:
		var p interface{}
		f, g := reflect.New(t), reflect.New(t)
		if form == 0 {
			p = f.Interface()
		}
		read, tot, err := sbox.ReadFirst(b, p)
		c.Op(1)
		want := 0
		_, why := attempt(b, func(d *dec) {
			if want = d.number("i32"); want > 0 {
				if form == 0 {
					one(d, g.Elem())
				} else {
					d.take(d.number("i32") + 4)
				}
			}
		})
		if why != "" {
			c.Check(err != nil, "ReadFirst of [%s] into %v gives no error (%s)", hex(b), t, why)
			break
		}
		c.Check(err == nil && read == (want > 0) && tot == want && same(f.Elem(), g.Elem()), "ReadFirst of [%s] into %v gives %s, %v, %d, %v, want %s", hex(b), t, show(f.Elem()), read, tot, err, show(g.Elem()))
	default:
		limit := math.MaxInt32
		var dst, want reflect.Value // what ReadMany is given; slice of the tuples expected
		var have func() reflect.Value
		st := sl(t)
		pt := reflect.PtrTo(t)
		want = reflect.New(st).Elem()
		switch form {
		case 2: // a value
			limit = 1
			dst = reflect.New(t)
			have = func() reflect.Value { return reflect.Append(reflect.Zero(st), dst.Elem()) }
		case 3: // a slice
			dst = reflect.New(st)
			have = func() reflect.Value { return dst.Elem() }
		case 4: // an array
			limit = 2
			dst = reflect.New(reflect.ArrayOf(2, t))
			have = func() reflect.Value { return dst.Elem().Slice(0, 2) }
		case 5, 6: // pointers
			limit = 2
			x := reflect.MakeSlice(sl(pt), 2, 2)
			a := reflect.New(reflect.ArrayOf(2, pt)).Elem()
			for i := 0; i < 2; i++ {
				x.Index(i).Set(reflect.New(t))
				a.Index(i).Set(x.Index(i))
			}
			dst = x
			if form == 6 {
				dst = a
			}
			have = func() reflect.Value {
				return reflect.Append(reflect.Zero(st), x.Index(0).Elem(), x.Index(1).Elem())
			}
		case 7: // a list of destinations: a value and a slice
			a, s := reflect.New(t), reflect.New(st)
			dst = reflect.ValueOf([]interface{}{a.Interface(), s.Interface()})
			have = func() reflect.Value {
				return reflect.AppendSlice(reflect.Append(reflect.Zero(st), a.Elem()), s.Elem())
			}
		case 8: // an array, prepared pointers, a slice used before and a value
			limit = 4
			a, x, s, y := reflect.New(reflect.ArrayOf(2, t)), reflect.MakeSlice(sl(pt), 2, 2), reflect.New(st), reflect.New(t)
			x.Index(0).Set(reflect.New(t))
			x.Index(1).Set(reflect.New(t))
			s.Elem().Set(reflect.Append(s.Elem(), reflect.Zero(t)))
			dst = reflect.ValueOf([]interface{}{a.Interface(), x.Interface(), s.Interface(), y.Interface()})
			have = func() reflect.Value {
				c.Check(s.Elem().Len() == 1, "ReadMany of [%s] changes a destination after the last tuple", hex(b))
				return reflect.Append(reflect.AppendSlice(reflect.Zero(st), a.Elem().Slice(0, 2)), x.Index(0).Elem(), x.Index(1).Elem())
			}
		}
		read, tot, err := sbox.ReadMany(b, dst.Interface())
		c.Op(1)
		wtot := 0
		_, why := attempt(b, func(d *dec) {
			wtot = d.number("i32")
			if (form == 3 || form == 7 && wtot > 1) && wtot > len(d.b) {
				d.fail("more tuples than bytes")
			}
			for i := 0; i < wtot && i < limit; i++ {
				v := reflect.New(t).Elem()
				one(d, v)
				want.Set(reflect.Append(want, v))
			}
		})
		if why != "" {
			c.Check(err != nil, "ReadMany of [%s] into %v gives no error (%s)", hex(b), dst.Type(), why)
			c.Check(read <= n, "ReadMany of [%s] into %v read %d tuples", hex(b), dst.Type(), read)
			break
		}
		c.Check(err == nil && read == want.Len() && tot == wtot, "ReadMany of [%s] into %v gives %d of %d, %v, want %d of %d", hex(b), dst.Type(), read, tot, err, want.Len(), wtot)
		h := have()
		c.Check(form != 3 || h.Len() == read, "ReadMany of [%s] into %v makes %d of %d", hex(b), dst.Type(), h.Len(), read)
		c.Check(h.Len() >= read && same(h.Slice(0, read), want), "ReadMany of [%s] into %v gives %s, want %s", hex(b), dst.Type(), show(h), show(want))
	}
}

// message checks a request encoding.
func message(c *enum.C, req interface{}, msg iproto.RequestType, want []byte) {
	c.Note("%T %+v specified % x", req, req, want)
	got := marshal.Write(req)
	c.Op(1)
	c.Check(bytes.Equal(got, want), "%T %+v is encoded as [%s], want [%s]", req, req, hex(got), hex(want))
	p := reflect.New(reflect.TypeOf(req))
	p.Elem().Set(reflect.ValueOf(req))
	got = marshal.WriteTail(p.Interface())
	c.Check(bytes.Equal(got, want), "%T %+v by pointer is encoded as [%s], want [%s]", req, req, hex(got), hex(want))
	m := req.(interface{ IMsg() iproto.RequestType }).IMsg()
	c.Check(m == msg, "%T is a request of type %d, want %d", req, m, msg)
}

var keyTypes, someKeys []reflect.Type

func initKeys() {
	if keyTypes != nil {
		return
	}
	keyTypes = tupleTypes()
	someKeys = append(scalars[:len(scalars):len(scalars)], tstr, tbytes, typ(nBytes{}), typ(nStr("")), typ(nU8(0)), typ([2]uint8{}), sl(tu32), sl(ti32), sl(tstr), sl(tbytes), sl(typ(nI64(0))), structOf(tu8, "", tstr, ""), tagged2(tu8, "", sl(tstr), "tail"), reflect.PtrTo(structOf(tu8, "", tstr, "")))
}

func selects(c *enum.C) {
	initKeys()
	types, some := keyTypes, someKeys
	var keys reflect.Value
	list := false
	kind := c.Pick(4)
	switch kind {
	case 0:
		keys = value(c, types[c.Pick(len(types))], short)
	case 1:
		t := some[c.Pick(len(some))]
		n := c.Pick(3)
		set := values(t, short)
		keys = reflect.New(sl(t)).Elem()
		keys.Set(reflect.MakeSlice(sl(t), n, n))
		k := 0
		if n > 0 {
			k = c.Pick(len(set))
		}
		for i := 0; i < n; i++ {
			keys.Index(i).Set(set[(k+i)%len(set)])
		}
	case 2:
		keys = value(c, reflect.ArrayOf(2, some[c.Pick(len(some))]), short)
	case 3:
		list = true
		n := c.Pick(4)
		l := []interface{}{}
		for i := 0; i < n; i++ {
			few := []reflect.Type{tu8, ti32, tu64, typ(float32(0)), tstr, tbytes, typ([2]int32{}), sl(ti32), typ([2]uint8{}), typ(nBytes{}), structOf(ti32, "", tstr, ""), reflect.PtrTo(structOf(ti32, "", tstr, ""))}
			t := few[c.Pick(len(few))]
			set := values(t, short)
			k := set[len(set)-1-i%len(set)].Interface()
			if i == 0 && c.Bool() {
				k = []interface{}{k, "more"}[:1+i%2]
			}
			l = append(l, k)
		}
		keys = reflect.ValueOf(&l).Elem()
	}
	ptr := c.Bool()
	k := keys
	for k.Kind() == reflect.Ptr {
		if k.IsNil() {
			c.Skip()
		}
		k = k.Elem()
	}
	if keys.Kind() == reflect.Ptr && ptr || list && ptr {
		c.Skip()
	}
	var items []reflect.Value
	if (k.Kind() == reflect.Slice || k.Kind() == reflect.Array) && !isBytes(k.Type()) {
		for i := 0; i < k.Len(); i++ {
			items = append(items, k.Index(i))
		}
	} else {
		items = append(items, k)
	}
	var b []byte
	for _, x := range items {
		for x.Kind() == reflect.Ptr || x.Kind() == reflect.Interface {
			if x.IsNil() {
				c.Skip()
			}
			x = x.Elem()
		}
		if custom(x.Type()) != nil {
			c.Skip()
		}
		if !fitted(func() { b = tuple(b, x) }) {
			c.Skip()
		}
	}
	limits := []int32{sbox.SelectN, sbox.SelectAll, -3, 0, 1, 100, math.MaxInt32}
	if kind != 1 && !c.Deep {
		limits = limits[:1]
	}
	limit := limits[c.Pick(len(limits))]
	want := le.AppendUint32(nil, 0x01020304)
	want = le.AppendUint32(want, 7)
	want = le.AppendUint32(want, 0xfffefdfc)
	switch {
	case limit >= 0:
		want = le.AppendUint32(want, uint32(limit))
	case limit == -2:
		want = le.AppendUint32(want, uint32(len(items)))
	default:
		want = le.AppendUint32(want, math.MaxInt32)
	}
	want = le.AppendUint32(want, uint32(len(items)))
	want = append(want, b...)
	req := sbox.SelectReq{Space: 0x01020304, Index: 7, Offset: 0xfffefdfc, Limit: limit, Keys: keys.Interface()}
	if ptr {
		req.Keys = keys.Addr().Interface()
	}
	message(c, req, 17, want)
}

func modify(c *enum.C) {
	types := []reflect.Type{tu8, ti32, tu64, typ(float64(0)), tstr, tbytes, typ(nStr("")), typ([2]uint8{}), sl(tu32), sl(tstr), structOf(tu8, "", tstr, ""), tagged2(tu8, "", sl(tstr), "tail"), tagged2(sl(structOf(tu8, "", tstr, "")), "tailsplit"), reflect.PtrTo(structOf(tu8, "", tstr, ""))}
	some := func() (interface{}, []byte) {
		v := value(c, types[c.Pick(len(types))], short)
		var b []byte
		if !fitted(func() { b = tuple(nil, v) }) {
			c.Skip()
		}
		return v.Interface(), b
	}
	space := uint32(0xa1b2c3d4)
	want := le.AppendUint32(nil, space)
	switch kind := c.Pick(4); kind {
	case 0:
		mode, ret := []sbox.InsertMode{sbox.InsertOrReplace, sbox.Insert, sbox.Replace}[c.Pick(3)], c.Bool()
		t, b := some()
		flags := map[sbox.InsertMode]uint32{sbox.InsertOrReplace: 0, sbox.Insert: 2, sbox.Replace: 4}[mode]
		if ret {
			flags |= 1
		}
		message(c, sbox.StoreReq{Space: space, Return: ret, Mode: uint16(mode), Tuple: t}, 13, append(le.AppendUint32(want, flags), b...))
	case 1:
		ret := c.Pick(2)
		t, b := some()
		message(c, sbox.DeleteReq{Space: space, Return: ret == 1, Key: t}, 21, append(le.AppendUint32(want, uint32(ret)), b...))
	case 2:
		ret := c.Pick(2)
		v := []interface{}{int32(-5), "key"}[c.Pick(2)]
		want = tuple(le.AppendUint32(want, uint32(ret)), reflect.ValueOf(v))
		n := c.Pick(3)
		want = le.AppendUint32(want, uint32(n))
		var ops []sbox.Op
		for i := 0; i < n; i++ {
			kinds := []sbox.OpKind{sbox.OpSet, sbox.OpAdd, sbox.OpAnd, sbox.OpOr, sbox.OpXor, sbox.OpSplice, sbox.OpDelete, sbox.OpInsert}
			k := c.Pick(len(kinds))
			op := sbox.Op{Field: uint32(0x10000+i) << 8, Op: kinds[k]}
			if c.Bool() {
				op.Op = sbox.OpKind(k)
			}
			if n == 2 && !c.Deep && k > 2 && i == 0 {
				c.Skip()
			}
			want = append(le.AppendUint32(want, op.Field), byte(k))
			vals := []interface{}{nil, int8(-3), uint8(200), int16(-300), uint16(0x102), int32(-7), uint32(0x1020304), int64(-9), uint64(1 << 60), float32(1.5), float64(-2.5), "", "text", []byte{1, 2, 3}, nStr("named"), nI64(77), bytes.Repeat([]byte{5}, 200), [3]uint8{1, 2, 3}, struct {
				A uint8
				B uint16
			}{1, 2},
				sbox.Slice{Offset: -2, Length: 300, Val: "cut"}, sbox.Slice{Offset: 1, Length: 2}, &sbox.Slice{Offset: 1, Length: 0, Val: []byte{7}}}
			op.Val = vals[c.Pick(len(vals))]
			if op.Val == nil {
				want = append(want, 0)
			} else {
				want = append(want, body(reflect.ValueOf(op.Val), false)...)
			}
			ops = append(ops, op)
		}
		message(c, sbox.UpdateReq{Space: space, Return: ret == 1, Key: v, Ops: ops}, 19, want)
	case 3:
		str := func() string { return strings.Repeat("x", []int{0, 1, 127, 128, 300}[c.Pick(5)]) }
		req := sbox.RPCReq{Name: str()}
		want = append(varint(make([]byte, 4), uint64(len(req.Name))), req.Name...)
		n := c.Pick(3)
		want = le.AppendUint32(want, uint32(n))
		for i := 0; i < n; i++ {
			s := str()
			req.Args = append(req.Args, s)
			want = append(varint(want, uint64(len(s))), s...)
		}
		message(c, req, 22, want)
	}
}
