package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	"verif/seq/enum"
)

func structOf(fields ...interface{}) reflect.Type {
	var l []reflect.StructField
	for i := 0; i < len(fields); i += 2 {
		l = append(l, reflect.StructField{Name: fmt.Sprintf("F%d", len(l)), Type: fields[i].(reflect.Type), Tag: reflect.StructTag(fields[i+1].(string))})
	}
	return reflect.StructOf(l)
}

func tg(s string) string {
	if s == "" {
		return ""
	}
	return `iproto:"` + s + `"`
}

func isUint(t reflect.Type) bool {
	return t.Kind() >= reflect.Uint8 && t.Kind() <= reflect.Uint64 && custom(t) == nil
}

// countable: types that cnt() may be applied to.
func countable(t reflect.Type) bool {
	if u := custom(t); u != nil {
		return u.counted
	}
	return t.Kind() != reflect.Ptr || countable(t.Elem())
}

var widths = []string{"ber", "i8", "i16", "i32", "i64"}

// tags lists the tags that may be applied to a field of type t.
func tags(t reflect.Type) (l []string) {
	ptr := t.Kind() == reflect.Ptr
	mods := []string{""}
	ber := isUint(t)
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array:
		ber = isUint(t.Elem())
	}
	if custom(t) != nil {
		ber = false
	}
	if ber {
		mods = append(mods, "ber")
	}
	for _, m := range mods {
		add := func(s string) {
			switch {
			case m == "":
				l = append(l, s)
			case s == "":
				l = append(l, m)
			default:
				l = append(l, s+","+m)
				if strings.HasSuffix(s, "(i16)") {
					l = append(l, m+","+s)
				}
			}
		}
		add("")
		for _, w := range widths {
			add("size(" + w + ")")
			if countable(t) {
				add("cnt(" + w + ")")
			}
		}
		if !ptr || m == "" {
			add("size(no)")
		}
		if m == "" {
			add("cnt(no)")
			add("skip")
		}
	}
	return
}

func set(t reflect.Type, x interface{}) reflect.Value {
	v := reflect.New(t).Elem()
	v.Set(reflect.ValueOf(x).Convert(t))
	return v
}

// level of detail of value sets
const (
	short = iota
	long
)

// values lists values of t; all of them are addressable.
func values(t reflect.Type, level int) (l []reflect.Value) {
	add := func(x interface{}) { l = append(l, set(t, x)) }
	if t == typ(str1{}) || t == typ(str2{}) || t == typ(str3{}) || t == typ(str4{}) {
		for _, s := range []string{"", "ab"} {
			v := reflect.New(t).Elem()
			v.Field(0).SetString(s)
			l = append(l, v)
		}
		return
	}
	switch t.Kind() {
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n := t.Bits()
		add(int64(-2))
		add(int64(0x0807060504030201) >> (64 - n))
		if level == long {
			add(int64(0))
			add(int64(-1) << (n - 1))
			add(int64(1)<<(n-1) - 1)
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n := t.Bits()
		add(uint64(0x80))
		add(uint64(0x0807060504030281) >> (64 - n))
		if level == long {
			add(uint64(0))
			add(uint64(0x7f))
			add(uint64(math.MaxUint64) >> (64 - n))
		}
	case reflect.Float32, reflect.Float64:
		add(1.5)
		add(-2e-3)
		if level == long {
			add(math.Inf(-1))
			add(math.Copysign(0, -1))
			add(math.NaN())
		}
	case reflect.String:
		add("")
		add("q\x00\xff")
		if level == long {
			add("z")
		}
	case reflect.Slice:
		e := values(t.Elem(), level)
		for n := 0; n <= 2+level; n++ {
			for k := 0; k < len(e); k++ {
				s := reflect.MakeSlice(t, n, n)
				for i := 0; i < n; i++ {
					s.Index(i).Set(e[(k+i)%len(e)])
				}
				v := reflect.New(t).Elem()
				v.Set(s)
				l = append(l, v)
				if n == 0 || level == short && k == 1 {
					break
				}
			}
		}
	case reflect.Array:
		e := values(t.Elem(), level)
		for k := range e {
			v := reflect.New(t).Elem()
			for i := 0; i < t.Len(); i++ {
				v.Index(i).Set(e[(k+i)%len(e)])
			}
			l = append(l, v)
			if t.Len() == 0 {
				break
			}
		}
	case reflect.Ptr:
		l = append(l, reflect.New(t).Elem())
		for _, e := range values(t.Elem(), level) {
			v := reflect.New(t).Elem()
			v.Set(e.Addr())
			l = append(l, v)
		}
	case reflect.Struct:
		var f [][]reflect.Value
		max, all := 1, 1
		for i := 0; i < t.NumField(); i++ {
			x := values(t.Field(i).Type, level)
			if len(x) > max {
				max = len(x)
			}
			all *= len(x)
			f = append(f, x)
		}
		if all > 12 {
			all = 0
		} else {
			max = all
		}
		for k := 0; k < max; k++ {
			v := reflect.New(t).Elem()
			div := 1
			for i, x := range f {
				j := k + i
				if all > 0 {
					j = k / div
					div *= len(x)
				}
				v.Field(i).Set(x[j%len(x)])
			}
			l = append(l, v)
		}
	default:
		panic(t.String())
	}
	return
}

// fieldTypes: leaves, and arrays, slices and pointers of them.
func fieldTypes(l []reflect.Type) (r []reflect.Type) {
	for _, t := range l {
		r = append(r, t, reflect.ArrayOf(0, t), reflect.ArrayOf(2, t), reflect.SliceOf(t), reflect.PtrTo(t))
	}
	return
}

var cache = map[reflect.Type][]reflect.Value{}

// value picks a value of t.
func value(c *enum.C, t reflect.Type, level int) reflect.Value {
	l := cache[t]
	if l == nil {
		l = values(t, level)
		cache[t] = l
	}
	return l[c.Pick(len(l))]
}

// wrap puts t into a larger type.
func wrap(k int, t reflect.Type) reflect.Type {
	u8, u16 := typ(uint8(0)), typ(uint16(0))
	switch k {
	case 1:
		return structOf(u8, "", t, tg("size(ber)"), u16, "")
	case 2:
		return structOf(reflect.SliceOf(t), tg("size(i16)"), u8, "")
	case 3:
		return reflect.SliceOf(t)
	case 4:
		return structOf(t, "", reflect.ArrayOf(2, t), tg("size(i32)"), t, tg("cnt(ber)"))
	case 5:
		return structOf(reflect.PtrTo(t), tg("size(ber)"), reflect.SliceOf(reflect.PtrTo(t)), tg("cnt(i8)"), u8, "")
	case 6:
		return structOf(u8, "", t, tg("size(no)"))
	}
	return t
}
