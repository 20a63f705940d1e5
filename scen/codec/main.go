// Package main (group codec): several threads using the codecs at once.
package main

import (
	"fmt"

	"github.com/funny-falcon/go-iproto/marshal"
	"github.com/funny-falcon/go-iproto/sbox"
	"verif/mc"
)

var scenarios []mc.Scenario

// Types; tree and odd/even refer to themselves and to each other.

type flat struct {
	A uint8
	B string
	C []uint16
}

type tree struct {
	V    uint8
	Kids []tree
}

type odd struct {
	X    uint16
	Even []even
}

type even struct {
	Y   uint8
	Odd []odd
	F   flat
}

type sized struct {
	F flat `iproto:"size(i16)"`
	T tree `iproto:"size(ber)"`
}

type vars struct {
	N uint32   `iproto:"ber"`
	L []uint64 `iproto:"ber,cnt(i8)"`
}

// self encodes itself, with the help of another codec.
type self struct{ F *flat }

func (s self) IWrite(w *marshal.Writer) { w.Uint8(0xee); w.Write(s.F) }
func (s *self) IRead(r *marshal.Reader) {
	if r.Uint8() == 0xee {
		s.F = new(flat)
		r.Read(s.F)
	}
}

type row struct {
	Id   uint32
	F    flat
	Tail []tree `sbox:"tail"`
}

type pairs struct {
	Id uint8
	L  []pair `sbox:"tailsplit"`
}

type pair struct {
	K string
	V uint16
}

// Byte helpers: the layout by hand.
func cat(l ...interface{}) (b []byte) {
	for _, x := range l {
		switch x := x.(type) {
		case int: // one byte
			b = append(b, byte(x))
		case uint16:
			b = append(b, byte(x), byte(x>>8))
		case uint32:
			b = append(b, byte(x), byte(x>>8), byte(x>>16), byte(x>>24))
		case string: // with a 32-bit length
			b = append(b, byte(len(x)), byte(len(x)>>8), 0, 0)
			b = append(b, x...)
		case []byte:
			b = append(b, x...)
		}
	}
	return
}

func bFlat(f flat) []byte {
	b := cat(int(f.A), f.B, uint32(len(f.C)))
	for _, x := range f.C {
		b = cat(b, x)
	}
	return b
}

func bTree(t tree) []byte {
	b := cat(int(t.V), uint32(len(t.Kids)))
	for _, k := range t.Kids {
		b = cat(b, bTree(k))
	}
	return b
}

func bOdd(o odd) []byte {
	b := cat(o.X, uint32(len(o.Even)))
	for _, e := range o.Even {
		b = cat(b, int(e.Y), uint32(len(e.Odd)))
		for _, p := range e.Odd {
			b = cat(b, bOdd(p))
		}
		b = cat(b, bFlat(e.F))
	}
	return b
}

func fld(b []byte) []byte { return append([]byte{byte(len(b))}, b...) } // a field shorter than 128 bytes

func show(x interface{}) string { return fmt.Sprintf("%+v", x) }

// op is one use of a codec: a value (one of several, told apart by k) is
// encoded or decoded.
type op struct {
	name string
	do   func(k int) (got, want string, keep func() string)
}

func enc(name string, write func(interface{}) []byte, f func(k int) (interface{}, []byte)) op {
	return op{name, func(k int) (string, string, func() string) {
		v, want := f(k)
		b := write(v)
		more := append(b, 0xa5, byte(k), 0xa5, 0xa5) // what a caller may do with its result
		return show(b), show(want), func() string {
			if n := len(b); more[n] != 0xa5 || more[n+1] != byte(k) || more[n+2] != 0xa5 || more[n+3] != 0xa5 {
				return show(more)
			}
			return show(b)
		}
	}}
}

func dec(name string, read func([]byte, interface{}) error, f func(k int) (dst interface{}, b []byte, want string)) op {
	return op{name, func(k int) (string, string, func() string) {
		dst, b, want := f(k)
		if err := read(b, dst); err != nil {
			return "error " + err.Error(), want, func() string { return want }
		}
		show2 := func() string { return show(deref(dst)) }
		return show2(), want, show2
	}}
}

func deref(x interface{}) interface{} {
	switch x := x.(type) {
	case *flat:
		return *x
	case *tree:
		return *x
	case *odd:
		return *x
	case *sized:
		return *x
	case *vars:
		return *x
	case *self:
		if x.F == nil {
			return nil
		}
		return *x.F
	case *row:
		return *x
	case *[]pair:
		return *x
	case *pairs:
		return *x
	case *[]row:
		return *x
	case *uint8:
		return *x
	}
	return x
}

func vFlat(k int) flat {
	return flat{uint8(k), fmt.Sprint("string ", k), []uint16{uint16(k), 0x1234}}
}
func vTree(k int) tree { return tree{uint8(k), []tree{{V: 7}, {8, []tree{{V: uint8(k + 1)}}}}} }
func vOdd(k int) odd {
	return odd{uint16(k) << 8, []even{{uint8(k), []odd{{X: 3}}, vFlat(k)}}}
}
func bSized(k int) []byte {
	f, t := bFlat(vFlat(k)), bTree(vTree(k))
	return cat(uint16(len(f)), f, len(t), t)
}
func bRow(k int) []byte {
	t := vTree(k)
	return cat(uint32(4), fld(cat(uint32(k))), fld(bFlat(vFlat(k))), fld(bTree(t)), fld(bTree(t.Kids[1])))
}
func vRow(k int) row { return row{uint32(k), vFlat(k), []tree{vTree(k), vTree(k).Kids[1]}} }
func bPairs(k int) []byte {
	return cat(uint32(5), fld(cat(k)), fld([]byte("key")), fld(cat(uint16(k))), fld([]byte{}), fld(cat(uint16(9))))
}

func tuple(i interface{}) []byte {
	var w marshal.Writer
	sbox.WriteTuple(&w, i)
	return w.Written()
}
func readTuple(b []byte, i interface{}) error {
	r := marshal.Reader{Body: b}
	return sbox.ReadRawTuple(&r, i)
}

var ops = []op{
	enc("Write flat", marshal.Write, func(k int) (interface{}, []byte) { return vFlat(k), bFlat(vFlat(k)) }),
	enc("Write tree", marshal.Write, func(k int) (interface{}, []byte) { t := vTree(k); return &t, bTree(t) }),
	enc("Write odd", marshal.Write, func(k int) (interface{}, []byte) { return vOdd(k), bOdd(vOdd(k)) }),
	enc("Write even list", marshal.WriteTail, func(k int) (interface{}, []byte) {
		return vOdd(k).Even, bOdd(vOdd(k))[6:]
	}),
	enc("Write sized", marshal.Write, func(k int) (interface{}, []byte) {
		return sized{vFlat(k), vTree(k)}, bSized(k)
	}),
	enc("Write mixed list", marshal.WriteTail, func(k int) (interface{}, []byte) {
		return []interface{}{vFlat(k), vTree(k), uint8(k)}, cat(bFlat(vFlat(k)), bTree(vTree(k)), k)
	}),
	enc("Write vars", marshal.Write, func(k int) (interface{}, []byte) {
		return vars{300, []uint64{uint64(k), 200}}, cat(0x82, 0x2c, 2, k, 0x81, 0x48)
	}),
	enc("Write self", marshal.Write, func(k int) (interface{}, []byte) {
		f := vFlat(k)
		return self{&f}, cat(0xee, bFlat(f))
	}),
	enc("Tuple row", tuple, func(k int) (interface{}, []byte) { return vRow(k), bRow(k) }),
	enc("Tuple pairs", tuple, func(k int) (interface{}, []byte) {
		return &pairs{uint8(k), []pair{{"key", uint16(k)}, {"", 9}}}, bPairs(k)
	}),
	dec("Read flat", marshal.Read, func(k int) (interface{}, []byte, string) {
		return &flat{}, bFlat(vFlat(k)), show(vFlat(k))
	}),
	dec("Read tree", marshal.Read, func(k int) (interface{}, []byte, string) {
		return &tree{}, bTree(vTree(k)), show2(vTree(k), bTree(vTree(k)), &tree{})
	}),
	dec("Read odd", marshal.Read, func(k int) (interface{}, []byte, string) {
		return &odd{}, bOdd(vOdd(k)), show(vOdd(k))
	}),
	dec("Read sized", marshal.ReadTail, func(k int) (interface{}, []byte, string) {
		return &sized{}, bSized(k), show(sized{vFlat(k), vTree(k)})
	}),
	dec("Read vars", marshal.Read, func(k int) (interface{}, []byte, string) {
		return &vars{}, cat(0x82, 0x2c, 2, k, 0x81, 0x48), show(vars{300, []uint64{uint64(k), 200}})
	}),
	dec("Read self", marshal.Read, func(k int) (interface{}, []byte, string) {
		return &self{}, cat(0xee, bFlat(vFlat(k))), show(vFlat(k))
	}),
	dec("ReadRawTuple row", readTuple, func(k int) (interface{}, []byte, string) { return &row{}, bRow(k), show(vRow(k)) }),
	dec("ReadRawTuple pairs", readTuple, func(k int) (interface{}, []byte, string) {
		return &pairs{}, bPairs(k), show(pairs{uint8(k), []pair{{"key", uint16(k)}, {"", 9}}})
	}),
	dec("ReadFirst", func(b []byte, i interface{}) error {
		read, total, err := sbox.ReadFirst(b, i)
		if err == nil && (!read || total != 1) {
			err = fmt.Errorf("read %v of %d", read, total)
		}
		return err
	}, func(k int) (interface{}, []byte, string) {
		return &row{}, cat(uint32(1), uint32(len(bRow(k))-4), bRow(k)), show(vRow(k))
	}),
	dec("ReadMany", func(b []byte, i interface{}) error {
		n, total, err := sbox.ReadMany(b, i)
		if err == nil && (n != 2 || total != 2) {
			err = fmt.Errorf("read %v of %d", n, total)
		}
		return err
	}, func(k int) (interface{}, []byte, string) {
		return &[]row{}, cat(uint32(2), uint32(len(bRow(k))-4), bRow(k), uint32(len(bRow(k+1))-4), bRow(k+1)), show([]row{vRow(k), vRow(k + 1)})
	}),
}

func show2(v interface{}, _ ...interface{}) string { return show(v) }

// use runs an operation and checks what it gives; the result is checked
// again by the returned function.
func use(i, k int) func() {
	o := ops[i]
	got, want, keep := o.do(k)
	mc.Check(got == want, "%s gives %s, want %s", o.name, got, want)
	return func() {
		now := keep()
		mc.Check(now == want, "%s gave %s, which was changed to %s by others", o.name, want, now)
	}
}

// refused is a use that fails, which must not disturb others.
func refused() {
	defer func() { recover() }()
	marshal.Write(struct {
		A []uint8 `iproto:"size(odd)"`
	}{})
}

func parallel(fs ...func()) {
	done := make(chan bool, len(fs))
	for _, f := range fs {
		f := f
		go func() {
			f()
			done <- true
		}()
	}
	for range fs {
		<-done
	}
}

var noRace = []string{"marshal/", "sbox/"}

func two(a, b int) {
	mc.Begin()
	var ka, kb func()
	parallel(func() { ka = use(a, 1) }, func() { kb = use(b, 50) })
	mc.End()
	ka()
	kb()
	use(a, 60)
	use(b, 70)
}

func init() {
	scenarios = append(scenarios, mc.Scenario{
		Name: "C20.first-use", NoRace: noRace,
		Doc:   "two threads, each using one codec (all pairs of 20 operations), nothing known before; results are kept and looked at again at the end",
		Quick: mc.Bound{D: 1},
		Deep:  mc.Bound{D: 3},
		Run:   func() { two(mc.ChooseFree(len(ops)), mc.ChooseFree(len(ops))) },
	})
	scenarios = append(scenarios, mc.Scenario{
		Name: "C20.first-use-more", NoRace: noRace,
		Doc:   "as C20.first-use, with more deviations, for some pairs",
		Quick: mc.Bound{D: 3},
		Deep:  mc.Bound{D: 5},
		Run: func() {
			p := [][2]int{{0, 4}, {1, 4}, {2, 3}, {5, 7}, {4, 4}, {10, 13}, {8, 16}, {18, 19}, {12, 12}}[mc.ChooseFree(9)]
			two(p[0], p[1])
		},
	})
	scenarios = append(scenarios, mc.Scenario{
		Name: "C20.three", NoRace: noRace,
		Doc:   "three threads, one uses a codec known before, the others overlapping new ones",
		Quick: mc.Bound{D: 1},
		Deep:  mc.Bound{D: 2},
		Run: func() {
			a := mc.ChooseFree(len(ops))
			b := []int{0, 4, 8, 12, 13, 19}[mc.ChooseFree(6)]
			c := []int{2, 9, 18}[mc.ChooseFree(3)]
			use(a, 3)
			mc.Begin()
			var ka, kb, kc func()
			parallel(func() { ka = use(a, 1) }, func() { kb = use(b, 50) }, func() { kc = use(c, 90) })
			mc.End()
			ka()
			kb()
			kc()
		},
	})
	scenarios = append(scenarios, mc.Scenario{
		Name: "C20.repeat", NoRace: noRace,
		Doc:   "two threads, each using two codecs twice, of which some are known; a use that is refused comes first or between; buffers of results are extended by their owners",
		Quick: mc.Bound{D: 1},
		Deep:  mc.Bound{D: 3},
		Run: func() {
			a, b := mc.ChooseFree(len(ops)), mc.ChooseFree(len(ops))
			warm := mc.ChooseFree(3)
			if b > a {
				mc.Begin()
				return
			}
			if warm > 0 {
				use(a, 3)
			}
			if warm > 1 {
				refused()
			}
			mc.Begin()
			var keep [2][]func()
			one := func(i int, x, y int) func() {
				return func() {
					k := 30 * i
					keep[i] = append(keep[i], use(x, k+1))
					if warm == 2 {
						refused()
					}
					keep[i] = append(keep[i], use(y, k+2), use(x, k+3))
				}
			}
			parallel(one(0, a, b), one(1, b, a))
			mc.End()
			for _, l := range keep {
				for _, f := range l {
					f()
				}
			}
		},
	})
}
