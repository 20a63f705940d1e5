package main

import (
	"fmt"
	"reflect"
	"runtime"

	"github.com/funny-falcon/go-iproto/marshal"
	"verif/seq/enum"
)

type nestStruct struct{ Kids []nestStruct }
type nestSlice []nestSlice
type nestList struct {
	V    uint32
	Next *nestList
}
type nestPtrs struct {
	Kids *[]*nestPtrs
}
type nestCount struct {
	A    uint32
	Kids []*nestCount `iproto:"cnt(i32)"`
}
type nestSize struct {
	Kids []nestSize `iproto:"size(i32)"`
}

var nests = []reflect.Type{
	reflect.TypeOf(nestStruct{}), reflect.TypeOf(nestSlice{}), reflect.TypeOf(nestList{}),
	reflect.TypeOf(nestPtrs{}), reflect.TypeOf(nestCount{}), reflect.TypeOf(nestSize{}),
}

func nest(add func(enum.Scenario)) {
	add(enum.Scenario{
		Name:  "C19.nest",
		Doc:   "input that nests recursive types as deep as it is long: a value or an error, never an exhausted stack, and counts at every level reserve no more memory than the data is worth",
		Quick: "6 recursive types; 10, 1000, 20000, 4 million levels of the counts 1, 2, or of as many elements as bytes follow (20000 levels; 1 KB for each 4 bytes); both forms",
		Run: func(c *enum.C) {
			t := nests[c.Pick(len(nests))]
			n := []int{10, 1000, 20000, 4000000}[c.Pick(4)]
			kind := c.Pick(3)
			tail := c.Bool()
			if kind == 2 && n > 20000 || t == reflect.TypeOf(nestSize{}) && kind < 2 && n > 20000 {
				c.Skip()
			}
			b := make([]byte, 4*n)
			for i := 0; i < n-1; i++ {
				u := uint32(kind + 1)
				if kind == 2 || t == reflect.TypeOf(nestSize{}) {
					u = uint32(4 * (n - i - 1))
				}
				le.PutUint32(b[4*i:], u)
			}
			f := reflect.New(t)
			read := marshal.Read
			if tail {
				read = marshal.ReadTail
			}
			var s1, s2 runtime.MemStats
			runtime.ReadMemStats(&s1)
			err := read(b, f.Interface())
			runtime.ReadMemStats(&s2)
			c.Op(1)
			c.Note("%v", err != nil)
			if n <= 20000 {
				// not more than a KB for each word, and for what building the codec takes
				limit := uint64(n)<<10 + 1<<20
				c.Check(s2.TotalAlloc-s1.TotalAlloc <= limit, "reading %d nested counts into %v reserved %d bytes", n, t, s2.TotalAlloc-s1.TotalAlloc)
			}
			if kind == 0 && !tail && n <= 20000 && (t == nests[0] || t == nests[1]) {
				c.Check(err == nil, "%d levels of %v are refused: %v", n, t, err)
				got := marshal.Write(f.Interface())
				c.Check(string(got) == string(b), "%d levels of %v are written back differently", n, t)
			}
			if kind == 1 && (t == nests[0] || t == nests[1]) {
				c.Check(err != nil, "%s", fmt.Sprintf("%d levels of two elements each were read from one", n))
			}
		},
	})
}
