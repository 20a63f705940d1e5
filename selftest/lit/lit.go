// Package lit holds small concurrent programs with known sets of outcomes.
// tools/selftest.sh explores them (the set found must be exactly Want) and runs
// them natively (whatever happens must be in Want).
package lit

import (
	"errors"
	"fmt"
	"io"
	"net"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Prog is one program; Run ends when all its goroutines have ended and returns
// the outcome.
type Prog struct {
	Name string
	Want string // all outcomes, separated by spaces
	Run  func() string
	SC   bool // natively other outcomes are possible (data races)
}

func par(fs ...func()) {
	var wg sync.WaitGroup
	for _, f := range fs {
		wg.Add(1)
		go func(f func()) {
			defer wg.Done()
			f()
		}(f)
	}
	wg.Wait()
}

type node struct {
	val  int
	next *node
	arr  [3]int
	m    map[string]int
}

var global int

type counter struct {
	mu sync.Mutex
	n  int
}

func (c *counter) inc() int { c.mu.Lock(); defer c.mu.Unlock(); c.n++; return c.n }

type emb struct {
	counter
	x int
}

// Progs lists the programs.
var Progs = []Prog{
	{"sb-plain", "00 01 10 11", func() string {
		x, y, a, b := 0, 0, 0, 0
		par(func() { x = 1; a = y }, func() { y = 1; b = x })
		return fmt.Sprint(a) + fmt.Sprint(b)
	}, true},
	{"sb-atomic", "01 10 11", func() string {
		var x, y, a, b int32
		par(func() { atomic.StoreInt32(&x, 1); a = atomic.LoadInt32(&y) }, func() { atomic.StoreInt32(&y, 1); b = atomic.LoadInt32(&x) })
		return fmt.Sprint(a) + fmt.Sprint(b)
	}, false},
	{"sb-mixed", "00 01 10 11", func() string {
		var x, y, a, b int32
		par(func() { x = 1; a = atomic.LoadInt32(&y) }, func() { atomic.StoreInt32(&y, 1); b = x })
		return fmt.Sprint(a) + fmt.Sprint(b)
	}, true},
	{"sb-fence", "01 10 11", func() string {
		var x, y, a, b, z, u int32
		par(func() { x = 1; atomic.AddInt32(&z, 1); a = y }, func() { y = 1; atomic.AddInt32(&u, 1); b = x })
		return fmt.Sprint(a) + fmt.Sprint(b)
	}, true},
	{"sb-lock", "01 10 11", func() string {
		var x, y, a, b int
		var m, n sync.Mutex
		par(func() { x = 1; m.Lock(); m.Unlock(); a = y }, func() { n.Lock(); y = 1; n.Unlock(); b = x })
		return fmt.Sprint(a) + fmt.Sprint(b)
	}, true},
	{"sb-one-fence", "00 01 10 11", func() string {
		var x, y, a, b, z int32
		par(func() { x = 1; atomic.AddInt32(&z, 1); a = y }, func() { y = 1; b = x })
		return fmt.Sprint(a) + fmt.Sprint(b)
	}, true},
	{"sb-forward", "1010 1011 1110 1111", func() string {
		var x, y, a, b, c, d int
		par(func() { x = 1; a = x; b = y }, func() { y = 1; c = y; d = x })
		return fmt.Sprint(a) + fmt.Sprint(b) + fmt.Sprint(c) + fmt.Sprint(d)
	}, true},
	{"two-stores", "12 21 22", func() string {
		var x, y int
		par(func() { x = 1; y = 2 }, func() { y = 1; x = 2 })
		return fmt.Sprint(x) + fmt.Sprint(y)
	}, true},
	{"coherence", "00 01 02 11 12 22", func() string {
		var x, a, b int
		par(func() { x = 1; x = 2 }, func() { a = x; b = x })
		return fmt.Sprint(a) + fmt.Sprint(b)
	}, true},
	{"mp-plain", "00 01 11", func() string {
		n := &node{}
		var f, v int
		par(func() { n.val = 1; n.arr[2] = 1 }, func() { f = n.arr[2]; v = n.val })
		return fmt.Sprint(f) + fmt.Sprint(v)
	}, true},
	{"lost-update", "1 2", func() string {
		global = 0
		par(func() { global++ }, func() { global++ })
		return fmt.Sprint(global)
	}, true},
	{"lost-update-op", "1 2 3", func() string {
		s := []int{0}
		par(func() { s[0] += 1 }, func() { s[0] += 2 })
		return fmt.Sprint(s[0])
	}, true},
	{"lost-update-ptr", "1 2 3", func() string {
		n := &node{}
		p := &n.val
		par(func() { *p += 1 }, func() { n.val += 2 })
		return fmt.Sprint(*p)
	}, true},
	{"struct-copy", "00 10 11", func() string {
		n := &node{}
		var c node
		par(func() { n.val = 1; n.arr[0] = 1 }, func() { c = *n })
		return fmt.Sprint(c.val) + fmt.Sprint(c.arr[0])
	}, true},
	{"publish", "nil 0 1", func() string {
		var h *node
		out := ""
		par(func() { n := &node{}; h = n; n.val = 1 }, func() {
			if x := h; x == nil {
				out = "nil"
			} else {
				out = fmt.Sprint(x.val)
			}
		})
		return out
	}, true},
	{"closure-var", "1 2", func() string {
		n := 0
		inc := func() { n++ }
		par(inc, inc)
		return fmt.Sprint(n)
	}, true},
	{"append-race", "1 2", func() string {
		var s []int
		f := func() { s = append(s, 1) }
		par(f, f)
		return fmt.Sprint(len(s))
	}, true},
	{"method-value", "2", func() string {
		e := &emb{}
		f := e.inc
		par(func() { f() }, func() { e.counter.inc() })
		return fmt.Sprint(e.n)
	}, false},
	{"mutex", "12 21", func() string {
		var mu sync.Mutex
		s := ""
		w := func(x string) func() { return func() { mu.Lock(); s += x; mu.Unlock() } }
		par(w("1"), w("2"))
		return s
	}, false},
	{"trylock", "11 10 01", func() string {
		var mu sync.Mutex
		a, b := 0, 0
		par(func() {
			if mu.TryLock() {
				a = 1
				mu.Unlock()
			}
		}, func() {
			if mu.TryLock() {
				b = 1
				mu.Unlock()
			}
		})
		return fmt.Sprint(a) + fmt.Sprint(b)
	}, false},
	{"rwmutex", "00 02 20 22", func() string {
		var mu sync.RWMutex
		x, y := 0, 0
		a, b := 0, 0
		rd := func(p *int) func() { return func() { mu.RLock(); *p = x + y; mu.RUnlock() } }
		par(func() { mu.Lock(); x++; y++; mu.Unlock() }, rd(&a), rd(&b))
		return fmt.Sprint(a) + fmt.Sprint(b)
	}, false},
	{"rw-together", "ok", func() string {
		var mu sync.RWMutex
		c := make(chan int)
		par(func() { mu.RLock(); c <- 1; mu.RUnlock() }, func() { mu.RLock(); <-c; mu.RUnlock() })
		return "ok"
	}, false},
	{"cas", "1 2", func() string {
		var x int32
		w := int32(0)
		par(func() {
			if atomic.CompareAndSwapInt32(&x, 0, 1) {
				w = 1
			}
		}, func() {
			if atomic.CompareAndSwapInt32(&x, 0, 2) {
				atomic.StoreInt32(&w, 2)
			}
		})
		return fmt.Sprint(atomic.LoadInt32(&w))
	}, false},
	{"atomic-types", "ok", func() string {
		var a atomic.Int64
		var b atomic.Bool
		var p atomic.Pointer[node]
		var v atomic.Value
		f := func() { a.Add(1); b.Store(true); p.CompareAndSwap(nil, &node{val: 7}); v.Store("x") }
		par(f, f)
		if a.Load() == 2 && b.Load() && p.Load().val == 7 && v.Load().(string) == "x" {
			return "ok"
		}
		return "bad"
	}, false},
	{"recursive-rlock", "ok", func() string {
		var mu sync.RWMutex
		par(func() { mu.RLock(); mu.RUnlock(); mu.RLock(); mu.RUnlock() }, func() { mu.Lock(); mu.Unlock() }, func() { mu.Lock(); mu.Unlock() })
		return "ok"
	}, false},
	{"once", "1", func() string {
		var o sync.Once
		n := 0
		f := func() { o.Do(func() { n++ }) }
		par(f, f)
		return fmt.Sprint(n)
	}, false},
	{"syncmap", "a b", func() string {
		var m sync.Map
		par(func() { m.LoadOrStore(1, "a") }, func() { m.LoadOrStore(1, "b") })
		v, _ := m.Load(1)
		return v.(string)
	}, false},
	{"pool", "ok", func() string {
		p := sync.Pool{New: func() interface{} { return &node{} }}
		f := func() {
			n := p.Get().(*node)
			n.val++
			runtime.Gosched()
			p.Put(n)
		}
		par(f, f)
		return "ok"
	}, false},
	{"unbuffered", "12 21", func() string {
		c := make(chan string)
		s := ""
		par(func() { c <- "1" }, func() { c <- "2" }, func() { s = <-c; s += <-c })
		return s
	}, false},
	{"buffered", "12a 1a2 a12", func() string {
		c := make(chan string, 3)
		par(func() { c <- "1"; c <- "2" }, func() { c <- "a" })
		close(c)
		s := ""
		for x := range c {
			s += x
		}
		return s
	}, false},
	{"select", "a b", func() string {
		a, b := make(chan int, 1), make(chan int, 1)
		a <- 1
		b <- 1
		select {
		case <-a:
			return "a"
		case <-b:
			return "b"
		}
	}, false},
	{"select-default", "d v", func() string {
		a := make(chan int, 1)
		s := ""
		par(func() { a <- 1 }, func() {
			select {
			case v, ok := <-a:
				s = "v"
				_, _ = v, ok
			default:
				s = "d"
			}
		})
		return s
	}, false},
	{"select-send", "r s", func() string {
		a, b := make(chan int), make(chan int)
		s := ""
		par(func() {
			select {
			case a <- 1:
				s = "s"
				b <- 2
			case <-b:
				s = "r"
				a <- 3
			}
		}, func() {
			select {
			case <-a:
				<-b
			case b <- 1:
				<-a
			}
		})
		return s
	}, false},
	{"select-nil", "ok", func() string {
		var n chan int
		c := make(chan int)
		par(func() { close(c) }, func() {
			for {
				select {
				case <-n:
				case _, ok := <-c:
					if !ok {
						return
					}
				}
			}
		})
		return "ok"
	}, false},
	{"select-break", "1 2 3", func() string {
		c := make(chan int, 3)
		n := 0
		par(func() { c <- 1; c <- 2; c <- 3 }, func() {
			<-c
		L:
			for n = 1; ; n++ {
				select {
				case <-c:
					continue L
				default:
					break L
				}
			}
		})
		return fmt.Sprint(n)
	}, false},
	{"close-panic", "closed", func() string {
		c := make(chan int)
		s := ""
		par(func() {
			defer func() {
				if r := recover(); r != nil {
					s = "closed"
				}
			}()
			close(c)
			c <- 1
		})
		return s
	}, false},
	{"cond-signal", "2", func() string {
		var mu sync.Mutex
		c := sync.NewCond(&mu)
		n, w := 0, 0
		wait := func() {
			mu.Lock()
			for n == 0 {
				c.Wait()
			}
			n--
			w++
			mu.Unlock()
		}
		par(wait, wait, func() {
			for i := 0; i < 2; i++ {
				mu.Lock()
				n++
				mu.Unlock()
				c.Signal()
			}
		})
		return fmt.Sprint(w)
	}, false},
	{"cond-broadcast", "ok", func() string {
		c := sync.Cond{L: &sync.Mutex{}}
		g := false
		w := func() {
			c.L.Lock()
			defer c.L.Unlock()
			for !g {
				c.Wait()
			}
		}
		par(w, w, func() { c.L.Lock(); g = true; c.Broadcast(); c.L.Unlock() })
		return "ok"
	}, false},
	{"panic", "boom1 boom2", func() string {
		var mu sync.Mutex
		first := ""
		f := func(s string) func() {
			return func() {
				defer func() {
					r := recover()
					mu.Lock()
					if first == "" {
						first = fmt.Sprint(r)
					}
					mu.Unlock()
				}()
				panic("boom" + s)
			}
		}
		par(f("1"), f("2"))
		return first
	}, false},
	{"runtime-panic", "ok", func() string {
		s := "no"
		par(func() {
			defer func() {
				if _, ok := recover().(runtime.Error); ok {
					s = "ok"
				}
			}()
			var n *node
			n.val = 1
		})
		return s
	}, false},
	{"defer-order", "321", func() string {
		s := ""
		func() {
			for i := 1; i <= 3; i++ {
				defer func(i int) { s += fmt.Sprint(i) }(i)
			}
		}()
		return s
	}, false},
	{"goexit", "d", func() string {
		s := ""
		par(func() { defer func() { s = "d" }(); runtime.Goexit() })
		return s
	}, false},
	{"control", "3:1,2,7_dflt_x2_6", func() string {
		n := &node{m: map[string]int{"a": 1}}
		n.m["b"] = 2
		n.m["c"] += 7
		var v []int
		for _, x := range n.m {
			v = append(v, x)
		}
		sort.Ints(v)
		s := fmt.Sprintf("%d:%d,%d,%d", len(n.m), v[0], v[1], v[2])
		delete(n.m, "a")
		switch x := interface{}(n).(type) {
		case error:
			s += x.Error()
		case nil:
			s += "nil"
		default:
			s += " dflt"
		}
		i := 0
	again:
		i++
		if i < 2 {
			goto again
		}
		s += fmt.Sprintf(" x%d", i)
		n.arr, n.val = [3]int{1, 2, 3}, 5
		n.arr[0], n.arr[1] = n.arr[1], n.arr[0]
		t := 0
		for i, x := range n.arr {
			if i == 3 {
				break
			}
			t += x
		}
		var f struct{ g func(...int) int }
		f.g = func(a ...int) (r int) {
			for _, x := range a {
				r += x
			}
			return
		}
		if f.g(n.arr[:]...) != t || n.arr[0] != 2 {
			t = -1
		}
		switch {
		case t > 3:
			fallthrough
		case t > 100:
			s += fmt.Sprintf(" %d", t)
		}
		return strings.Replace(s, " ", "_", -1)
	}, false},
	{"sleep", "12 21", func() string {
		var mu sync.Mutex
		s := ""
		w := func(d time.Duration, x string) func() {
			return func() { time.Sleep(d); mu.Lock(); s += x; mu.Unlock() } // 21: a slow thread
		}
		par(w(60*time.Millisecond, "2"), w(5*time.Millisecond, "1"))
		return s
	}, true},
	{"after-stop", "fired stopped", func() string {
		c := make(chan bool, 1)
		t := time.AfterFunc(time.Millisecond*101/100, func() { c <- true })
		time.Sleep(time.Millisecond)
		if t.Stop() {
			return "stopped"
		}
		<-c
		return "fired"
	}, false},
	{"timer-reset", "ok", func() string {
		t := time.NewTimer(time.Hour)
		t.Reset(time.Millisecond)
		<-t.C
		return "ok"
	}, false},
	{"ticker", "3", func() string {
		t := time.NewTicker(time.Millisecond)
		defer t.Stop()
		n := 0
		for range t.C {
			if n++; n == 3 {
				break
			}
		}
		return fmt.Sprint(n)
	}, false},
	{"select-timeout", "got late", func() string {
		c := make(chan int, 1)
		go func() { time.Sleep(time.Millisecond); c <- 1 }()
		select {
		case <-c:
			return "got"
		case <-time.After(time.Millisecond):
			<-c
			return "late"
		}
	}, false},
	{"tcp", "ok", func() string {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return err.Error()
		}
		s := "ok"
		par(func() {
			c, err := l.Accept()
			if err != nil {
				s = "accept"
				return
			}
			b, err := io.ReadAll(c)
			if err != nil || string(b) != "hello world" {
				s = "read"
			}
			c.Write(b[:5])
			c.Close()
			l.Close()
			if _, err := l.Accept(); err == nil {
				s = "accept2"
			}
		}, func() {
			c, err := net.Dial("tcp", l.Addr().String())
			if err != nil {
				s = "dial"
				return
			}
			c.Write([]byte("hello "))
			c.Write([]byte("world"))
			c.(*net.TCPConn).CloseWrite()
			var b [5]byte
			if _, err := io.ReadFull(c, b[:]); err != nil || string(b[:]) != "hello" {
				s = "reply"
			}
			if n, err := c.Read(b[:]); n != 0 || err != io.EOF {
				s = "eof"
			}
			c.Close()
			if _, err := c.Read(b[:]); !errors.Is(err, net.ErrClosed) {
				s = "closed"
			}
		})
		return s
	}, false},
	{"tcp-deadline", "timeout", func() string {
		l, _ := net.Listen("tcp", "127.0.0.1:0")
		defer l.Close()
		s := ""
		par(func() {
			c, err := l.Accept()
			if err == nil {
				c.SetReadDeadline(time.Now().Add(5 * time.Millisecond))
				_, err = c.Read(make([]byte, 1))
				if e, ok := err.(net.Error); ok && e.Timeout() {
					s = "timeout"
				}
				c.Close()
			}
		}, func() {
			c, err := net.Dial("tcp", l.Addr().String())
			if err == nil {
				c.Read(make([]byte, 1))
				c.Close()
			}
		})
		return s
	}, false},
}
