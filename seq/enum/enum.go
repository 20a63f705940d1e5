// Package enum enumerates all choice sequences of sequential scenarios: a
// scenario is run once for each, from scratch, on the code under test.
package enum

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// Scenario is one enumerated space; Run is executed for every sequence of
// choices it makes with C.Pick.
type Scenario struct {
	Name, Doc string
	Quick     string // what the choices range over, for the evidence
	Deep      string
	Run       func(c *C)
}

// C is one case.
type C struct {
	Deep    bool
	seq     []int // choices made
	lim     []int // number of alternatives of each
	ops     *int64
	out     map[uint64]struct{}
	trace   []string
	tracing bool
}

type stop struct{ msg string }
type skip struct{}

// Pick chooses one of n alternatives; all are enumerated.
func (c *C) Pick(n int) int {
	if n <= 0 {
		panic(skip{})
	}
	i := len(c.lim)
	if i == len(c.seq) {
		c.seq = append(c.seq, 0)
	}
	c.lim = append(c.lim, n)
	return c.seq[i]
}

// Range chooses an integer from a to b.
func (c *C) Range(a, b int) int { return a + c.Pick(b-a+1) }

// Bool chooses false or true.
func (c *C) Bool() bool { return c.Pick(2) == 1 }

// Skip abandons a case that is not part of the space.
func (c *C) Skip() { panic(skip{}) }

// Op counts operations of the code under test.
func (c *C) Op(n int) { *c.ops += int64(n) }

// Note adds a line to the trace of the case.
func (c *C) Note(f string, a ...any) {
	if c.tracing {
		c.trace = append(c.trace, fmt.Sprintf(f, a...))
	}
}

// Outcome counts distinct outcomes.
func (c *C) Outcome(f string, a ...any) {
	h := fnv.New64a()
	fmt.Fprintf(h, f, a...)
	c.out[h.Sum64()] = struct{}{}
}

// Fail reports a violation and ends the case.
func (c *C) Fail(f string, a ...any) { panic(stop{fmt.Sprintf(f, a...)}) }

// Check fails unless ok.
func (c *C) Check(ok bool, f string, a ...any) {
	if !ok {
		panic(stop{fmt.Sprintf(f, a...)})
	}
}

// Panics runs f and returns what it panicked with (nil: nothing).
func (c *C) Panics(f func()) (r any) {
	defer func() {
		r = recover()
		switch r.(type) {
		case stop, skip:
			panic(r)
		}
	}()
	f()
	return nil
}

type found struct {
	Scenario string   `json:"scenario"`
	Kind     string   `json:"kind"`
	Msg      string   `json:"message"`
	Case     string   `json:"case"`
	Trace    []string `json:"trace"`
}

type result struct {
	Scenario   string            `json:"scenario"`
	Doc        string            `json:"doc"`
	Execs      int64             `json:"executions"`
	Pruned     int64             `json:"pruned"`
	States     int64             `json:"states"`
	Trans      int64             `json:"transitions"`
	Timeout    bool              `json:"hit_limit"`
	Wall       float64           `json:"wall_s"`
	Violations []found           `json:"violations"`
	KnownHit   map[string]string `json:"known,omitempty"`
	Sample     []string          `json:"sample"`
	Bounds     string            `json:"bounds,omitempty"`
	Outcomes   int               `json:"outcomes,omitempty"`
}

var (
	caseStart atomic.Int64
	curCase   atomic.Value
)

func cpu() time.Duration {
	var r syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &r)
	return time.Duration(r.Utime.Nano() + r.Stime.Nano())
}

// once runs one case; kind is "" when it passed and "skip" when it is none.
func (s *Scenario) once(c *C) (kind, msg string) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case skip:
			kind = "skip"
		case stop:
			kind, msg = "fail", r.msg
		default:
			kind, msg = "panic", fmt.Sprintf("%v [%s]", r, where())
		}
	}()
	s.Run(c)
	return
}

// where lists the innermost functions of the code under test.
func where() string {
	pc := make([]uintptr, 64)
	fr := runtime.CallersFrames(pc[:runtime.Callers(3, pc)])
	var l []string
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "go-iproto") {
			n := f.Function[strings.LastIndex(f.Function, "/")+1:]
			l = append(l, n)
		}
		if !more || len(l) == 3 {
			return strings.Join(l, " < ")
		}
	}
}

func join(l []int) string {
	var s []string
	for _, i := range l {
		s = append(s, strconv.Itoa(i))
	}
	return strings.Join(s, ",")
}

// Main is the command line of a group of scenarios.
func Main(scs []Scenario) {
	list := flag.Bool("list", false, "")
	name := flag.String("scenario", "", "")
	tier := flag.String("tier", "quick", "")
	out := flag.String("out", "", "")
	sec := flag.Float64("sec", 0, "")
	known := flag.String("known", "", "")
	replay := flag.String("replay", "", "")
	flag.Parse()
	debug.SetGCPercent(400)
	if *list {
		for _, s := range scs {
			fmt.Println(s.Name)
		}
		return
	}
	var f found
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err == nil {
			err = json.Unmarshal(b, &f)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		*name = f.Scenario
	}
	var s *Scenario
	for i := range scs {
		if scs[i].Name == *name {
			s = &scs[i]
		}
	}
	if s == nil {
		fmt.Fprintln(os.Stderr, "unknown scenario", *name)
		os.Exit(2)
	}
	var ops int64
	outs := map[uint64]struct{}{}
	mk := func(seq []int, tracing bool) *C {
		return &C{Deep: *tier == "thorough", seq: seq, ops: &ops, out: outs, tracing: tracing}
	}
	if *replay != "" {
		c := mk(nil, true)
		for _, x := range strings.Split(f.Case, ",") {
			if i, err := strconv.Atoi(x); err == nil {
				c.seq = append(c.seq, i)
			}
		}
		// the recorded tier decides the space
		c.Deep = strings.HasPrefix(f.Kind, "deep-")
		kind, msg := s.once(c)
		for _, l := range c.trace {
			fmt.Println(l)
		}
		if kind == "fail" || kind == "panic" {
			fmt.Println("VIOLATED:", kind, msg)
			os.Exit(1)
		}
		fmt.Println("no violation in this case")
		return
	}
	go watchdog(s.Name)
	res := result{Scenario: s.Name, Doc: s.Doc, Bounds: s.Quick, KnownHit: map[string]string{}, Violations: []found{}}
	if *tier == "thorough" && s.Deep != "" {
		res.Bounds = s.Deep
	}
	keys := strings.Split(*known, "|")
	start := time.Now()
	var seq []int
	n := int64(0)
	for {
		caseStart.Store(n + 1)
		if n&0xff == 0 {
			curCase.Store(join(seq))
		}
		c := mk(seq, false)
		kind, msg := s.once(c)
		seq = c.seq[:len(c.lim)]
		n++
		if kind != "skip" {
			res.Execs++
		}
		if kind == "fail" || kind == "panic" {
			full := s.Name + ":" + kind + ":" + msg
			key := ""
			for _, k := range keys {
				if k != "" && strings.HasPrefix(full, k) {
					key = k
				}
			}
			if key != "" {
				if _, ok := res.KnownHit[key]; !ok {
					res.KnownHit[key] = msg
				}
			} else {
				// once more, with the trace
				t := mk(append([]int{}, seq...), true)
				k2, m2 := s.once(t)
				if k2 != kind {
					res.KnownHit["unconfirmed:"+msg] = msg
				} else {
					k := kind
					if *tier == "thorough" {
						k = "deep-" + kind
					}
					res.Violations = append(res.Violations, found{s.Name, k, m2, join(seq), append(t.trace, "VIOLATION "+m2)})
					if len(res.Violations) == 3 {
						break
					}
				}
			}
		}
		// next sequence
		i := len(seq) - 1
		for i >= 0 && seq[i]+1 >= c.lim[i] {
			i--
		}
		if i < 0 {
			break
		}
		seq = append(seq[:i:i], seq[i]+1)
		if *sec > 0 && n&0x3f == 0 && time.Since(start).Seconds() > *sec {
			res.Timeout = true
			break
		}
	}
	res.States, res.Trans, res.Outcomes = res.Execs, ops, len(outs)
	if res.Trans == 0 {
		res.Trans = res.Execs
	}
	res.Wall = time.Since(start).Seconds()
	if len(res.Violations) == 0 {
		t := mk(nil, true)
		s.once(t)
		if len(t.trace) > 40 {
			t.trace = t.trace[:40]
		}
		res.Sample = append([]string{"case " + join(t.seq)}, t.trace...)
	}
	js, _ := json.MarshalIndent(res, "", " ")
	if *out != "" {
		os.MkdirAll(filepath.Dir(*out), 0o755)
		os.WriteFile(*out, js, 0o644)
	} else {
		fmt.Println(string(js))
	}
}

// watchdog ends the process when one case burns a minute of processor time.
func watchdog(name string) {
	last, at := int64(0), cpu()
	for {
		time.Sleep(500 * time.Millisecond)
		if n := caseStart.Load(); n != last {
			last, at = n, cpu()
			continue
		}
		if cpu()-at > 40*time.Second {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Printf("CPU-LOOP %s: a case near %v does not end\n%s\n", name, curCase.Load(), buf)
			os.Exit(3)
		}
	}
}
