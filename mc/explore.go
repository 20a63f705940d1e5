package mc

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Scenario is one closed program over the code under test: a harness thread
// (Run) that uses the library, and assertions.
type Scenario struct {
	Name  string
	Doc   string
	Quick Bound // bounds for the quick tier
	Deep  Bound // bounds for the thorough tier
	Run   func()

	DeepOnly bool // left out of the quick tier

	NoRace []string // a data race between sites whose names contain one of these is a violation
}

// Bound limits the exploration of a scenario.
type Bound struct {
	D        int           // maximal number of deviations from the default schedule (Deep: 0 is one more than quick, -1 the same)
	MaxEarly int           // how many of them may be early timer firings
	EarlyWin time.Duration // how far the clock may jump ahead of runnable threads
	Horizon  time.Duration // virtual time after which a stuck harness is a hang
	Clamp    int           // capacity used for channels made with more than 64 places (0: as made)
	SC       bool          // plain stores are never delayed (else those at racy sites may be, for a deviation)
	MaxSteps int
	MaxExecs int64
	Sec      float64 // safety limit in seconds of wall time
}

// Explorer enumerates the executions of a scenario.
type Explorer struct {
	sc     *Scenario
	b      Bound
	reset  func()
	racy   []bool
	fresh  []bool
	nfresh int

	seen   map[uint64]struct{}
	queue  [][]node // by cost
	cur    node
	curp   *node
	replay bool

	execs, pruned, trans int64
	maxPoints            int
	restarts             int
	done                 int // highest cost level completely explored
	exhausted            bool
	timeout              bool
	viols                []Found
	start                time.Time
	sample               []string
	known                map[string]bool
	knownHit             map[string]string
	outcomes             map[string]int
}

type node struct {
	parent *node
	dev    Deviation
	cost   int
}

func (n *node) list() []Deviation {
	var l []Deviation
	for x := n; x != nil && x.parent != nil; x = x.parent {
		l = append(l, x.dev)
	}
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
	return l
}

// Found is a violation together with the schedule that shows it.
type Found struct {
	Scenario string      `json:"scenario"`
	Kind     string      `json:"kind"`
	Msg      string      `json:"message"`
	Devs     []Deviation `json:"deviations"`
	Racy     []string    `json:"racy_sites"`
	Trace    []string    `json:"trace"`
}

// visit is called at every choice point behind the last deviation.
func (x *Explorer) visit(key uint64, p int32, n, cost int) bool {
	if _, ok := x.seen[key]; ok {
		return false
	}
	x.seen[key] = struct{}{}
	c := x.cur.cost + cost
	if c <= x.b.D {
		for len(x.queue) <= c {
			x.queue = append(x.queue, nil)
		}
		pp := x.curp
		for k := 1; k < n; k++ {
			x.queue[c] = append(x.queue[c], node{pp, Deviation{p, int32(k)}, c})
		}
	} else {
		x.exhausted = false
	}
	return true
}

func (x *Explorer) one(devs []Deviation, tracing bool) *Exec {
	keepSink = keepSink[:0]
	Progress++
	e := &Exec{
		chans:    map[uintptr]*hchan{},
		cells:    map[uintptr]*cell{},
		atom:     map[uintptr]VC{},
		devs:     devs,
		x:        x,
		maxEarly: x.b.MaxEarly,
		tso:      !x.b.SC,
		earlyWin: int64(x.b.EarlyWin),
		horizon:  int64(x.b.Horizon),
		maxSteps: x.b.MaxSteps,
		done:     make(chan struct{}),
		ack:      make(chan struct{}),
		tracing:  tracing,
	}
	clampCap = x.b.Clamp
	E = e
	t := e.newThread("main")
	t.h = 0x3a17
	e.run(t, func() {
		for _, f := range OnExec {
			f()
		}
		if x.reset != nil {
			x.reset()
		}
		x.sc.Run()
	})
	e.cur = t
	t.wake <- struct{}{}
	<-e.done
	e.killAll()
	E = nil
	x.trans += int64(e.steps)
	if int(e.npoint) > x.maxPoints {
		x.maxPoints = int(e.npoint)
	}
	return e
}

// Begin ends the set-up phase of a scenario: from here on the explorer
// branches at every scheduling point.
func Begin() {
	if e := E; e != nil && !e.killing {
		e.branching = true
	}
}

// End stops branching (tear-down phase of a scenario).
func End() {
	if e := E; e != nil && !e.killing {
		e.branching = false
	}
}

// Fail reports a property violation and ends the execution.
func Fail(format string, args ...any) {
	e := E
	if e == nil || e.killing {
		runtime.Goexit()
	}
	e.fail("fail", fmt.Sprintf(format, args...))
	if e.tracing {
		e.tracef(e.cur, "VIOLATION "+e.viol.Msg)
	}
	e.stop()
	runtime.Goexit()
}

// Check is Fail unless ok.
func Check(ok bool, format string, args ...any) {
	if !ok {
		Fail(format, args...)
	}
}

// Outcome records a result of the execution; the set of all results is reported.
func Outcome(o string) {
	if e := E; e != nil && !e.killing && e.x != nil {
		if e.x.outcomes == nil {
			e.x.outcomes = map[string]int{}
		}
		e.x.outcomes[o]++
	}
}

// Note adds a line to the trace of a replay.
func Note(format string, args ...any) {
	if e := E; e != nil && e.tracing && !e.killing {
		e.tracef(e.cur, "  # "+fmt.Sprintf(format, args...))
	}
}

// Live lists the threads that have not ended, except the caller.
func Live() []string {
	e := E
	var l []string
	if e == nil || e.killing {
		return nil
	}
	for _, t := range e.threads {
		if t.state != stDone && t != e.cur {
			l = append(l, t.Name+" in "+t.what)
		}
	}
	return l
}

func (x *Explorer) racyNames() (l []string) {
	for i, r := range x.racy {
		if r {
			l = append(l, siteName(int32(i)))
		}
	}
	return
}

func (x *Explorer) gc() {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	if ms.HeapAlloc > lastHeap+256<<20 {
		debug.SetGCPercent(100)
		runtime.GC()
		debug.SetGCPercent(-1)
		runtime.ReadMemStats(&ms)
		lastHeap = ms.HeapAlloc
	}
}

var lastHeap uint64

func (x *Explorer) run() {
	x.start = time.Now()
	debug.SetGCPercent(-1)
restart:
	x.seen = map[uint64]struct{}{}
	x.queue = [][]node{{node{}}}
	x.exhausted = true
	x.done = -1
	x.timeout = false
	for level := 0; level < len(x.queue); level++ {
		for len(x.queue[level]) > 0 {
			q := x.queue[level]
			nd := q[len(q)-1]
			x.queue[level] = q[:len(q)-1]
			x.cur = nd
			x.curp = &node{nd.parent, nd.dev, nd.cost}
			e := x.one(nd.list(), false)
			x.execs++
			if e.aborted {
				x.pruned++
			}
			if e.viol != nil && !e.aborted {
				if x.onViolation(e, nd.list()) {
					return
				}
			}
			if x.execs%64 == 0 {
				x.gc()
				if os.Getenv("MC_PROGRESS") != "" && x.execs%4096 == 0 {
					fmt.Fprintf(os.Stderr, "%s level %d execs %d states %d queue %d points %d %.1fs\n", x.sc.Name, level, x.execs, len(x.seen), len(x.queue[level]), x.maxPoints, time.Since(x.start).Seconds())
				}
			}
			if x.b.MaxExecs > 0 && x.execs >= x.b.MaxExecs || x.b.Sec > 0 && time.Since(x.start).Seconds() > x.b.Sec {
				x.timeout = true
				x.exhausted = false
				return
			}
			// racy accesses found: they become scheduling points
			if x.nfresh > 0 && (len(x.queue[level]) == 0 || x.restarts < 4) {
				for i, f := range x.fresh {
					if f {
						x.racy[i] = true
						x.fresh[i] = false
					}
				}
				x.nfresh = 0
				x.restarts++
				goto restart
			}
		}
		x.done = level
	}
}

// onViolation confirms a violation by re-running its schedule; true stops the
// exploration.
func (x *Explorer) onViolation(e *Exec, devs []Deviation) bool {
	kind, msg := e.viol.Kind, e.viol.Msg
	sig := kind + ":" + sigOf(msg)
	// adopt freshly found races only after the confirmation, which needs the
	// same scheduling points
	x.replay = true
	var tr []string
	okc := 0
	for i := 0; i < 5; i++ {
		r := x.one(devs, i == 4)
		if r.viol != nil && r.viol.Kind == kind {
			okc++
		}
		tr = r.trace
	}
	x.replay = false
	if okc < 5 {
		fmt.Fprintf(os.Stderr, "mc: %s: unconfirmed violation (%d/5): %s: %s\n", x.sc.Name, okc, kind, msg)
		x.knownHit["unconfirmed:"+sig] = msg
		return false
	}
	for k := range x.known {
		if strings.HasPrefix(x.sc.Name+":"+sig, k) {
			x.knownHit[k] = msg
			return false
		}
	}
	var racy []string
	for i, r := range x.racy {
		if r {
			racy = append(racy, fmt.Sprint(i))
		}
	}
	x.viols = append(x.viols, Found{x.sc.Name, kind, msg, devs, racy, tr})
	return true
}

// sigOf makes a message comparable between runs.
func sigOf(m string) string {
	if i := strings.IndexAny(m, "\n"); i >= 0 {
		m = m[:i]
	}
	return m
}

// Result is what a scenario process reports to the driver.
type Result struct {
	Scenario   string            `json:"scenario"`
	Doc        string            `json:"doc"`
	Execs      int64             `json:"executions"`
	Pruned     int64             `json:"pruned"`
	States     int               `json:"states"`
	Trans      int64             `json:"transitions"`
	Points     int               `json:"max_choice_points"`
	Racy       int               `json:"racy_sites"`
	RacyNames  []string          `json:"racy,omitempty"`
	Restarts   int               `json:"restarts"`
	DoneLevel  int               `json:"deviation_bound_completed"`
	Exhausted  bool              `json:"all_schedules"`
	Timeout    bool              `json:"hit_limit"`
	Wall       float64           `json:"wall_s"`
	Violations []Found           `json:"violations"`
	KnownHit   map[string]string `json:"known,omitempty"`
	Sample     []string          `json:"sample"`
	Outcomes   map[string]int    `json:"outcomes,omitempty"`
}

// Main is the entry point of a scenario binary.
func Main(scs []Scenario, reset func()) {
	var (
		name   = flag.String("scenario", "", "scenario to explore")
		tier   = flag.String("tier", "quick", "quick or thorough")
		list   = flag.Bool("list", false, "list scenarios")
		out    = flag.String("out", "", "result file")
		replay = flag.String("replay", "", "replay a violation file")
		known  = flag.String("known", "", "comma separated known-finding keys")
		bound  = flag.Int("d", -1, "override the deviation bound")
		sec    = flag.Float64("sec", 0, "override the wall limit")
		tr     = flag.Bool("trace", false, "print the default execution")
	)
	sc1 := flag.Bool("sc", false, "never delay plain stores")
	flag.Parse()
	runtime.GOMAXPROCS(1)
	Watchdog(60)
	if *list {
		for _, s := range scs {
			if !s.DeepOnly || *tier != "quick" {
				fmt.Println(s.Name)
			}
		}
		return
	}
	var f Found
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		if err := json.Unmarshal(b, &f); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		*name = f.Scenario
	}
	for i := range scs {
		sc := &scs[i]
		if sc.Name != *name {
			continue
		}
		b := sc.Quick
		if *tier == "thorough" {
			d := sc.Deep
			if d.D > 0 {
				b.D = d.D
			} else if d.D == 0 {
				b.D += 1
			}
			if d.Sec > 0 {
				b.Sec = d.Sec
			} else {
				b.Sec = 420
			}
			if d.MaxEarly > 0 {
				b.MaxEarly = d.MaxEarly
			}
		}
		if *bound >= 0 {
			b.D = *bound
		}
		if *sc1 {
			b.SC = true
		}
		if b.Horizon == 0 {
			b.Horizon = 10 * time.Minute
		}
		if b.EarlyWin == 0 {
			b.EarlyWin = time.Hour
		}
		if b.MaxSteps == 0 {
			b.MaxSteps = 20000
		}
		if b.Sec == 0 {
			b.Sec = 120
		}
		if *sec > 0 {
			b.Sec = *sec
		}
		x := &Explorer{sc: sc, b: b, reset: reset, known: map[string]bool{}, knownHit: map[string]string{}}
		for _, k := range strings.Split(*known, "|") {
			if k != "" {
				x.known[k] = true
			}
		}
		x.racy = make([]bool, len(SiteNames)+1)
		x.fresh = make([]bool, len(SiteNames)+1)
		if *tr || *replay != "" {
			x.replay = true
			for _, r := range f.Racy {
				var n int
				fmt.Sscan(r, &n)
				if n < len(x.racy) {
					x.racy[n] = true
				}
			}
			e := x.one(f.Devs, true)
			for _, l := range e.trace {
				fmt.Println(l)
			}
			if e.viol != nil {
				fmt.Println("VIOLATED:", e.viol.Kind, e.viol.Msg)
				os.Exit(1)
			}
			fmt.Println("no violation on this schedule")
			return
		}
		x.run()
		res := Result{
			Scenario: sc.Name, Doc: sc.Doc, Execs: x.execs, Pruned: x.pruned, States: len(x.seen), Trans: x.trans,
			Points: x.maxPoints, Restarts: x.restarts, DoneLevel: x.done, Exhausted: x.exhausted,
			Timeout: x.timeout, Wall: time.Since(x.start).Seconds(), Violations: x.viols, KnownHit: x.knownHit, Outcomes: x.outcomes,
		}
		res.RacyNames = x.racyNames()
		res.Racy = len(res.RacyNames)
		if len(x.viols) == 0 {
			// one explored schedule, written out
			x.replay = true
			e := x.one(nil, true)
			res.Sample = e.trace
			if len(res.Sample) > 40 {
				res.Sample = append(res.Sample[:40:40], fmt.Sprintf("... %d more steps", len(e.trace)-40))
			}
		}
		js, _ := json.MarshalIndent(res, "", " ")
		if *out != "" {
			os.MkdirAll(filepath.Dir(*out), 0o755)
			os.WriteFile(*out, js, 0o644)
		} else {
			fmt.Println(string(js))
		}
		return
	}
	names := []string{}
	for _, s := range scs {
		names = append(names, s.Name)
	}
	sort.Strings(names)
	fmt.Fprintln(os.Stderr, "unknown scenario", *name, "; have", names)
	os.Exit(2)
}
