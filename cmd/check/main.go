// check decides one property: it builds the harnesses from the current tree of
// the repository, explores every scenario of the property and writes the
// evidence file. Exit 0: held on everything explored. Exit 1: violated.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type found struct {
	Scenario string          `json:"scenario"`
	Kind     string          `json:"kind"`
	Msg      string          `json:"message"`
	Devs     json.RawMessage `json:"deviations,omitempty"`
	Racy     []string        `json:"racy_sites,omitempty"`
	Case     string          `json:"case,omitempty"`
	Trace    []string        `json:"trace"`
}

type result struct {
	Scenario   string            `json:"scenario"`
	Doc        string            `json:"doc"`
	Execs      int64             `json:"executions"`
	Pruned     int64             `json:"pruned"`
	States     int64             `json:"states"`
	Trans      int64             `json:"transitions"`
	Points     int               `json:"max_choice_points"`
	Racy       int               `json:"racy_sites"`
	DoneLevel  int               `json:"deviation_bound_completed"`
	Exhausted  bool              `json:"all_schedules"`
	Timeout    bool              `json:"hit_limit"`
	Wall       float64           `json:"wall_s"`
	Violations []found           `json:"violations"`
	KnownHit   map[string]string `json:"known,omitempty"`
	Sample     []string          `json:"sample"`
	Bounds     string            `json:"bounds,omitempty"`
	Outcomes   int               `json:"outcomes,omitempty"`
	lost       string
	seq        bool
}

var (
	root = "/verif"
	repo = "/repo"
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "check: "+f+"\n", a...)
	os.Exit(2)
}

func env() []string {
	e := os.Environ()
	e = append(e, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")
	if c := os.Getenv("GOCACHE"); c == "" {
		e = append(e, "GOCACHE="+filepath.Join(root, "build", "gocache"))
	}
	return e
}

func command(dir string, limit time.Duration, name string, arg ...string) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c := exec.CommandContext(ctx, name, arg...)
	c.Dir = dir
	c.Env = env()
	b, err := c.CombinedOutput()
	return string(b), err
}

// group is one harness binary.
type group struct {
	name string
	seq  bool // sequential enumeration on the uninstrumented code
}

// groups maps each property to the harness binaries that hold its scenarios.
var groups = map[string][]group{}

func reg(ids string, gs ...group) {
	for _, id := range strings.Fields(ids) {
		groups[id] = append(groups[id], gs...)
	}
}

func buildInstr(work, name string, syncOnly bool) (string, error) {
	inst := filepath.Join(work, "inst-"+name)
	os.RemoveAll(inst)
	tool := filepath.Join(work, "instr")
	if _, err := os.Stat(tool); err != nil {
		if o, err := command(root, 5*time.Minute, "go", "build", "-o", tool, "./cmd/instr"); err != nil {
			return "", fmt.Errorf("building instr: %v\n%s", err, o)
		}
	}
	args := []string{"-src", repo, "-out", inst, "-harness", filepath.Join("scen", name)}
	if syncOnly {
		args = append(args, "-sync-only")
	}
	if o, err := command(root, 3*time.Minute, tool, args...); err != nil {
		return "", fmt.Errorf("instrumenting: %v\n%s", err, o)
	}
	bin := filepath.Join(work, name)
	if o, err := command(inst, 5*time.Minute, "go", "build", "-o", bin, "./mcharness/"+name); err != nil {
		return "", fmt.Errorf("building %s: %v\n%s", name, err, o)
	}
	return bin, nil
}

func buildSeq(work, name string) (string, error) {
	mf := filepath.Join(work, "seq.mod")
	os.WriteFile(mf, []byte(fmt.Sprintf("module verif\n\ngo 1.21\n\nrequire github.com/funny-falcon/go-iproto v0.0.0\n\nreplace github.com/funny-falcon/go-iproto => %s\n", repo)), 0o644)
	bin := filepath.Join(work, name)
	if o, err := command(root, 5*time.Minute, "go", "build", "-modfile", mf, "-o", bin, "./seq/"+name); err != nil {
		return "", fmt.Errorf("building %s: %v\n%s", name, err, o)
	}
	return bin, nil
}

type job struct {
	bin, scen string
	seq       bool
}

func main() {
	flag.StringVar(&repo, "repo", "/repo", "tree to check")
	only := flag.String("only", "", "only scenarios containing this")
	keep := flag.Bool("keep", false, "keep the build")
	warm := flag.Bool("setup", false, "only build everything once (fills the build cache)")
	flag.Parse()
	if v := os.Getenv("VERIF_DIR"); v != "" {
		root = v
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	start := time.Now()
	id := flag.Arg(0)
	if *warm {
		setup()
		return
	}
	gs, ok := groups[id]
	if !ok {
		die("unknown property %q", id)
	}
	work := filepath.Join(root, "build", id)
	if repo != "/repo" {
		work += fmt.Sprintf("-%d", os.Getpid())
	}
	os.RemoveAll(work)
	if err := os.MkdirAll(work, 0o755); err != nil {
		die("%v", err)
	}
	if !*keep {
		defer os.RemoveAll(work)
	}
	exit := func(n int) {
		if !*keep {
			os.RemoveAll(work)
		}
		os.Exit(n)
	}

	// build
	var mu sync.Mutex
	var jobs []job
	var notes []string
	var wg sync.WaitGroup
	var berr error
	if o, err := command(root, 5*time.Minute, "go", "build", "-o", filepath.Join(work, "instr"), "./cmd/instr"); err != nil {
		fmt.Fprintln(os.Stderr, o)
		die("%v", err)
	}
	for _, g := range gs {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			var bin string
			var err error
			if g.seq {
				bin, err = buildSeq(work, g.name)
			} else {
				bin, err = buildInstr(work, g.name, false)
				if err != nil {
					fmt.Fprintf(os.Stderr, "check: falling back to synchronisation-only instrumentation: %v\n", err)
					mu.Lock()
					notes = append(notes, g.name+": plain memory accesses were not instrumented")
					mu.Unlock()
					bin, err = buildInstr(work, g.name, true)
				}
			}
			if err == nil {
				var o string
				o, err = command(root, time.Minute, bin, "-list", "-tier", tier)
				mu.Lock()
				for _, s := range strings.Fields(o) {
					if strings.HasPrefix(s, id+".") && strings.Contains(s, *only) {
						jobs = append(jobs, job{bin, s, g.seq})
					}
				}
				mu.Unlock()
			}
			if err != nil {
				mu.Lock()
				berr = err
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if berr != nil {
		fmt.Fprintln(os.Stderr, berr)
		exit(2)
	}
	if len(jobs) == 0 {
		fmt.Fprintln(os.Stderr, "check: no scenarios for", id)
		exit(2)
	}
	sort.Slice(jobs, func(i, j int) bool { return jobs[i].scen < jobs[j].scen })
	buildS := time.Since(start).Seconds()

	// explore
	limit := 60.0 // seconds per scenario
	total := 240.0
	if tier == "thorough" {
		limit, total = 1500, 6000
	}
	known := knownKeys(id)
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	if nw < 2 {
		nw = 2
	}
	runStart := time.Now()
	results := make([]result, len(jobs))
	next := make(chan int, len(jobs))
	for i := range jobs {
		next <- i
	}
	close(next)
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				left := total - time.Since(runStart).Seconds()
				sec := limit
				if sec > left {
					sec = left
				}
				if sec < 5 {
					sec = 5
				}
				results[i] = run(work, jobs[i], tier, sec, known)
				if os.Getenv("CHECK_VERBOSE") != "" {
					r := results[i]
					fmt.Fprintf(os.Stderr, "  %-34s %6.1fs execs=%d states=%d D=%d all=%v limit=%v lost=%q viol=%d\n", r.Scenario, r.Wall, r.Execs, r.States, r.DoneLevel, r.Exhausted, r.Timeout, r.lost, len(r.Violations))
				}
			}
		}()
	}
	wg.Wait()

	// judge
	rdir := filepath.Join(root, "build", "replay")
	os.MkdirAll(rdir, 0o755)
	var viol []string
	knownHit := map[string]string{}
	var st, tr, ex int64
	exhaustive := true
	samples := []any{}
	per := []any{}
	var wall float64
	for i, r := range results {
		st += r.States
		tr += r.Trans
		ex += r.Execs
		wall += r.Wall
		if r.Timeout || r.lost != "" {
			exhaustive = false
		}
		m := map[string]any{
			"scenario": r.Scenario, "what": r.Doc, "executions": r.Execs, "pruned_as_equivalent": r.Pruned, "states": r.States, "transitions": r.Trans,
			"hit_limit": r.Timeout, "wall_s": round(r.Wall),
		}
		if r.seq {
			m["enumeration"] = r.Bounds
			if r.Outcomes > 0 {
				m["distinct_outcomes"] = r.Outcomes
			}
		} else {
			m["deviation_bound_completed"] = r.DoneLevel
			m["all_schedules_explored"] = r.Exhausted
			m["longest_choice_sequence"] = r.Points
			m["racy_access_sites_scheduled"] = r.Racy
		}
		if r.lost != "" {
			m["incomplete"] = r.lost
		}
		per = append(per, m)
		if len(r.Sample) > 0 && len(samples) < 4 {
			samples = append(samples, map[string]any{"scenario": r.Scenario, "trace": r.Sample})
		}
		for k, v := range r.KnownHit {
			if !strings.HasPrefix(k, "unconfirmed:") {
				knownHit[k] = v
			} else {
				notes = append(notes, r.Scenario+": "+k)
			}
		}
		for n, f := range r.Violations {
			p := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", strings.ReplaceAll(r.Scenario, "/", "_"), n))
			b, _ := json.MarshalIndent(f, "", " ")
			os.WriteFile(p, b, 0o644)
			// a fresh process has to show it again
			if f.Kind != "crash" && f.Kind != "cpu" {
				o, err := command(root, 3*time.Minute, jobs[i].bin, "-replay", p)
				if err == nil || !strings.Contains(o, "VIOLATED") {
					notes = append(notes, fmt.Sprintf("%s: violation not reproduced by a fresh process: %s", r.Scenario, f.Msg))
					exhaustive = false
					continue
				}
			}
			fmt.Printf("%s: %s: %s\n", f.Scenario, f.Kind, f.Msg)
			for _, l := range tail(f.Trace, 60) {
				fmt.Println("    " + l)
			}
			viol = append(viol, fmt.Sprintf("VIOLATION property=%s replay=%s", id, p))
		}
	}
	var assumptions = []string{
		"the bounds of the scenarios (participants, operations, deviations from the default schedule, virtual time) are those listed per scenario",
		"the instrumented copy behaves like the original: go statements, channel operations, sync, sync/atomic, time, net and memory accesses are routed to the controlled scheduler, everything else is the original source",
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.Since(start).Seconds()),
		"violations": len(viol), "assumptions": assumptions,
		"coverage": map[string]any{
			"states": st, "transitions": tr, "traces_validated_against_impl": ex,
			"samples": samples, "scenarios": per, "exhaustive": exhaustive, "build_s": round(buildS), "cpu_s": round(wall),
			"notes": notes,
			"explanation": "states: distinct happens-before states at choice points (concurrent scenarios) or distinct enumerated cases (sequential ones); transitions: scheduled steps or library operations executed; traces_validated_against_impl: complete executions, every one of them run on the implementation itself",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", id+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		exit(2)
	}
	for k, v := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", id, k, v)
	}
	for _, v := range viol {
		fmt.Println(v)
	}
	fmt.Printf("%s %s: %d scenarios, %d executions, %d states, %d transitions, %.1f s (%.1f s build), violations %d\n", id, tier, len(results), ex, st, tr, time.Since(start).Seconds(), buildS, len(viol))
	if len(viol) > 0 {
		exit(1)
	}
	exit(0)
}

func round(f float64) float64 { return float64(int(f*10+0.5)) / 10 }

func tail(l []string, n int) []string {
	if len(l) > n {
		return l[len(l)-n:]
	}
	return l
}

// run explores one scenario in its own process.
func run(work string, j job, tier string, sec float64, known []string) (r result) {
	r = runOnce(work, j, tier, sec, known)
	if len(r.Violations) > 0 && (r.Violations[0].Kind == "crash" || r.Violations[0].Kind == "cpu") {
		// the runtime itself gave up: believe it only if it happens again
		r2 := runOnce(work, j, tier, sec, known)
		if len(r2.Violations) == 0 || r2.Violations[0].Kind != r.Violations[0].Kind {
			r2.lost = "a crash of the exploring process did not repeat"
			return r2
		}
	}
	return r
}

func runOnce(work string, j job, tier string, sec float64, known []string) (r result) {
	r = result{Scenario: j.scen, seq: j.seq}
	out := filepath.Join(work, "res-"+j.scen+".json")
	os.Remove(out)
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration((sec*1.5+45)*float64(time.Second)))
	defer cancel()
	args := []string{"-scenario", j.scen, "-tier", tier, "-out", out, "-sec", fmt.Sprint(sec)}
	if len(known) > 0 {
		args = append(args, "-known", strings.Join(known, "|"))
	}
	c := exec.CommandContext(ctx, j.bin, args...)
	c.Env = append(env(), "GOMEMLIMIT=3GiB", "GOTRACEBACK=single")
	var stderr bytes.Buffer
	c.Stderr = &limited{b: &stderr}
	c.Stdout = &limited{b: &stderr}
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	t := time.Now()
	runtime.LockOSThread()
	err := c.Run()
	runtime.UnlockOSThread()
	b, rerr := os.ReadFile(out)
	if rerr == nil && json.Unmarshal(b, &r) == nil {
		r.seq = j.seq
		return r
	}
	r.Wall = time.Since(t).Seconds()
	s := stderr.String()
	if ctx.Err() != nil {
		r.lost = "killed after its time limit"
		return r
	}
	if k := strings.Index(s, "CPU-LOOP "); k >= 0 {
		r.Violations = []found{{Scenario: j.scen, Kind: "cpu", Msg: firstLine(s[k:]), Trace: strings.Split(s[k:], "\n")}}
		return r
	}
	for _, m := range []string{"fatal error: stack overflow", "goroutine stack exceeds", "fatal error: all goroutines are asleep", "fatal error: concurrent map", "fatal error: sync: ", "\npanic: ", "fatal error: runtime: out of memory", "fatal error: makeslice", "unexpected fault address"} {
		if k := strings.Index("\n"+s, m); k >= 0 {
			r.Violations = []found{{Scenario: j.scen, Kind: "crash", Msg: firstLine(strings.TrimSpace(("\n" + s)[k:])), Trace: tail(strings.Split(s, "\n"), 60)}}
			return r
		}
	}
	r.lost = fmt.Sprintf("the exploring process ended early (%v): %s", err, strings.Join(tail(strings.Split(strings.TrimSpace(s), "\n"), 3), " / "))
	fmt.Fprintln(os.Stderr, "check:", r.Scenario, r.lost)
	return r
}

type limited struct{ b *bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<18 {
		l.b.Write(p)
	}
	return len(p), nil
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// knownKeys reads the keys of the known findings of a property.
func knownKeys(id string) (l []string) {
	b, _ := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	for _, s := range strings.Split(string(b), "\n") {
		f := strings.SplitN(strings.TrimSpace(s), " ", 3)
		if len(f) == 3 && f[0] == "known:" && f[1] == "property="+id {
			if k := strings.TrimPrefix(f[2], "key="); k != f[2] {
				if i := strings.Index(k, " ## "); i >= 0 {
					k = k[:i]
				}
				l = append(l, k)
			}
		}
	}
	return
}

// setup builds every harness once so that later runs find a warm build cache.
func setup() {
	work := filepath.Join(root, "build", "setup")
	os.RemoveAll(work)
	os.MkdirAll(work, 0o755)
	defer os.RemoveAll(work)
	seen := map[string]bool{}
	for _, gs := range groups {
		for _, g := range gs {
			if seen[g.name] {
				continue
			}
			seen[g.name] = true
			var err error
			if g.seq {
				_, err = buildSeq(work, g.name)
			} else {
				_, err = buildInstr(work, g.name, false)
			}
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.RemoveAll(work)
				os.Exit(1)
			}
		}
	}
	fmt.Println("built", len(seen), "harnesses")
}
