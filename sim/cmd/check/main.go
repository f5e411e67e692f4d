// Command check decides one property: it instruments the code under test, builds
// the simulator around it, searches seeds with several workers, reduces and
// confirms what it finds, and writes the evidence.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type found struct {
	Prop      string          `json:"property"`
	Violation violation       `json:"violation"`
	Plan      json.RawMessage `json:"plan"`
	History   []string        `json:"history,omitempty"`
	Trace     []string        `json:"trace,omitempty"`
	Hash      uint64          `json:"hash"`
}

type violation struct {
	Props  []string `json:"props"`
	Kind   string   `json:"kind"`
	Detail string   `json:"detail"`
}

type sample struct {
	Plan    json.RawMessage `json:"plan"`
	History []string        `json:"history"`
	Steps   int64           `json:"steps"`
	Hash    string          `json:"schedule_hash"`
}

type summary struct {
	Runs      int            `json:"runs"`
	Steps     int64          `json:"steps"`
	Switches  int64          `json:"switches"`
	Decisions int64          `json:"decisions"`
	SimTime   time.Duration  `json:"sim_time"`
	Faults    map[string]int `json:"faults"`
	Policies  map[string]int `json:"policies"`
	Scenarios map[string]int `json:"scenarios"`
	Count     map[string]int `json:"count"`
	Overruns  int            `json:"overruns"`
	Hashes    []uint64       `json:"hashes"`
	Obs       []uint64       `json:"obs"`
	Found     []found        `json:"found"`
	Known     map[string]int `json:"known"`
	Samples   []sample       `json:"samples"`
	Rechecks  int            `json:"rechecks"`
	Mismatch  []string       `json:"mismatch"`
	Wall      float64        `json:"wall"`
}

type finding struct {
	Property string `json:"property"`
	Scenario string `json:"scenario"`
	Kind     string `json:"kind"`
	Match    string `json:"match"` // the detail must contain this text
	What     string `json:"what"`
}

type knownFile struct {
	Findings []finding `json:"findings"`
	Fixed    []string  `json:"fixed"`
}

var (
	tmp   = flag.String("tmp", "", "scratch directory")
	verif = flag.String("verif", "/verif", "this framework")
	tier  = flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	secs  = flag.Float64("secs", 0, "seconds of search (0: by tier)")
	reps  = flag.String("replay", "", "replay this file instead of searching")
	nproc = flag.Int("j", 0, "workers")
	only  = flag.Bool("build", false, "only build")
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "check: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	if *tmp == "" {
		die("no scratch directory")
	}
	start := time.Now()
	level := build()
	if *only {
		fmt.Printf("built at instrumentation level %d in %.1f s\n", level, time.Since(start).Seconds())
		return
	}
	if *reps != "" {
		cmd := exec.Command(filepath.Join(*tmp, "simrun"), "-replay", *reps)
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		if err := cmd.Run(); err != nil {
			if x, ok := err.(*exec.ExitError); ok {
				os.Exit(x.ExitCode())
			}
			die("%v", err)
		}
		return
	}
	if flag.NArg() != 1 {
		die("usage: check PROPERTY")
	}
	if level == 1 && flag.Arg(0) == "B09" {
		die("the code can only be built without the replacement of standard output, which B09 needs")
	}
	os.Exit(decide(flag.Arg(0), level, start))
}

// build instruments the code under test and builds the simulator around it.
// Level 3 instruments memory accesses, 2 only synchronisation, 1 only imports and goroutines.
func build() int {
	var msgs []string
	for level := 3; level >= 1; level-- {
		out := filepath.Join(*tmp, "overlay")
		os.RemoveAll(out)
		c := exec.Command(filepath.Join(*tmp, "instr"), "-out", out, "-mod", ".", "-level", strconv.Itoa(level))
		c.Dir = filepath.Join(*verif, "sim")
		if b, err := c.CombinedOutput(); err != nil {
			msgs = append(msgs, fmt.Sprintf("instrumenting at level %d: %v\n%s", level, err, b))
			continue
		}
		c = exec.Command("go", "build", "-overlay", filepath.Join(out, "overlay.json"), "-o", filepath.Join(*tmp, "simrun"), "./cmd/simrun")
		c.Dir = filepath.Join(*verif, "sim")
		b, err := c.CombinedOutput()
		if err == nil {
			for _, m := range msgs {
				fmt.Fprintln(os.Stderr, m)
			}
			return level
		}
		msgs = append(msgs, fmt.Sprintf("building at level %d: %v\n%s", level, err, b))
	}
	die("cannot build the code under test:\n%s", strings.Join(msgs, "\n"))
	return 0
}

func loadKnown() knownFile {
	var k knownFile
	b, err := os.ReadFile(filepath.Join(*verif, "known_findings.json"))
	if err == nil {
		if err := json.Unmarshal(b, &k); err != nil {
			die("known_findings.json: %v", err)
		}
	}
	return k
}

func decide(prop string, level int, start time.Time) int {
	if *tier == "" {
		*tier = "quick"
	}
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	d := *secs
	if d == 0 {
		d = 40
		if *tier == "thorough" {
			d = 700
		}
	}
	n := *nproc
	if n == 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
	}
	built := time.Since(start).Seconds()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var mu sync.Mutex
	var sums []summary
	var errs []string
	hit := make(chan struct{})
	var once sync.Once
	var wg sync.WaitGroup
	searched := time.Now()
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			stop := filepath.Join(*tmp, "stop")
			args := []string{
				"-prop", prop, "-seed", fmt.Sprint(seed*1_000_000_007 + uint64(w)), "-stride", fmt.Sprint(n),
				"-n", "2000000000", "-secs", fmt.Sprint(d), "-keep", "4", "-stopfile", stop,
				"-known", filepath.Join(*verif, "known_findings.json"),
			}
			c := exec.CommandContext(ctx, filepath.Join(*tmp, "simrun"), args...)
			var out, eb bytes.Buffer
			c.Stdout, c.Stderr = &out, &eb
			err := c.Run()
			mu.Lock()
			defer mu.Unlock()
			var s summary
			if e := json.Unmarshal(out.Bytes(), &s); e != nil {
				t := eb.String()
				if len(t) > 3000 {
					t = t[:3000]
				}
				errs = append(errs, fmt.Sprintf("worker %d: %v %v\n%s", w, err, e, t))
				return
			}
			sums = append(sums, s)
			if len(s.Found) > 0 {
				once.Do(func() { close(hit); os.WriteFile(stop, nil, 0o644) })
			}
		}(w)
	}
	wg.Wait()
	wall := time.Since(searched).Seconds()
	if len(errs) > 0 {
		fmt.Fprintln(os.Stderr, strings.Join(errs, "\n"))
	}
	if len(sums) == 0 {
		die("no worker finished")
	}
	t := merge(sums)
	known := loadKnown()
	for _, k := range known.Findings {
		if k.Property == prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s (met in %d runs)\n", prop, k.What, t.Known[k.Kind])
		}
	}
	code := 0
	replay := ""
	unconfirmed := 0
	if len(t.Found) > 0 {
		sort.SliceStable(t.Found, func(i, j int) bool { return rank(t.Found[i]) < rank(t.Found[j]) })
		for i, f := range t.Found {
			if i >= 6 {
				break
			}
			if p, ok := confirm(prop, f); ok {
				replay, code = p, 1
				break
			}
			unconfirmed++
			fmt.Fprintf(os.Stderr, "check: a violation (%s: %s) did not reproduce under its own seed and is not reported\n", f.Violation.Kind, f.Violation.Detail)
		}
		if code == 0 {
			evidence(prop, level, seed, d, n, built, wall, t, 0, start)
			die("violations were seen but none reproduced: the code under test has a source of nondeterminism the simulator does not control")
		}
	}
	evidence(prop, level, seed, d, n, built, wall, t, len(t.Found), start)
	fmt.Printf("%s: %d simulated runs (%d distinct schedules, %d distinct histories), %d steps, %v of simulated time in %.0f s, instrumentation level %d\n",
		prop, t.Runs, len(t.Hashes), len(t.Obs), t.Steps, t.SimTime.Round(time.Second), wall, level)
	if code == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
	} else if len(errs) > 0 {
		die("%d of %d workers failed", len(errs), n)
	}
	return code
}

func rank(f found) int {
	switch f.Violation.Kind {
	case "hang":
		return 3
	case "race":
		return 2
	case "panic", "deadlock", "livelock":
		return 1
	}
	return 0
}

// confirm reduces a violation, replays the result and stores it.
func confirm(prop string, f found) (string, bool) {
	f.Prop = prop
	raw := filepath.Join(*tmp, "found.json")
	write := func(path string, f found) {
		b, err := json.MarshalIndent(f, "", " ")
		if err != nil {
			die("%v", err)
		}
		if err := os.WriteFile(path, b, 0o644); err != nil {
			die("%v", err)
		}
	}
	write(raw, f)
	best := f
	if f.Violation.Kind != "hang" {
		budget := 20.0
		if *tier == "thorough" {
			budget = 60
		}
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(budget+60)*time.Second)
		defer cancel()
		c := exec.CommandContext(ctx, filepath.Join(*tmp, "simrun"), "-minimise", raw, "-secs", fmt.Sprint(budget))
		out, err := c.Output()
		var m found
		if err == nil && json.Unmarshal(out, &m) == nil && m.Plan != nil {
			best = m
		}
	}
	dir := filepath.Join(*verif, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", prop, best.Hash))
	try := func(x found) bool {
		write(path, x)
		c := exec.Command(filepath.Join(*tmp, "simrun"), "-replay", path)
		out, err := c.CombinedOutput()
		if e, ok := err.(*exec.ExitError); ok && e.ExitCode() == 1 {
			fmt.Print(string(out))
			return true
		}
		return false
	}
	if try(best) || try(f) {
		return path, true
	}
	os.Remove(path)
	return "", false
}

func merge(sums []summary) summary {
	t := summary{Faults: map[string]int{}, Policies: map[string]int{}, Scenarios: map[string]int{}, Count: map[string]int{}, Known: map[string]int{}}
	hs, os := map[uint64]bool{}, map[uint64]bool{}
	add := func(d, s map[string]int) {
		for k, v := range s {
			d[k] += v
		}
	}
	for _, s := range sums {
		t.Runs += s.Runs
		t.Steps += s.Steps
		t.Switches += s.Switches
		t.Decisions += s.Decisions
		t.SimTime += s.SimTime
		t.Overruns += s.Overruns
		t.Rechecks += s.Rechecks
		t.Mismatch = append(t.Mismatch, s.Mismatch...)
		add(t.Faults, s.Faults)
		add(t.Policies, s.Policies)
		add(t.Scenarios, s.Scenarios)
		add(t.Count, s.Count)
		add(t.Known, s.Known)
		for _, h := range s.Hashes {
			hs[h] = true
		}
		for _, h := range s.Obs {
			os[h] = true
		}
		t.Found = append(t.Found, s.Found...)
		if len(t.Samples) < 2 {
			t.Samples = append(t.Samples, s.Samples...)
		}
	}
	for h := range hs {
		t.Hashes = append(t.Hashes, h)
	}
	for h := range os {
		t.Obs = append(t.Obs, h)
	}
	return t
}

func evidence(prop string, level int, seed uint64, d float64, n int, built, wall float64, t summary, nviol int, start time.Time) {
	note := map[int]string{
		3: "every access to shared memory, channel, lock, timer, context, goroutine start and map iteration of the code under test is a scheduling point",
		2: "channels, locks, timers, contexts, goroutine starts and map iterations are scheduling points; memory accesses are not instrumented (the code could not be built that way)",
		1: "only locks, timers, contexts and goroutine starts are scheduling points (the code could not be built with more)",
	}[level]
	perHour := 0
	if wall > 0 {
		perHour = int(float64(t.Runs) / wall * 3600)
	}
	mis := t.Mismatch
	if mis == nil {
		mis = []string{}
	}
	ev := map[string]any{
		"property": prop,
		"tier":     *tier,
		"seed":     seed,
		"level":    "exploration",
		"coverage": map[string]any{
			"evaluations":         t.Runs,
			"distinct_nontrivial": len(t.Hashes),
			"rule":                "one evaluation is one simulated execution of a generated workload (seed -> workload, scheduler policy, every interleaving, delay and fault). Counted as distinct and non-trivial: executions with at least three task switches, three workload operations or one injected fault, whose workload together with the whole sequence of scheduling decisions (a hash over the workload and every step) occurred in no other execution",
			"samples":             t.Samples,
			"distinct_histories":  len(t.Obs),
			"runs_per_hour":       perHour, // every run is its own seed
			"steps":               t.Steps,
			"task_switches":       t.Switches,
			"decisions":           t.Decisions,
			"simulated_time_s":    t.SimTime.Seconds(),
			"faults_injected":     t.Faults,
			"observed":            t.Count,
			"scheduler_policies":  t.Policies,
			"scenarios":           t.Scenarios,
			"step_limit_reached":  t.Overruns,
			"determinism_rechecks": map[string]any{
				"repeated_seeds": t.Rechecks,
				"mismatches":     mis,
			},
			"instrumentation": map[string]any{"level": level, "meaning": note},
			"components": map[string]any{
				"real code": []string{"all packages of github.com/milosgajdos/netscrape (instrumented at build time from /repo's working tree, otherwise unchanged)", "gonum graph, graph/simple, graph/iterator, graph/set/uid, graph/encoding/dot", "github.com/google/uuid (random source seeded)"},
				"simulated": []string{"goroutine scheduler", "sync, sync/atomic, channels and select", "time and timers", "context", "standard output (faults injected)", "map iteration order", "randomness"},
			},
			"known_findings_met": t.Known,
			"workers":            n,
			"build_s":            built,
			"search_s":           wall,
		},
		"assumptions": []string{
			"executions are sequentially consistent; weaker behaviour is covered only through the happens-before race detector",
			"sampling of schedules, workloads and faults: a pass means nothing was found in the runs counted here",
		},
		"wall_s":     time.Since(start).Seconds(),
		"violations": nviol,
	}
	dir := filepath.Join(*verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
}
