//go:debug randseednop=0

// Command simrun executes simulated runs: a range of seeds (worker mode), one
// recorded plan (replay mode) or the reduction of a failing plan (minimise mode).
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif.local/sim/scen"
)

// Found is a violation together with the plan that shows it.
type Found struct {
	Prop      string         `json:"property"`
	Violation scen.Violation `json:"violation"`
	Plan      *scen.Plan     `json:"plan"`
	History   []string       `json:"history,omitempty"`
	Trace     []string       `json:"trace,omitempty"`
	Hash      uint64         `json:"hash"`
}

// Summary is what a worker reports.
type Summary struct {
	Runs      int            `json:"runs"`
	Steps     int64          `json:"steps"`
	Switches  int64          `json:"switches"`
	Decisions int64          `json:"decisions"`
	SimTime   time.Duration  `json:"sim_time"`
	Faults    map[string]int `json:"faults"`
	Policies  map[string]int `json:"policies"`
	Scenarios map[string]int `json:"scenarios"`
	Count     map[string]int `json:"count"`
	Overruns  int            `json:"overruns"`
	Hashes    []uint64       `json:"hashes"`
	Obs       []uint64       `json:"obs"`
	Found     []Found        `json:"found"`
	Known     map[string]int `json:"known"`
	Samples   []Sample       `json:"samples"`
	Rechecks  int            `json:"rechecks"`
	Mismatch  []string       `json:"mismatch"`
	Wall      float64        `json:"wall"`
	NextSeed  uint64         `json:"next_seed"`
}

// Sample is one execution written out for the evidence.
type Sample struct {
	Plan    *scen.Plan `json:"plan"`
	History []string   `json:"history"`
	Steps   int        `json:"steps"`
	Hash    string     `json:"schedule_hash"`
}

// Finding is a known violation that is not reported again.
type Finding struct {
	Property string `json:"property"`
	Scenario string `json:"scenario"`
	Kind     string `json:"kind"`
	Match    string `json:"match"`
}

type knownFile struct {
	Findings []Finding `json:"findings"`
}

// hangAfter is the real time after which one execution counts as hung.
const hangAfter = 45 * time.Second

// running counts executions, so that a watchdog notices one that never ends.
var running struct {
	n    atomic.Int64
	plan atomic.Pointer[scen.Plan]
}

func execute(p *scen.Plan, trace bool) scen.Outcome {
	running.plan.Store(p)
	running.n.Add(1)
	o := scen.Execute(p, trace)
	running.plan.Store(nil)
	return o
}

// watch calls hung when an execution makes no progress for a long time: the code
// under test loops without ever reaching a scheduling point.
func watch(hung func(p *scen.Plan)) {
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(500 * time.Millisecond)
			n := running.n.Load()
			p := running.plan.Load()
			if n != last || p == nil {
				last, since = n, time.Now()
				continue
			}
			if time.Since(since) > hangAfter {
				hung(p)
				return
			}
		}
	}()
}

func main() {
	prop := flag.String("prop", "", "property")
	base := flag.Uint64("seed", 1, "first seed")
	stride := flag.Uint64("stride", 1, "distance between seeds")
	n := flag.Int("n", 100, "number of runs")
	secs := flag.Float64("secs", 0, "stop after that many seconds (0: no limit)")
	only := flag.String("scen", "", "only this scenario[/preset]")
	replay := flag.String("replay", "", "replay file")
	minimise := flag.String("minimise", "", "file with a Found to reduce")
	list := flag.Bool("list", false, "list properties and scenarios")
	trace := flag.Bool("trace", false, "print the trace")
	all := flag.Bool("all", false, "report violations of any property")
	keep := flag.Int("keep", 8, "stop after that many violations")
	stopfile := flag.String("stopfile", "", "stop when this file exists")
	known := flag.String("known", "", "known findings")
	flag.Parse()
	debug.SetGCPercent(400)
	runtime.GOMAXPROCS(2)
	switch {
	case *list:
		for _, p := range scen.Props() {
			fmt.Println(p, scen.ForProp(p))
		}
	case *replay != "":
		os.Exit(doReplay(*replay, *trace))
	case *minimise != "":
		doMinimise(*minimise, *secs)
	default:
		work(*prop, *only, *base, *stride, *n, *secs, *all, *keep, *stopfile, *known)
	}
}

func pairs(prop, only string) [][2]string {
	if only != "" {
		p := strings.SplitN(only, "/", 2)
		if len(p) == 1 {
			p = append(p, "")
		}
		return [][2]string{{p[0], p[1]}}
	}
	return scen.ForProp(prop)
}

func work(prop, only string, base, stride uint64, n int, secs float64, all bool, keep int, stopfile, known string) {
	ps := pairs(prop, only)
	if len(ps) == 0 {
		fmt.Fprintln(os.Stderr, "no scenario for", prop)
		os.Exit(2)
	}
	s := Summary{Faults: map[string]int{}, Policies: map[string]int{}, Scenarios: map[string]int{}, Count: map[string]int{}, Known: map[string]int{}}
	var kf knownFile
	if known != "" {
		if b, err := os.ReadFile(known); err == nil {
			json.Unmarshal(b, &kf)
		}
	}
	var out sync.Mutex
	watch(func(p *scen.Plan) {
		out.Lock()
		f := Found{Prop: prop, Violation: scen.Violation{Props: []string{prop}, Kind: "hang", Detail: "the execution loops without end"}, Plan: p}
		json.NewEncoder(os.Stdout).Encode(Summary{Runs: int(running.n.Load()), Found: []Found{f}})
		os.Exit(0)
	})
	isKnown := func(scenario string, v scen.Violation) bool {
		for _, k := range kf.Findings {
			if k.Kind == v.Kind && k.Scenario == scenario && v.Has(k.Property) && strings.Contains(v.Detail, k.Match) {
				return true
			}
		}
		return false
	}
	hashes := map[uint64]bool{}
	obs := map[uint64]bool{}
	seen := map[string]int{}
	start := time.Now()
	seed := base
	for i := 0; i < n; i++ {
		if secs > 0 && time.Since(start).Seconds() > secs {
			break
		}
		pr := ps[int(mix(seed)%uint64(len(ps)))]
		if stopfile != "" && i%256 == 255 {
			if _, err := os.Stat(stopfile); err == nil {
				break
			}
		}
		p := scen.Generate(pr[0], pr[1], seed)
		out := execute(p, false)
		if len(s.Samples) < 1 && i >= 3 && out.Stats.Switches > 8 && p.NOps() < 40 {
			h := out.Hist
			if len(h) > 60 {
				h = h[:60]
			}
			s.Samples = append(s.Samples, Sample{p, h, int(out.Stats.Steps), fmt.Sprintf("%016x", out.Stats.Hash)})
		}
		s.Runs++
		s.Steps += int64(out.Stats.Steps)
		s.Switches += int64(out.Stats.Switches)
		s.Decisions += int64(out.Stats.Decisions)
		s.SimTime += out.Stats.SimTime
		s.Policies[p.Policy.String()]++
		s.Scenarios[pr[0]+"/"+pr[1]]++
		for k, v := range out.Stats.Faults {
			s.Faults[k] += v
		}
		for k, v := range out.Count {
			s.Count[k] += v
		}
		if out.Overrun {
			s.Overruns++
		}
		nf := 0
		for _, v := range out.Stats.Faults {
			nf += v
		}
		if out.Stats.Switches >= 3 || nf > 0 || p.NOps() >= 3 {
			hashes[mix(out.Stats.Hash^planHash(p))] = true
		}
		obs[out.Obs] = true
		// the same seed must give the same execution
		if i%64 == 0 {
			s.Rechecks++
			again := execute(scen.Generate(pr[0], pr[1], seed), false)
			if again.Stats.Hash != out.Stats.Hash || again.Obs != out.Obs || again.Stats.Steps != out.Stats.Steps {
				s.Mismatch = append(s.Mismatch, fmt.Sprintf("%s/%s seed %d", pr[0], pr[1], seed))
			}
		}
		for _, v := range out.Violations {
			if !all && !v.Has(prop) {
				continue
			}
			if isKnown(pr[0], v) {
				s.Known[v.Kind]++
				continue
			}
			key := pr[0] + "|" + v.Kind
			if seen[key] >= 2 {
				seen[key]++
				continue
			}
			seen[key]++
			s.Found = append(s.Found, Found{Prop: prop, Violation: v, Plan: p, History: out.Hist, Hash: out.Stats.Hash})
		}
		seed += stride
		if len(s.Found) >= keep {
			break
		}
	}
	out.Lock()
	for h := range hashes {
		s.Hashes = append(s.Hashes, h)
	}
	for h := range obs {
		s.Obs = append(s.Obs, h)
	}
	s.Wall = time.Since(start).Seconds()
	s.NextSeed = seed
	json.NewEncoder(os.Stdout).Encode(s)
	if all {
		var ks []string
		for k, v := range seen {
			ks = append(ks, fmt.Sprintf("%6d  %s", v, k))
		}
		sort.Strings(ks)
		fmt.Fprintln(os.Stderr, strings.Join(ks, "\n"))
		fmt.Fprintf(os.Stderr, "runs %d in %.1fs, steps %d, distinct schedules %d, histories %d, overruns %d, mismatch %v\nfaults %v\ncount %v\n", s.Runs, s.Wall, s.Steps, len(hashes), len(obs), s.Overruns, s.Mismatch, s.Faults, s.Count)
	}
}

// planHash identifies the workload of a run.
func planHash(p *scen.Plan) uint64 {
	q := p.Clone()
	q.Seed = 0
	b, _ := json.Marshal(q)
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func mix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	return x ^ x>>31
}

func load(path string) *Found {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var f Found
	if err := json.Unmarshal(b, &f); err != nil || f.Plan == nil {
		fmt.Fprintln(os.Stderr, "not a replay file:", err)
		os.Exit(2)
	}
	return &f
}

func doReplay(path string, trace bool) int {
	f := load(path)
	watch(func(p *scen.Plan) {
		fmt.Printf("violated: property=%s rule=\"hang\" the execution loops without end\n", f.Prop)
		os.Exit(1)
	})
	out := execute(f.Plan, true)
	if trace {
		fmt.Println(strings.Join(out.Log, "\n"))
	}
	fmt.Printf("replayed %s/%s: %d steps, schedule hash %016x\n", f.Plan.Scenario, f.Plan.Preset, out.Stats.Steps, out.Stats.Hash)
	for _, h := range out.Hist {
		fmt.Println("  " + h)
	}
	code := 0
	for _, v := range out.Violations {
		if v.Has(f.Prop) || f.Prop == "" {
			fmt.Printf("violated: property=%s rule=%q %s\n", f.Prop, v.Kind, v.Detail)
			code = 1
		}
	}
	if f.Hash != 0 && f.Hash != out.Stats.Hash {
		fmt.Printf("note: the schedule hash differs from the recorded one (%016x): the code under test has changed\n", f.Hash)
	}
	return code
}

// violates runs p and returns the violation with the same rule, if any.
func violates(p *scen.Plan, f *Found) (*scen.Violation, scen.Outcome) {
	out := execute(p, false)
	for i, v := range out.Violations {
		if v.Kind == f.Violation.Kind && (f.Prop == "" || v.Has(f.Prop)) {
			return &out.Violations[i], out
		}
	}
	return nil, out
}

func doMinimise(path string, secs float64) {
	f := load(path)
	if secs == 0 {
		secs = 15
	}
	deadline := time.Now().Add(time.Duration(secs * float64(time.Second)))
	late := func() bool { return time.Now().After(deadline) }
	best := f.Plan.Clone()
	v, out := violates(best, f)
	if v == nil {
		fmt.Fprintln(os.Stderr, "minimise: not reproducible")
		json.NewEncoder(os.Stdout).Encode(f)
		return
	}
	// try accepts a candidate under the same seed, a calmer policy, or a few other seeds
	try := func(q *scen.Plan) bool {
		if late() {
			return false
		}
		for k := uint64(0); k < 12; k++ {
			c := q.Clone()
			if k > 0 {
				c.Seed = q.Seed*1000003 + k
			}
			if w, o := violates(c, f); w != nil {
				best, v, out = c, w, o
				return true
			}
			if late() {
				return false
			}
		}
		return false
	}
	// 1. fewer tasks and operations
	for changed := true; changed && !late(); {
		changed = false
		for i := len(best.Tasks) - 1; i >= 0; i-- {
			q := best.Clone()
			q.Tasks = append(q.Tasks[:i], q.Tasks[i+1:]...)
			if try(q) {
				changed = true
			}
		}
		for i := len(best.Tasks) - 1; i >= 0 && i < len(best.Tasks); i-- {
			for size := len(best.Tasks[i].Ops); size >= 1; size /= 2 {
				for j := 0; j+size <= len(best.Tasks[i].Ops); {
					q := best.Clone()
					q.Tasks[i].Ops = append(q.Tasks[i].Ops[:j], q.Tasks[i].Ops[j+size:]...)
					if try(q) {
						changed = true
					} else {
						j += size
					}
				}
			}
		}
		q := best.Clone()
		if q.Stall > 0 {
			q.Stall = 0
			changed = try(q) || changed
		}
		q = best.Clone()
		if q.MemYield > 0 {
			q.MemYield = 0
			changed = try(q) || changed
		}
	}
	// 2. fewer scheduling decisions that differ from "go on"
	rec := best.Clone()
	rec.Replay, rec.Decisions = true, out.Decisions
	if w, o := violates(rec, f); w != nil {
		best, v, out = rec, w, o
		tryRec := func(q *scen.Plan) bool {
			if late() {
				return false
			}
			w, o := violates(q, f)
			if w == nil {
				return false
			}
			q.Decisions = trim(o.Decisions)
			best, v, out = q, w, o
			return true
		}
		for size := len(best.Decisions); size >= 1 && !late(); size /= 2 {
			for j := 0; j < len(best.Decisions) && !late(); j += size {
				nz := false
				for k := j; k < j+size && k < len(best.Decisions); k++ {
					nz = nz || best.Decisions[k] != 0
				}
				if !nz {
					continue
				}
				q := best.Clone()
				for k := j; k < j+size && k < len(q.Decisions); k++ {
					q.Decisions[k] = 0
				}
				tryRec(q)
			}
		}
		q := best.Clone()
		q.Decisions = trim(q.Decisions)
		if w, o := violates(q, f); w != nil {
			best, v, out = q, w, o
		}
	}
	final := execute(best, true)
	f.Plan, f.Violation, f.History, f.Hash = best, *v, final.Hist, final.Stats.Hash
	f.Trace = final.Log
	if len(f.Trace) > 600 {
		f.Trace = f.Trace[:600]
	}
	_ = out
	json.NewEncoder(os.Stdout).Encode(f)
}

func trim(d []uint16) []uint16 {
	n := len(d)
	for n > 0 && d[n-1] == 0 {
		n--
	}
	return d[:n]
}
