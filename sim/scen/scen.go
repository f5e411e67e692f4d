// Package scen holds the simulated workloads and the oracles that judge them.
package scen

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"time"

	"verif.local/sim/gen/guuid"
	"verif.local/sim/sctx"
	rt "verif.local/sim/simrt"
)

// Op is one step of a workload task.
type Op struct {
	K string `json:"k"`
	A int    `json:"a,omitempty"`
	B int    `json:"b,omitempty"`
	C int    `json:"c,omitempty"`
	D int    `json:"d,omitempty"`
	X []int  `json:"x,omitempty"`
	I int    `json:"i,omitempty"` // instance
	E int    `json:"e,omitempty"` // context: live, cancelled, being cancelled
}

func (o Op) String() string {
	s := fmt.Sprintf("%s(%d,%d,%d,%d", o.K, o.A, o.B, o.C, o.D)
	if len(o.X) > 0 {
		s += fmt.Sprint(",", o.X)
	}
	if o.I > 0 {
		s += fmt.Sprint(" on ", o.I)
	}
	if o.E > 0 {
		s += fmt.Sprint(" ctx ", o.E)
	}
	return s + ")"
}

// Task is one workload task.
type Task struct {
	Ops []Op `json:"ops"`
}

// Plan is one complete simulated execution: the workload, its parameters and
// the seed (or the explicit list of decisions) of the scheduler.
type Plan struct {
	Scenario  string         `json:"scenario"`
	Preset    string         `json:"preset,omitempty"`
	Seed      uint64         `json:"seed"`
	Policy    rt.Policy      `json:"policy"`
	MemYield  int            `json:"mem_yield,omitempty"`
	Stall     int            `json:"stall,omitempty"`
	MaxSteps  int            `json:"max_steps,omitempty"`
	NoRace    bool           `json:"no_race,omitempty"`
	P         map[string]int `json:"params,omitempty"`
	Tasks     []Task         `json:"tasks"`
	Replay    bool           `json:"replay,omitempty"`
	Decisions []uint16       `json:"decisions,omitempty"`
}

// Clone copies a plan.
func (p *Plan) Clone() *Plan {
	q := *p
	q.P = map[string]int{}
	for k, v := range p.P {
		q.P[k] = v
	}
	q.Tasks = make([]Task, len(p.Tasks))
	for i, t := range p.Tasks {
		q.Tasks[i].Ops = append([]Op(nil), t.Ops...)
	}
	q.Decisions = append([]uint16(nil), p.Decisions...)
	return &q
}

// NOps counts the workload operations of a plan.
func (p *Plan) NOps() int {
	n := 0
	for _, t := range p.Tasks {
		n += len(t.Ops)
	}
	return n
}

// Violation is something that contradicts properties.
type Violation struct {
	Props  []string `json:"props"`
	Kind   string   `json:"kind"` // stable name of the broken rule
	Detail string   `json:"detail"`
}

func (v Violation) has(p string) bool {
	for _, x := range v.Props {
		if x == p {
			return true
		}
	}
	return false
}

// Has reports whether the violation concerns property p.
func (v Violation) Has(p string) bool { return v.has(p) }

// Scenario is a workload generator with its executor and oracles.
type Scenario struct {
	Name    string
	Props   []string                    // properties a crash, hang or race in this scenario contradicts
	Presets map[string][]string         // property -> presets to draw from (repeat for weight)
	Gen     func(r *rand.Rand, p *Plan) // fills P and Tasks
	Run     func(e *Env)                // runs inside the simulation
	Check   func(e *Env)                // runs after the simulation
	Note    string
	Rare    int // drawn less often than other scenarios by this factor
}

var scenarios = map[string]*Scenario{}
var order []string

func register(s *Scenario) {
	scenarios[s.Name] = s
	order = append(order, s.Name)
}

// ForProp lists (scenario, preset) pairs that decide property p.
func ForProp(p string) [][2]string {
	rare := 1
	for _, n := range order {
		if len(scenarios[n].Presets[p]) > 0 {
			rare = max(rare, scenarios[n].Rare)
		}
	}
	var out [][2]string
	for _, n := range order {
		for _, pre := range scenarios[n].Presets[p] {
			for i := 0; i < rare/max(scenarios[n].Rare, 1); i++ {
				out = append(out, [2]string{n, pre})
			}
		}
	}
	return out
}

// Props lists all properties some scenario decides.
func Props() []string {
	m := map[string]bool{}
	for _, s := range scenarios {
		for p := range s.Presets {
			m[p] = true
		}
	}
	var out []string
	for p := range m {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

// Env is the environment of one execution.
type Env struct {
	P     *Plan
	viol  []Violation
	kinds map[string]bool
	hist  []string
	obs   uint64 // hash of what was observed (distinct histories)
	data  any
	crash bool // the runtime reported a panic, deadlock or livelock
	// counters for evidence
	Count map[string]int
}

// Fail records a violation.
func (e *Env) Fail(kind string, props string, f string, a ...any) {
	key := kind + "|" + props
	if e.kinds[key] {
		return
	}
	e.kinds[key] = true
	e.viol = append(e.viol, Violation{Props: strings.Fields(props), Kind: kind, Detail: fmt.Sprintf(f, a...)})
}

// Logf adds a line to the history shown with a violation.
func (e *Env) Logf(f string, a ...any) {
	if len(e.hist) < 400 {
		e.hist = append(e.hist, fmt.Sprintf("[%v] ", rt.Now())+fmt.Sprintf(f, a...))
	}
	rt.Logf(f, a...)
}

// Observe folds a fact into the hash of this history.
func (e *Env) Observe(s string) {
	h := e.obs
	if h == 0 {
		h = 14695981039346656037
	}
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	e.obs = h
}

func (e *Env) count(k string) { e.Count[k]++ }

func (e *Env) p(k string) int { return e.P.P[k] }

// Outcome is the result of one execution.
type Outcome struct {
	Stats      rt.Stats
	Violations []Violation
	Hist       []string
	Log        []string
	Decisions  []uint16
	Overrun    bool
	Obs        uint64
	Count      map[string]int
}

// detReader is the simulated source of randomness.
type detReader struct {
	r     *rand.Rand
	short bool // now and then less is read than asked for
}

func (d *detReader) Read(p []byte) (int, error) {
	rt.Yield("random")
	if len(p) > 1 && d.short && rt.Choose(4) == 0 {
		rt.Fault("short random read")
		p = p[:1+rt.Choose(len(p)-1)]
	}
	for i := 0; i < len(p); i += 8 {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], d.r.Uint64())
		copy(p[i:], b[:])
	}
	return len(p), nil
}

// Execute runs a plan.
func Execute(p *Plan, trace bool) Outcome {
	sc := scenarios[p.Scenario]
	if sc == nil {
		panic("unknown scenario " + p.Scenario)
	}
	e := &Env{P: p, kinds: map[string]bool{}, Count: map[string]int{}}
	random := &detReader{r: rt.NewRand(p.Seed*31 + 7), short: p.P["shortrand"] > 0}
	rand.Seed(int64(p.Seed))
	res := rt.Run(rt.Config{
		Seed: p.Seed, Policy: p.Policy, MemYield: p.MemYield, Stall: p.Stall, MaxSteps: p.MaxSteps,
		Race: !p.NoRace, Trace: trace, Replay: p.Replay, Decisions: p.Decisions,
	}, func() {
		uuid.SetRand(random)
		rt.Inits()
		sc.Run(e)
	})
	for _, pr := range res.Problems {
		d := pr.Detail
		if pr.Task != "" {
			d += " [task " + pr.Task + "]"
		}
		if pr.Stack != "" {
			d += "\n" + pr.Stack
		}
		if pr.Kind != "race" {
			e.crash = true
		}
		e.Fail(pr.Kind, strings.Join(sc.Props, " "), "%s", d)
	}
	if !e.crash && sc.Check != nil {
		sc.Check(e)
	}
	return Outcome{Stats: res.Stats, Violations: e.viol, Hist: e.hist, Log: res.Log, Decisions: res.Decisions, Overrun: res.Overrun, Obs: e.obs, Count: e.Count}
}

// Generate makes the plan of a seed.
func Generate(scenario, preset string, seed uint64) *Plan {
	sc := scenarios[scenario]
	r := rt.NewRand(seed)
	p := &Plan{Scenario: scenario, Preset: preset, Seed: seed, P: map[string]int{}}
	p.Policy = rt.RandomPolicy(r)
	if r.Intn(3) == 0 {
		p.MemYield = []int{1, 1, 500}[r.Intn(3)]
	}
	sc.Gen(r, p)
	return p
}

// ---- helpers for executors ----

// RunTasks runs the workload tasks of the plan and waits for them.
func (e *Env) RunTasks(do func(task int, op Op)) {
	var ts []*rt.Task
	for i := range e.P.Tasks {
		i := i
		ts = append(ts, rt.GoNamed(fmt.Sprintf("client%d", i), func() {
			for _, op := range e.P.Tasks[i].Ops {
				do(i, op)
			}
		}))
	}
	rt.Join(ts...)
}

// ctxs is a set of cancellable contexts shared by the tasks of a run.
type ctxs struct {
	e      *Env
	ctx    []sctx.Context
	cancel []sctx.CancelFunc
	call   []int64 // sequence number of the first cancel call
	ret    []int64
	at     []time.Duration
	dl     []time.Duration // deadline, 0: none
}

func newCtxs(e *Env, n int) *ctxs {
	c := &ctxs{e: e}
	for i := 0; i < n; i++ {
		x, f := sctx.WithCancel(sctx.Background())
		c.ctx = append(c.ctx, x)
		c.cancel = append(c.cancel, f)
		c.call = append(c.call, 0)
		c.ret = append(c.ret, 0)
		c.at = append(c.at, 0)
	}
	return c
}

func (c *ctxs) get(i int) sctx.Context {
	if i <= 0 || i > len(c.ctx) {
		return sctx.Background()
	}
	return c.ctx[i-1]
}

func (c *ctxs) doCancel(i int) {
	if i <= 0 || i > len(c.ctx) {
		return
	}
	i--
	s := rt.Seq()
	if c.call[i] == 0 {
		c.call[i] = s
		c.at[i] = rt.Now()
		rt.Fault("context cancelled")
	}
	c.e.Logf("cancel ctx%d", i+1)
	c.cancel[i]()
	if c.ret[i] == 0 {
		c.ret[i] = rt.Seq()
	}
}

// opCtx is the context of one operation: live (0), cancelled from the start (1)
// or cancelled at some moment meanwhile (2). done waits for the latter.
func opCtx(style int, base sctx.Context) (ctx sctx.Context, done func()) {
	if style == 0 {
		return base, func() {}
	}
	c, cancel := sctx.WithCancel(base)
	rt.Fault("context cancelled")
	if style == 1 {
		cancel()
		return c, func() {}
	}
	t := rt.GoNamed("canceller", func() {
		for i := rt.Choose(6); i > 0; i-- {
			rt.Yield("canceller")
		}
		cancel()
	})
	return c, func() { rt.Join(t) }
}

// ctxStyle draws the context of an operation.
func ctxStyle(r *rand.Rand, p *Plan) int {
	if p.P["cancels"] == 0 || r.Intn(4) != 0 {
		return 0
	}
	return 1 + r.Intn(2)
}

// spread decides what is common to the workloads on data structures: cancelled
// contexts, a second instance, and now and then many identifiers and long tasks.
func spread(r *rand.Rand, p *Plan, tasks, ops *int) {
	if r.Intn(6) == 0 {
		p.P["cancels"] = 1
	}
	if r.Intn(6) == 0 {
		p.P["twin"] = 1
	}
	if r.Intn(10) == 0 {
		p.P["wide"] = 1
		p.MaxSteps = 1_000_000
		p.P["n"] = 7 + r.Intn(maxN-6)
		*tasks = 1 + r.Intn(3)
		*ops = 12 + r.Intn(50 / *tasks)
	}
}

// slot hands a value from one task to another, ordering their accesses.
type slot[T any] struct {
	v  T
	ok bool
	vc rt.VC
}

func (s *slot[T]) set(v T) {
	s.v, s.ok = v, true
	rt.Release(&s.vc)
}

func (s *slot[T]) get() (T, bool) {
	if s.ok {
		rt.Acquire(&s.vc)
	}
	return s.v, s.ok
}

func pick(r *rand.Rand, weights map[string]int) string {
	var ks []string
	n := 0
	for k, w := range weights {
		if w > 0 {
			ks = append(ks, k)
			n += w
		}
	}
	sort.Strings(ks)
	x := r.Intn(n)
	for _, k := range ks {
		x -= weights[k]
		if x < 0 {
			return k
		}
	}
	return ks[0]
}

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

func catch(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

// deadline makes context i expire on its own.
func (c *ctxs) deadline(i int, d time.Duration) {
	i--
	rt.AddTimer(d, func() {
		if c.call[i] == 0 {
			c.call[i] = rt.Seq()
			c.at[i] = rt.Now()
			rt.Fault("context deadline")
		}
	})
	x, f := sctx.WithTimeout(sctx.Background(), d)
	c.ctx[i], c.cancel[i] = x, f
}
