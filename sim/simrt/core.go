// Package simrt is a deterministic simulation runtime: it runs real Go code as
// simulated tasks, one at a time, and decides from a single stream of decisions
// which task runs at every synchronisation point, when simulated time passes and
// which faults happen.
package simrt

import (
	"fmt"
	"math/rand"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unsafe"
)

type taskState int

const (
	tsRunnable taskState = iota
	tsBlocked
	tsDone
)

// Task is one simulated thread of execution.
type Task struct {
	id      int
	Name    string
	Spawn   bool // started by the code under test rather than by the workload
	wake    chan struct{}
	state   taskState
	why     string
	vc      VC
	prio    int
	gone    chan struct{}
	stack   []uintptr
	joiners []*Task
}

// ID returns the task's number.
func (t *Task) ID() int { return t.id }

// Config configures one run.
type Config struct {
	Seed      uint64
	Policy    Policy
	Decisions []uint16 // replay: decisions to take; exhausted => 0
	Replay    bool
	MaxSteps  int
	// MemYield is the probability (in 1/1000) of a scheduling point at a memory access.
	MemYield int
	// Stall lets the clock advance (in 1/1000 of scheduling points) while tasks are runnable.
	Stall  int
	Race   bool
	Trace  bool
	MaxJmp time.Duration // longest simulated clock jump for random stalls (0: next timer)
}

// Problem is something the runtime itself found wrong in a run.
type Problem struct {
	Kind   string // panic, deadlock, livelock, race, leak, misuse
	Detail string
	Task   string
	Stack  string
}

// Stats counts what happened in a run.
type Stats struct {
	Steps     int
	Switches  int
	Tasks     int
	SimTime   time.Duration
	Faults    map[string]int
	Hash      uint64
	Decisions int
	MaxRun    int
	Timers    int
}

// Sim is one simulation run.
type Sim struct {
	cfg      Config
	rng      *rand.Rand // policy decisions (not used in replay)
	tasks    []*Task
	run      []*Task // runnable, ordered by id
	cur      *Task
	now      time.Duration
	timers   timerHeap
	tseq     uint64
	clocks   uint64
	drift    time.Duration
	dec      []uint16
	pos      int
	steps    int
	loops    int
	overrun  bool
	dead     bool
	finished chan struct{}
	ended    bool
	chans    map[unsafe.Pointer]*chanState
	shadow   map[unsafe.Pointer]*shadowCell
	atoms    map[unsafe.Pointer]*VC
	problems []Problem
	stats    Stats
	raceSeen map[string]bool
	hash     uint64
	objs     map[unsafe.Pointer]int
	keep     []any
	seq      int64
	epoch    uint64
	Log      []string
	pol      policyState
	memRate  int
	Local    any // per-run data of the scenario
	main     *Task
	rescue   bool
	idlers   []*Task
	timerVC  VC
	fired    int
}

var (
	// S is the running simulation (nil outside runs).
	S        *Sim
	epochCtr uint64
	resets   []func()
	inits    []func()
	starting bool // init functions run: goroutines start with each run
	hooksNew []func(*Sim)
)

// RegisterReset registers a function that restores package state before each run.
func RegisterReset(f func()) { resets = append(resets, f) }

// Inits runs the init functions of the code under test, whose package state
// has been restored.
func Inits() {
	for _, f := range inits {
		f()
	}
}

// RegisterInit runs an init function of the code under test, and keeps it for
// Inits.
func RegisterInit(f func()) {
	inits = append(inits, f)
	starting = true
	defer func() { starting = false }()
	f()
}

// OnStart registers a hook called at the start of each run.
func OnStart(f func(*Sim)) { hooksNew = append(hooksNew, f) }

// Epoch identifies the current run; primitives reset themselves when it changes.
func Epoch() uint64 {
	if S == nil {
		return 0
	}
	return S.epoch
}

const simStart = int64(1_600_000_000) // fixed start of simulated time (unix seconds)

// Base is the simulated wall-clock time at which each run starts.
func Base() time.Time { return time.Unix(simStart, 0).UTC() }

// Result is the outcome of a run.
type Result struct {
	Stats     Stats
	Problems  []Problem
	Decisions []uint16
	Log       []string
	Overrun   bool
	Leaked    []string
}

// Run executes root as the first task of a new simulation and returns when
// the simulation has ended.
func Run(cfg Config, root func()) Result {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 120000
	}
	epochCtr++
	s := &Sim{
		cfg:      cfg,
		rng:      rand.New(newSplit(cfg.Seed ^ 0x9e3779b97f4a7c15)),
		finished: make(chan struct{}),
		chans:    map[unsafe.Pointer]*chanState{},
		shadow:   map[unsafe.Pointer]*shadowCell{},
		atoms:    map[unsafe.Pointer]*VC{},
		raceSeen: map[string]bool{},
		objs:     map[unsafe.Pointer]int{},
		hash:     14695981039346656037,
		epoch:    epochCtr,
	}
	s.stats.Faults = map[string]int{}
	s.pol.init(s)
	for _, f := range resets {
		f()
	}
	S = s
	for _, f := range hooksNew {
		f(s)
	}
	t := s.newTask("root", false)
	s.main = t
	t.vc.set(t.id, 1)
	go s.taskMain(t, root)
	s.cur = t
	t.wake <- struct{}{}
	<-s.finished
	leaked := s.kill()
	s.stats.Steps = s.steps
	s.stats.SimTime = s.now
	s.stats.Tasks = len(s.tasks)
	s.stats.Hash = s.hash
	s.stats.Decisions = len(s.dec)
	S = nil
	return Result{Stats: s.stats, Problems: s.problems, Decisions: s.dec, Log: s.Log, Overrun: s.overrun, Leaked: leaked}
}

func (s *Sim) newTask(name string, spawn bool) *Task {
	t := &Task{id: len(s.tasks), Name: name, Spawn: spawn, wake: make(chan struct{}, 1), gone: make(chan struct{})}
	s.tasks = append(s.tasks, t)
	s.pol.newTask(s, t)
	s.addRunnable(t)
	return t
}

func (s *Sim) addRunnable(t *Task) {
	t.state = tsRunnable
	i := sort.Search(len(s.run), func(i int) bool { return s.run[i].id >= t.id })
	s.run = append(s.run, nil)
	copy(s.run[i+1:], s.run[i:])
	s.run[i] = t
}

func (s *Sim) removeRunnable(t *Task) {
	for i, x := range s.run {
		if x == t {
			s.run = append(s.run[:i], s.run[i+1:]...)
			return
		}
	}
}

func (s *Sim) taskMain(t *Task, f func()) {
	<-t.wake
	normal := false
	defer func() {
		r := recover()
		if s.dead {
			t.state = tsDone
			close(t.gone)
			return
		}
		if r != nil {
			s.problem(Problem{Kind: "panic", Detail: fmt.Sprint(r), Task: t.Name, Stack: trimStack(string(debug.Stack()))})
		}
		_ = normal
		// a task ending by runtime.Goexit is simply over
		close(t.gone)
		s.exitTask(t)
	}()
	if s.dead {
		return
	}
	f()
	normal = true
}

func (s *Sim) exitTask(t *Task) {
	t.state = tsDone
	s.removeRunnable(t)
	for _, j := range t.joiners {
		s.wakeTask(j)
	}
	if s.stopAfter() {
		s.end()
		return
	}
	next := s.pickBlocked()
	if next == nil {
		s.standstill()
		return
	}
	s.cur = next
	next.wake <- struct{}{}
}

// stopAfter reports whether the run is over although tasks could go on:
// that is when the root task has ended.
func (s *Sim) stopAfter() bool { return s.main.state == tsDone }

func (s *Sim) end() {
	if !s.ended {
		s.ended = true
		close(s.finished)
	}
}

// kill ends all tasks that are still there.
func (s *Sim) kill() []string {
	s.dead = true
	var leaked []string
	for i := 0; i < len(s.tasks); i++ {
		t := s.tasks[i]
		if t.state == tsDone {
			continue
		}
		leaked = append(leaked, t.Name+": "+t.why)
		s.cur = t
		t.wake <- struct{}{}
		<-t.gone
	}
	s.cur = nil
	return leaked
}

func (s *Sim) problem(p Problem) {
	if len(s.problems) < 20 {
		s.problems = append(s.problems, p)
	}
}

// Report records a problem found by a shim.
func (s *Sim) Report(p Problem) { s.problem(p) }

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "github.com/milosgajdos") || strings.HasPrefix(l, "gonum.org") || strings.Contains(l, "/gsimple") || strings.Contains(l, "/scen.") {
			out = append(out, strings.TrimSpace(l), "   "+strings.TrimSpace(lines[i+1]))
		}
		if len(out) > 24 {
			break
		}
	}
	if len(out) == 0 && len(lines) > 20 {
		out = lines[:20]
	}
	return strings.Join(out, "\n")
}

// ---- decisions ----

func (s *Sim) choose(n int, pick func() int) int {
	if n <= 1 {
		return 0
	}
	var c int
	if s.cfg.Replay {
		if s.pos < len(s.cfg.Decisions) {
			c = int(s.cfg.Decisions[s.pos]) % n
		}
		s.pos++
	} else {
		c = pick()
	}
	s.dec = append(s.dec, uint16(c))
	s.mix(uint64(c)<<8 | uint64(n))
	return c
}

func (s *Sim) mix(x uint64) {
	s.hash ^= x
	s.hash *= 1099511628211
}

// Choose draws a decision in [0,n) for the workload; 0 is the default choice.
func Choose(n int) int {
	s := S
	if s == nil || s.dead || n <= 1 {
		return 0
	}
	return s.choose(n, func() int { return s.rng.Intn(n) })
}

// ---- scheduling ----

// live returns the simulation if the caller is inside one and it is not being torn down.
func live() *Sim {
	s := S
	if s == nil || s.cur == nil {
		return nil
	}
	return s
}

// Live reports whether simulated semantics apply; dead reports teardown.
func Live() (on bool, dead bool) {
	s := live()
	if s == nil {
		return false, false
	}
	return true, s.dead
}

// Yield is a scheduling point.
func Yield(kind string) {
	s := live()
	if s == nil || s.dead {
		return
	}
	s.yield(kind)
}

func (s *Sim) yield(kind string) {
	t := s.cur
	s.step(kind)
	next := s.pick(t)
	if s.ended {
		s.park(t)
	}
	if next != t {
		s.switchTo(next, t)
	}
}

func (s *Sim) step(kind string) {
	s.steps++
	if s.cfg.Trace {
		s.logf("%6d t=%-9v task %d (%s) %s %s", s.steps, s.now, s.cur.id, s.cur.Name, kind, callerSite())
	}
	if s.steps > s.cfg.MaxSteps {
		s.overrunStep()
	}
}

// overrunStep runs once the step budget is used up: scheduling becomes fair and
// simulated time passes although tasks are runnable; a run that still does not
// end is a livelock.
func (s *Sim) overrunStep() {
	if !s.overrun {
		s.overrun = true
		s.pol.kind = polRoundRobin
	}
	over := s.steps - s.cfg.MaxSteps
	if over%200 == 0 && len(s.timers) > 0 {
		s.fireNext()
	}
	if over > s.cfg.MaxSteps/2+5000 && !s.rescue {
		s.rescue = true
		var busy []string
		for _, t := range s.run {
			busy = append(busy, t.Name)
		}
		s.problem(Problem{Kind: "livelock", Detail: fmt.Sprintf("still running after %d steps; runnable: %s", s.steps, strings.Join(busy, ", ")), Task: s.cur.Name, Stack: trimStack(string(debug.Stack()))})
		s.end()
		s.park(s.cur)
	}
}

// park stops the current goroutine until teardown.
func (s *Sim) park(t *Task) {
	<-t.wake
	if s.dead {
		runtime.Goexit()
	}
}

func (s *Sim) switchTo(next, self *Task) {
	s.stats.Switches++
	s.cur = next
	s.mix(uint64(next.id) + 7)
	next.wake <- struct{}{}
	<-self.wake
	if s.dead {
		runtime.Goexit()
	}
}

// pick chooses the next task to run when the current one could go on.
func (s *Sim) pick(t *Task) *Task {
	n := len(s.run)
	extra := 0
	if s.cfg.Stall > 0 && len(s.timers) > 0 {
		extra = 1
	}
	if n == 1 && extra == 0 {
		return t
	}
	c := s.choose(n+extra, func() int { return s.pol.choose(s, t, n, extra) })
	if c == n { // let simulated time pass although tasks are runnable
		s.stats.Faults["stall"]++
		s.fireNext()
		return t
	}
	if c == 0 {
		return t
	}
	// index 0 is the current task; the others follow in id order
	j := 0
	for _, x := range s.run {
		if x == t {
			continue
		}
		j++
		if j == c {
			return x
		}
	}
	return t
}

// pickBlocked chooses the next task when the current one cannot go on,
// letting simulated time pass if nobody can. It returns nil at a standstill.
func (s *Sim) pickBlocked() *Task {
	for len(s.run) == 0 {
		if s.ended {
			return nil
		}
		if len(s.idlers) > 0 {
			t := s.idlers[0]
			s.idlers = s.idlers[1:]
			s.wakeTask(t)
			continue
		}
		if len(s.timers) == 0 {
			return nil
		}
		s.fireNext()
	}
	n := len(s.run)
	if n == 1 {
		return s.run[0]
	}
	c := s.choose(n, func() int { return s.pol.chooseBlocked(s, n) })
	return s.run[c]
}

// block parks the current task until another makes it runnable.
func (s *Sim) block(t *Task, why string) {
	t.why = why
	t.state = tsBlocked
	s.removeRunnable(t)
	if s.cfg.Trace {
		s.logf("       task %d (%s) blocks: %s", t.id, t.Name, why)
	}
	t.captureStack()
	next := s.pickBlocked()
	if next == nil {
		s.standstill()
		s.park(t)
		return
	}
	if next != t {
		s.switchTo(next, t)
	}
	t.why = ""
}

func (t *Task) captureStack() {
	var pcs [24]uintptr
	n := runtime.Callers(3, pcs[:])
	t.stack = append(t.stack[:0], pcs[:n]...)
}

func (t *Task) stackString() string {
	if len(t.stack) == 0 {
		return ""
	}
	fr := runtime.CallersFrames(t.stack)
	var b strings.Builder
	for {
		f, more := fr.Next()
		if keepFrame(f.Function) {
			fmt.Fprintf(&b, "%s\n   %s:%d\n", f.Function, f.File, f.Line)
		}
		if !more {
			break
		}
	}
	return b.String()
}

func keepFrame(fn string) bool {
	return strings.HasPrefix(fn, "github.com/milosgajdos") || strings.Contains(fn, "/scen.") || strings.Contains(fn, "gsimple")
}

// standstill is reached when nothing is runnable and no timer is pending.
func (s *Sim) standstill() {
	if s.ended {
		return
	}
	var st []string
	var stacks strings.Builder
	for _, t := range s.tasks {
		if t.state == tsBlocked && !(t.Spawn) && t != s.main {
			st = append(st, fmt.Sprintf("%s waits for %s", t.Name, t.why))
			fmt.Fprintf(&stacks, "-- %s\n%s", t.Name, t.stackString())
		}
	}
	if len(st) == 0 {
		for _, t := range s.tasks {
			if t.state == tsBlocked {
				st = append(st, fmt.Sprintf("%s waits for %s", t.Name, t.why))
				fmt.Fprintf(&stacks, "-- %s\n%s", t.Name, t.stackString())
			}
		}
	}
	s.problem(Problem{Kind: "deadlock", Detail: strings.Join(st, "; "), Task: s.cur.Name, Stack: stacks.String()})
	s.end()
}

// wakeTask makes a blocked task runnable.
func (s *Sim) wakeTask(t *Task) {
	if t.state == tsBlocked {
		s.addRunnable(t)
	}
}

// ---- tasks ----

// Go starts f as a new task on behalf of the code under test.
func Go(f func()) { goTask(callerFunc(), true, f) }

// GoNamed starts a workload task.
func GoNamed(name string, f func()) *Task { return goTask(name, false, f) }

func goTask(name string, spawn bool, f func()) *Task {
	s := live()
	if s == nil && starting {
		return nil
	}
	if s == nil {
		panic("simrt.Go outside a simulation")
	}
	if s.dead {
		return nil
	}
	if len(s.tasks) >= 4000 {
		s.problem(Problem{Kind: "livelock", Detail: "4000 goroutines started", Task: s.cur.Name})
		s.end()
		s.park(s.cur)
	}
	t := s.newTask(name, spawn)
	t.vc = s.cur.vc.clone()
	t.vc.set(t.id, 1)
	s.tick()
	go s.taskMain(t, f)
	s.yield("go")
	return t
}

// tick advances the current task's own clock (after a release operation).
func (s *Sim) tick() { s.cur.vc.set(s.cur.id, s.cur.vc.get(s.cur.id)+1) }

func callerFunc() string {
	pc := make([]uintptr, 1)
	if runtime.Callers(3, pc) == 0 {
		return "?"
	}
	f, _ := runtime.CallersFrames(pc).Next()
	name := f.Function
	if i := strings.LastIndex(name, "/"); i >= 0 {
		name = name[i+1:]
	}
	return "go in " + name
}

func callerSite() string {
	var pcs [16]uintptr
	n := runtime.Callers(4, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if keepFrame(f.Function) {
			file := f.File
			if i := strings.LastIndex(file, "/"); i >= 0 {
				file = file[i+1:]
			}
			return fmt.Sprintf("at %s:%d", file, f.Line)
		}
		if !more {
			return ""
		}
	}
}

// Cur returns the current task.
func Cur() *Task {
	if S == nil {
		return nil
	}
	return S.cur
}

// Join blocks the current workload task until all given tasks have ended.
func Join(ts ...*Task) {
	s := live()
	if s == nil || s.dead {
		return
	}
	for _, t := range ts {
		for t.state != tsDone {
			t.joiners = append(t.joiners, s.cur)
			s.block(s.cur, "the end of "+t.Name)
		}
		s.cur.vc.join(t.vc)
	}
}

// Settle blocks the current workload task until every other task is blocked or done.
// No simulated time passes for that reason (it may pass because of injected stalls).
func Settle() {
	s := live()
	if s == nil || s.dead {
		return
	}
	s.idlers = append(s.idlers, s.cur)
	s.block(s.cur, "quiescence")
	// everything that happened so far is visible to the caller
	for _, t := range s.tasks {
		s.cur.vc.join(t.vc)
	}
}

// Alive returns the names of the tasks the code under test started that have not ended.
func Alive() []string {
	s := live()
	if s == nil {
		return nil
	}
	var out []string
	for _, t := range s.tasks {
		if t.Spawn && t.state != tsDone {
			out = append(out, t.Name+" ("+t.why+")")
		}
	}
	return out
}

// Seq returns the next global event number.
func Seq() int64 {
	S.seq++
	return S.seq
}

// Calm ends the injection of clock stalls for the rest of the run.
func Calm() {
	if s := S; s != nil {
		s.cfg.Stall = 0
	}
}

// Stalls reports whether simulated time may pass although tasks are runnable.
func Stalls() bool { return S != nil && (S.cfg.Stall > 0 || S.overrun) }

// Fault counts an injected fault that actually happened.
func Fault(kind string) {
	if s := S; s != nil && !s.dead {
		s.stats.Faults[kind]++
	}
}

// Mix folds scenario observations into the run's hash.
func Mix(x uint64) {
	if S != nil {
		S.mix(x)
	}
}

// Overrun reports whether this run has used up its step budget.
func Overrun() bool { return S != nil && S.overrun }

func (s *Sim) logf(f string, a ...any) {
	if len(s.Log) < 100000 {
		s.Log = append(s.Log, fmt.Sprintf(f, a...))
	}
}

// Logf adds a line to the trace (never influences the schedule).
func Logf(f string, a ...any) {
	if s := S; s != nil && s.cfg.Trace && !s.dead {
		s.logf("       | "+f, a...)
	}
}

// split-mix source
type split struct{ x uint64 }

func newSplit(seed uint64) *split { return &split{seed} }
func (s *split) Seed(x int64)     { s.x = uint64(x) }
func (s *split) Int63() int64     { return int64(s.Uint64() >> 1) }
func (s *split) Uint64() uint64 {
	s.x += 0x9e3779b97f4a7c15
	z := s.x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// NewRand returns a deterministic generator.
func NewRand(seed uint64) *rand.Rand { return rand.New(newSplit(seed)) }
