package simrt

import (
	"container/heap"
	"time"
)

// Timer is a pending event in simulated time.
type Timer struct {
	at   time.Duration
	seq  uint64
	idx  int
	f    func()
	vc   VC
	dead bool
}

type timerHeap []*Timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) Push(x any)   { t := x.(*Timer); t.idx = len(*h); *h = append(*h, t) }
func (h *timerHeap) Pop() any {
	o := *h
	t := o[len(o)-1]
	*h = o[:len(o)-1]
	t.idx = -1
	return t
}

// Now returns simulated time since the start of the run.
func Now() time.Duration {
	if S == nil {
		return 0
	}
	return S.now
}

// clockReads is the number of readings of the clock after which it has gone on
// by clockStep: no real clock stands still for ever while it is being read.
const (
	clockReads = 4096
	clockStep  = 100 * time.Nanosecond
)

// ReadClock returns simulated time to the code under test.
func ReadClock() time.Duration {
	s := live()
	if s == nil || s.dead {
		return Now()
	}
	s.clocks++
	if s.clocks%clockReads == 0 && (len(s.timers) == 0 || s.timers[0].at > s.now+clockStep) {
		s.now += clockStep
		s.drift += clockStep
	}
	return s.now
}

// Drift returns by how much reading the clock has advanced it in this run.
func Drift() time.Duration {
	if S == nil {
		return 0
	}
	return S.drift
}

// AddTimer arranges for f to be run (by the scheduler, not as a task) after d.
func AddTimer(d time.Duration, f func()) *Timer {
	s := live()
	if s == nil || s.dead {
		return &Timer{idx: -1}
	}
	if d < 0 {
		d = 0
	}
	s.tseq++
	t := &Timer{at: s.now + d, seq: s.tseq, f: f, vc: s.cur.vc.clone()}
	s.tick()
	heap.Push(&s.timers, t)
	return t
}

// Stop cancels the timer; it reports whether the timer was still pending.
func (t *Timer) Stop() bool {
	s := S
	if s == nil || t.idx < 0 || s.dead {
		return false
	}
	heap.Remove(&s.timers, t.idx)
	return true
}

// fireNext advances the clock to the next timer and runs it together with all
// others due at the same instant, in order of creation.
func (s *Sim) fireNext() {
	t := heap.Pop(&s.timers).(*Timer)
	if t.at > s.now {
		s.now = t.at
	}
	s.stats.Timers++
	if s.cfg.Trace {
		s.logf("       clock: t=%v", s.now)
	}
	s.mix(uint64(s.now))
	s.timerVC = t.vc
	t.f()
	s.timerVC = nil
	s.fired++
	if s.fired > 20000 && !s.rescue {
		s.rescue = true
		s.problem(Problem{Kind: "livelock", Detail: "20000 timers fired", Task: s.cur.Name})
		s.end()
	}
}

// WakeFromTimer makes a task blocked in Sleep runnable.
func (s *Sim) wakeSleep(t *Task) { s.wakeTask(t) }

// Sleep blocks the current task for d of simulated time.
func Sleep(d time.Duration) {
	s := live()
	if s == nil || s.dead {
		return
	}
	t := s.cur
	if d <= 0 {
		s.yield("sleep")
		return
	}
	s.step("sleep")
	AddTimer(d, func() { s.wakeSleep(t) })
	s.block(t, "sleep")
}

// SpawnFromTimer starts a task from a timer callback.
func SpawnFromTimer(name string, f func()) {
	s := S
	if s == nil || s.dead {
		return
	}
	t := s.newTask(name, true)
	t.vc = s.timerVC.clone()
	t.vc.set(t.id, 1)
	go s.taskMain(t, f)
}

// SpawnAny starts a task from a timer callback or from a task, without a scheduling point.
func SpawnAny(name string, f func()) {
	s := S
	if s == nil || s.dead {
		return
	}
	t := s.newTask(name, true)
	t.vc = s.actorVC().clone()
	t.vc.set(t.id, 1)
	s.actorTick()
	go s.taskMain(t, f)
}
