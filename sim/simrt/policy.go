package simrt

// PolicyKind is a way of choosing the next task.
type PolicyKind int

const (
	polUniform PolicyKind = iota
	polSticky
	polPCT
	polRoundRobin
	polStarve
	polBurst
	polSerial
)

// Policy is a scheduling policy.
type Policy struct {
	Kind PolicyKind
	P    int // kind-specific parameter
}

func (p Policy) String() string {
	return [...]string{"uniform", "sticky", "pct", "roundrobin", "starve", "burst", "serial"}[p.Kind]
}

// RandomPolicy draws a policy from r.
func RandomPolicy(r interface{ Intn(int) int }) Policy {
	switch r.Intn(12) {
	case 0, 1:
		return Policy{polUniform, 0}
	case 2, 3, 4:
		return Policy{polSticky, []int{50, 70, 85, 95}[r.Intn(4)]}
	case 5, 6, 7, 8:
		return Policy{polPCT, 1 + r.Intn(5)}
	case 9:
		return Policy{polStarve, r.Intn(6)}
	case 10:
		return Policy{polBurst, 2 + r.Intn(20)}
	default:
		return Policy{polRoundRobin, 0}
	}
}

type policyState struct {
	kind   PolicyKind
	p      int
	left   int
	change map[int]bool
	low    int
	rr     int
}

func (ps *policyState) init(s *Sim) {
	ps.kind = s.cfg.Policy.Kind
	ps.p = s.cfg.Policy.P
	ps.low = -1
	if ps.kind == polPCT {
		ps.change = map[int]bool{}
		span := []int{40, 100, 300, 1000}[s.rng.Intn(4)]
		for i := 0; i < ps.p; i++ {
			ps.change[s.rng.Intn(span)] = true
		}
	}
}

func (ps *policyState) newTask(s *Sim, t *Task) {
	if ps.kind == polPCT {
		t.prio = 1000 + s.rng.Intn(1000)
	}
	if ps.kind == polSerial {
		t.prio = -t.id
	}
}

// choose returns 0 for the current task, 1.. for the others in id order, n for the clock.
func (ps *policyState) choose(s *Sim, t *Task, n, extra int) int {
	if extra > 0 && s.rng.Intn(1000) < s.cfg.Stall {
		return n
	}
	if n == 1 {
		return 0
	}
	switch ps.kind {
	case polUniform:
		return s.rng.Intn(n)
	case polSticky:
		if s.rng.Intn(100) < ps.p {
			return 0
		}
		return 1 + s.rng.Intn(n-1)
	case polBurst:
		if ps.left > 0 {
			ps.left--
			return 0
		}
		ps.left = s.rng.Intn(ps.p + 1)
		return s.rng.Intn(n)
	case polPCT, polSerial:
		if ps.change[s.steps] {
			ps.low--
			t.prio = ps.low
		}
		return ps.best(s, t)
	case polStarve:
		// the victim only runs when nobody else can
		if t.id%6 == ps.p {
			return 1 + s.rng.Intn(n-1)
		}
		if s.rng.Intn(100) < 60 {
			return 0
		}
		c := s.rng.Intn(n)
		if c > 0 && s.nth(t, c).id%6 == ps.p && s.rng.Intn(8) != 0 {
			return 0
		}
		return c
	case polRoundRobin:
		// the next task in id order after the current one
		j := 0
		for _, x := range s.run {
			if x == t {
				continue
			}
			j++
			if x.id > t.id {
				return j
			}
		}
		return 1
	}
	return 0
}

func (s *Sim) nth(t *Task, c int) *Task {
	j := 0
	for _, x := range s.run {
		if x == t {
			continue
		}
		j++
		if j == c {
			return x
		}
	}
	return t
}

func (ps *policyState) best(s *Sim, t *Task) int {
	bi, bp := 0, t.prio
	j := 0
	for _, x := range s.run {
		if x == t {
			continue
		}
		j++
		if x.prio > bp {
			bi, bp = j, x.prio
		}
	}
	return bi
}

func (ps *policyState) chooseBlocked(s *Sim, n int) int {
	switch ps.kind {
	case polPCT, polSerial:
		b := 0
		for i, x := range s.run {
			if x.prio > s.run[b].prio {
				b = i
			}
		}
		return b
	case polRoundRobin:
		ps.rr++
		return ps.rr % n
	case polStarve:
		c := s.rng.Intn(n)
		if s.run[c].id%6 == ps.p {
			c = s.rng.Intn(n)
		}
		return c
	}
	return s.rng.Intn(n)
}
