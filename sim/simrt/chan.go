package simrt

import (
	"unsafe"
)

// chanState is what the simulator knows about a channel besides its buffer,
// which is the real channel's.
type chanState struct {
	recvq, sendq []*waiter
	closed       bool
	closeVC      VC
	slots        []VC // clocks of the senders of buffered values, in order
	freed        []VC // clocks of the receivers that made room, in order
}

type waiter struct {
	t     *Task
	val   any
	ok    bool
	vc    VC
	sel   *selState
	idx   int
	panic bool
}

type selState struct {
	done bool
	idx  int
	w    *waiter
}

type hchan = unsafe.Pointer

func keyOf[T any](ch chan T) hchan { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func bidi[T any](ch <-chan T) chan T { return *(*chan T)(unsafe.Pointer(&ch)) }
func bids[T any](ch chan<- T) chan T { return *(*chan T)(unsafe.Pointer(&ch)) }

func (s *Sim) chanOf(p hchan) *chanState {
	st := s.chans[p]
	if st == nil {
		st = &chanState{}
		s.chans[p] = st
	}
	return st
}

func (st *chanState) popRecv() *waiter {
	for len(st.recvq) > 0 {
		w := st.recvq[0]
		st.recvq = st.recvq[1:]
		if !w.sel.done {
			return w
		}
	}
	return nil
}

func (st *chanState) popSend() *waiter {
	for len(st.sendq) > 0 {
		w := st.sendq[0]
		st.sendq = st.sendq[1:]
		if !w.sel.done {
			return w
		}
	}
	return nil
}

func (s *Sim) complete(w *waiter) {
	w.sel.done = true
	w.sel.idx = w.idx
	w.sel.w = w
	s.wakeTask(w.t)
}

// clock of whoever acts now: the current task, or a timer.
func (s *Sim) actorVC() VC {
	if s.timerVC != nil {
		return s.timerVC
	}
	return s.cur.vc
}

func (s *Sim) actorJoin(v VC) {
	if s.timerVC == nil {
		s.cur.vc.join(v)
	}
}

func (s *Sim) actorTick() {
	if s.timerVC == nil {
		s.tick()
	}
}

// trySend attempts to send without blocking.
func trySend[T any](s *Sim, ch chan T, v T) bool {
	if ch == nil {
		return false
	}
	st := s.chanOf(keyOf(ch))
	if !st.closed {
		if w := st.popRecv(); w != nil {
			w.val, w.ok = v, true
			w.vc = s.actorVC().clone()
			// the receiver's clock (at the time it blocked) is known to the sender of an unbuffered channel
			if cap(ch) == 0 {
				s.actorJoin(w.t.vc)
			}
			s.actorTick()
			s.complete(w)
			return true
		}
	}
	select {
	case ch <- v:
		if len(st.freed) > 0 {
			s.actorJoin(st.freed[0])
			st.freed = st.freed[1:]
		}
		st.slots = append(st.slots, s.actorVC().clone())
		s.actorTick()
		return true
	default:
		return false
	}
}

// tryRecv attempts to receive without blocking.
func tryRecv[T any](s *Sim, ch chan T) (v T, ok, ready bool) {
	if ch == nil {
		return
	}
	st := s.chanOf(keyOf(ch))
	select {
	case v, ok = <-ch:
		if !ok {
			s.actorJoin(st.closeVC)
			return v, false, true
		}
		if len(st.slots) > 0 {
			s.actorJoin(st.slots[0])
			st.slots = st.slots[1:]
		}
		st.freed = append(st.freed, s.actorVC().clone())
		s.actorTick()
		if w := st.popSend(); w != nil {
			x, _ := w.val.(T)
			select {
			case ch <- x:
			default:
				panic("simrt: no room after receive")
			}
			if len(st.freed) > 0 {
				w.t.vc.join(st.freed[0])
				st.freed = st.freed[1:]
			}
			st.slots = append(st.slots, w.vc)
			s.complete(w)
		}
		return v, true, true
	default:
	}
	if w := st.popSend(); w != nil {
		v, _ = w.val.(T)
		s.actorJoin(w.vc)
		w.t.vc.join(s.actorVC())
		s.actorTick()
		s.complete(w)
		return v, true, true
	}
	return
}

// SendTo sends on ch: SendTo(ch)(v).
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) { send(bids(ch), v) }
}

func send[T any](ch chan T, v T) {
	s := live()
	if s == nil {
		if len(ch) < cap(ch) {
			ch <- v
			return
		}
		panic("simrt: blocking send outside a simulation")
	}
	if s.dead {
		return
	}
	s.yield("send")
	if trySend(s, ch, v) {
		return
	}
	t := s.cur
	if ch == nil {
		s.block(t, "send on nil channel")
		return
	}
	st := s.chanOf(keyOf(ch))
	w := &waiter{t: t, val: v, vc: t.vc.clone(), sel: &selState{}}
	s.tick()
	st.sendq = append(st.sendq, w)
	s.block(t, "channel send")
	if w.panic {
		panic("send on closed channel")
	}
}

// Recv receives from ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 receives from ch and reports whether the value was sent.
func Recv2[T any](rch <-chan T) (T, bool) {
	var zero T
	ch := bidi(rch)
	s := live()
	if s == nil {
		select {
		case v, ok := <-ch:
			return v, ok
		default:
			panic("simrt: blocking receive outside a simulation")
		}
	}
	if s.dead {
		return zero, false
	}
	s.yield("recv")
	if v, ok, ready := tryRecv(s, ch); ready {
		return v, ok
	}
	t := s.cur
	if ch == nil {
		s.block(t, "receive from nil channel")
		return zero, false
	}
	st := s.chanOf(keyOf(ch))
	w := &waiter{t: t, sel: &selState{}}
	st.recvq = append(st.recvq, w)
	s.block(t, "channel receive")
	t.vc.join(w.vc)
	v, _ := w.val.(T)
	return v, w.ok
}

// Close closes ch.
func Close[T any](sch chan<- T) {
	ch := bids(sch)
	s := live()
	if s == nil {
		close(ch)
		return
	}
	if s.dead {
		return
	}
	s.yield("close")
	closeChan(s, ch)
}

func closeChan[T any](s *Sim, ch chan T) {
	close(ch) // panics like the real thing if closed or nil
	st := s.chanOf(keyOf(ch))
	st.closed = true
	st.closeVC = s.actorVC().clone()
	s.actorTick()
	for {
		w := st.popRecv()
		if w == nil {
			break
		}
		w.val, w.ok = nil, false
		w.vc = st.closeVC
		s.complete(w)
	}
	for {
		w := st.popSend()
		if w == nil {
			break
		}
		w.panic = true
		s.complete(w)
	}
}

// TimerSend sends v on a timer's channel (capacity one) from the scheduler.
func TimerSend[T any](ch chan T, v T) {
	if s := S; s != nil && !s.dead {
		trySend(s, ch, v)
	}
}

// DrainTimer empties a timer's channel.
func DrainTimer[T any](ch chan T) {
	s := S
	for {
		select {
		case <-ch:
			if s != nil && !s.dead {
				st := s.chanOf(keyOf(ch))
				if len(st.slots) > 0 {
					st.slots = st.slots[1:]
				}
			}
		default:
			return
		}
	}
}

// CloseQuiet closes ch without a scheduling point (used by the context shim).
func CloseQuiet[T any](ch chan T) {
	s := live()
	if s == nil {
		close(ch)
		return
	}
	if s.dead {
		return
	}
	closeChan(s, ch)
}

// Case is one communication of a select statement.
type Case interface {
	try(s *Sim) bool
	ready(s *Sim) bool
	enqueue(s *Sim, t *Task, sel *selState, idx int)
	finish(w *waiter)
}

// RecvCase is a receive case.
type RecvCase[T any] struct {
	ch chan T
	V  T
	OK bool
}

// CaseRecv makes a receive case.
func CaseRecv[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: bidi(ch)} }

func (c *RecvCase[T]) ready(s *Sim) bool {
	if c.ch == nil {
		return false
	}
	if len(c.ch) > 0 {
		return true
	}
	st := s.chanOf(keyOf(c.ch))
	if st.closed {
		return true
	}
	for len(st.sendq) > 0 && st.sendq[0].sel.done {
		st.sendq = st.sendq[1:]
	}
	if len(st.sendq) > 0 {
		return true
	}
	// closed outside the simulator's view?
	select {
	case v, ok := <-c.ch:
		if ok {
			panic("simrt: value appeared on an unobserved channel")
		}
		_ = v
		st.closed = true
		return true
	default:
	}
	return false
}

func (c *RecvCase[T]) try(s *Sim) bool {
	v, ok, ready := tryRecv(s, c.ch)
	if ready {
		c.V, c.OK = v, ok
	}
	return ready
}

func (c *RecvCase[T]) enqueue(s *Sim, t *Task, sel *selState, idx int) {
	if c.ch == nil {
		return
	}
	st := s.chanOf(keyOf(c.ch))
	st.recvq = append(st.recvq, &waiter{t: t, sel: sel, idx: idx})
}

func (c *RecvCase[T]) finish(w *waiter) {
	c.V, _ = w.val.(T)
	c.OK = w.ok
	w.t.vc.join(w.vc)
}

// SendCase is a send case.
type SendCase[T any] struct {
	ch chan T
	v  T
}

// CaseSend makes a send case: CaseSend(ch)(v).
func CaseSend[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{ch: bids(ch), v: v} }
}

func (c *SendCase[T]) ready(s *Sim) bool {
	if c.ch == nil {
		return false
	}
	st := s.chanOf(keyOf(c.ch))
	if st.closed || len(c.ch) < cap(c.ch) {
		return true
	}
	for len(st.recvq) > 0 && st.recvq[0].sel.done {
		st.recvq = st.recvq[1:]
	}
	return len(st.recvq) > 0
}

func (c *SendCase[T]) try(s *Sim) bool { return trySend(s, c.ch, c.v) }

func (c *SendCase[T]) enqueue(s *Sim, t *Task, sel *selState, idx int) {
	if c.ch == nil {
		return
	}
	st := s.chanOf(keyOf(c.ch))
	st.sendq = append(st.sendq, &waiter{t: t, val: c.v, vc: t.vc.clone(), sel: sel, idx: idx})
}

func (c *SendCase[T]) finish(w *waiter) {
	if w.panic {
		panic("send on closed channel")
	}
}

// Select performs a select statement over the cases and returns the index of
// the one that happened, or -1 for the default case.
func Select(hasDefault bool, cases ...Case) int {
	s := live()
	if s == nil {
		panic("simrt: select outside a simulation")
	}
	if s.dead {
		if hasDefault {
			return -1
		}
		goexit()
		return -1
	}
	s.yield("select")
	t := s.cur
	var rbuf [8]int
	ready := rbuf[:0]
	for i, c := range cases {
		if c.ready(s) {
			ready = append(ready, i)
		}
	}
	if n := len(ready); n > 0 {
		k := 0
		if n > 1 {
			k = s.choose(n, func() int { return s.rng.Intn(n) })
		}
		i := ready[k]
		if !cases[i].try(s) {
			panic("simrt: ready case not ready")
		}
		s.mix(uint64(i) + 31)
		return i
	}
	if hasDefault {
		return -1
	}
	sel := &selState{}
	for i, c := range cases {
		c.enqueue(s, t, sel, i)
	}
	s.tick()
	s.block(t, "select")
	if !sel.done {
		panic("simrt: select woken for no reason")
	}
	cases[sel.idx].finish(sel.w)
	s.mix(uint64(sel.idx) + 31)
	return sel.idx
}

// BlockForever is `select {}`.
func BlockForever() {
	s := live()
	if s == nil {
		panic("simrt: select{} outside a simulation")
	}
	if s.dead {
		goexit()
	}
	s.block(s.cur, "select {}")
}
