package simrt

import (
	"reflect"
	"unsafe"
)

// reflCase is a case of reflect.Select.
type reflCase struct {
	ch   reflect.Value
	send bool
	v    reflect.Value
	ok   bool
}

func (c *reflCase) none() bool { return !c.ch.IsValid() || c.ch.IsNil() }

func (c *reflCase) state(s *Sim) *chanState { return s.chanOf(hchan(c.ch.UnsafePointer())) }

func (c *reflCase) elem(v any) reflect.Value {
	if v == nil {
		return reflect.Zero(c.ch.Type().Elem())
	}
	return reflect.ValueOf(v)
}

// bidi is the channel without its direction.
func (c *reflCase) bidi() reflect.Value {
	p := c.ch.UnsafePointer()
	return reflect.NewAt(reflect.ChanOf(reflect.BothDir, c.ch.Type().Elem()), unsafe.Pointer(&p)).Elem()
}

func live0(q []*waiter) []*waiter {
	for len(q) > 0 && q[0].sel.done {
		q = q[1:]
	}
	return q
}

func (c *reflCase) ready(s *Sim) bool {
	if c.none() {
		return false
	}
	st := c.state(s)
	if st.closed {
		return true
	}
	if c.send {
		st.recvq = live0(st.recvq)
		return c.ch.Len() < c.ch.Cap() || len(st.recvq) > 0
	}
	st.sendq = live0(st.sendq)
	return c.ch.Len() > 0 || len(st.sendq) > 0
}

func (c *reflCase) try(s *Sim) bool {
	if c.none() {
		return false
	}
	st := c.state(s)
	ch := c.bidi()
	if c.send {
		if !st.closed {
			if w := st.popRecv(); w != nil {
				w.val, w.ok = c.v.Interface(), true
				w.vc = s.actorVC().clone()
				if ch.Cap() == 0 {
					s.actorJoin(w.t.vc)
				}
				s.actorTick()
				s.complete(w)
				return true
			}
		}
		if !ch.TrySend(c.v) {
			return false
		}
		if len(st.freed) > 0 {
			s.actorJoin(st.freed[0])
			st.freed = st.freed[1:]
		}
		st.slots = append(st.slots, s.actorVC().clone())
		s.actorTick()
		return true
	}
	if v, ok := ch.TryRecv(); v.IsValid() {
		c.v, c.ok = v, ok
		if !ok {
			s.actorJoin(st.closeVC)
			return true
		}
		if len(st.slots) > 0 {
			s.actorJoin(st.slots[0])
			st.slots = st.slots[1:]
		}
		st.freed = append(st.freed, s.actorVC().clone())
		s.actorTick()
		if w := st.popSend(); w != nil {
			if !ch.TrySend(c.elem(w.val)) {
				panic("simrt: no room after receive")
			}
			if len(st.freed) > 0 {
				w.t.vc.join(st.freed[0])
				st.freed = st.freed[1:]
			}
			st.slots = append(st.slots, w.vc)
			s.complete(w)
		}
		return true
	}
	if w := st.popSend(); w != nil {
		c.v, c.ok = c.elem(w.val), true
		s.actorJoin(w.vc)
		w.t.vc.join(s.actorVC())
		s.actorTick()
		s.complete(w)
		return true
	}
	return false
}

func (c *reflCase) enqueue(s *Sim, t *Task, sel *selState, idx int) {
	if c.none() {
		return
	}
	st := c.state(s)
	w := &waiter{t: t, sel: sel, idx: idx}
	if c.send {
		w.val, w.vc = c.v.Interface(), t.vc.clone()
		st.sendq = append(st.sendq, w)
		return
	}
	st.recvq = append(st.recvq, w)
}

func (c *reflCase) finish(w *waiter) {
	if c.send {
		if w.panic {
			panic("send on closed channel")
		}
		return
	}
	c.v, c.ok = c.elem(w.val), w.ok
	w.t.vc.join(w.vc)
}

// ReflectSelect is reflect.Select.
func ReflectSelect(cases []reflect.SelectCase) (int, reflect.Value, bool) {
	def := -1
	var cs []Case
	var at []int
	for i, c := range cases {
		if c.Dir == reflect.SelectDefault {
			def = i
			continue
		}
		cs = append(cs, &reflCase{ch: c.Chan, send: c.Dir == reflect.SelectSend, v: c.Send})
		at = append(at, i)
	}
	i := Select(def >= 0, cs...)
	if i < 0 {
		return def, reflect.Value{}, false
	}
	c := cs[i].(*reflCase)
	if c.send {
		return at[i], reflect.Value{}, false
	}
	return at[i], c.v, c.ok
}
