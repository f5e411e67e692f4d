// Package ssync stands in for package sync: the same API, with every blocking
// operation decided by the simulation.
package ssync

import (
	"sync"
	"unsafe"

	rt "verif.local/sim/simrt"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// noCopy-like state shared by the primitives: everything is reset when a new
// run starts, so package-level primitives do not leak state between runs.
type state struct {
	epoch uint64
}

func (s *state) fresh() bool {
	if e := rt.Epoch(); s.epoch != e {
		s.epoch = e
		return true
	}
	return false
}

// Mutex is a simulated sync.Mutex.
type Mutex struct {
	st      state
	locked  bool
	waiters []*rt.Task
	vc      rt.VC
}

func (m *Mutex) reset() {
	if m.st.fresh() {
		m.locked, m.waiters, m.vc = false, nil, nil
	}
}

// Lock locks m.
func (m *Mutex) Lock() {
	on, dead := rt.Live()
	if dead {
		return
	}
	m.reset()
	if !on {
		if m.locked {
			panic("ssync: lock would block outside a simulation")
		}
		m.locked = true
		return
	}
	rt.Yield("Mutex.Lock")
	for m.locked {
		m.waiters = append(m.waiters, rt.Cur())
		rt.Block("Mutex.Lock")
	}
	m.locked = true
	rt.Acquire(&m.vc)
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	on, dead := rt.Live()
	if dead {
		return true
	}
	m.reset()
	if on {
		rt.Yield("Mutex.TryLock")
	}
	if m.locked {
		return false
	}
	m.locked = true
	rt.Acquire(&m.vc)
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	on, dead := rt.Live()
	if dead {
		return
	}
	m.reset()
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
	if !on {
		return
	}
	rt.Release(&m.vc)
	ws := m.waiters
	m.waiters = nil
	for _, w := range ws {
		rt.Ready(w)
	}
	rt.Yield("Mutex.Unlock")
}

// RWMutex is a simulated sync.RWMutex; like the real one, a waiting writer keeps new readers out.
type RWMutex struct {
	st      state
	held    bool // a writer holds the lock or waits for the readers before it
	active  bool // a writer holds the lock
	readers int
	rwait   []*rt.Task // readers kept out by the writer
	wwait   []*rt.Task // writers kept out by another writer
	drain   *rt.Task   // the writer waiting for readers to leave
	wvc     rt.VC
	rvc     rt.VC
}

func (m *RWMutex) reset() {
	if m.st.fresh() {
		*m = RWMutex{st: m.st}
	}
}

// Lock locks m for writing.
func (m *RWMutex) Lock() {
	on, dead := rt.Live()
	if dead {
		return
	}
	m.reset()
	if !on {
		if m.held || m.readers > 0 {
			panic("ssync: lock would block outside a simulation")
		}
		m.held, m.active = true, true
		return
	}
	rt.Yield("RWMutex.Lock")
	for m.held {
		m.wwait = append(m.wwait, rt.Cur())
		rt.Block("RWMutex.Lock (another writer)")
	}
	m.held = true
	for m.readers > 0 {
		m.drain = rt.Cur()
		rt.Block("RWMutex.Lock (readers)")
	}
	m.drain = nil
	m.active = true
	rt.Acquire(&m.wvc)
	rt.Acquire(&m.rvc)
}

// TryLock tries to lock m for writing.
func (m *RWMutex) TryLock() bool {
	on, dead := rt.Live()
	if dead {
		return true
	}
	m.reset()
	if on {
		rt.Yield("RWMutex.TryLock")
	}
	if m.held || m.readers > 0 {
		return false
	}
	m.held, m.active = true, true
	rt.Acquire(&m.wvc)
	rt.Acquire(&m.rvc)
	return true
}

// Unlock unlocks m for writing.
func (m *RWMutex) Unlock() {
	on, dead := rt.Live()
	if dead {
		return
	}
	m.reset()
	if !m.active {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.held, m.active = false, false
	if !on {
		return
	}
	rt.Release(&m.wvc)
	rs := m.rwait
	m.rwait = nil
	m.readers += len(rs)
	for _, w := range rs {
		rt.Ready(w)
	}
	ws := m.wwait
	m.wwait = nil
	for _, w := range ws {
		rt.Ready(w)
	}
	rt.Yield("RWMutex.Unlock")
}

// RLock locks m for reading.
func (m *RWMutex) RLock() {
	on, dead := rt.Live()
	if dead {
		return
	}
	m.reset()
	if !on {
		if m.held {
			panic("ssync: rlock would block outside a simulation")
		}
		m.readers++
		return
	}
	rt.Yield("RWMutex.RLock")
	if m.held {
		m.rwait = append(m.rwait, rt.Cur())
		rt.Block("RWMutex.RLock")
		// the unlocking writer counted us as a reader
	} else {
		m.readers++
	}
	rt.Acquire(&m.wvc)
}

// TryRLock tries to lock m for reading.
func (m *RWMutex) TryRLock() bool {
	on, dead := rt.Live()
	if dead {
		return true
	}
	m.reset()
	if on {
		rt.Yield("RWMutex.TryRLock")
	}
	if m.held {
		return false
	}
	m.readers++
	rt.Acquire(&m.wvc)
	return true
}

// RUnlock undoes one RLock.
func (m *RWMutex) RUnlock() {
	on, dead := rt.Live()
	if dead {
		return
	}
	m.reset()
	if m.readers <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if !on {
		return
	}
	rt.Release(&m.rvc)
	if m.readers == 0 && m.drain != nil {
		rt.Ready(m.drain)
	}
	rt.Yield("RWMutex.RUnlock")
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for the read side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is a simulated sync.WaitGroup.
type WaitGroup struct {
	st      state
	n       int
	waiters []*rt.Task
	vc      rt.VC
}

func (w *WaitGroup) reset() {
	if w.st.fresh() {
		*w = WaitGroup{st: w.st}
	}
}

// Add adds delta.
func (w *WaitGroup) Add(delta int) {
	_, dead := rt.Live()
	if dead {
		return
	}
	w.reset()
	rt.Yield("WaitGroup.Add")
	w.n += delta
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if delta < 0 {
		rt.Release(&w.vc)
	}
	if w.n == 0 {
		ws := w.waiters
		w.waiters = nil
		for _, t := range ws {
			rt.Ready(t)
		}
	}
}

// Done decrements the counter.
func (w *WaitGroup) Done() { w.Add(-1) }

// Go runs f in a new task.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() {
		defer w.Done()
		f()
	})
}

// Wait waits for the counter to be zero.
func (w *WaitGroup) Wait() {
	_, dead := rt.Live()
	if dead {
		return
	}
	w.reset()
	rt.Yield("WaitGroup.Wait")
	for w.n > 0 {
		w.waiters = append(w.waiters, rt.Cur())
		rt.Block("WaitGroup.Wait")
	}
	rt.Acquire(&w.vc)
}

// Once is a simulated sync.Once.
type Once struct {
	m    Mutex
	st   state
	done bool
	vc   rt.VC
}

// Do calls f once.
func (o *Once) Do(f func()) {
	_, dead := rt.Live()
	if dead {
		return
	}
	if o.st.fresh() {
		// a package-level Once stays done across runs (its effects stay, too)
		o.vc = nil
	}
	rt.Yield("Once.Do")
	if o.done {
		rt.Acquire(&o.vc)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			o.done = true
			rt.Release(&o.vc)
		}()
		f()
	}
}

// Reset makes the Once fresh (used when package state is restored between runs).
func (o *Once) Reset() { *o = Once{} }

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

// Cond is a simulated sync.Cond.
type Cond struct {
	L       Locker
	st      state
	waiters []*condWaiter
	vc      rt.VC
}

type condWaiter struct {
	t    *rt.Task
	done bool
}

// NewCond returns a new Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) reset() {
	if c.st.fresh() {
		c.waiters, c.vc = nil, nil
	}
}

// Wait waits for a signal.
func (c *Cond) Wait() {
	_, dead := rt.Live()
	if dead {
		return
	}
	c.reset()
	w := &condWaiter{t: rt.Cur()}
	c.waiters = append(c.waiters, w)
	c.L.Unlock()
	for !w.done {
		rt.Block("Cond.Wait")
	}
	rt.Acquire(&c.vc)
	c.L.Lock()
}

// Signal wakes one waiter.
func (c *Cond) Signal() {
	_, dead := rt.Live()
	if dead {
		return
	}
	c.reset()
	rt.Yield("Cond.Signal")
	rt.Release(&c.vc)
	if len(c.waiters) > 0 {
		w := c.waiters[0]
		c.waiters = c.waiters[1:]
		w.done = true
		rt.Ready(w.t)
	}
}

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() {
	_, dead := rt.Live()
	if dead {
		return
	}
	c.reset()
	rt.Yield("Cond.Broadcast")
	rt.Release(&c.vc)
	ws := c.waiters
	c.waiters = nil
	for _, w := range ws {
		w.done = true
		rt.Ready(w.t)
	}
}

// Map is a simulated sync.Map.
type Map struct {
	st   state
	m    map[any]any
	keys []any
	vc   rt.VC
}

func (m *Map) enter(op string) {
	rt.Yield("Map." + op)
	if m.st.fresh() {
		m.vc = nil
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	rt.Acquire(&m.vc)
	rt.Release(&m.vc)
}

func (m *Map) put(k, v any) {
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) del(k any) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
}

// Load is sync.Map.Load.
func (m *Map) Load(k any) (any, bool) { m.enter("Load"); v, ok := m.m[k]; return v, ok }

// Store is sync.Map.Store.
func (m *Map) Store(k, v any) { m.enter("Store"); m.put(k, v) }

// LoadOrStore is sync.Map.LoadOrStore.
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.enter("LoadOrStore")
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.put(k, v)
	return v, false
}

// LoadAndDelete is sync.Map.LoadAndDelete.
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.enter("LoadAndDelete")
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}

// Delete is sync.Map.Delete.
func (m *Map) Delete(k any) { m.enter("Delete"); m.del(k) }

// Swap is sync.Map.Swap.
func (m *Map) Swap(k, v any) (any, bool) {
	m.enter("Swap")
	x, ok := m.m[k]
	m.put(k, v)
	return x, ok
}

// CompareAndSwap is sync.Map.CompareAndSwap.
func (m *Map) CompareAndSwap(k, old, new any) bool {
	m.enter("CompareAndSwap")
	if x, ok := m.m[k]; ok && x == old {
		m.put(k, new)
		return true
	}
	return false
}

// CompareAndDelete is sync.Map.CompareAndDelete.
func (m *Map) CompareAndDelete(k, old any) bool {
	m.enter("CompareAndDelete")
	if x, ok := m.m[k]; ok && x == old {
		m.del(k)
		return true
	}
	return false
}

// Clear is sync.Map.Clear.
func (m *Map) Clear() { m.enter("Clear"); m.m = map[any]any{}; m.keys = nil }

// Range is sync.Map.Range.
func (m *Map) Range(f func(k, v any) bool) {
	m.enter("Range")
	keys := append([]any(nil), m.keys...)
	rt.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	for _, k := range keys {
		m.enter("Range")
		v, ok := m.m[k]
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
	}
}

// Pool is a simulated sync.Pool.
type Pool struct {
	New   func() any
	st    state
	items []any
	vc    rt.VC
}

// Get is sync.Pool.Get.
func (p *Pool) Get() any {
	_, dead := rt.Live()
	if p.st.fresh() {
		p.items, p.vc = nil, nil
	}
	if !dead {
		rt.Yield("Pool.Get")
		rt.Acquire(&p.vc)
		if n := len(p.items); n > 0 {
			if rt.Choose(8) != 7 { // a pool may drop items at any time
				x := p.items[n-1]
				p.items = p.items[:n-1]
				return x
			}
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put is sync.Pool.Put.
func (p *Pool) Put(x any) {
	_, dead := rt.Live()
	if dead || x == nil {
		return
	}
	if p.st.fresh() {
		p.items, p.vc = nil, nil
	}
	rt.Yield("Pool.Put")
	rt.Release(&p.vc)
	p.items = append(p.items, x)
}

var _ = unsafe.Pointer(nil)
