package simrt

import (
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"unsafe"
)

func goexit() { runtime.Goexit() }

type access struct {
	task int
	clk  uint32
	site uint32
}

type shadowCell struct {
	w     access
	hasW  bool
	reads []access
}

// sites maps site numbers to source positions.
var sites []string

// Site registers a source position (called from generated init code).
func Site(pos string) uint32 {
	sites = append(sites, pos)
	return uint32(len(sites) - 1)
}

// SiteTable registers the positions of a generated file and returns the number of the first.
func SiteTable(pos ...string) uint32 {
	n := uint32(len(sites))
	sites = append(sites, pos...)
	return n
}

func (s *Sim) memPoint() {
	if s.cfg.MemYield > 0 {
		s.memRate++
		if s.memRate%16 == 0 || s.cfg.MemYield >= 500 {
			s.yield("mem")
		}
	}
}

func (s *Sim) access(p unsafe.Pointer, write bool, site uint32) {
	if p == nil {
		return
	}
	t := s.cur
	c := s.shadow[p]
	if c == nil {
		c = &shadowCell{}
		s.shadow[p] = c
	}
	me := access{t.id, t.vc.get(t.id), site}
	if c.hasW && c.w.task != t.id && c.w.clk > t.vc.get(c.w.task) {
		s.race(c.w, true, me, write)
	}
	if write {
		for _, r := range c.reads {
			if r.task != t.id && r.clk > t.vc.get(r.task) {
				s.race(r, false, me, true)
			}
		}
		c.reads = c.reads[:0]
		c.w, c.hasW = me, true
		return
	}
	for i := range c.reads {
		if c.reads[i].task == t.id {
			c.reads[i] = me
			return
		}
	}
	c.reads = append(c.reads, me)
}

func (s *Sim) race(a access, aw bool, b access, bw bool) {
	k := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	d := fmt.Sprintf("%s at %s by %s is not ordered with %s at %s by %s", k(aw), sites[a.site], s.tasks[a.task].Name, k(bw), sites[b.site], s.tasks[b.task].Name)
	key := sites[a.site] + "|" + sites[b.site]
	if s.raceSeen[key] {
		return
	}
	s.raceSeen[key] = true
	s.problem(Problem{Kind: "race", Detail: d, Task: s.cur.Name})
}

// R marks a read of *p.
func R[T any](p *T, site uint32) *T {
	if s := S; s != nil && s.cur != nil && !s.dead && s.cfg.Race && p != nil && unsafe.Sizeof(*p) != 0 {
		s.memPoint()
		s.access(unsafe.Pointer(p), false, site)
	}
	return p
}

// W marks a write of *p.
func W[T any](p *T, site uint32) *T {
	if s := S; s != nil && s.cur != nil && !s.dead && s.cfg.Race && p != nil && unsafe.Sizeof(*p) != 0 {
		s.memPoint()
		s.access(unsafe.Pointer(p), true, site)
	}
	return p
}

// RStruct marks a read of every field of *p (a struct copied as a whole).
func RStruct[T any](p *T, site uint32) *T {
	if s := S; s != nil && s.cur != nil && !s.dead && s.cfg.Race && p != nil {
		s.memPoint()
		for _, off := range fieldOffsets(reflect.TypeOf(p).Elem()) {
			s.access(unsafe.Add(unsafe.Pointer(p), off), false, site)
		}
	}
	return p
}

var offCache = map[reflect.Type][]uintptr{}

func fieldOffsets(t reflect.Type) []uintptr {
	if o, ok := offCache[t]; ok {
		return o
	}
	var out []uintptr
	var walk func(t reflect.Type, base uintptr)
	walk = func(t reflect.Type, base uintptr) {
		if t.Kind() == reflect.Struct && !strings.HasPrefix(t.PkgPath(), "verif.local/") && !strings.HasPrefix(t.PkgPath(), "sync") {
			for i := 0; i < t.NumField(); i++ {
				walk(t.Field(i).Type, base+t.Field(i).Offset)
			}
			return
		}
		if t.Kind() != reflect.Struct {
			out = append(out, base)
		}
	}
	walk(t, 0)
	offCache[t] = out
	return out
}

func mapPtr[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

// MR marks a read of map m.
func MR[M ~map[K]V, K comparable, V any](m M, site uint32) M {
	if s := S; s != nil && s.cur != nil && !s.dead && s.cfg.Race && m != nil {
		s.memPoint()
		s.access(mapPtr(m), false, site)
	}
	return m
}

// MW marks a write of map m.
func MW[M ~map[K]V, K comparable, V any](m M, site uint32) M {
	if s := S; s != nil && s.cur != nil && !s.dead && s.cfg.Race && m != nil {
		s.memPoint()
		s.access(mapPtr(m), true, site)
	}
	return m
}

// MapKeys returns the keys of m in an order the simulation decides.
func MapKeys[M ~map[K]V, K comparable, V any](m M, site uint32) []K {
	MR(m, site)
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	SortKeys(keys)
	Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	return keys
}

// Shuffle permutes n items in an order the simulation decides; decision 0 leaves them alone.
func Shuffle(n int, swap func(i, j int)) {
	if n < 2 {
		return
	}
	s := live()
	if s == nil || s.dead {
		return
	}
	k := s.choose(12, func() int { return s.rng.Intn(12) })
	if k == 0 {
		return
	}
	r := rand.New(newSplit(uint64(k) * 7919))
	r.Shuffle(n, swap)
}

// SortKeys puts map keys into an order that does not depend on memory addresses
// (as far as their contents tell them apart).
func SortKeys[K comparable](keys []K) {
	if len(keys) < 2 {
		return
	}
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
		return
	case []int:
		sort.Ints(ks)
		return
	case []int64:
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		return
	}
	names := make(map[K]string, len(keys))
	for _, k := range keys {
		names[k] = keyString(reflect.ValueOf(k), 0)
	}
	sort.SliceStable(keys, func(i, j int) bool { return names[keys[i]] < names[keys[j]] })
}

func keyString(v reflect.Value, depth int) string {
	if !v.IsValid() {
		return "<nil>"
	}
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%020d", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprintf("%020d", v.Uint())
	case reflect.String:
		return v.String()
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() || depth > 3 {
			return "<nil>"
		}
		return keyString(v.Elem(), depth+1)
	case reflect.Struct:
		var b strings.Builder
		for i := 0; i < v.NumField(); i++ {
			b.WriteString(keyString(v.Field(i), depth+1))
			b.WriteByte('|')
		}
		return b.String()
	case reflect.Array:
		var b strings.Builder
		for i := 0; i < v.Len(); i++ {
			b.WriteString(keyString(v.Index(i), depth+1))
			b.WriteByte('|')
		}
		return b.String()
	}
	return v.Type().String()
}

// Zero resets a variable to its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// Gosched is runtime.Gosched.
func Gosched() { Yield("gosched") }

// ZeroK returns the zero value of m's key type.
func ZeroK[M ~map[K]V, K comparable, V any](m M) (k K) { return }

// ZeroV returns the zero value of m's element type.
func ZeroV[M ~map[K]V, K comparable, V any](m M) (v V) { return }

// Loop is called at the start of each loop iteration that contains no other
// scheduling point, so that a spinning task is noticed.
func Loop() {
	s := live()
	if s == nil {
		return
	}
	if s.dead {
		s.loops++
		if s.loops > 100000 {
			goexit()
		}
		return
	}
	s.loops++
	if s.loops > 2000 {
		s.loops = 0
		s.yield("loop")
	}
}

// ---- primitives for the synchronisation shims ----

// Acquire joins the clock into the current task's.
func Acquire(v *VC) {
	if s := live(); s != nil && !s.dead {
		s.actorJoin(*v)
	}
}

// Release joins the current task's clock into v.
func Release(v *VC) {
	if s := live(); s != nil && !s.dead {
		v.join(s.actorVC())
		s.actorTick()
	}
}

// Block parks the current task; Ready makes a parked task runnable again.
func Block(why string) {
	if s := live(); s != nil && !s.dead {
		s.block(s.cur, why)
	}
}

// Ready makes t runnable.
func Ready(t *Task) {
	if s := S; s != nil && !s.dead {
		s.wakeTask(t)
	}
}

// AtomicVC returns the clock of the atomic variable at p.
func AtomicVC(p unsafe.Pointer) *VC {
	s := S
	v := s.atoms[p]
	if v == nil {
		v = &VC{}
		s.atoms[p] = v
	}
	return v
}
