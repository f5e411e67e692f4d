package scen

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"strconv"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/graph"
	memgraph "github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/store"
	memstore "github.com/milosgajdos/netscrape/pkg/store/memory"
	"github.com/milosgajdos/netscrape/pkg/uuid"

	"verif.local/sim/sctx"
	rt "verif.local/sim/simrt"
)

func init() {
	register(&Scenario{
		Name:  "store",
		Props: []string{"S01", "S02", "S03", "G06"},
		Presets: map[string][]string{
			"S01": {"base", "base", "handle", "hot"},
			"S02": {"bulk", "focus"},
			"S03": {"attrs", "attrs", "handle", "bulk", "weights"},
			"G06": {"many", "many"},
		},
		Gen:   genStore,
		Run:   runStore,
		Check: checkStore,
	})
}

func genStore(r *rand.Rand, p *Plan) {
	p.P["word"] = r.Intn(1000)
	p.P["graph"] = r.Intn(3) // 0: the store's own, 1: undirected, 2: directed
	p.P["dir"] = p.P["graph"] / 2
	p.P["n"] = 2 + r.Intn(5)
	p.P["names"] = 0
	if r.Intn(4) == 0 {
		pickNames(r, p)
	}
	p.P["ids"] = r.Intn(2)
	if p.P["graph"] > 0 && r.Intn(3) == 0 {
		p.P["faulty"] = 1
	}
	tasks, ops := 2+r.Intn(3), 1+r.Intn(5)
	single := map[string]int{"add": 6, "get": 3, "delete": 3, "link": 5, "unlink": 2}
	bulk := map[string]int{"badd": 5, "bget": 4, "bdelete": 3, "blink": 5, "bunlink": 3}
	reads := map[string]int{"node": 1, "nodes": 2, "edge": 1, "edges": 2, "from": 1}
	changes := map[string]int{"put": 2, "newnode": 1, "addnode": 1, "remove": 2, "link!": 3, "unlink!": 2}
	w := map[string]int{}
	use := func(ms ...map[string]int) {
		for _, m := range ms {
			for k, v := range m {
				w[k] = v
			}
		}
	}
	switch p.Preset {
	case "base":
		use(single)
	case "hot":
		use(single)
		p.P["n"] = 2
	case "handle":
		use(single, reads)
		if r.Intn(2) == 0 {
			use(changes)
		}
	case "attrs":
		use(single, reads)
		w["add"], w["link"], w["delete"], w["edges"], w["get"] = 8, 6, 1, 4, 5
		if r.Intn(3) == 0 {
			tasks, ops = 1, 3+r.Intn(12)
		}
	case "weights":
		w = map[string]int{"add": 6, "link!": 6, "link": 2, "put": 2, "delete": 1, "edges": 3, "edge": 2, "unlink": 1}
		p.P["n"] = 2 + r.Intn(2)
	case "bulk":
		use(single, bulk)
		w["add"], w["get"], w["delete"], w["link"], w["unlink"] = 2, 2, 1, 1, 1
		if r.Intn(3) == 0 {
			w = bulk
		}
	case "many":
		use(single, bulk, reads, changes)
		w["sub"], w["dot"] = 3, 3
		tasks, ops = 2+r.Intn(5), 1+r.Intn(8)
	}
	spread(r, p, &tasks, &ops)
	if p.Preset == "focus" {
		genFocus(r, p)
		return
	}
	long := r.Intn(10) == 0
	gen := func(k string) Op {
		o := Op{K: k, A: r.Intn(p.P["n"]), B: r.Intn(p.P["n"]), C: r.Intn(4), D: r.Intn(24), E: ctxStyle(r, p)}
		if p.P["twin"] == 1 {
			o.I = r.Intn(2)
		}
		if k == "add" && r.Intn(4) == 0 {
			o.C |= 4
		}
		if _, ok := bulk[k]; ok {
			for i, m := 0, r.Intn(5); i < m; i++ {
				o.X = append(o.X, r.Intn(p.P["n"]))
			}
			if r.Intn(3) > 0 { // without repetition
				o.X = r.Perm(p.P["n"])[:r.Intn(p.P["n"]+1)]
			}
			if long && r.Intn(2) == 0 { // long lists
				for i, m := 0, 10+r.Intn(60); i < m; i++ {
					o.X = append(o.X, r.Intn(p.P["n"]))
				}
				o.C |= 1
			}
		}
		return o
	}
	var t Task
	for i, m := 0, r.Intn(6); i < m; i++ {
		k := "add"
		if i > 1 && r.Intn(2) == 0 {
			k = "link"
		}
		t.Ops = append(t.Ops, gen(k))
	}
	p.Tasks = append(p.Tasks, t)
	for i := 0; i < tasks; i++ {
		var t Task
		for j := 0; j < ops; j++ {
			t.Ops = append(t.Ops, gen(pick(r, w)))
		}
		p.Tasks = append(p.Tasks, t)
	}
}

// genFocus makes bulk operations and sequences of single operations work on
// the same few things at the same time: the links of one entity, or a handful
// of entities.
func genFocus(r *rand.Rand, p *Plan) {
	n := 3 + r.Intn(2)
	p.P["n"] = n
	links := r.Intn(2) == 0
	hub := r.Intn(n)
	order := func() []int {
		var out []int
		for _, u := range r.Perm(n) {
			if !links || u != hub {
				out = append(out, u)
			}
		}
		if r.Intn(3) == 0 {
			out = out[:1+r.Intn(len(out))]
		}
		if r.Intn(4) == 0 { // something twice
			out = append(out, out[r.Intn(len(out))])
		}
		return out
	}
	gen := func(k string, u int) Op {
		o := Op{K: k, A: u, B: u, C: r.Intn(4), D: 1 + r.Intn(3)}
		if links {
			o.A = hub
		}
		if r.Intn(3) > 0 {
			o.C |= 1
		}
		if k[0] == 'b' {
			o.X = order()
			if !uniq(o.X) && r.Intn(2) == 0 {
				o.C &^= 1
			}
		}
		return o
	}
	var t Task
	if r.Intn(3) > 0 {
		o := gen("badd", 0)
		o.X = r.Perm(n)
		t.Ops = append(t.Ops, o)
		if links && r.Intn(2) == 0 {
			t.Ops = append(t.Ops, gen("blink", hub))
		}
	}
	p.Tasks = append(p.Tasks, t)
	bulk, single := []string{"badd", "bget", "bdelete", "bget"}, []string{"add", "add", "delete", "get"}
	if links {
		bulk, single = []string{"blink", "bunlink"}, []string{"link", "unlink"}
		switch r.Intn(6) {
		case 0:
			bulk = append(bulk, "bdelete", "badd")
		case 1:
			single = append(single, "delete", "add")
		}
	}
	// single operations of a task are often all of the same kind: changes
	// that follow one another while one bulk operation is at work
	for i, m := 0, 1+r.Intn(2); i < m; i++ {
		var t Task
		for j, m := 0, 1+r.Intn(2); j < m; j++ {
			t.Ops = append(t.Ops, gen(bulk[r.Intn(len(bulk))], hub))
		}
		p.Tasks = append(p.Tasks, t)
	}
	for i, m := 0, 1+r.Intn(2); i < m; i++ {
		var t Task
		if r.Intn(3) == 0 {
			for j, m := 0, 1+r.Intn(2); j < m; j++ {
				t.Ops = append(t.Ops, gen(bulk[r.Intn(len(bulk))], hub))
			}
		} else {
			k := single[r.Intn(len(single))]
			for j, m := 0, 2+r.Intn(3); j < m; j++ {
				if r.Intn(3) == 0 {
					k = single[r.Intn(len(single))]
				}
				u := r.Intn(n)
				if links && u == hub {
					u = (u + 1) % n
				}
				o := gen(k, u)
				if !links {
					o.C &^= 4
				}
				t.Ops = append(t.Ops, o)
			}
		}
		p.Tasks = append(p.Tasks, t)
	}
}

// ---- the sequential specification ----

func specAdd(s *gstate, u int, ver int32, upsert bool) string {
	if s.node[u] != 0 && !upsert {
		return "exists"
	}
	s.node[u] = ver
	return ""
}

func (x *gx) specLink(s *gstate, u, v, tag int) string {
	if s.node[u] == 0 || s.node[v] == 0 {
		return "notfound"
	}
	if u == v {
		return "self"
	}
	u, v = x.ends(u, v)
	if s.edge[u][v] == 0 {
		s.edge[u][v] = int32(tag)
	}
	return ""
}

func (x *gx) specUnlink(s *gstate, u, v int) string {
	u, v = x.ends(u, v)
	s.edge[u][v] = 0
	return ""
}

func specDelete(s *gstate, u int) string {
	s.drop(u)
	return ""
}

// ---- a graph whose calls fail now and then ----

var errInjected = errors.New("graph fails")

type faultKey struct{}

// faultCtl decides which call of the graph fails during one store operation.
type faultCtl struct {
	at, calls int
	hit       bool
	item      string // identifier of the item being worked on
}

type faultyGraph struct {
	memgraph.Graph
}

func (f *faultyGraph) call(ctx context.Context, item string) error {
	rt.Yield("graph")
	c, _ := ctx.Value(faultKey{}).(*faultCtl)
	if c == nil || c.hit {
		return nil
	}
	c.calls++
	if c.calls == c.at {
		c.hit, c.item = true, item
		rt.Fault("graph error")
		return errInjected
	}
	return nil
}

func (f *faultyGraph) NewNode(ctx context.Context, e graph.Entity, o ...graph.Option) (graph.Node, error) {
	if err := f.call(ctx, e.UID().String()); err != nil {
		return nil, err
	}
	return f.Graph.NewNode(ctx, e, o...)
}

func (f *faultyGraph) AddNode(ctx context.Context, n graph.Node, o ...graph.Option) error {
	if err := f.call(ctx, n.UID().String()); err != nil {
		return err
	}
	return f.Graph.AddNode(ctx, n, o...)
}

func (f *faultyGraph) Node(ctx context.Context, u uuid.UID) (graph.Node, error) {
	if err := f.call(ctx, u.String()); err != nil {
		return nil, err
	}
	return f.Graph.Node(ctx, u)
}

func (f *faultyGraph) RemoveNode(ctx context.Context, u uuid.UID, o ...graph.Option) error {
	if err := f.call(ctx, u.String()); err != nil {
		return err
	}
	return f.Graph.RemoveNode(ctx, u, o...)
}

func (f *faultyGraph) Link(ctx context.Context, u, v uuid.UID, o ...graph.Option) (graph.Edge, error) {
	if err := f.call(ctx, v.String()); err != nil {
		return nil, err
	}
	return f.Graph.Link(ctx, u, v, o...)
}

func (f *faultyGraph) Unlink(ctx context.Context, u, v uuid.UID, o ...graph.Option) error {
	if err := f.call(ctx, v.String()); err != nil {
		return err
	}
	return f.Graph.Unlink(ctx, u, v, o...)
}

// ---- the driver ----

// storeAPI is what the workload needs of a store.
type storeAPI interface {
	Add(context.Context, store.Entity, ...store.Option) error
	Get(context.Context, uuid.UID, ...store.Option) (store.Entity, error)
	Delete(context.Context, uuid.UID, ...store.Option) error
	Link(ctx context.Context, from, to uuid.UID, opts ...store.Option) error
	Unlink(ctx context.Context, from, to uuid.UID, opts ...store.Option) error
	BulkAdd(context.Context, []store.Entity, ...store.Option) error
	BulkGet(context.Context, []uuid.UID, ...store.Option) ([]store.Entity, error)
	BulkDelete(context.Context, []uuid.UID, ...store.Option) error
	BulkLink(context.Context, uuid.UID, []uuid.UID, ...store.Option) error
	BulkUnlink(context.Context, uuid.UID, []uuid.UID, ...store.Option) error
}

type storeOps struct {
	*graphOps
	s    storeAPI
	made map[int]*slot[store.Entity] // entities of single adds
	expl map[int]bool                // those added with attributes of their own
}

func class(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, errInjected):
		return "injected"
	case errors.Is(err, store.ErrAlreadyExists):
		return "exists"
	case errors.Is(err, store.ErrEntityNotFound):
		return "notfound"
	}
	return "other"
}

// agrees tells whether an error is one the specification allows.
func agrees(spec, got string) bool {
	return spec == got || spec == "self" && got != "" && got != "injected"
}

// entity makes a new version of entity u with attributes of its own.
func (st *storeOps) entity(u, kind int) (int, store.Entity) {
	ver, ge := st.newVer(u, nil)
	own := map[string]string{"v": strconv.Itoa(ver)}
	if kind%2 == 1 {
		own["x y"] = `"<&>` + strconv.Itoa(ver)
	}
	if kind%5 == 3 {
		own[word(st.types.from+ver*3+kind)] = word(ver)
	}
	if kind%8 == 4 || kind%8 == 5 {
		own = map[string]string{}
	}
	st.vers[ver].attrs = own
	a := memattrs.NewFromMap(own)
	ge.a = a
	if kind%16 == 4 {
		ge.a = nil // no attributes at all
	}
	typ, uid, name := ge.typ, ge.uid, st.name[u]
	if name == "" {
		return ver, ge
	}
	var e store.Entity
	var err error
	switch kind % 4 {
	case 1:
		e, err = entity.New(typ, entity.WithUID(uid), entity.WithAttrs(a))
	case 2:
		e, err = entity.NewResource(typ, name, "g", "v1", "k", true, entity.WithUID(uid), entity.WithAttrs(a), entity.WithDOTID(name))
	case 3:
		var r *entity.Resource
		r, err = entity.NewResource("res", name, "g", "v1", "k", true)
		if err == nil {
			e, err = entity.NewObject(typ, name, "ns", r, entity.WithUID(uid), entity.WithAttrs(a), entity.WithDOTID(name))
		}
	default:
		e = ge
	}
	if err != nil {
		st.unexpected("creating an entity", err)
		return ver, ge
	}
	return ver, e
}

// item looks up the position of the item an injected failure hit.
func (st *storeOps) item(c *faultCtl, us []int) int {
	for i, u := range us {
		if st.name[u] == c.item {
			return i
		}
	}
	return -1
}

func uniq(us []int) bool {
	m := map[int]bool{}
	for _, u := range us {
		if m[u] {
			return false
		}
		m[u] = true
	}
	return true
}

// fold is the outcome of a store operation on a list of items: what the
// specification says when it applies the items in order.
func (st *storeOps) fold(us []int, err error, c *faultCtl, item func(*gstate, int) string) func(gstate) (gstate, bool) {
	got := class(err)
	if got == "injected" {
		k := st.item(c, us)
		return func(s gstate) (gstate, bool) {
			for i := 0; i < k; i++ {
				if item(&s, i) != "" {
					return s, false
				}
			}
			return s, true
		}
	}
	return func(s gstate) (gstate, bool) {
		for i := range us {
			if e := item(&s, i); e != "" {
				return s, agrees(e, got)
			}
		}
		return s, got == ""
	}
}

func (st *storeOps) do(who int, op Op) {
	ctx, done := opCtx(op.E, sctx.WithValue(sctx.Background(), ctxKey{}, "store"))
	defer done()
	if op.E > 0 {
		st.nctx++
	}
	c := &faultCtl{}
	if st.e.p("faulty") == 1 && op.D%4 == 0 && uniq(op.X) {
		c.at = 1 + rt.Choose(1+2*len(op.X))
		ctx = sctx.WithValue(ctx, faultKey{}, c)
	}
	u, v := op.A%st.n, op.B%st.n
	var us []int
	for _, w := range op.X {
		us = append(us, w%st.n)
	}
	upsert := op.C&1 != 0
	var os []store.Option
	if upsert {
		os = append(os, store.WithUpsert())
	}
	// finish turns the error of an operation into its meaning.
	finish := func(what string, err error, us []int, item func(*gstate, int) string) (string, func(gstate) (gstate, bool)) {
		if ctxErr(err) && st.nctx > 0 {
			st.vague = true
			return errName(err), nil
		}
		if c.hit && class(err) != "injected" {
			st.e.Fail("graph error lost", st.props, "%s returned %v although the graph failed with %v", what, err, errInjected)
			return errName(err), nil
		}
		return errName(err), st.fold(us, err, c, item)
	}
	one := []int{u}
	switch op.K {
	case "add":
		ver, ent := 0, store.Entity(nil)
		var expl map[string]string
		if b := st.last[u]; op.C&4 != 0 && b > 0 && st.made[b] != nil {
			// the same entity once more
			ent, _ = st.made[b].get()
			if op.C&2 != 0 {
				ver, _ = st.verAgain(u)
				expl = map[string]string{"v": strconv.Itoa(ver), "again": "1"}
				st.vers[ver].attrs = expl
				os = append(os, store.WithAttrs(memattrs.NewFromMap(expl)))
			} else if !st.expl[b] {
				ver = b
			}
		}
		if ver == 0 {
			ver, ent = st.entity(u, op.D)
			os, expl = st.explicit(os, op.C, ver)
			st.made[ver], st.expl[ver] = &slot[store.Entity]{}, expl != nil
			st.made[ver].set(ent)
		}
		what := fmt.Sprintf("Add(n%d v%d, upsert %v, attrs %v)", u, ver, upsert, expl)
		st.rec(who, what, func() (string, func(gstate) (gstate, bool)) {
			err := st.s.Add(ctx, ent, os...)
			return finish(what, err, one, func(s *gstate, _ int) string { return specAdd(s, u, int32(ver), upsert) })
		})
	case "badd":
		var ents []store.Entity
		var vers []int
		for i, w := range us {
			ver, ent := st.entity(w, op.D+i)
			ents, vers = append(ents, ent), append(vers, ver)
		}
		var expl map[string]string
		if len(vers) > 0 {
			os, expl = st.explicit(os, op.C, vers...)
		}
		what := fmt.Sprintf("BulkAdd(%v v%v, upsert %v, attrs %v)", us, vers, upsert, expl)
		st.rec(who, what, func() (string, func(gstate) (gstate, bool)) {
			err := st.s.BulkAdd(ctx, ents, os...)
			return finish(what, err, us, func(s *gstate, i int) string { return specAdd(s, us[i], int32(vers[i]), upsert) })
		})
	case "get":
		what := fmt.Sprintf("Get(n%d)", u)
		st.rec(who, what, func() (string, func(gstate) (gstate, bool)) {
			n, err := st.s.Get(ctx, st.uid(u))
			switch class(err) {
			case "":
				return st.nodeResult("Get", u, n, nil)
			case "injected":
				return errName(err), func(s gstate) (gstate, bool) { return s, true }
			case "notfound":
				if c.hit {
					break
				}
				return errName(err), func(s gstate) (gstate, bool) { return s, s.node[u] == 0 }
			}
			st.unexpected(what, err)
			return errName(err), nil
		})
	case "bget":
		what := fmt.Sprintf("BulkGet(%v)", us)
		st.rec(who, what, func() (string, func(gstate) (gstate, bool)) {
			var uids []uuid.UID
			for _, w := range us {
				uids = append(uids, st.uid(w))
			}
			ents, err := st.s.BulkGet(ctx, uids)
			switch class(err) {
			case "":
				if c.hit {
					st.e.Fail("graph error lost", st.props, "%s succeeded although the graph failed", what)
					return "ok", nil
				}
				if len(ents) != len(us) {
					st.e.Fail("bulk get length", "S02", "%s returned %d entities", what, len(ents))
					return "?", nil
				}
				var vs []int32
				for i, n := range ents {
					if n == nil {
						st.e.Fail("bulk get position", "S02", "%s returned nothing in position %d", what, i)
						return "?", nil
					}
					got := st.ver("BulkGet", n)
					if got == 0 {
						return "?", nil
					}
					if st.vers[got].u != us[i] {
						st.e.Fail("bulk get position", "S02", "%s returned %q in position %d, where %q was requested", what, n.UID(), i, st.name[us[i]])
						return "?", nil
					}
					vs = append(vs, got)
				}
				return fmt.Sprint("v", vs), func(s gstate) (gstate, bool) {
					for i, w := range us {
						if s.node[w] != vs[i] {
							return s, false
						}
					}
					return s, true
				}
			case "injected":
				if len(ents) > 0 {
					st.e.Fail("entities with an error", "S02", "%s returned %d entities and %v", what, len(ents), err)
				}
				return errName(err), func(s gstate) (gstate, bool) { return s, true }
			case "notfound":
				if c.hit {
					break
				}
				if len(ents) > 0 {
					st.e.Fail("entities with an error", "S02", "%s returned %d entities and %v", what, len(ents), err)
				}
				return errName(err), func(s gstate) (gstate, bool) {
					for _, w := range us {
						if s.node[w] == 0 {
							return s, true
						}
					}
					return s, false
				}
			}
			st.unexpected(what, err)
			return errName(err), nil
		})
	case "delete":
		what := fmt.Sprintf("Delete(n%d)", u)
		st.rec(who, what, func() (string, func(gstate) (gstate, bool)) {
			err := st.s.Delete(ctx, st.uid(u))
			return finish(what, err, one, func(s *gstate, _ int) string { return specDelete(s, u) })
		})
	case "bdelete":
		what := fmt.Sprintf("BulkDelete(%v)", us)
		st.rec(who, what, func() (string, func(gstate) (gstate, bool)) {
			err := st.s.BulkDelete(ctx, st.uids(us))
			return finish(what, err, us, func(s *gstate, i int) string { return specDelete(s, us[i]) })
		})
	case "link":
		os, tag := st.linkAttrs(nil, op.C)
		what := fmt.Sprintf("Link(n%d, n%d, e%d)", u, v, tag)
		st.rec(who, what, func() (string, func(gstate) (gstate, bool)) {
			var err error
			if p := catch(func() { err = st.s.Link(ctx, st.uid(u), st.uid(v), os...) }); p != nil {
				st.e.Fail("Link panics", st.props+" G06", "%s panicked: %v", what, p)
				return "panic", nil
			}
			if c.hit {
				c.item = st.name[u]
			}
			return finish(what, err, one, func(s *gstate, _ int) string { return st.specLink(s, u, v, tag) })
		})
	case "blink":
		os, tag := st.linkAttrs(nil, op.C)
		st.shared = st.shared || tag != anon
		what := fmt.Sprintf("BulkLink(n%d, %v, e%d)", u, us, tag)
		st.rec(who, what, func() (string, func(gstate) (gstate, bool)) {
			var err error
			if p := catch(func() { err = st.s.BulkLink(ctx, st.uid(u), st.uids(us), os...) }); p != nil {
				st.e.Fail("Link panics", st.props+" G06", "%s panicked: %v", what, p)
				return "panic", nil
			}
			return finish(what, err, us, func(s *gstate, i int) string { return st.specLink(s, u, us[i], tag) })
		})
	case "unlink":
		what := fmt.Sprintf("Unlink(n%d, n%d)", u, v)
		st.rec(who, what, func() (string, func(gstate) (gstate, bool)) {
			err := st.s.Unlink(ctx, st.uid(u), st.uid(v))
			if c.hit {
				c.item = st.name[u]
			}
			return finish(what, err, one, func(s *gstate, _ int) string { return st.specUnlink(s, u, v) })
		})
	case "bunlink":
		what := fmt.Sprintf("BulkUnlink(n%d, %v)", u, us)
		st.rec(who, what, func() (string, func(gstate) (gstate, bool)) {
			err := st.s.BulkUnlink(ctx, st.uid(u), st.uids(us))
			return finish(what, err, us, func(s *gstate, i int) string { return st.specUnlink(s, u, us[i]) })
		})
	case "link!":
		op.K, op.E = "link", 0
		st.graphOps.do(who, op)
	case "unlink!":
		op.K, op.E = "unlink", 0
		st.graphOps.do(who, op)
	default:
		op.D, op.E = op.D%12, 0
		st.graphOps.do(who, op)
	}
}

func (st *storeOps) uids(us []int) []uuid.UID {
	var out []uuid.UID
	for _, u := range us {
		out = append(out, st.uid(u))
	}
	return out
}

// explicit adds attributes given to the add itself.
func (st *storeOps) explicit(os []store.Option, with int, vers ...int) ([]store.Option, map[string]string) {
	if with&2 == 0 {
		return os, nil
	}
	at := map[string]string{"v": strconv.Itoa(vers[0]), "explicit": "1"}
	if vers[0]%5 == 0 {
		at = map[string]string{}
	}
	if vers[0]%3 == 1 {
		at[word(st.types.from+vers[0]*5+with)] = word(vers[0])
	}
	if len(vers) > 1 {
		at = map[string]string{"explicit": strconv.Itoa(vers[0])}
		st.shared = true
	}
	for _, v := range vers {
		st.vers[v].attrs = at
	}
	return append(os, store.WithAttrs(memattrs.NewFromMap(at))), at
}

// linkAttrs adds attributes to a link.
func (st *storeOps) linkAttrs(os []store.Option, with int) ([]store.Option, int) {
	if with == 0 {
		return os, anon
	}
	tag := st.newTag(false, true)
	var a attrs.Attrs = memattrs.NewFromMap(copyMap(st.tags[tag].attrs))
	return append(os, store.WithAttrs(a)), tag
}

func runStore(e *Env) {
	props := "S01"
	switch e.P.Preset {
	case "bulk", "focus":
		props = "S01 S02"
	}
	var sts []*storeOps
	var xs []*gx
	for i := 0; i <= e.p("twin"); i++ {
		st := newStoreOps(e, props)
		if st == nil {
			return
		}
		if i > 0 {
			st.who = "'"
		}
		sts, xs = append(sts, st), append(xs, st.gx)
	}
	e.data = xs
	if len(e.P.Tasks) > 0 {
		for _, op := range e.P.Tasks[0].Ops {
			sts[op.I%len(sts)].do(0, op)
		}
	}
	var ts []*rt.Task
	for i := 1; i < len(e.P.Tasks); i++ {
		i := i
		ts = append(ts, rt.GoNamed(fmt.Sprintf("client%d", i), func() {
			for _, op := range e.P.Tasks[i].Ops {
				sts[op.I%len(sts)].do(i, op)
			}
		}))
	}
	rt.Join(ts...)
	for _, st := range sts {
		st.view(0, true)
		for u := 0; u < st.n; u++ {
			st.do(0, Op{K: "get", A: u, D: 1})
		}
		st.apart(props + " S03")
		st.done = true
	}
}

func newStoreOps(e *Env, props string) *storeOps {
	x := newGx(e, props)
	var os []memstore.Option
	if e.p("graph") > 0 {
		mg, err := newTestGraph(x.dir)
		if err != nil {
			e.Fail("new graph", props, "%v", err)
			return nil
		}
		if e.p("faulty") == 1 {
			mg = &faultyGraph{mg}
		}
		os = append(os, memstore.WithGraph(mg))
	}
	s, err := memstore.NewStore(os...)
	if err != nil {
		e.Fail("new store", props, "%v", err)
		return nil
	}
	var api any = s
	sa, ok := api.(storeAPI)
	if !ok {
		e.Fail("store operations", props, "the store lacks operations")
		return nil
	}
	h, err := handle(s)
	if err != nil || h == nil {
		e.Fail("no graph handle", props, "the store hands out no graph: %v", err)
		return nil
	}
	mg, ok := h.(memgraph.Graph)
	if !ok {
		e.Fail("no graph handle", props, "the store hands out a %T", h)
		return nil
	}
	return &storeOps{graphOps: &graphOps{gx: x, g: mg}, s: sa, made: map[int]*slot[store.Entity]{}, expl: map[int]bool{}}
}

// handle asks the store for its graph, whichever signature that has.
func handle(s any) (graph.Graph, error) {
	switch s := s.(type) {
	case interface{ Graph() (graph.Graph, error) }:
		return s.Graph()
	case interface {
		Graph(context.Context, ...store.Option) (graph.Graph, error)
	}:
		return s.Graph(sctx.Background())
	}
	return nil, fmt.Errorf("no Graph method")
}

func checkStore(e *Env) {
	xs, _ := e.data.([]*gx)
	basic := "S01"
	switch e.P.Preset {
	case "attrs", "weights":
		basic = "S01 S03"
	case "bulk", "focus":
		basic = "S01 S02"
	}
	for _, x := range xs {
		if !x.done || len(e.viol) > 0 || e.P.Preset == "many" {
			return
		}
		x.judge(basic, basic, "G03", "G05")
	}
}
