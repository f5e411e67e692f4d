package scen

import (
	"fmt"
	"math/rand"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	"github.com/milosgajdos/netscrape/pkg/broker"
	membroker "github.com/milosgajdos/netscrape/pkg/broker/memory"
	"github.com/milosgajdos/netscrape/pkg/cache"
	memcache "github.com/milosgajdos/netscrape/pkg/cache/memory"
	"github.com/milosgajdos/netscrape/pkg/graph"
	memgraph "github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/space"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/space/link"
	jsonmarshal "github.com/milosgajdos/netscrape/pkg/space/marshal/json"
	"github.com/milosgajdos/netscrape/pkg/store"
	memstore "github.com/milosgajdos/netscrape/pkg/store/memory"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	memuid "github.com/milosgajdos/netscrape/pkg/uuid/memory"

	"verif.local/sim/sctx"
	rt "verif.local/sim/simrt"
	"verif.local/sim/ssync"
)

func init() {
	register(&Scenario{
		Name:    "uids",
		Props:   []string{"U01"},
		Presets: map[string][]string{"U01": {"base", "base", "hot", "use", "base", "base", "hot", "use", "volume"}},
		Gen:     genUIDs,
		Run:     runUIDs,
	})
}

var uidKinds = []string{"uid", "entity", "resource", "object", "link", "wug", "wdg", "edge", "glink", "subgraph", "store", "sub"}

func genUIDs(r *rand.Rand, p *Plan) {
	p.P["shortrand"] = r.Intn(2)
	p.P["topics"] = r.Intn(len(topicNames) + 1)
	tasks, ops := 2+r.Intn(4), 1+r.Intn(8)
	only := ""
	switch p.Preset {
	case "hot":
		only = uidKinds[r.Intn(len(uidKinds))]
		tasks, ops = 2+r.Intn(3), 1+r.Intn(4)
	}
	if p.Preset == "volume" {
		p.MaxSteps = 2_000_000
		kinds := []string{"uid", "entity", "link", "edge", "resource", "sub", "object"}
		for i, n := 0, 1+r.Intn(3); i < n; i++ {
			var t Task
			for j, m := 0, 1+r.Intn(3); j < m; j++ {
				t.Ops = append(t.Ops, Op{K: "many", A: r.Intn(len(kinds)), B: size(r, []int{70, 140, 300, 600}[r.Intn(4)], 2, 3000), X: []int{r.Intn(4), r.Intn(4)}})
			}
			p.Tasks = append(p.Tasks, t)
		}
		if r.Intn(8) == 0 {
			p.Tasks[0].Ops = append(p.Tasks[0].Ops, Op{K: "heap", A: r.Intn(12), B: []int{10000 + r.Intn(30000), 10000 + r.Intn(30000), 65600 + r.Intn(3000)}[r.Intn(3)]})
		}
		return
	}
	w := map[string]int{}
	for _, k := range uidKinds {
		w[k] = 2
	}
	w["use"] = 4
	w["reopen"] = 1
	if p.Preset == "use" {
		w["use"] = 20
	}
	for i := 0; i < tasks; i++ {
		var t Task
		for j := 0; j < ops; j++ {
			k := only
			if k == "" {
				k = pick(r, w)
			}
			t.Ops = append(t.Ops, Op{K: k, A: r.Intn(64), B: r.Intn(16), C: r.Intn(4), D: r.Intn(4)})
		}
		p.Tasks = append(p.Tasks, t)
	}
}

// issued is one identifier handed out.
type issued struct {
	kind string
	text string
	get  func() string
	ent  space.Entity
	lnk  space.Link
}

type uidRun struct {
	e    *Env
	all  []*issued
	by   map[string]*issued
	heap map[string]bool
	vc   rt.VC // orders what a task does with an object after its creation
	// shared objects
	b    *membroker.Memory
	n1   *memgraph.Node // ends of edges
	n2   *memgraph.Node
	sess ssync.RWMutex // the session stays as it is
	st   *memstore.Memory
	gr   *memgraph.WDG
	un   *memgraph.WUG
	ca   cache.Links
	jm   *jsonmarshal.Marshaler
}

func (x *uidRun) issue(who int, i *issued) *issued {
	i.text = i.get()
	x.e.Logf("client%d: new %s %q", who, i.kind, i.text)
	x.e.count("generated " + i.kind)
	if i.text == "" {
		x.e.Fail("empty identifier", "U01", "a new %s has an empty identifier", i.kind)
	}
	if o := x.by[i.text]; o != nil && i.text != "" {
		x.e.Fail("identifier given twice", "U01", "a new %s and a new %s both have the identifier %q", o.kind, i.kind, i.text)
	}
	x.by[i.text] = i
	x.all = append(x.all, i)
	rt.Release(&x.vc)
	return i
}

// topic is the i-th topic, of few.
func (x *uidRun) topic(i int) string {
	if k := x.e.p("topics"); k < len(topicNames) {
		return topicNames[k](i % 3)
	}
	// those that end in a number
	return []string{"t", "t1", "t11", "", "1", "t-1", "t-"}[i%7]
}

func (x *uidRun) recheck(when string) {
	rt.Acquire(&x.vc)
	for _, i := range x.all {
		if got := i.get(); got != i.text {
			x.e.Fail("identifier changed", "U01", "the identifier of a %s was %q and is %q %s", i.kind, i.text, got, when)
		}
	}
}

func (x *uidRun) entity(who int, op Op) *issued {
	var opts []entity.Option
	if op.C == 1 {
		opts = append(opts, entity.WithUID(nil))
	}
	if op.C == 2 {
		opts = append(opts, entity.WithDOTID("same"))
	}
	var ent space.Entity
	var err error
	kind := op.K
	switch kind {
	case "entity":
		var e *entity.Entity
		e, err = entity.New("t", opts...)
		ent = e
	case "resource":
		var e *entity.Resource
		e, err = entity.NewResource("t", "n", "g", "v", "k", true, opts...)
		ent = e
	default:
		var res space.Resource
		if op.D > 0 {
			var r *entity.Resource
			r, err = entity.NewResource("t", "n", "g", "v", "k", true)
			if err == nil {
				res = r
				x.issue(who, &issued{kind: "resource", get: func() string { return r.UID().String() }, ent: r})
			}
		}
		var e *entity.Object
		e, err = entity.NewObject("t", "n", "ns", res, opts...)
		ent = e
	}
	if err != nil {
		x.e.Fail("cannot create", "U01", "creating a new %s failed: %v", kind, err)
		return nil
	}
	return x.issue(who, &issued{kind: kind, get: func() string { return ent.UID().String() }, ent: ent})
}

// another makes one more object and returns its identifier.
func (x *uidRun) another(ctx sctx.Context, kind int) (string, error) {
	var it interface{ UID() uuid.UID }
	var err error
	switch kind {
	case 0:
		return memuid.New().String(), nil
	case 1:
		it, err = entity.New("t")
	case 2:
		it, err = entity.NewResource("t", "n", "g", "v", "k", true)
	case 3:
		it, err = entity.NewObject("t", "n", "ns", nil)
	case 4:
		it, err = link.New(memuid.NewFromString("a"), memuid.NewFromString("b"))
	case 5:
		it, err = memgraph.NewEdge(x.n1, x.n2)
	case 6:
		it, err = memgraph.NewWUG()
	case 7:
		it, err = memgraph.NewWDG()
	case 8:
		it, err = memstore.NewStore()
	default:
		x.sess.RLock()
		s, err := x.b.Sub(ctx, x.topic(0))
		x.sess.RUnlock()
		if err != nil {
			return "", err
		}
		return s.ID(ctx)
	}
	if err != nil {
		return "", err
	}
	return it.UID().String(), nil
}

func (x *uidRun) do(who int, op Op) {
	ctx := sctx.Background()
	bad := func(err error) bool {
		if err != nil {
			x.e.Fail("cannot create", "U01", "creating a new %s failed: %v", op.K, err)
		}
		return err != nil
	}
	switch op.K {
	case "many":
		k := []string{"uid", "entity", "link", "edge", "resource", "sub", "object"}[op.A]
		for i := 0; i < op.B; i++ {
			x.do(who, Op{K: k, B: i, C: op.X[0], D: op.X[1]})
		}
	case "heap":
		// only their difference matters
		kind := []string{"identifier", "entity", "resource", "object", "link", "edge", "undirected graph", "directed graph", "store", "subscription", "of all kinds"}[op.A%11]
		for i := 0; i < op.B; i++ {
			t, err := x.another(ctx, (op.A+b2i(op.A == 10)*i)%10)
			if err != nil {
				x.e.Fail("cannot create", "U01", "creating a new one (%s) failed: %v", kind, err)
				break
			}
			if t == "" {
				x.e.Fail("empty identifier", "U01", "one of %d new ones (%s) has an empty identifier", i, kind)
				break
			}
			if x.heap[t] || x.by[t] != nil {
				x.e.Fail("identifier given twice", "U01", "the identifier %q was given twice (%s) among %d", t, kind, len(x.heap)+len(x.by))
				break
			}
			x.heap[t] = true
		}
	case "uid":
		u := memuid.New()
		x.issue(who, &issued{kind: "identifier", get: u.String})
	case "entity", "resource", "object":
		x.entity(who, op)
	case "link":
		var opts []link.Option
		if op.C == 1 {
			opts = append(opts, link.WithUID(nil))
		}
		l, err := link.New(memuid.NewFromString("a"), memuid.NewFromString("b"), opts...)
		if bad(err) {
			return
		}
		x.issue(who, &issued{kind: "link", get: func() string { return l.UID().String() }, lnk: l})
	case "wug":
		g, err := memgraph.NewWUG()
		if bad(err) {
			return
		}
		x.issue(who, &issued{kind: "undirected graph", get: func() string { return g.UID().String() }})
	case "wdg":
		g, err := memgraph.NewWDG(graph.WithWeight(1))
		if bad(err) {
			return
		}
		x.issue(who, &issued{kind: "directed graph", get: func() string { return g.UID().String() }})
	case "edge":
		a, err1 := memgraph.NewNode(1, &anEntity{"a"})
		b, err2 := memgraph.NewNode(2, &anEntity{"b"})
		if bad(err1) || bad(err2) {
			return
		}
		ed, err := memgraph.NewEdge(a, b)
		if bad(err) {
			return
		}
		x.issue(who, &issued{kind: "edge", get: func() string { return ed.UID().String() }})
		r, ok := ed.ReversedEdge().(*memgraph.Edge)
		if ok && r.UID().String() != ed.UID().String() {
			x.e.Fail("identifier changed", "U01", "the reverse of edge %q has the identifier %q", ed.UID(), r.UID())
		}
	case "glink", "subgraph":
		var g interface {
			memgraph.Graph
			graph.SubGrapher
		} = x.gr
		if op.D%2 == 1 {
			g = x.un
		}
		var ends []*issued
		for i := 0; i < 2; i++ {
			e := x.entity(who, Op{K: "entity"})
			if e == nil {
				return
			}
			n, err := g.NewNode(ctx, e.ent)
			if bad(err) {
				return
			}
			g.AddNode(ctx, n) // another task may have added it
			if n.UID().String() != e.text {
				x.e.Fail("identifier changed", "U01", "the node of entity %q has the identifier %q", e.text, n.UID())
			}
			ends = append(ends, e)
		}
		ed, err := g.Link(ctx, ends[0].ent.UID(), ends[1].ent.UID())
		if bad(err) {
			return
		}
		x.issue(who, &issued{kind: "graph edge", get: func() string { return ed.UID().String() }})
		again, err := g.Link(ctx, ends[0].ent.UID(), ends[1].ent.UID())
		if err != nil || again.UID().String() != ed.UID().String() {
			x.e.Fail("identifier changed", "U01", "the edge %q is %v (%v) when linked again", ed.UID(), again, err)
		}
		if op.D%2 == 1 {
			back, err := g.Edge(ctx, ends[1].ent.UID(), ends[0].ent.UID())
			if err != nil || back.UID().String() != ed.UID().String() {
				x.e.Fail("identifier changed", "U01", "the undirected edge %q is %v (%v) in the other direction", ed.UID(), back, err)
			}
		}
		if op.D%2 == 0 && op.C%2 == 1 {
			// the link back is another one
			back, err := g.Link(ctx, ends[1].ent.UID(), ends[0].ent.UID())
			if bad(err) {
				return
			}
			x.issue(who, &issued{kind: "graph edge", get: func() string { return back.UID().String() }})
		}
		if op.K == "glink" {
			return
		}
		sg, err := g.SubGraph(ctx, ends[0].ent.UID(), 2)
		if bad(err) {
			return
		}
		x.issue(who, &issued{kind: "subgraph", get: func() string { return sg.UID().String() }})
	case "store":
		s, err := memstore.NewStore()
		if bad(err) {
			return
		}
		x.issue(who, &issued{kind: "store", get: func() string { return s.UID().String() }})
		g, err := s.Graph()
		if bad(err) {
			return
		}
		x.issue(who, &issued{kind: "store graph", get: func() string { return g.UID().String() }})
	case "sub":
		x.sess.RLock()
		s, err := x.b.Sub(ctx, x.topic(op.B))
		x.sess.RUnlock()
		if bad(err) {
			return
		}
		x.issue(who, &issued{kind: "subscription", get: func() string {
			id, err := s.ID(ctx)
			if err != nil {
				return "error " + err.Error()
			}
			return id
		}})
		if op.D == 1 {
			s.Unsubscribe(ctx)
			x.recheck("after Unsubscribe")
		}
	case "reopen": // subscriptions of the next session are new ones, too
		x.sess.Lock()
		x.b.Close()
		if op.C == 1 {
			rt.Settle()
		}
		x.b.Open(ctx)
		x.sess.Unlock()
		x.e.count("reopened")
	case "use":
		if len(x.all) == 0 {
			return
		}
		rt.Acquire(&x.vc)
		i := x.all[op.A%len(x.all)]
		x.e.Logf("client%d: use %s %q in way %d", who, i.kind, i.text, op.B)
		x.use(i, op)
	}
}

// use does something with an object that has a generated identifier.
func (x *uidRun) use(i *issued, op Op) {
	ctx := sctx.Background()
	check := func(where string, u uuid.UID) {
		if u == nil || u.String() != i.text {
			x.e.Fail("identifier changed", "U01", "the %s %q has the identifier %v %s", i.kind, i.text, u, where)
		}
	}
	switch {
	case i.ent != nil && op.B < 4:
		x.st.Add(ctx, i.ent, store.WithUpsert())
		if got, err := x.st.Get(ctx, i.ent.UID()); err == nil {
			check("in the store", got.UID())
		}
	case i.ent != nil && op.B < 8:
		for _, g := range []memgraph.Graph{x.gr, x.un} {
			n, err := g.NewNode(ctx, i.ent)
			if err != nil {
				continue
			}
			check("as a new node", n.UID())
			g.AddNode(ctx, n)
			if n, err := g.Node(ctx, i.ent.UID()); err == nil {
				check("in the graph", n.UID())
			}
		}
	case i.ent != nil:
		if _, ok := i.ent.(space.Object); !ok && op.B%2 == 0 {
			x.jm.Marshal(i.ent)
			return
		}
		b, err := x.jm.Marshal(i.ent)
		if err != nil {
			return
		}
		var back space.Entity
		if err := x.jm.Unmarshal(b, &back); err == nil {
			check("after marshaling", back.UID())
		}
	case i.lnk != nil:
		x.ca.Put(ctx, i.lnk, cache.WithUpsert())
		ls, err := x.ca.GetFrom(ctx, i.lnk.From())
		if err != nil {
			return
		}
		for _, l := range ls {
			known := false
			for _, o := range x.all {
				known = known || o.text == l.UID().String()
			}
			if !known {
				x.e.Fail("identifier changed", "U01", "the cache holds a link with the unknown identifier %q", l.UID())
			}
		}
	}
}

// anEntity is an entity with a fixed identifier.
type anEntity struct{ id string }

func (a *anEntity) UID() uuid.UID      { return memuid.NewFromString(a.id) }
func (a *anEntity) Type() string       { return "t" }
func (a *anEntity) Attrs() attrs.Attrs { return nil }

func runUIDs(e *Env) {
	ctx := sctx.Background()
	x := &uidRun{e: e, by: map[string]*issued{}, heap: map[string]bool{}}
	var errs [8]error
	x.b, errs[0] = membroker.New(broker.WithCap(2))
	x.st, errs[1] = memstore.NewStore()
	x.gr, errs[2] = memgraph.NewWDG()
	x.un, errs[3] = memgraph.NewWUG()
	c, err := memcache.NewLinks()
	x.ca, errs[4] = c, err
	x.jm, errs[5] = jsonmarshal.NewMarshaler()
	x.n1, errs[6] = memgraph.NewNode(1, &anEntity{"a"})
	x.n2, errs[7] = memgraph.NewNode(2, &anEntity{"b"})
	for _, err := range errs {
		if err != nil {
			e.Fail("cannot create", "U01", "%v", err)
			return
		}
	}
	x.b.Open(ctx)
	x.issue(0, &issued{kind: "store", get: func() string { return x.st.UID().String() }})
	x.issue(0, &issued{kind: "directed graph", get: func() string { return x.gr.UID().String() }})
	x.issue(0, &issued{kind: "undirected graph", get: func() string { return x.un.UID().String() }})
	e.RunTasks(x.do)
	rt.Settle()
	x.recheck("at the end")
	x.b.Close()
	rt.Settle()
	x.recheck("after closing the broker")
	e.Observe(fmt.Sprint(len(x.all)))
	for _, i := range x.all {
		e.Observe(i.text)
	}
}
