package scen

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"sort"

	"gonum.org/v1/gonum/graph/encoding"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/graph"
	memgraph "github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/space"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/space/link"
	"github.com/milosgajdos/netscrape/pkg/space/marshal"
	jsonmarshal "github.com/milosgajdos/netscrape/pkg/space/marshal/json"
	memuid "github.com/milosgajdos/netscrape/pkg/uuid/memory"

	"verif.local/sim/dict"
	"verif.local/sim/sctx"
	rt "verif.local/sim/simrt"
)

func init() {
	register(&Scenario{
		Name:    "attrs",
		Props:   []string{"A01"},
		Presets: map[string][]string{"A01": {"base", "base", "marshal", "faulty", "faulty"}},
		Gen:     genAttrs,
		Run:     runAttrs,
	})
}

var attrOps = []string{"copy", "map", "dot", "node", "edge", "entity", "resource", "object", "link", "jentity", "jresource", "jobject", "jlink", "sub"}

func genAttrs(r *rand.Rand, p *Plan) {
	p.P["sets"] = 1 + r.Intn(3)
	for i := 0; i < p.P["sets"]; i++ {
		p.P[fmt.Sprint("set", i)] = r.Intn(1 << 12) // which attributes set i has
	}
	p.P["real"] = r.Intn(2) // sources read the real attributes
	reads := 8
	if r.Intn(8) == 0 { // large sets
		p.P["many"] = size(r, 5+r.Intn(60), 1, 300)
		reads += p.P["many"] + 2
	}
	p.P["row"] = rowOf(r)
	if r.Intn(5) == 0 { // what the code under test mentions
		p.P["words"] = 1 + r.Intn(3)
		reads += 4
	}
	w := map[string]int{}
	for _, k := range attrOps {
		w[k] = 2
		if p.Preset == "marshal" && (k == "copy" || k == "map" || k == "dot" || k == "node" || k == "edge" || k == "sub") {
			w[k] = 0
		}
	}
	for i, n := 0, 1+r.Intn(4); i < n; i++ {
		var t Task
		for j, m := 0, 1+r.Intn(6); j < m; j++ {
			o := Op{K: pick(r, w), A: r.Intn(3), B: r.Intn(3), C: r.Intn(8), D: r.Intn(6)}
			// X: which read fails (0 none), how; the same for the second source
			if p.Preset == "faulty" || r.Intn(3) == 0 {
				o.X = []int{r.Intn(reads), r.Intn(4), r.Intn(reads), r.Intn(4)}
			}
			o.I = r.Intn(6) // once more: 1 as it is, 2 and more after the attributes have changed; odd: with plain attributes
			t.Ops = append(t.Ops, o)
		}
		p.Tasks = append(p.Tasks, t)
	}
}

var attrTable = [][2]string{
	{"name", "x"}, {"weight", "0.5"}, {"relation", "a -> b"}, {"", "empty key"}, {"empty", ""},
	{"ü\u2028", "é\n\t\"q\" <&> \\"}, {"dotid", "d"}, {"a.b/c", "true"}, {"label", "null"}, {"Name", "X"},
	{"_partial", "1"}, {"_", " "},
}

// source is an attribute source whose reads are slow and may fail.
type source struct {
	x      *attrRun
	id     string
	inner  attrs.Attrs
	failAt int // this read fails, 0 none
	how    int // 0 error, 1 context cancelled, 2 deadline error, 3 error once
	cancel func()
	ctxID  any // nil: the operation takes no context
	calls  int
	err    error // what a read returned
	sets   int
}

func (s *source) read(ctx context.Context, what string) error {
	s.calls++
	rt.Yield("attribute source")
	if s.x.slow > 0 && rt.Choose(s.x.slow) == 0 {
		rt.Sleep(ms(1))
	}
	if s.ctxID != nil && ctx.Value(ctxKey{}) != s.ctxID {
		s.x.e.Fail("context not handed on", "A01", "%s: %s was called with another context than the caller's", s.id, what)
	}
	if s.err != nil && s.how != 3 {
		return s.err
	}
	if s.failAt > 0 && s.calls == s.failAt {
		switch s.how {
		case 1:
			if s.cancel == nil {
				s.err = fmt.Errorf("%s cannot be read", s.id)
				rt.Fault("attribute source error")
				break
			}
			rt.Fault("context cancelled")
			s.cancel()
			s.err = ctx.Err()
			if s.err == nil {
				s.x.e.Fail("context not handed on", "A01", "%s: the context given to %s does not end with the caller's", s.id, what)
				s.err = context.Canceled
			}
		case 2:
			rt.Fault("attribute source timeout")
			s.err = context.DeadlineExceeded
		default:
			rt.Fault("attribute source error")
			s.err = fmt.Errorf("%s cannot be read", s.id)
		}
		return s.err
	}
	return nil
}

func (s *source) Keys(ctx context.Context) ([]string, error) {
	if err := s.read(ctx, "Keys"); err != nil {
		if s.x.e.p("real") == 0 { // what comes with an error means nothing
			return []string{"name", "bogus"}, err
		}
		return nil, err
	}
	return s.inner.Keys(ctx)
}

func (s *source) Get(ctx context.Context, k string) (string, error) {
	if err := s.read(ctx, "Get"); err != nil {
		if s.x.e.p("real") == 0 {
			return "bogus", err
		}
		return "", err
	}
	return s.inner.Get(ctx, k)
}

func (s *source) Set(ctx context.Context, k, v string) error {
	s.sets++
	return nil
}

type attrRun struct {
	e    *Env
	slow int
	want []map[string]string
	base []attrs.Attrs
	jm   *jsonmarshal.Marshaler
	n    int
}

func showMap(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := "{"
	for i, k := range ks {
		if i > 0 {
			s += " "
		}
		s += fmt.Sprintf("%q:%q", k, m[k])
	}
	return s + "}"
}

// readAll reads attributes that do not fail.
func (x *attrRun) readAll(a attrs.Attrs) map[string]string {
	m := map[string]string{}
	ctx := sctx.Background()
	ks, err := a.Keys(ctx)
	if err != nil {
		x.e.Fail("cannot be read", "A01", "reading attributes that nobody disturbs failed with %v", err)
	}
	for _, k := range ks {
		if _, ok := m[k]; ok {
			x.e.Fail("key listed twice", "A01", "attributes list the key %q twice", k)
		}
		v, err := a.Get(ctx, k)
		if err != nil {
			x.e.Fail("cannot be read", "A01", "reading attributes that nobody disturbs failed with %v", err)
		}
		m[k] = v
	}
	return m
}

func (x *attrRun) check(id, what string, got, want map[string]string) {
	if !sameMap(got, want) {
		x.e.Fail("attributes differ", "A01", "%s: %s succeeded with %s, the source has %s", id, what, showMap(got), showMap(want))
	}
}

// judge compares the outcome of an operation with what its sources did.
func (x *attrRun) judge(id string, err error, ctx context.Context, ss ...*source) bool {
	for _, s := range ss {
		if s.sets > 0 {
			x.e.Fail("source changed", "A01", "%s changed its source", id)
		}
	}
	for _, s := range ss {
		if s.err == nil {
			continue
		}
		if err == nil {
			if s.how == 3 {
				continue // a retry may succeed: what counts is the result
			}
			x.e.Fail("failure not reported", "A01", "%s succeeded although reading %s failed with %v", id, s.id, s.err)
			return false
		}
		if errors.Is(err, s.err) {
			return false
		}
	}
	if err != nil {
		if ctx != nil && ctx.Err() != nil && errors.Is(err, ctx.Err()) {
			return false
		}
		x.e.Fail("foreign error", "A01", "%s failed with %v, which no source returned", id, err)
		return false
	}
	return true
}

func (x *attrRun) source(id string, set, failAt, how int, ctxID any, cancel func()) *source {
	return &source{x: x, id: id, inner: x.base[set%len(x.base)], failAt: failAt, how: how, ctxID: ctxID, cancel: cancel}
}

func (x *attrRun) do(who int, op Op) {
	e := x.e
	x.n++
	id := fmt.Sprintf("%s%d", op.K, x.n)
	ctx, cancel := sctx.WithCancel(sctx.WithValue(sctx.Background(), ctxKey{}, id))
	defer cancel()
	x1, x2 := [2]int{}, [2]int{}
	if len(op.X) == 4 {
		x1, x2 = [2]int{op.X[0], op.X[1]}, [2]int{op.X[2], op.X[3]}
	}
	set1, set2 := op.A%len(x.base), op.B%len(x.base)
	want, want2 := x.want[set1], x.want[set2]
	takesCtx := op.K == "copy" || op.K == "map" || op.K == "sub"
	var cid any
	var cf func()
	if takesCtx {
		cid, cf = id, cancel
	}
	s := x.source(id+"'s source", set1, x1[0], x1[1], cid, cf)
	s2 := x.source(id+"'s second source", set2, x2[0], x2[1], cid, cf)
	if takesCtx && op.D == 5 && x1[0] > 0 { // cancelled from the start; the sources do not care
		s.failAt, s2.failAt = 0, 0
		rt.Fault("context cancelled")
		cancel()
	}
	e.Logf("client%d: %s set %d %s, failing read %d (%d), again %d", who, id, set1, showMap(want), s.failAt, s.how, op.I)
	in := [2]*input{{s: s, want: want}, {s: s2, want: want2}}
	if op.I%2 == 1 { // nothing fails, but it is what is there to be used
		for _, i := range in {
			i.plain = memattrs.NewFromMap(i.want)
		}
	}
	run, fin := x.operation(who, op, in)
	if run == nil {
		return
	}
	run(ctx, id)
	if op.I > 0 {
		for _, i := range in {
			i.s.failAt, i.s.err, i.s.calls = 0, nil, 0
			if op.I > 1 {
				i.change()
			}
		}
		if takesCtx {
			ctx = sctx.WithValue(sctx.Background(), ctxKey{}, id)
		}
		run(ctx, id+" again")
	}
	if fin != nil {
		fin(id)
	}
}

// input is attributes an operation reads.
type input struct {
	s     *source
	plain *memattrs.Attrs // instead of s
	want  map[string]string
}

func (i *input) attrs() attrs.Attrs {
	if i.plain != nil {
		return i.plain
	}
	return i.s
}

// all reads them undisturbed.
func (i *input) all(x *attrRun) map[string]string {
	if i.plain != nil {
		return x.readAll(i.plain)
	}
	return x.readAll(i.s.inner)
}

// change makes them other attributes.
func (i *input) change() {
	m := map[string]string{}
	var ks []string
	for k, v := range i.want {
		m[k] = v
		ks = append(ks, k)
	}
	sort.Strings(ks)
	m["name"], m["new"] = "changed meanwhile", "1"
	if i.plain != nil {
		i.plain.Set(sctx.Background(), "name", m["name"])
		i.plain.Set(sctx.Background(), "new", m["new"])
	} else {
		if len(ks) > 0 {
			delete(m, ks[len(ks)/2])
		}
		i.s.inner = memattrs.NewFromMap(m)
	}
	i.want = m
}

// operation is what op does: run does it, also repeatedly, fin comes last.
func (x *attrRun) operation(who int, op Op, in [2]*input) (run func(ctx context.Context, id string), fin func(id string)) {
	e, s := x.e, in[0].s
	done := func(id string, err error) {
		e.Logf("client%d: %s: %v", who, id, err)
		e.Observe(fmt.Sprint(id, err))
	}
	dotCheck := func(id, what string, as []encoding.Attribute) {
		m := map[string]string{}
		for _, a := range as {
			if _, ok := m[a.Key]; ok {
				e.Fail("attributes differ", "A01", "%s: %s lists %q twice", id, what, a.Key)
			}
			m[a.Key] = a.Value
		}
		done(id, nil)
		if s.err != nil && len(as) == 0 {
			return // left out altogether
		}
		x.check(id, what, m, in[0].want)
	}
	switch op.K {
	case "copy":
		return func(ctx context.Context, id string) {
			c, err := memattrs.NewCopyFrom(ctx, in[0].attrs())
			done(id, err)
			if !x.judge(id, err, ctx, s) {
				return
			}
			if c == nil {
				e.Fail("attributes differ", "A01", "%s succeeded without a copy", id)
				return
			}
			x.check(id, "copying", x.readAll(c), in[0].want)
			c.Set(ctx, "name", "changed")
			c.Set(ctx, "added", "1")
			x.check(id, "after changing the copy, the source", in[0].all(x), in[0].want)
		}, nil
	case "map":
		return func(ctx context.Context, id string) {
			m, err := attrs.ToMap(ctx, in[0].attrs())
			done(id, err)
			if !x.judge(id, err, ctx, s) {
				return
			}
			x.check(id, "ToMap", m, in[0].want)
			n := memattrs.NewFromMap(m)
			for i, from := range []map[string]string{nil, {}} {
				none := memattrs.NewFromMap(from)
				if p := catch(func() { none.Set(ctx, "added", "1") }); p != nil {
					e.Fail("cannot set attributes", "A01", "setting an attribute of what NewFromMap made of an empty map (%d) panicked: %v", i, p)
					return
				}
				x.check(id, "NewFromMap of nothing and Set", x.readAll(none), map[string]string{"added": "1"})
			}
			m["name"], m["added"] = "changed", "1"
			x.check(id, "NewFromMap", x.readAll(n), in[0].want)
			x.check(id, "after changing the map, the source", in[0].all(x), in[0].want)
		}, nil
	case "dot":
		return func(_ context.Context, id string) {
			if in[0].plain != nil && op.D < 4 {
				dotCheck(id, "Attributes", in[0].plain.Attributes())
				return
			}
			if op.D < 2 {
				if a, ok := s.inner.(*memattrs.Attrs); ok {
					dotCheck(id, "Attributes", a.Attributes())
					return
				}
			}
			dotCheck(id, "DOTAttrs", memattrs.DOTAttrs(in[0].attrs()))
		}, nil
	case "node":
		n, err := memgraph.NewNode(1, &anEntity{"a"}, graph.WithAttrs(in[0].attrs()))
		if err != nil {
			e.Fail("cannot create", "A01", "NewNode failed with %v", err)
			return nil, nil
		}
		return func(_ context.Context, id string) { dotCheck(id, "the node's Attributes", n.Attributes()) }, nil
	case "edge":
		a, _ := memgraph.NewNode(1, &anEntity{"a"})
		b, _ := memgraph.NewNode(2, &anEntity{"b"})
		ed, err := memgraph.NewEdge(a, b, graph.WithAttrs(in[0].attrs()))
		if err != nil {
			e.Fail("cannot create", "A01", "NewEdge failed with %v", err)
			return nil, nil
		}
		return func(_ context.Context, id string) { dotCheck(id, "the edge's Attributes", ed.Attributes()) }, nil
	case "sub":
		return x.subgraph(op, in)
	}
	return x.marshal(fmt.Sprintf("%s%d", op.K, x.n), op, in, done), nil
}

func (x *attrRun) subgraph(op Op, in [2]*input) (run func(ctx context.Context, id string), fin func(id string)) {
	e, s, s2 := x.e, in[0].s, in[1].s
	bg := sctx.Background()
	var g interface {
		memgraph.Graph
		graph.SubGrapher
	}
	var err error
	if op.C%2 == 0 {
		g, err = memgraph.NewWDG()
	} else {
		g, err = memgraph.NewWUG()
	}
	if err != nil {
		return nil, nil
	}
	for _, u := range []string{"a", "b", "c"} {
		n, err := g.NewNode(bg, &anEntity{u})
		if err == nil {
			err = g.AddNode(bg, n)
		}
		if err != nil {
			e.Fail("cannot create", "A01", "%v", err)
			return nil, nil
		}
	}
	uid := memuid.NewFromString
	ends := [][2]string{{"a", "b"}, {"b", "c"}}
	for i, l := range ends {
		if _, err := g.Link(bg, uid(l[0]), uid(l[1]), graph.WithAttrs(in[i].attrs())); err != nil {
			e.Fail("cannot create", "A01", "%v", err)
			return nil, nil
		}
	}
	run = func(ctx context.Context, id string) {
		sg, err := g.SubGraph(ctx, uid("a"), 3)
		e.Logf("%s: %v", id, err)
		e.Observe(fmt.Sprint(id, err))
		if !x.judge(id, err, ctx, s, s2) {
			return
		}
		if sg == nil {
			e.Fail("attributes differ", "A01", "%s succeeded without a graph", id)
			return
		}
		for i, l := range ends {
			ed, err := sg.Edge(bg, uid(l[0]), uid(l[1]))
			if err != nil {
				e.Fail("attributes differ", "A01", "%s: the subgraph has no edge %v: %v", id, l, err)
				return
			}
			if _, same := ed.Attrs().(*source); same {
				e.Fail("attributes shared", "A01", "%s: the subgraph shares the attributes of edge %v", id, l)
				return
			}
			x.check(id, fmt.Sprintf("copying edge %v", l), x.readAll(ed.Attrs()), in[i].want)
			ed.Attrs().Set(bg, "name", "changed")
			x.check(id, "after changing the copy, the source", in[i].all(x), in[i].want)
		}
	}
	// everything is usable afterwards
	fin = func(id string) {
		s.failAt, s2.failAt, s.err, s2.err, s.ctxID, s2.ctxID = 0, 0, nil, nil, nil, nil
		if n, err := g.Nodes(bg); err != nil || len(n) != 3 {
			e.Fail("graph unusable", "A01", "%s: afterwards the graph has %d nodes (%v), want 3", id, len(n), err)
		}
		if _, err := g.SubGraph(bg, uid("a"), 3); err != nil {
			e.Fail("graph unusable", "A01", "%s: taking the subgraph again fails with %v", id, err)
		}
		if err := g.RemoveNode(bg, uid("c")); err != nil {
			e.Fail("graph unusable", "A01", "%s: removing a node afterwards fails with %v", id, err)
		}
	}
	return run, fin
}

type wire struct {
	UID        string            `json:"uid"`
	Type       string            `json:"type"`
	Attrs      map[string]string `json:"attrs"`
	Name       string            `json:"name"`
	Namespace  string            `json:"namespace"`
	Group      string            `json:"group"`
	Version    string            `json:"version"`
	Kind       string            `json:"kind"`
	Namespaced bool              `json:"namespaced"`
	From       string            `json:"from"`
	To         string            `json:"to"`
	Resource   *wire             `json:"resource"`
}

func (x *attrRun) marshal(id string, op Op, in [2]*input, done func(string, error)) func(context.Context, string) {
	e, s, s2 := x.e, in[0].s, in[1].s
	nm := names[(op.C+x.e.p("row"))%len(names)]
	eo := []entity.Option{entity.WithUID(memuid.NewFromString(id)), entity.WithAttrs(in[0].attrs())}
	res, err := entity.NewResource("rt", nm[0], nm[1], "v", "k", op.D%2 == 0, entity.WithUID(memuid.NewFromString(id+"r")), entity.WithAttrs(in[1].attrs()))
	if err != nil {
		e.Fail("cannot create", "A01", "%v", err)
		return nil
	}
	var v interface{}
	w := wire{UID: id, Type: "t" + nm[1]}
	kind, isJSON := op.K, op.K[0] == 'j'
	if isJSON {
		kind = kind[1:]
	}
	srcs := []*source{s}
	switch kind {
	case "entity":
		v, err = entity.New(w.Type, eo...)
	case "resource":
		w.Name, w.Group, w.Version, w.Kind, w.Namespaced = "n", nm[1], "v", "k", op.D%2 == 1
		v, err = entity.NewResource(w.Type, w.Name, w.Group, w.Version, w.Kind, w.Namespaced, eo...)
	case "object":
		w.Name, w.Namespace = nm[1], nm[2]
		var r space.Resource
		if op.D > 0 {
			r = res
			srcs = append(srcs, s2)
			w.Resource = &wire{UID: id + "r", Type: "rt", Name: nm[0], Group: nm[1], Version: "v", Kind: "k", Namespaced: op.D%2 == 0}
		}
		v, err = entity.NewObject(w.Type, w.Name, w.Namespace, r, eo...)
	case "link":
		w.Type, w.From, w.To = "", nm[0], nm[1]
		v, err = link.New(memuid.NewFromString(w.From), memuid.NewFromString(w.To), link.WithUID(memuid.NewFromString(id)), link.WithAttrs(in[0].attrs()))
	}
	if err != nil {
		e.Fail("cannot create", "A01", "%v", err)
		return nil
	}
	return func(_ context.Context, id string) {
		w.Attrs = in[0].want
		if w.Resource != nil {
			w.Resource.Attrs = in[1].want
		}
		if !isJSON {
			var got wire
			var err error
			fill := func(en marshal.Entity) { got.UID, got.Type, got.Attrs = en.UID, en.Type, en.Attrs }
			resw := func(r *marshal.Resource) wire {
				return wire{UID: r.UID, Type: r.Type, Attrs: r.Attrs, Name: r.Name, Group: r.Group, Version: r.Version, Kind: r.Kind, Namespaced: r.Namespaced}
			}
			switch kind {
			case "entity":
				var r *marshal.Entity
				if r, err = marshal.EntityFromSpace(v.(space.Entity)); err == nil {
					fill(*r)
				}
			case "resource":
				var r *marshal.Resource
				if r, err = marshal.ResourceFromSpace(v.(space.Resource)); err == nil {
					got = resw(r)
				}
			case "object":
				var r *marshal.Object
				if r, err = marshal.ObjectFromSpace(v.(space.Object)); err == nil {
					fill(r.Entity)
					got.Name, got.Namespace = r.Name, r.Namespace
					if r.Resource != nil {
						n := resw(r.Resource)
						got.Resource = &n
					}
				}
			case "link":
				var r *marshal.Link
				if r, err = marshal.LinkFromSpace(v.(space.Link)); err == nil {
					got.UID, got.From, got.To, got.Attrs = r.UID, r.From, r.To, r.Attrs
				}
			}
			done(id, err)
			if x.judge(id, err, nil, srcs...) {
				x.compare(id, got, w)
			}
			return
		}
		b, err := x.jm.Marshal(v)
		done(id, err)
		if !x.judge(id, err, nil, srcs...) {
			if err != nil && len(b) > 0 {
				e.Fail("bytes with an error", "A01", "%s failed with %v and returned %q", id, err, b)
			}
			// a failed marshaling can be repeated
			for _, s := range srcs {
				s.failAt, s.err = 0, nil
			}
			if b, err = x.jm.Marshal(v); err != nil {
				e.Fail("cannot be repeated", "A01", "%s fails with %v when repeated without failing sources", id, err)
				return
			}
		}
		var got wire
		if err := json.Unmarshal(b, &got); err != nil {
			e.Fail("bad encoding", "A01", "%s: %q is not JSON: %v", id, b, err)
			return
		}
		x.compare(id, got, w)
		// and back
		var back wire
		fill := func(en space.Entity) {
			back.UID, back.Type, back.Attrs = en.UID().String(), en.Type(), x.readAll(en.Attrs())
		}
		resw := func(r space.Resource) wire {
			return wire{UID: r.UID().String(), Type: r.Type(), Attrs: x.readAll(r.Attrs()), Name: r.Name(), Group: r.Group(), Version: r.Version(), Kind: r.Kind(), Namespaced: r.Namespaced()}
		}
		switch kind {
		case "entity":
			var o space.Entity
			if err = x.jm.Unmarshal(b, &o); err == nil {
				fill(o)
			}
		case "resource":
			var o space.Resource
			if err = x.jm.Unmarshal(b, &o); err == nil {
				back = resw(o)
			}
		case "object":
			var o space.Object
			if err = x.jm.Unmarshal(b, &o); err == nil {
				fill(o)
				back.Name, back.Namespace = o.Name(), o.Namespace()
				if o.Resource() != nil {
					n := resw(o.Resource())
					back.Resource = &n
				}
			}
		case "link":
			var o space.Link
			if err = x.jm.Unmarshal(b, &o); err == nil {
				back.UID, back.From, back.To, back.Attrs = o.UID().String(), o.From().String(), o.To().String(), x.readAll(o.Attrs())
			}
		}
		if err != nil {
			e.Fail("bad encoding", "A01", "%s: %q cannot be unmarshaled: %v", id, b, err)
			return
		}
		x.compare(id+" unmarshaled", back, w)
	}
}

func (x *attrRun) compare(id string, got, want wire) {
	x.check(id, "marshaling", got.Attrs, want.Attrs)
	if (got.Resource == nil) != (want.Resource == nil) {
		x.e.Fail("resource differs", "A01", "%s: has a resource: %v, want %v", id, got.Resource != nil, want.Resource != nil)
		return
	}
	if want.Resource != nil {
		x.compare(id+"'s resource", *got.Resource, *want.Resource)
	}
	g, w := got, want
	g.Attrs, w.Attrs, g.Resource, w.Resource = nil, nil, nil, nil
	if fmt.Sprint(g) != fmt.Sprint(w) {
		x.e.Fail("contents differ", "A01", "%s: got %+v, want %+v", id, g, w)
	}
}

func runAttrs(e *Env) {
	x := &attrRun{e: e, slow: 4}
	jm, err := jsonmarshal.NewMarshaler()
	if err != nil {
		e.Fail("cannot create", "A01", "%v", err)
		return
	}
	x.jm = jm
	table := append([][2]string{}, attrTable...)
	for i := 0; i < e.p("many"); i++ {
		table = append(table, [2]string{fmt.Sprintf("key%d", i), fmt.Sprintf("value %d", i*7)})
	}
	if e.p("words") > 0 {
		for i := range dict.Strings {
			table = append(table, [2]string{word(i), word(i*3 + e.p("words"))})
		}
	}
	for i := 0; i < e.p("sets"); i++ {
		m := map[string]string{}
		for j, kv := range table {
			if k := j - len(attrTable) - e.p("many"); k >= 0 && (k+i+e.p(fmt.Sprint("set", i)))%(1+e.p("words")) > 0 {
				continue
			}
			if j >= len(attrTable) || e.p(fmt.Sprint("set", i))&(1<<j) != 0 {
				m[kv[0]] = kv[1]
			}
		}
		a := memattrs.New()
		for _, kv := range table {
			if v, ok := m[kv[0]]; ok {
				a.Set(sctx.Background(), kv[0], v)
			}
		}
		x.want = append(x.want, m)
		x.base = append(x.base, a)
	}
	e.RunTasks(x.do)
	for i, a := range x.base {
		x.check(fmt.Sprint("set ", i), "at the end, reading", x.readAll(a), x.want[i])
	}
}
