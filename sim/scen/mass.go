package scen

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"slices"
	"sort"
	"strconv"
	"strings"

	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/cache"
	memcache "github.com/milosgajdos/netscrape/pkg/cache/memory"
	"github.com/milosgajdos/netscrape/pkg/graph"
	memgraph "github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/plan"
	simpleplan "github.com/milosgajdos/netscrape/pkg/plan/simple"
	"github.com/milosgajdos/netscrape/pkg/space/link"
	"github.com/milosgajdos/netscrape/pkg/store"
	memstore "github.com/milosgajdos/netscrape/pkg/store/memory"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	memuid "github.com/milosgajdos/netscrape/pkg/uuid/memory"

	gdot "gonum.org/v1/gonum/graph/formats/dot"
	"gonum.org/v1/gonum/graph/formats/dot/ast"

	"verif.local/sim/sctx"
)

// The large workloads: hundreds of identifiers, thousands of edges, long lists.
// Each task has identifiers of its own and links only those, so that the result
// of every operation follows from the operations of that task alone, whatever
// the schedule, and can be compared with a model exactly.

func init() {
	type m = map[string][]string
	register(&Scenario{Name: "massgraph", Rare: 12, Props: []string{"G01", "G02", "G03", "G05", "G06"},
		Presets: m{"G01": {"base"}, "G02": {"base"}, "G03": {"sub"}, "G05": {"dot"}, "G06": {"base"}},
		Gen:     genMass, Run: runMass})
	register(&Scenario{Name: "massstore", Rare: 12, Props: []string{"S01", "S02", "S03", "G06"},
		Presets: m{"S01": {"base"}, "S02": {"bulk"}, "S03": {"base"}},
		Gen:     genMass, Run: runMass})
	register(&Scenario{Name: "masscache", Rare: 12, Props: []string{"C01", "C02"},
		Presets: m{"C01": {"base"}, "C02": {"base"}},
		Gen:     genMass, Run: runMassCache})
	register(&Scenario{Name: "massplan", Rare: 12, Props: []string{"P01"},
		Presets: m{"P01": {"base"}},
		Gen:     genMass, Run: runMassPlan})
}

func genMass(r *rand.Rand, p *Plan) {
	p.MaxSteps = 20_000_000
	p.MemYield = 0
	p.P["n"] = size(r, []int{20, 40, 66, 100, 130, 180, 260}[r.Intn(7)], 10, 1200)
	p.P["style"] = r.Intn(5)
	p.P["word"] = r.Intn(1000)
	near := 0 // how many are at the edge of what the code may handle differently
	if n := p.P["n"]; !slices.Contains([]int{20, 40, 66, 100, 130, 180, 260}, n) {
		near = n
	}
	p.P["dir"] = r.Intn(2)
	tasks := []int{1, 1, 1, 2, 3}[r.Intn(5)]
	if p.Preset == "dot" {
		p.P["n"] = 17 + r.Intn(80)
	}
	var w map[string]int
	switch p.Scenario {
	case "massgraph":
		w = map[string]int{"fill": 6, "ahead": 1, "hold": 2, "star": 4, "chain": 4, "mesh": 2, "tree": 2, "remove": 3, "unlink": 3, "again": 3, "read": 3, "sub": 2, "list": 1}
		if p.Preset == "sub" {
			w["sub"] = 12
		}
		if p.Preset == "dot" {
			w["dot"] = 4
		}
	case "massstore":
		w = map[string]int{"fill": 4, "star": 3, "chain": 3, "mesh": 1, "tree": 1, "remove": 2, "unlink": 2, "again": 3, "read": 3, "list": 1, "badd": 3, "bget": 3, "bdelete": 2, "blink": 3, "bunlink": 2}
		if p.Preset == "bulk" {
			for _, k := range []string{"badd", "bget", "bdelete", "blink", "bunlink"} {
				w[k] *= 4
			}
		}
	case "masscache":
		w = map[string]int{"star": 4, "chain": 3, "mesh": 2, "tree": 1, "remove": 2, "again": 2, "read": 4, "bput": 4, "bget": 4, "bdelete": 2}
		if tasks == 1 {
			w["clear"] = 1
		}
	case "massplan":
		w = map[string]int{"fill": 6, "remove": 4, "again": 2, "read": 3, "list": 4}
	}
	for i := 0; i < tasks; i++ {
		t := Task{Ops: []Op{{K: "fill", A: 0, B: p.P["n"] / (1 + r.Intn(2)), C: r.Intn(8), D: r.Intn(1000)}}}
		if p.Scenario == "masscache" {
			t.Ops = nil
		}
		hot := r.Perm(1000)[:1+r.Intn(3)]
		for j, m := 0, 2+r.Intn(14/tasks); j < m; j++ {
			a := r.Intn(1000)
			if r.Intn(2) == 0 { // the identifiers operations tend to meet at
				a = hot[r.Intn(len(hot))]
			}
			if near > 0 && r.Intn(2) == 0 {
				t.Ops = append(t.Ops, Op{K: pick(r, w), A: a, B: max(1, near-3+r.Intn(6)), C: r.Intn(8), D: r.Intn(1000)})
				continue
			}
			t.Ops = append(t.Ops, Op{K: pick(r, w), A: a, B: size(r, 1+r.Intn([]int{3, 20, 70, 300}[r.Intn(4)]), 1, 1200), C: r.Intn(8), D: r.Intn(1000)})
		}
		p.Tasks = append(p.Tasks, t)
	}
}

// depths of subgraphs
var depths = []int{1, 2, 3, 5, 9, 40, 1000, 0}

// massName is the text of identifier u.
func massName(style, u int) string {
	switch style {
	case 1:
		return fmt.Sprintf("6ba7b810-9dad-11d1-%04x-00c04fd430c8", u)
	case 2:
		return strings.Repeat("x", u%40) + "/" + strconv.Itoa(u/40)
	case 3:
		return strconv.Itoa(u)
	case 4:
		return fmt.Sprintf("object %c/%d", 'A'+u%26, u)
	}
	return fmt.Sprint("n", u)
}

// massIDs is what the large workloads have in common.
type massIDs struct {
	e     *Env
	n     int
	name  []string
	idx   map[string]int
	own   [][]int
	of    []int // task owning an identifier
	types types
}

func newMassIDs(e *Env) massIDs {
	x := massIDs{e: e, types: types{from: e.p("word")}, n: e.p("n"), idx: map[string]int{}}
	k := len(e.P.Tasks)
	if k == 0 {
		k = 1
	}
	x.own = make([][]int, k)
	for u := 0; u < x.n; u++ {
		x.name = append(x.name, massName(e.p("style"), u))
		x.idx[x.name[u]] = u
		x.own[u%k] = append(x.own[u%k], u)
		x.of = append(x.of, u%k)
	}
	return x
}

func (x *massIDs) uid(u int) uuid.UID { return memuid.NewFromString(x.name[u]) }

// seq draws B of the task's identifiers: in order, in strides or at random.
func (x *massIDs) seq(who int, op Op) []int {
	own := x.own[who]
	n := min(op.B, 2*len(own))
	out := make([]int, 0, n)
	r := rand.New(rand.NewSource(int64(op.A*1000 + op.D)))
	stride := []int{1, 1, 7, 0}[op.C%4]
	perm := r.Perm(len(own))
	for i := 0; i < n; i++ {
		switch {
		case i == 0 && op.D%2 == 0:
			out = append(out, own[op.A%len(own)])
		case stride > 0:
			out = append(out, own[(op.A+i*stride)%len(own)])
		case op.D%3 == 0:
			out = append(out, own[r.Intn(len(own))])
		default:
			out = append(out, own[perm[i%len(own)]])
		}
	}
	return out
}

// pairs are the links an operation makes.
func (x *massIDs) pairs(who int, op Op) (out [][2]int) {
	us := x.seq(who, op)
	hub := x.own[who][op.A%len(x.own[who])]
	switch op.K {
	case "star":
		for i, u := range us {
			if u == hub && op.D%5 != 0 {
				continue
			}
			if op.D%3 == 1 || op.D%3 == 2 && i%2 == 1 {
				out = append(out, [2]int{u, hub})
			} else {
				out = append(out, [2]int{hub, u})
			}
		}
	case "chain":
		for i := 1; i < len(us); i++ {
			out = append(out, [2]int{us[i-1], us[i]})
		}
	case "tree":
		for i := 1; i < len(us); i++ {
			out = append(out, [2]int{us[(i-1)/2], us[i]})
		}
	case "mesh":
		if len(us) > 18 {
			us = us[:18]
		}
		for _, u := range us {
			for _, v := range us {
				if u != v {
					out = append(out, [2]int{u, v})
				}
			}
		}
	}
	return out
}

// ---- graph and store ----

type massVer struct {
	u     int
	attrs map[string]string
}

type massTag struct {
	w     float64
	attrs map[string]string
}

type mass struct {
	massIDs
	g    memgraph.Graph
	st   storeAPI
	dir  bool
	node []int
	edge map[[2]int]int

	vers  []massVer
	tags  []massTag
	basic string
	bulk  string
	about string // contents
	over  bool
}

func runMass(e *Env) {
	if len(e.P.Tasks) == 0 {
		return
	}
	x := &mass{massIDs: newMassIDs(e), dir: e.p("dir") == 1, edge: map[[2]int]int{}, vers: make([]massVer, 1), tags: make([]massTag, 1)}
	x.node = make([]int, x.n)
	g, err := newTestGraph(x.dir)
	if err != nil {
		e.Fail("new graph", "G01", "%v", err)
		return
	}
	x.g = g
	x.basic, x.bulk, x.about = "G01 G02", "G01 G02", "G01 G02"
	if e.P.Scenario == "massstore" {
		x.basic, x.bulk, x.about = "S01", "S01 S02", "S03"
		s, err := memstore.NewStore(memstore.WithGraph(g))
		if err != nil {
			e.Fail("new store", "S01", "%v", err)
			return
		}
		x.st = s
	}
	e.RunTasks(func(who int, op Op) {
		if !x.over {
			x.do(who, op)
		}
	})
	if !x.over {
		x.final()
	}
	e.count("large workloads compared")
}

func (x *mass) fail(kind, props, f string, a ...any) {
	x.over = true
	x.e.Fail(kind, props, f, a...)
}

func (x *mass) key(u, v int) [2]int {
	if !x.dir && u > v {
		return [2]int{v, u}
	}
	return [2]int{u, v}
}

func (x *mass) ver(u, with int) (int, *gent) {
	v := len(x.vers)
	m := map[string]string{"v": strconv.Itoa(v)}
	if with&4 != 0 {
		for i := 0; i < v%14; i++ {
			m[fmt.Sprint("k", i)] = fmt.Sprint(v, ":", i)
		}
	}
	x.vers = append(x.vers, massVer{u, m})
	return v, &gent{uid: x.uid(u), typ: x.types.name(v), a: memattrs.NewFromMap(copyMap(m))}
}

// put adds one node; it is known whether that has to work.
func (x *mass) put(ctx context.Context, u, with int, upsert bool) {
	ver, ent := x.ver(u, with)
	had := x.node[u] != 0
	if x.st != nil {
		var os []store.Option
		if upsert {
			os = append(os, store.WithUpsert())
		}
		if err := x.st.Add(ctx, ent, os...); !x.putError(u, had, upsert, err) {
			return
		}
	} else {
		n := x.make(ctx, ent, ver, upsert)
		if n == nil {
			return
		}
		var os []graph.Option
		if upsert {
			os = append(os, graph.WithUpsert())
		}
		if err := x.addNode(ctx, n, os...); !x.putError(u, had, upsert, err) {
			return
		}
	}
	x.node[u] = ver
}

func (x *mass) addNode(ctx context.Context, n graph.Node, os ...graph.Option) (err error) {
	if p := catch(func() { err = x.g.AddNode(ctx, n, os...) }); p != nil {
		x.fail("AddNode panics", "G01 G02 G06", "adding a node of %q obtained from the graph panicked: %v", n.UID(), p)
		return fmt.Errorf("panic: %v", p)
	}
	return err
}

func (x *mass) make(ctx context.Context, ent *gent, ver int, upsert bool) graph.Node {
	os := []graph.Option{graph.WithAttrs(ent.a)}
	if upsert {
		os = append(os, graph.WithUpsert())
	}
	u := x.vers[ver].u
	want := ver
	if x.node[u] != 0 && !upsert {
		want = x.node[u]
	}
	n, err := x.g.NewNode(ctx, ent, os...)
	if err != nil {
		x.fail("unexpected error", x.basic, "NewNode(%q) failed with %v", x.name[u], err)
		return nil
	}
	if got := x.readNode("NewNode", n); got != want && !x.over {
		x.fail("wrong node", x.basic, "NewNode(%q) returned version %d instead of %d", x.name[u], got, want)
		return nil
	}
	return n
}

// putError judges the error of an addition and tells whether it took place.
func (x *mass) putError(u int, had, upsert bool, err error) bool {
	if had && !upsert {
		if !errors.Is(err, graph.ErrDuplicateNode) && !errors.Is(err, store.ErrAlreadyExists) {
			x.fail("duplicate accepted", x.basic, "adding %q, which is there, without upsert returned %v", x.name[u], err)
		}
		return false
	}
	if err != nil {
		x.fail("unexpected error", x.basic, "adding %q failed with %v", x.name[u], err)
		return false
	}
	return true
}

func (x *mass) drop(u int) {
	x.node[u] = 0
	for _, v := range x.own[x.of[u]] {
		delete(x.edge, [2]int{u, v})
		delete(x.edge, [2]int{v, u})
	}
}

// linked judges the error of linking and updates the model.
func (x *mass) linked(u, v, tag int, err error, props string) bool {
	switch {
	case x.node[u] == 0 || x.node[v] == 0:
		if !errors.Is(err, graph.ErrNodeNotFound) && !errors.Is(err, store.ErrEntityNotFound) {
			x.fail("link without node", props, "linking %q to %q, one of which is not there, returned %v", x.name[u], x.name[v], err)
		}
		return false
	case u == v:
		if err == nil {
			x.fail("self link", props, "linking %q to itself succeeded", x.name[u])
		}
		return false
	case err != nil:
		x.fail("unexpected error", props, "linking %q to %q failed with %v", x.name[u], x.name[v], err)
		return false
	}
	if x.edge[x.key(u, v)] == 0 {
		x.edge[x.key(u, v)] = tag
	}
	return true
}

func (x *mass) newTag(with int) int {
	t := len(x.tags)
	g := massTag{}
	if with&1 != 0 || x.st != nil {
		g.attrs = map[string]string{"e": strconv.Itoa(t)}
	}
	if with&2 != 0 && x.st == nil {
		g.w = float64(t) + 0.5
	}
	x.tags = append(x.tags, g)
	return t
}

func (x *mass) link(ctx context.Context, u, v, with int) {
	tag := x.newTag(with)
	if x.st != nil {
		err := x.st.Link(ctx, x.uid(u), x.uid(v), store.WithAttrs(memattrs.NewFromMap(copyMap(x.tags[tag].attrs))))
		x.linked(u, v, tag, err, x.basic)
		return
	}
	var os []graph.Option
	if x.tags[tag].attrs != nil {
		os = append(os, graph.WithAttrs(memattrs.NewFromMap(copyMap(x.tags[tag].attrs))))
	}
	if x.tags[tag].w != 0 {
		os = append(os, graph.WithWeight(x.tags[tag].w))
	}
	e, err := x.g.Link(ctx, x.uid(u), x.uid(v), os...)
	if x.linked(u, v, tag, err, x.basic) {
		x.readEdge("Link", u, v, e, x.basic)
	}
}

func (x *mass) unlink(ctx context.Context, u, v int) {
	var err error
	if x.st != nil {
		err = x.st.Unlink(ctx, x.uid(u), x.uid(v))
	} else {
		err = x.g.Unlink(ctx, x.uid(u), x.uid(v))
	}
	if err != nil {
		x.fail("unexpected error", x.basic, "unlinking %q and %q failed with %v", x.name[u], x.name[v], err)
	}
	delete(x.edge, x.key(u, v))
}

func (x *mass) uids(us []int) []uuid.UID {
	var out []uuid.UID
	for _, u := range us {
		out = append(out, x.uid(u))
	}
	return out
}

func (x *mass) do(who int, op Op) {
	ctx := sctx.WithValue(sctx.Background(), ctxKey{}, "mass")
	x.e.Logf("client%d: %v", who, op)
	us := x.seq(who, op)
	upsert := op.D%2 == 1
	switch op.K {
	case "fill":
		for _, u := range us {
			if x.over {
				return
			}
			x.put(ctx, u, op.C, upsert)
		}
	case "again": // a hub is replaced
		u := x.own[who][op.A%len(x.own[who])]
		for i := 0; i < 1+op.B%4; i++ {
			x.put(ctx, u, op.C, true)
		}
		x.from(ctx, u)
	case "ahead": // all are made before the first is added
		var ns []graph.Node
		var vs []int
		for _, u := range us {
			if x.over {
				return
			}
			v, ent := x.ver(u, op.C)
			if n := x.make(ctx, ent, v, true); n != nil {
				ns, vs = append(ns, n), append(vs, v)
			}
		}
		for i, n := range ns {
			u := x.vers[vs[i]].u
			var os []graph.Option
			if upsert {
				os = append(os, graph.WithUpsert())
			}
			had := x.node[u] != 0
			if x.putError(u, had, upsert, x.addNode(ctx, n, os...)) {
				x.node[u] = vs[i]
			}
			if x.over {
				return
			}
		}
	case "hold": // one is made long before it is added
		if len(x.own[who]) < 2 {
			return
		}
		u, w := x.own[who][op.A%len(x.own[who])], x.own[who][(op.A+1)%len(x.own[who])]
		held, ent := x.ver(u, op.C)
		h := x.make(ctx, ent, held, true)
		if h == nil {
			return
		}
		if op.D%2 == 0 { // and has been there
			if x.putError(u, x.node[u] != 0, true, x.addNode(ctx, h, graph.WithUpsert())) {
				x.node[u] = held
			}
			if err := x.g.RemoveNode(ctx, x.uid(u)); err != nil {
				x.fail("unexpected error", x.basic, "removing %q failed with %v", x.name[u], err)
			}
			x.drop(u)
		}
		var last graph.Node
		v := 0
		for i := []int{1, 3, 70, 270, 600, 1100, 2100, 5000}[op.D/2%8]; i > 0 && !x.over; i-- {
			v, ent = x.ver(w, 0)
			last = x.make(ctx, ent, v, true)
			if op.D%3 == 0 && !x.over {
				if x.putError(w, x.node[w] != 0, true, x.addNode(ctx, last, graph.WithUpsert())) {
					x.node[w] = v
				}
			}
		}
		if x.over {
			return
		}
		if x.putError(w, x.node[w] != 0, true, x.addNode(ctx, last, graph.WithUpsert())) {
			x.node[w] = v
		}
		if x.putError(u, x.node[u] != 0, true, x.addNode(ctx, h, graph.WithUpsert())) {
			x.node[u] = held
		}
	case "star", "chain", "tree", "mesh":
		for _, p := range x.pairs(who, op) {
			if x.over {
				return
			}
			x.link(ctx, p[0], p[1], op.C)
		}
	case "unlink":
		o := op
		o.K = []string{"star", "chain", "tree", "mesh"}[op.D%4]
		for _, p := range x.pairs(who, o) {
			x.unlink(ctx, p[0], p[1])
		}
	case "remove":
		for i, u := range us {
			if i > 40 && i%3 > 0 {
				continue
			}
			var err error
			if x.st != nil {
				err = x.st.Delete(ctx, x.uid(u))
			} else {
				err = x.g.RemoveNode(ctx, x.uid(u))
			}
			if err != nil {
				x.fail("unexpected error", x.basic, "removing %q failed with %v", x.name[u], err)
			}
			x.drop(u)
		}
	case "badd":
		var ents []store.Entity
		var vs []int
		for _, u := range us {
			v, ent := x.ver(u, op.C)
			ents, vs = append(ents, ent), append(vs, v)
		}
		var os []store.Option
		if upsert {
			os = append(os, store.WithUpsert())
		}
		err := x.st.BulkAdd(ctx, ents, os...)
		for i, u := range us {
			if x.node[u] != 0 && !upsert {
				if !errors.Is(err, store.ErrAlreadyExists) {
					x.fail("duplicate accepted", x.bulk, "BulkAdd of %d entities of which %q was there returned %v", len(us), x.name[u], err)
				}
				return
			}
			x.node[u] = vs[i]
		}
		if err != nil {
			x.fail("unexpected error", x.bulk, "BulkAdd of %d entities failed with %v", len(us), err)
		}
	case "bget":
		got, err := x.st.BulkGet(ctx, x.uids(us))
		for _, u := range us {
			if x.node[u] == 0 {
				if !errors.Is(err, store.ErrEntityNotFound) || len(got) > 0 {
					x.fail("missing entity not reported", x.bulk, "BulkGet of %d entities, of which %q is not there, returned %d and %v", len(us), x.name[u], len(got), err)
				}
				return
			}
		}
		if err != nil || len(got) != len(us) {
			x.fail("bulk get length", x.bulk, "BulkGet of %d entities returned %d and %v", len(us), len(got), err)
			return
		}
		for i, u := range us {
			if v := x.readNode("BulkGet", got[i]); v != x.node[u] {
				x.fail("bulk get position", x.bulk, "BulkGet returned version %d in position %d instead of version %d of %q", v, i, x.node[u], x.name[u])
				return
			}
		}
	case "bdelete":
		if err := x.st.BulkDelete(ctx, x.uids(us)); err != nil {
			x.fail("unexpected error", x.bulk, "BulkDelete of %d entities failed with %v", len(us), err)
		}
		for _, u := range us {
			x.drop(u)
		}
	case "blink":
		hub := x.own[who][op.A%len(x.own[who])]
		tag := x.newTag(1)
		err := x.st.BulkLink(ctx, x.uid(hub), x.uids(us), store.WithAttrs(memattrs.NewFromMap(copyMap(x.tags[tag].attrs))))
		for _, u := range us {
			if x.node[hub] == 0 || x.node[u] == 0 || hub == u {
				x.linked(hub, u, tag, err, x.bulk)
				return
			}
			x.linked(hub, u, tag, nil, x.bulk)
		}
		if err != nil {
			x.fail("unexpected error", x.bulk, "BulkLink of %d entities failed with %v", len(us), err)
		}
	case "bunlink":
		hub := x.own[who][op.A%len(x.own[who])]
		if err := x.st.BulkUnlink(ctx, x.uid(hub), x.uids(us)); err != nil {
			x.fail("unexpected error", x.bulk, "BulkUnlink of %d entities failed with %v", len(us), err)
		}
		for _, u := range us {
			delete(x.edge, x.key(hub, u))
		}
	case "read":
		for i, u := range us {
			if x.over || i > 30 {
				return
			}
			x.get(ctx, u)
			x.from(ctx, u)
			x.edgeOf(ctx, u, us[(i+1)%len(us)])
			x.edgeOf(ctx, us[(i+7)%len(us)], u)
		}
	case "list":
		x.lists(ctx, who)
	case "sub":
		x.sub(ctx, x.own[who][op.A%len(x.own[who])], depths[op.D%len(depths)])
	case "dot":
		x.dot(who)
	}
}

// readNode tells which version a node is; 0 if none.
func (x *mass) readNode(where string, n uided) int {
	if n == nil {
		x.fail("no node", x.basic, "%s returned nothing", where)
		return 0
	}
	t, ok := n.(typed)
	if !ok {
		x.fail("node without type", x.basic, "%s returned a node of type %T", where, n)
		return 0
	}
	v, ok := x.types.version(t.Type())
	if !ok || v < 1 || v >= len(x.vers) || n.UID().String() != x.name[x.vers[v].u] {
		x.fail("foreign node", x.basic, "%s returned a node of type %q with identifier %q", where, t.Type(), n.UID())
		return 0
	}
	if m, err := attrMap(n.Attrs()); err != nil || !sameMap(m, x.vers[v].attrs) {
		x.fail("wrong node attributes", x.about, "%s returned %q with the attributes %v (%v) instead of %v", where, n.UID(), m, err, x.vers[v].attrs)
		return 0
	}
	return v
}

func (x *mass) readEdge(where string, u, v int, e graph.Edge, props string) {
	if e == nil {
		x.fail("no edge", props, "%s(%q, %q) returned nothing", where, x.name[u], x.name[v])
		return
	}
	f, err1 := e.FromNode()
	t, err2 := e.ToNode()
	if err1 != nil || err2 != nil {
		x.fail("edge without node", props, "%s: %v %v", where, err1, err2)
		return
	}
	fv, tv := x.readNode(where, f), x.readNode(where, t)
	if x.over {
		return
	}
	a, b := x.vers[fv].u, x.vers[tv].u
	if x.key(a, b) != x.key(u, v) || x.node[a] != fv || x.node[b] != tv {
		x.fail("edge of other nodes", props, "%s(%q, %q) returned an edge from version %d of %q to version %d of %q; the graph has versions %d and %d", where, x.name[u], x.name[v], fv, x.name[a], tv, x.name[b], x.node[u], x.node[v])
		return
	}
	x.edgeData(where, u, v, e, props)
}

func (x *mass) edgeData(where string, u, v int, e graph.Edge, props string) {
	tag := x.edge[x.key(u, v)]
	if tag == 0 {
		x.fail("edge nobody made", props, "%s: there is an edge from %q to %q", where, x.name[u], x.name[v])
		return
	}
	m, err := attrMap(e.Attrs())
	if err != nil || !sameMap(m, x.tags[tag].attrs) || e.Weight() != x.tags[tag].w {
		p := x.about
		if strings.Contains(props, "G03") {
			p = props
		}
		x.fail("altered edge", p, "%s: the edge from %q to %q has weight %v and attributes %v (%v) instead of %v and %v", where, x.name[u], x.name[v], e.Weight(), m, err, x.tags[tag].w, x.tags[tag].attrs)
	}
}

func (x *mass) get(ctx context.Context, u int) {
	var n uided
	var err error
	if x.st != nil {
		n, err = x.st.Get(ctx, x.uid(u))
	} else {
		n, err = x.g.Node(ctx, x.uid(u))
	}
	if x.node[u] == 0 {
		if !errors.Is(err, graph.ErrNodeNotFound) && !errors.Is(err, store.ErrEntityNotFound) {
			x.fail("absent node found", x.basic, "%q is not there, looking for it returned %v", x.name[u], err)
		}
		return
	}
	if err != nil {
		x.fail("node not found", x.basic, "%q is there, looking for it returned %v", x.name[u], err)
		return
	}
	if v := x.readNode("lookup", n); v != x.node[u] {
		x.fail("wrong node", x.basic, "looking for %q finds version %d instead of %d", x.name[u], v, x.node[u])
	}
}

func (x *mass) peers(u int) []int {
	var out []int
	for _, v := range x.own[x.of[u]] {
		if v != u && x.edge[x.key(u, v)] != 0 {
			out = append(out, v)
		}
	}
	return out
}

func (x *mass) from(ctx context.Context, u int) {
	ns, err := x.g.From(ctx, x.uid(u))
	if err != nil {
		x.fail("unexpected error", x.basic, "From(%q) failed with %v", x.name[u], err)
		return
	}
	x.sameNodes("From("+x.name[u]+")", ns, x.peers(u), -1, x.basic)
}

// sameNodes compares a list of nodes with what it has to be; only those of one
// task, unless that is -1.
func (x *mass) sameNodes(where string, ns []graph.Node, want []int, who int, props string) {
	seen := map[int]bool{}
	num := map[int64]bool{}
	for _, n := range ns {
		u, ok := x.idx[n.UID().String()]
		if !ok {
			x.fail("foreign node", props, "%s lists %q", where, n.UID())
			return
		}
		if id, is := n.(numbered); is {
			if num[id.ID()] {
				x.fail("numeric identifier collision", "G02", "%s lists the number %d twice", where, id.ID())
				return
			}
			num[id.ID()] = true
		}
		if who >= 0 && x.of[u] != who {
			continue
		}
		if seen[u] {
			x.fail("node listed twice", props, "%s lists %q twice", where, n.UID())
			return
		}
		seen[u] = true
		if v := x.readNode(where, n); v != x.node[u] {
			x.fail("wrong node", props, "%s lists version %d of %q instead of %d", where, v, x.name[u], x.node[u])
			return
		}
	}
	for _, u := range want {
		if !seen[u] {
			x.fail("node not listed", props, "%s lists %d nodes and lacks %q", where, len(ns), x.name[u])
			return
		}
		delete(seen, u)
	}
	if len(seen) > 0 {
		var us []int
		for u := range seen {
			us = append(us, u)
		}
		sort.Ints(us)
		x.fail("node listed needlessly", props, "%s lists %q", where, x.name[us[0]])
	}
}

func (x *mass) edgeOf(ctx context.Context, u, v int) {
	if u == v {
		return
	}
	e, err := x.g.Edge(ctx, x.uid(u), x.uid(v))
	switch {
	case x.node[u] == 0 || x.node[v] == 0:
		if !errors.Is(err, graph.ErrNodeNotFound) {
			x.fail("edge without node", x.basic, "Edge(%q, %q), one of which is not there, returned %v", x.name[u], x.name[v], err)
		}
	case x.edge[x.key(u, v)] == 0:
		if !errors.Is(err, graph.ErrEdgeNotExist) {
			x.fail("edge nobody made", x.basic, "Edge(%q, %q), which are not linked, returned %v", x.name[u], x.name[v], err)
		}
	case err != nil:
		x.fail("edge not found", x.basic, "Edge(%q, %q), which are linked, returned %v", x.name[u], x.name[v], err)
	default:
		x.readEdge("Edge", u, v, e, x.basic)
	}
}

// lists compares the lists of all nodes and edges, as far as they are the task's.
func (x *mass) lists(ctx context.Context, who int) {
	ns, err := x.g.Nodes(ctx)
	if err != nil {
		x.fail("unexpected error", x.basic, "Nodes failed with %v", err)
		return
	}
	var want []int
	for u := range x.node {
		if x.node[u] != 0 && (who < 0 || x.of[u] == who) {
			want = append(want, u)
		}
	}
	x.sameNodes("Nodes", ns, want, who, x.basic)
	if x.over {
		return
	}
	es, err := x.g.Edges(ctx)
	if err != nil {
		x.fail("unexpected error", x.basic, "Edges failed with %v", err)
		return
	}
	x.sameEdges("Edges", es, who)
}

func (x *mass) sameEdges(where string, es []graph.Edge, who int) {
	seen := map[[2]int]bool{}
	for _, e := range es {
		f, err1 := e.FromNode()
		t, err2 := e.ToNode()
		if err1 != nil || err2 != nil {
			x.fail("edge without node", x.basic, "%s: %v %v", where, err1, err2)
			return
		}
		u, ok1 := x.idx[f.UID().String()]
		v, ok2 := x.idx[t.UID().String()]
		if !ok1 || !ok2 {
			x.fail("foreign edge", x.basic, "%s lists an edge from %q to %q", where, f.UID(), t.UID())
			return
		}
		if who >= 0 && x.of[u] != who {
			continue
		}
		if seen[x.key(u, v)] {
			x.fail("edge listed twice", x.basic, "%s lists the edge from %q to %q twice", where, f.UID(), t.UID())
			return
		}
		seen[x.key(u, v)] = true
		x.readEdge(where, u, v, e, x.basic)
		if x.over {
			return
		}
	}
	n := 0
	for k := range x.edge {
		if who < 0 || x.of[k[0]] == who {
			n++
		}
	}
	if n != len(seen) {
		x.fail("edge not listed", x.basic, "%s lists %d edges instead of %d", where, len(seen), n)
	}
}

// sub compares a subgraph with what can be reached.
func (x *mass) sub(ctx context.Context, root, depth int) {
	where := fmt.Sprintf("SubGraph(%s, %d)", x.name[root], depth)
	sg, err := x.g.SubGraph(ctx, x.uid(root), depth)
	if x.node[root] == 0 {
		if !errors.Is(err, graph.ErrNodeNotFound) {
			x.fail("subgraph without root", "G03", "%s, which is not there, returned %v", where, err)
		}
		return
	}
	if err != nil {
		x.fail("subgraph fails", "G03", "%s failed with %v", where, err)
		return
	}
	dist := map[int]int{root: 0}
	q := []int{root}
	for len(q) > 0 {
		u := q[0]
		q = q[1:]
		if dist[u] == depth {
			continue
		}
		for _, v := range x.peers(u) {
			if _, ok := dist[v]; !ok {
				dist[v] = dist[u] + 1
				q = append(q, v)
			}
		}
	}
	var want []int
	for u := range dist {
		want = append(want, u)
	}
	sort.Ints(want)
	ns, err := sg.Nodes(ctx)
	if err != nil {
		x.fail("unexpected error", "G03", "%s Nodes failed with %v", where, err)
		return
	}
	x.sameNodes(where, ns, want, -1, "G03")
	n := 0
	for _, u := range want {
		for _, v := range x.peers(u) {
			if _, in := dist[v]; !in || x.over {
				continue
			}
			n++
			if n > 600 && n%9 > 0 {
				continue
			}
			e, err := sg.Edge(ctx, x.uid(u), x.uid(v))
			if err != nil {
				x.fail("subgraph edge missing", "G03", "%s has %d nodes and lacks the edge from %q to %q: %v", where, len(want), x.name[u], x.name[v], err)
				return
			}
			f, err1 := e.FromNode()
			t, err2 := e.ToNode()
			if err1 != nil || err2 != nil || f.UID().String() != x.name[u] || t.UID().String() != x.name[v] {
				x.fail("subgraph edge of other nodes", "G03", "%s: the edge from %q to %q joins others", where, x.name[u], x.name[v])
				return
			}
			x.edgeData(where, u, v, e, "G03")
		}
	}
	if er, is := sg.(graph.Edger); is && !x.over {
		es, err := er.Edges(ctx)
		if err != nil || len(es) != n {
			x.fail("subgraph edge list", "G03", "%s lists %d edges instead of %d (%v)", where, len(es), n, err)
		}
	}
	x.e.Observe(fmt.Sprint(where, len(want), n))
}

// dot compares a DOT document with the graph, as far as it is the task's.
func (x *mass) dot(who int) {
	d, ok := x.g.(doter)
	if !ok {
		return
	}
	doc, err := d.DOT()
	if err != nil {
		x.fail("DOT fails", "G05", "DOT failed with %v", err)
		return
	}
	file, err := gdot.ParseString(doc)
	if err != nil || len(file.Graphs) != 1 || file.Graphs[0].Directed != x.dir {
		x.fail("malformed DOT", "G05", "the document cannot be parsed (%v):\n%.2000s", err, doc)
		return
	}
	unq := func(s string) string {
		if strings.HasPrefix(s, `"`) {
			if t, err := strconv.Unquote(s); err == nil {
				return t
			}
		}
		return s
	}
	has := func(as []*ast.Attr, want map[string]string) string {
		got := map[string]string{}
		for _, a := range as {
			got[unq(a.Key)] = unq(a.Val)
		}
		for k, v := range want {
			if w, ok := got[k]; !ok || w != v {
				return fmt.Sprintf("%q is %q instead of %q (of %d attributes)", k, w, v, len(want))
			}
		}
		return ""
	}
	nodes, edges := map[int]bool{}, map[[2]int]bool{}
	for _, st := range file.Graphs[0].Stmts {
		switch st := st.(type) {
		case *ast.NodeStmt:
			u, ok := x.idx[unq(st.Node.ID)]
			if !ok || nodes[u] {
				x.fail("foreign node", "G05", "the document lists %s (known: %v, listed before: %v)", st.Node.ID, ok, nodes[u])
				return
			}
			nodes[u] = true
			if who >= 0 && x.of[u] != who {
				continue
			}
			if x.node[u] == 0 {
				x.fail("absent node in DOT", "G05 G02", "the document lists %s", st.Node.ID)
				return
			}
			if d := has(st.Attrs, x.vers[x.node[u]].attrs); d != "" {
				x.fail("node attributes in DOT", "G05", "node %s: %s", st.Node.ID, d)
				return
			}
		case *ast.EdgeStmt:
			to, ok1 := st.To.Vertex.(*ast.Node)
			from, ok2 := st.From.(*ast.Node)
			if !ok1 || !ok2 {
				x.fail("malformed DOT", "G05", "unexpected edge %v", st)
				return
			}
			u, ok1 := x.idx[unq(from.ID)]
			v, ok2 := x.idx[unq(to.ID)]
			if !ok1 || !ok2 || edges[x.key(u, v)] {
				x.fail("foreign edge", "G05", "the document lists the edge %v", st)
				return
			}
			edges[x.key(u, v)] = true
			if who >= 0 && x.of[u] != who {
				continue
			}
			tag := x.edge[x.key(u, v)]
			if tag == 0 {
				x.fail("edge nobody made", "G05 G02", "the document lists the edge %v", st)
				return
			}
			if d := has(st.Attrs, x.tags[tag].attrs); d != "" {
				x.fail("edge attributes in DOT", "G05", "edge %v: %s", st, d)
				return
			}
		}
	}
	for u := range x.node {
		if x.node[u] != 0 && (who < 0 || x.of[u] == who) && !nodes[u] {
			x.fail("node missing in DOT", "G05 G02", "the document lacks %q; it lists %d nodes", x.name[u], len(nodes))
			return
		}
	}
	n, m := 0, 0
	for k := range x.edge {
		if who < 0 || x.of[k[0]] == who {
			n++
		}
	}
	for k := range edges {
		if who < 0 || x.of[k[0]] == who {
			m++
		}
	}
	if n != m {
		x.fail("edge missing in DOT", "G05 G02", "the document lists %d edges instead of %d", m, n)
	}
	x.e.Observe(fmt.Sprint("dot", n, m))
}

// final compares everything.
func (x *mass) final() {
	ctx := sctx.Background()
	x.lists(ctx, -1)
	for u := 0; u < x.n && !x.over; u++ {
		x.get(ctx, u)
		x.from(ctx, u)
		for i := 1; i < 4 && !x.over; i++ {
			x.edgeOf(ctx, u, (u*i+i*7)%x.n)
		}
	}
	if x.over {
		return
	}
	if x.e.P.Scenario == "massgraph" {
		x.sub(ctx, x.own[0][0], x.n)
		x.sub(ctx, x.n-1, 2)
	}
	if !x.over && x.e.P.Preset == "dot" {
		x.dot(-1)
	}
	x.e.Observe(fmt.Sprint(x.node, len(x.edge)))
}

// ---- cache ----

type massCache struct {
	massIDs
	c    cache.BulkLinks
	link map[[2]int]int
	ends [][2]int
	over bool
}

func (x *massCache) fail(kind, props, f string, a ...any) {
	x.over = true
	x.e.Fail(kind, props, f, a...)
}

func runMassCache(e *Env) {
	if len(e.P.Tasks) == 0 {
		return
	}
	x := &massCache{massIDs: newMassIDs(e), link: map[[2]int]int{}, ends: make([][2]int, 1)}
	c, err := memcache.NewLinks()
	if err != nil {
		e.Fail("new cache", "C01", "%v", err)
		return
	}
	x.c = c
	e.RunTasks(func(who int, op Op) {
		if !x.over {
			x.do(who, op)
		}
	})
	for u := 0; u < x.n && !x.over; u++ {
		for _, from := range []bool{true, false} {
			x.row(sctx.Background(), u, from)
		}
	}
	e.Observe(fmt.Sprint(len(x.link), len(x.ends)))
	e.count("large workloads compared")
}

func (x *massCache) newLink(u, v int) (cache.Link, int) {
	k := len(x.ends)
	x.ends = append(x.ends, [2]int{u, v})
	l, err := link.New(x.uid(u), x.uid(v), link.WithAttrs(memattrs.NewFromMap(map[string]string{"link": strconv.Itoa(k)})))
	if err != nil {
		x.fail("cannot create", "C01", "link.New failed with %v", err)
	}
	return l, k
}

func (x *massCache) note(k int, upsert bool) {
	p := x.ends[k]
	if x.link[p] == 0 || upsert {
		x.link[p] = k
	}
}

func (x *massCache) drop(u int) {
	for _, v := range x.own[x.of[u]] {
		delete(x.link, [2]int{u, v})
		delete(x.link, [2]int{v, u})
	}
}

func (x *massCache) do(who int, op Op) {
	ctx := sctx.Background()
	x.e.Logf("client%d: %v", who, op)
	us := x.seq(who, op)
	upsert := op.D%2 == 1
	var os []cache.Option
	if upsert {
		os = append(os, cache.WithUpsert())
	}
	bad := func(err error) {
		if err != nil {
			x.fail("unexpected error", "C01", "%v failed with %v", op, err)
		}
	}
	switch op.K {
	case "star", "chain", "tree", "mesh":
		for _, p := range x.pairs(who, op) {
			l, k := x.newLink(p[0], p[1])
			bad(x.c.Put(ctx, l, os...))
			x.note(k, upsert)
		}
	case "again":
		u := us[0]
		for i, v := range us {
			if i == 0 && op.D%5 != 0 {
				continue
			}
			l, k := x.newLink(v, u)
			bad(x.c.Put(ctx, l, os...))
			x.note(k, upsert)
		}
		x.row(ctx, u, false)
	case "bput":
		o := op
		o.K = []string{"star", "chain", "tree", "mesh"}[op.D%4]
		var ls []cache.Link
		var ks []int
		for _, p := range x.pairs(who, o) {
			l, k := x.newLink(p[0], p[1])
			ls, ks = append(ls, l), append(ks, k)
		}
		bad(x.c.BulkPut(ctx, ls, os...))
		for _, k := range ks {
			x.note(k, upsert)
		}
	case "remove":
		for i, u := range us {
			if i < 30 {
				bad(x.c.Delete(ctx, x.uid(u)))
				x.drop(u)
			}
		}
	case "bdelete":
		var uids []uuid.UID
		for _, u := range us {
			uids = append(uids, x.uid(u))
		}
		bad(x.c.BulkDelete(ctx, uids))
		for _, u := range us {
			x.drop(u)
		}
	case "clear":
		bad(x.c.Clear(ctx))
		x.link = map[[2]int]int{}
	case "read":
		for i, u := range us {
			if i < 40 && !x.over {
				x.row(ctx, u, (i+op.D)%2 == 0)
			}
		}
	case "bget":
		var uids []uuid.UID
		for _, u := range us {
			uids = append(uids, x.uid(u))
		}
		get, from := x.c.BulkGetFrom, op.D%2 == 0
		if !from {
			get = x.c.BulkGetTo
		}
		m, err := get(ctx, uids)
		bad(err)
		byText := map[string][]cache.Link{}
		for id, ls := range m {
			t := id.String()
			if old, ok := byText[t]; !ok || len(old) == 0 {
				byText[t] = ls
			}
		}
		for _, u := range us {
			if !x.over {
				x.same(fmt.Sprintf("bulk reading of %d identifiers", len(us)), u, from, byText[x.name[u]])
			}
		}
		var texts []string
		for t := range byText {
			texts = append(texts, t)
		}
		sort.Strings(texts)
		for _, t := range texts {
			if u, ok := x.idx[t]; !ok || x.of[u] != who {
				x.fail("unrequested identifier", "C01 C02", "%v returned links of %q", op, t)
				return
			}
		}
	}
}

func (x *massCache) row(ctx context.Context, u int, from bool) {
	var ls []cache.Link
	var err error
	if from {
		ls, err = x.c.GetFrom(ctx, x.uid(u))
	} else {
		ls, err = x.c.GetTo(ctx, x.uid(u))
	}
	if err != nil {
		x.fail("unexpected error", "C01", "reading %q failed with %v", x.name[u], err)
		return
	}
	x.same("reading", u, from, ls)
}

func (x *massCache) same(where string, u int, from bool, ls []cache.Link) {
	seen := map[int]bool{}
	for _, l := range ls {
		if l == nil {
			x.fail("no link", "C01 C02", "%s: %q has a nil link", where, x.name[u])
			return
		}
		m, err := attrMap(l.Attrs())
		k, _ := strconv.Atoi(m["link"])
		if err != nil || k < 1 || k >= len(x.ends) || seen[k] {
			x.fail("foreign link", "C01", "%s: %q has the link %q (number %d)", where, x.name[u], l.UID(), k)
			return
		}
		seen[k] = true
		p := x.ends[k]
		if x.link[p] != k || from && p[0] != u || !from && p[1] != u || l.From().String() != x.name[p[0]] || l.To().String() != x.name[p[1]] {
			x.fail("wrong link", "C01 C02", "%s: %q (from: %v) has link %d from %q to %q, the cache should hold link %d for that pair", where, x.name[u], from, k, l.From(), l.To(), x.link[p])
			return
		}
	}
	n := 0
	for _, v := range x.own[x.of[u]] {
		if from && x.link[[2]int{u, v}] != 0 || !from && x.link[[2]int{v, u}] != 0 {
			n++
		}
	}
	if n != len(seen) {
		x.fail("links missing", "C01 C02", "%s: %q (from: %v) has %d links instead of %d", where, x.name[u], from, len(seen), n)
	}
}

// ---- plan ----

func runMassPlan(e *Env) {
	if len(e.P.Tasks) == 0 {
		return
	}
	x := newMassIDs(e)
	p, err := simpleplan.NewSimple()
	if err != nil {
		e.Fail("new plan", "P01", "%v", err)
		return
	}
	have := make([]int, x.n)
	vers := 0
	over := false
	fail := func(kind, f string, a ...any) {
		over = true
		e.Fail(kind, "P01", f, a...)
	}
	same := func(where string, u int, r plan.Resource) {
		if r == nil || r.UID().String() != x.name[u] || r.Version() != planText(have[u], 0) || r.Group() != planText(have[u], 1) || r.Kind() != planText(have[u], 2) {
			fail("wrong resource", "%s: %q is not version %d but %v", where, x.name[u], have[u], r)
		}
	}
	all := func(who int) {
		rs, err := p.GetAll(sctx.Background())
		if err != nil {
			fail("unexpected error", "GetAll failed with %v", err)
			return
		}
		seen := map[int]bool{}
		for _, r := range rs {
			if r == nil {
				fail("no resource", "GetAll lists a nil resource")
				return
			}
			u, ok := x.idx[r.UID().String()]
			if !ok || seen[u] {
				fail("foreign resource", "GetAll lists %q (known: %v, listed before: %v)", r.UID(), ok, seen[u])
				return
			}
			seen[u] = true
			if who < 0 || x.of[u] == who {
				same("GetAll", u, r)
			}
		}
		for u := range have {
			if have[u] != 0 && (who < 0 || x.of[u] == who) && !seen[u] {
				fail("resource not listed", "GetAll lists %d resources and lacks %q", len(rs), x.name[u])
				return
			}
		}
	}
	get := func(u int) {
		r, err := p.Get(sctx.Background(), x.uid(u))
		switch {
		case have[u] == 0:
			if !errors.Is(err, plan.ErrResourceNotFound) {
				fail("absent resource found", "Get(%q), which is not there, returned %v", x.name[u], err)
			}
		case err != nil:
			fail("resource not found", "Get(%q) failed with %v", x.name[u], err)
		default:
			same("Get", u, r)
		}
	}
	e.RunTasks(func(who int, op Op) {
		e.Logf("client%d: %v", who, op)
		ctx := sctx.Background()
		for _, u := range x.seq(who, op) {
			if over {
				return
			}
			switch op.K {
			case "fill", "again":
				vers++
				v := vers
				if err := p.Add(ctx, &pres{x.uid(u), v}); err != nil {
					fail("unexpected error", "Add failed with %v", err)
				}
				have[u] = v
			case "remove":
				if err := p.Delete(ctx, x.uid(u)); err != nil {
					fail("unexpected error", "Delete failed with %v", err)
				}
				have[u] = 0
			case "read":
				get(u)
			}
		}
		if op.K == "list" && !over {
			all(who)
		}
	})
	for u := 0; u < x.n && !over; u++ {
		get(u)
	}
	if !over {
		all(-1)
	}
	e.Observe(fmt.Sprint(have))
	e.count("large workloads compared")
}
