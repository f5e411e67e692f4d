package scen

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/graph"
	memgraph "github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	memuid "github.com/milosgajdos/netscrape/pkg/uuid/memory"

	gdot "gonum.org/v1/gonum/graph/formats/dot"
	"gonum.org/v1/gonum/graph/formats/dot/ast"

	"verif.local/sim/dict"
	"verif.local/sim/sctx"
	rt "verif.local/sim/simrt"
)

const (
	maxN = 16
	anon = 1 // tag of all edges that cannot be told apart
)

// gstate is the reference model of a graph: the version of each present node and
// the tag of each edge (undirected: only from the smaller index to the larger).
type gstate struct {
	node [maxN]int32
	edge [maxN][maxN]int32
}

func (s *gstate) drop(u int) {
	s.node[u] = 0
	for v := 0; v < maxN; v++ {
		s.edge[u][v] = 0
		s.edge[v][u] = 0
	}
}

func (s gstate) String() string {
	var b strings.Builder
	for u, v := range s.node {
		if v != 0 {
			fmt.Fprintf(&b, " n%d=v%d", u, v)
		}
	}
	for u := range s.edge {
		for v, t := range s.edge[u] {
			if t != 0 {
				fmt.Fprintf(&b, " n%d-n%d=e%d", u, v, t)
			}
		}
	}
	return "{" + strings.TrimSpace(b.String()) + "}"
}

// gver is one version of a node.
type gver struct {
	u     int
	attrs map[string]string // nil: unspecified
	of    int               // the version whose entity it is, 0: its own
	again bool              // other versions have its entity
	raw   bool              // made by hand: its number may be given again once it is gone
	num   int64             // the number it was made with, if others were made with it as well
}

// gtag is one edge the workload made.
type gtag struct {
	w     float64
	attrs map[string]string // nil: none
}

type gop struct {
	linOp[gstate]
	base, sub, dot bool
}

// gx drives a graph (or a store) and records what it does.
type gx struct {
	e     *Env
	props string // properties contradicted by a wrong answer of a basic operation
	dir   bool
	n     int
	name  []string
	vers  []gver
	tags  []gtag
	hist  []gop
	done  bool
	quiet []linOp[gstate] // not used for judging, kept for the report
	snaps []*gsnap
	ids   map[int64]int // numeric identifiers of nodes obtained for each entity
	flaky bool
	nctx  int  // operations with a cancelled context
	vague bool // one of them said so: what it did is not known
	byW   map[float64]int
	who   string
	fixed []uuid.UID // shared identifier objects
	last  [maxN]int  // latest version with an entity of its own
	ents  map[int]*gent
	// some attribute object was handed in for several nodes or edges
	shared bool
	alone  bool           // nothing else runs
	dots   map[string]int // DOT identifiers given to nodes
	init   gstate
	types  types
}

// names are the identifier texts of a run.
var names = [][]string{
	{"n0", "n1", "n2", "n3", "n4", "n5"},
	{"a", "A", "a ", "aa", "b", "ab"},
	{"node", "0", "-1", `q"x`, "a/b:c", "d->e"},
	{"", "é ü", "x\ny", "{", "graph", "<b"},
	{"3f1b", "1e5", "_", "a.b", "0x", "a-b"},
	{"abcdefgh", "abcdefgh1", "abcdefgh-2", "abcdefg", "ABCDEFGH", strings.Repeat("abcdefgh1", 30)},
	{"6ba7b810-9dad-11d1-80b4-00c04fd430c8", "6ba7b810-9dad-11d1-80b4-00c04fd430c9", "6ba7b811-9dad-11d1-80b4-00c04fd430c8", "6BA7B810-9DAD-11D1-80B4-00C04FD430C8", "6ba7b810", "6ba7b8109dad11d180b400c04fd430c8"},
}

// plainRows is the number of rows of names that are not about separators.
const plainRows = 7

// rowOf picks a row of names.
func rowOf(r *rand.Rand) int {
	if r.Intn(3) == 0 {
		return plainRows + r.Intn(len(names)-plainRows)
	}
	return r.Intn(plainRows)
}

// pickNames picks the identifiers of a run.
func pickNames(r *rand.Rand, p *Plan) {
	k := rowOf(r)
	p.P["names"] = k
	if k >= plainRows && p.P["n"] < 4 && r.Intn(4) > 0 {
		p.P["n"] = 4 + r.Intn(3) // the first four make a pair that collides
	}
}

func init() {
	// identifiers that collide in pairs once they are joined
	for _, sep := range []string{"", "-", "/", ":", "|", ",", "_", " ", ".", "->", "--", "::", ";", "#", "=", "+", "\t"} {
		names = append(names, []string{"a", "b", "a" + sep + "b", "b" + sep + "a", "a" + sep + "a", "b" + sep + "b"})
	}
	// pairs of the same hash: FNV-1a, CRC-32, FNV-1; 31-polynomial, Adler-32, FNV-1a
	names = append(names,
		[]string{"costarring", "liquid", "plumless", "buckeroo", "creamwove", "quists"},
		[]string{"Aa", "BB", "fccf", "dfce", "yiijsv", "ktodoe"})
	for i := range names {
		names[i] = row(names[i])
	}
}

// row completes a row of names.
func row(t []string) []string {
	t = append([]string{}, t...)
	for len(t) < maxN {
		t = append(t, fmt.Sprintf("%s~%d", t[len(t)%6], len(t)/6))
	}
	return t
}

func newGx(e *Env, props string) *gx {
	x := &gx{e: e, props: props, dir: e.p("dir") == 1, n: e.p("n"), name: names[e.p("names")], vers: make([]gver, 2), tags: make([]gtag, 2), ids: map[int64]int{}, byW: map[float64]int{}}
	x.types.from = e.p("word")
	for _, t := range x.name {
		x.fixed = append(x.fixed, memuid.NewFromString(t))
	}
	return x
}

// uid makes a fresh identifier object: identifiers are compared by their text.
func (x *gx) uid(u int) uuid.UID {
	if x.e.p("ids") == 0 {
		return memuid.NewFromString(x.name[u])
	}
	return x.fixed[u]
}

func (x *gx) find(text string) int {
	for i := 0; i < x.n; i++ {
		if x.name[i] == text {
			return i
		}
	}
	if u, ok := x.dots[text]; ok {
		return u
	}
	return -1
}

// gent is the entity the workload stores.
type gent struct {
	uid  uuid.UID
	typ  string
	a    attrs.Attrs
	made rt.VC // orders its making before its use by others
}

func (g *gent) UID() uuid.UID      { return g.uid }
func (g *gent) Type() string       { return g.typ }
func (g *gent) Attrs() attrs.Attrs { return g.a }

// newVer makes an entity: its type names the version.
func (x *gx) newVer(u int, attrs map[string]string) (int, *gent) {
	v := len(x.vers)
	x.vers = append(x.vers, gver{u: u, attrs: attrs})
	e := &gent{uid: x.uid(u), typ: x.types.name(v), a: memattrs.NewFromMap(map[string]string{"own": strconv.Itoa(v)})}
	if x.ents == nil {
		x.ents = map[int]*gent{}
	}
	x.last[u], x.ents[v] = v, e
	rt.Release(&e.made)
	return v, e
}

// verAgain makes a version of the latest entity of u that is to have other
// attributes, which must name it: their "v".
func (x *gx) verAgain(u int) (int, *gent) {
	b := x.last[u]
	if b == 0 || x.vers[b].raw {
		return x.newVer(u, nil)
	}
	v := len(x.vers)
	x.vers = append(x.vers, gver{u: u, of: b})
	x.vers[b].again = true
	rt.Acquire(&x.ents[b].made)
	return v, x.ents[b]
}

func (x *gx) newTag(weight, a bool) int {
	t := len(x.tags)
	g := gtag{}
	if a {
		g.attrs = map[string]string{"e": strconv.Itoa(t)}
		for i := 0; i < t%5*(t%3); i++ {
			g.attrs[fmt.Sprint("k ", i)] = fmt.Sprintf("%d\"%d", t, i)
		}
		if t%4 == 3 {
			g.attrs[word(x.types.from+t*3)] = word(t)
		}
	}
	if weight {
		g.w = []float64{float64(t), -float64(t), float64(t) + 0.5, float64(t) * 1e-9, float64(t) * 1e300}[t%5]
		if i := t / 5; t%5 == 4 && i < len(dict.Floats) {
			if _, dup := x.byW[dict.Floats[i]]; !dup && dict.Floats[i] != 0 {
				g.w = dict.Floats[i]
			}
		}
		x.byW[g.w] = t
	}
	x.tags = append(x.tags, g)
	return t
}

func attrMap(a attrs.Attrs) (map[string]string, error) {
	m := map[string]string{}
	if a == nil {
		return nil, errors.New("no attributes")
	}
	if f, ok := a.(*flakyAttrs); ok {
		a = f.a
	}
	keys, err := a.Keys(sctx.Background())
	if err != nil {
		return nil, err
	}
	for _, k := range keys {
		if m[k], err = a.Get(sctx.Background(), k); err != nil {
			return nil, err
		}
	}
	return m, nil
}

func sameMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

func copyMap(m map[string]string) map[string]string {
	c := map[string]string{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

type typed interface{ Type() string }
type numbered interface{ ID() int64 }
type uided interface {
	UID() uuid.UID
	Attrs() attrs.Attrs
}

// ver reads which version a node is; 0 if it is none of them.
func (x *gx) ver(where string, n uided) int32 {
	t, ok := n.(typed)
	if !ok {
		x.e.Fail("node without type", x.props, "%s returned a node of type %T, which does not have the type of its entity", where, n)
		return 0
	}
	typ := t.Type()
	v, ok := x.types.version(typ)
	if !ok || v <= 1 || v >= len(x.vers) {
		x.e.Fail("foreign node", x.props, "%s returned a node of type %q, which was never added", where, typ)
		return 0
	}
	if x.vers[v].again {
		m, err := attrMap(n.Attrs())
		if w, is := m["v"]; is && err == nil {
			k, _ := strconv.Atoi(w)
			if k != v && (k <= 1 || k >= len(x.vers) || x.vers[k].of != v) {
				x.e.Fail("wrong node attributes", x.attrProps(), "%s returned %q version %d with attributes %v, which it never had", where, n.UID(), v, m)
				return 0
			}
			v = k
		}
	}
	if got := n.UID().String(); got != x.name[x.vers[v].u] {
		x.e.Fail("wrong identifier", x.props, "%s returned version %d with identifier %q instead of %q", where, v, got, x.name[x.vers[v].u])
		return 0
	}
	if want := x.vers[v].attrs; want != nil {
		got, err := attrMap(n.Attrs())
		if err != nil || !sameMap(got, want) {
			x.e.Fail("wrong node attributes", x.attrProps(), "%s returned %q version %d with attributes %v (%v) instead of %v", where, n.UID(), v, got, err, want)
			return 0
		}
	}
	return int32(v)
}

func (x *gx) attrProps() string {
	if strings.Contains(x.props, "S0") {
		return "S03"
	}
	return "G01 G02"
}

// gedge is an edge as observed.
type gedge struct {
	u, v   int
	fv, tv int32
	tag    int32
}

func (x *gx) readEdge(where string, e graph.Edge) (gedge, bool) {
	f, err := e.FromNode()
	if err != nil {
		x.e.Fail("edge without node", x.props, "%s: FromNode: %v", where, err)
		return gedge{}, false
	}
	t, err := e.ToNode()
	if err != nil {
		x.e.Fail("edge without node", x.props, "%s: ToNode: %v", where, err)
		return gedge{}, false
	}
	fv, tv := x.ver(where, f), x.ver(where, t)
	if fv == 0 || tv == 0 {
		return gedge{}, false
	}
	o := gedge{u: x.vers[fv].u, v: x.vers[tv].u, fv: fv, tv: tv, tag: anon}
	a, err := attrMap(e.Attrs())
	if err != nil {
		x.e.Fail("edge attributes", x.props, "%s: the edge's attributes: %v", where, err)
		return gedge{}, false
	}
	w := e.Weight()
	if s, ok := a["e"]; ok {
		n, _ := strconv.Atoi(s)
		o.tag = int32(n)
	} else if w != 0 {
		o.tag = int32(x.byW[w])
	}
	if int(o.tag) >= len(x.tags) || o.tag < 1 {
		x.e.Fail("foreign edge", x.edgeProps(), "%s returned an edge with weight %v and attributes %v, which was never made", where, w, a)
		return gedge{}, false
	}
	want := x.tags[o.tag].attrs
	if !sameMap(a, want) || w != x.tags[o.tag].w {
		x.e.Fail("altered edge", x.edgeProps(), "%s returned edge e%d with weight %v and attributes %v instead of weight %v and attributes %v", where, o.tag, w, a, x.tags[o.tag].w, want)
		return gedge{}, false
	}
	if !x.dir && o.u > o.v {
		o.u, o.v, o.fv, o.tv = o.v, o.u, o.tv, o.fv
	}
	return o, true
}

func (x *gx) edgeProps() string {
	if strings.Contains(x.props, "S0") {
		return "S03"
	}
	return x.props
}

func (x *gx) ends(u, v int) (int, int) {
	if !x.dir && u > v {
		return v, u
	}
	return u, v
}

// rec runs an operation and records its moment and meaning.
func (x *gx) rec(who int, desc string, f func() (string, func(gstate) (gstate, bool))) {
	x.recKind(who, desc, gop{base: true}, f)
}

func (x *gx) recKind(who int, desc string, o gop, f func() (string, func(gstate) (gstate, bool))) {
	o.call = rt.Seq()
	desc += x.who
	x.e.Logf("client%d: %s ...", who, desc)
	res, step := f()
	o.desc = fmt.Sprintf("client%d: %s: %s", who, desc, res)
	o.step = step
	x.e.Logf("%s", o.desc)
	x.e.Observe(fmt.Sprint(who, desc, res))
	if step != nil {
		o.ret = rt.Seq()
		x.hist = append(x.hist, o)
	}
}

// hv is a node handle shared between tasks.
type hv struct {
	n   graph.Node
	u   int
	ver int32
}

// graphOps are the operations on a graph.
type graphOps struct {
	*gx
	g memgraph.Graph
	h [6]slot[hv]

	hand  map[int64]bool // numbers of nodes made by hand
	small bool           // one of them is made with a small number
}

type doter interface{ DOT() (string, error) }

func errName(err error) string {
	if err == nil {
		return "ok"
	}
	return err.Error()
}

// unexpected reports an error the operation has no reason for.
func (x *gx) unexpected(what string, err error) {
	if ctxErr(err) && x.nctx > 0 {
		x.vague = true
		return
	}
	x.e.Fail("unexpected error", x.props, "%s failed with %v", what, err)
}

// do runs one operation of the workload.
func (g *graphOps) do(who int, op Op) {
	ctx, finish := opCtx(op.E, sctx.WithValue(sctx.Background(), ctxKey{}, "graph"))
	defer finish()
	if op.E > 0 {
		g.nctx++
	}
	u, v := op.A%g.n, op.B%g.n
	switch op.K {
	case "newnode":
		g.newNode(ctx, who, u, op.B%len(g.h), op.C, op.D)
	case "addnode":
		g.addNode(ctx, who, op.A%len(g.h), op.C%2 == 1)
	case "put":
		// the way users do it: make a node and add it
		h, ok := g.newNode(ctx, who, u, -1, op.C, op.D)
		if ok && !g.vers[h.ver].raw {
			g.add(ctx, who, h, op.C%2 == 1)
		}
	case "addraw":
		ver, ent := g.newVer(u, nil)
		num := g.number(ver)
		if _, taken := g.ids[int64(op.D)]; g.alone && !taken && op.D < 8 {
			num = int64(op.D)
			if g.small {
				num = int64(ver) * 1000000 // one is enough
			}
			g.small = true
		}
		g.byHand(ver, num)
		n, err := memgraph.NewNode(num, ent)
		if err != nil {
			g.unexpected("memory.NewNode", err)
			return
		}
		g.add(ctx, who, hv{n: n, u: u, ver: int32(ver)}, op.C%2 == 1)
	case "addclash":
		// a number others have, too: AddNode does not take it while one of them is there
		ver, ent := g.newVer(u, nil)
		g.vers[ver].num = 1 << 40 << uint(op.D%2)
		g.byHand(ver, g.vers[ver].num)
		n, err := memgraph.NewNode(g.vers[ver].num, ent)
		if err != nil {
			g.unexpected("memory.NewNode", err)
			return
		}
		g.add(ctx, who, hv{n: n, u: u, ver: int32(ver)}, op.C%2 == 1)
	case "addforeign":
		_, ent := g.newVer(u, nil)
		var opts []graph.Option
		if op.C%2 == 1 {
			opts = append(opts, graph.WithUpsert())
		}
		g.rec(who, fmt.Sprintf("AddNode(foreign node %q, upsert %v)", ent.uid, op.C%2 == 1), func() (string, func(gstate) (gstate, bool)) {
			err := g.g.AddNode(ctx, ent, opts...)
			if !errors.Is(err, graph.ErrInvalidNode) {
				g.e.Fail("foreign node accepted", g.props, "AddNode of a node that is not a memory node returned %v", err)
			}
			return errName(err), func(s gstate) (gstate, bool) { return s, true }
		})
	case "node":
		g.rec(who, fmt.Sprintf("Node(n%d)", u), func() (string, func(gstate) (gstate, bool)) {
			n, err := g.g.Node(ctx, g.uid(u))
			return g.nodeResult("Node", u, n, err)
		})
	case "nodes":
		g.rec(who, "Nodes()", func() (string, func(gstate) (gstate, bool)) {
			ns, err := g.g.Nodes(ctx)
			if err != nil {
				g.unexpected("Nodes", err)
				return errName(err), nil
			}
			got, ok := g.nodeSet("Nodes", ns)
			if !ok {
				return "?", nil
			}
			return fmt.Sprint(gstate{node: got}), func(s gstate) (gstate, bool) { return s, s.node == got }
		})
	case "remove":
		g.rec(who, fmt.Sprintf("RemoveNode(n%d)", u), func() (string, func(gstate) (gstate, bool)) {
			err := g.g.RemoveNode(ctx, g.uid(u))
			if err != nil {
				g.unexpected("RemoveNode", err)
				return errName(err), nil
			}
			return "ok", func(s gstate) (gstate, bool) { s.drop(u); return s, true }
		})
	case "link":
		g.link(ctx, who, u, v, op.C, op.D)
	case "edge":
		g.rec(who, fmt.Sprintf("Edge(n%d, n%d)", u, v), func() (string, func(gstate) (gstate, bool)) {
			e, err := g.g.Edge(ctx, g.uid(u), g.uid(v))
			return g.edgeResult("Edge", u, v, e, err)
		})
	case "edges":
		g.rec(who, "Edges()", func() (string, func(gstate) (gstate, bool)) {
			es, err := g.g.Edges(ctx)
			if err != nil {
				g.unexpected("Edges", err)
				return errName(err), nil
			}
			got, ok := g.edgeSet("Edges", es)
			if !ok {
				return "?", nil
			}
			return fmt.Sprint(got), func(s gstate) (gstate, bool) { return s, edgesMatch(s, got) }
		})
	case "from":
		g.rec(who, fmt.Sprintf("From(n%d)", u), func() (string, func(gstate) (gstate, bool)) {
			ns, err := g.g.From(ctx, g.uid(u))
			if err != nil {
				g.unexpected("From", err)
				return errName(err), nil
			}
			got, ok := g.nodeSet("From", ns)
			if !ok {
				return "?", nil
			}
			return fmt.Sprint(gstate{node: got}), func(s gstate) (gstate, bool) { return s, g.peers(s, u) == got }
		})
	case "unlink":
		g.rec(who, fmt.Sprintf("Unlink(n%d, n%d)", u, v), func() (string, func(gstate) (gstate, bool)) {
			err := g.g.Unlink(ctx, g.uid(u), g.uid(v))
			if err != nil {
				g.unexpected("Unlink", err)
				return errName(err), nil
			}
			a, b := g.ends(u, v)
			return "ok", func(s gstate) (gstate, bool) { s.edge[a][b] = 0; return s, true }
		})
	case "sub":
		g.sub(ctx, who, u, op.C, op.D, op.B%2 == 1)
	case "dot":
		g.dot(who)
	case "view":
		g.view(who, true)
	case "sleep":
		rt.Sleep(ms(op.B))
	default:
		panic("graph op " + op.K)
	}
}

// number is a number for a node made by hand, that no other node has.
func (g *graphOps) number(ver int) int64 {
	v := int64(ver) + 1
	style := g.e.p("num")
	if style == 4 {
		style = 5 + ver%4
	}
	switch style {
	case 5: // these agree in their lower half
		return v << 32
	case 6:
		return -v * 1000003
	case 7: // beyond what a float64 tells apart
		return 1<<62 + v*1000003
	case 8:
		return -1<<62 - v
	}
	return int64(ver) * 1000000
}

// byHand notes the number of a node made by hand. The graph may give it to
// another node once this one is gone.
func (g *graphOps) byHand(ver int, num int64) {
	g.vers[ver].raw = true
	if g.hand == nil {
		g.hand = map[int64]bool{}
	}
	if num < 0 || num >= 8 {
		g.hand[num] = true
	}
}

// newNode asks the graph for a node.
func (g *graphOps) newNode(ctx context.Context, who, u, slot, opts, with int) (h hv, ok bool) {
	var os []graph.Option
	var at map[string]string
	a := memattrs.New()
	make := g.newVer
	if opts&4 != 0 && with%3 > 0 {
		make = func(u int, _ map[string]string) (int, *gent) { return g.verAgain(u) }
	}
	ver, ent := make(u, nil)
	if with%3 > 0 {
		at = map[string]string{"v": strconv.Itoa(ver)}
		if with%3 == 2 {
			at["a b"] = `x"y\`
		}
		if with%4 == 3 {
			at["_partial"], at["more."] = "a: b", "-"
		}
		if with%7 == 4 {
			at[word(g.types.from+ver*3+with)] = word(ver + with)
		}
		if with >= 10 { // lots
			for i := 0; i < 12; i++ {
				at[fmt.Sprint("more", i)] = fmt.Sprint(ver, "/", i)
			}
		}
		a = memattrs.NewFromMap(at)
		os = append(os, graph.WithAttrs(a))
		g.vers[ver].attrs = at
	}
	if opts&8 != 0 {
		id := fmt.Sprint("dot-", ver)
		if g.dots == nil {
			g.dots = map[string]int{}
		}
		g.dots[id] = u
		os = append(os, graph.WithDOTID(id), graph.WithName("name"), graph.WithNoCache())
	}
	upsert := opts&2 != 0
	if upsert {
		os = append(os, graph.WithUpsert())
	}
	g.rec(who, fmt.Sprintf("NewNode(n%d v%d, upsert %v)", u, ver, upsert), func() (string, func(gstate) (gstate, bool)) {
		n, err := g.g.NewNode(ctx, ent, os...)
		if err != nil {
			g.unexpected("NewNode", err)
			return errName(err), nil
		}
		got := g.ver("NewNode", n)
		if got == 0 {
			return "?", nil
		}
		h, ok = hv{n, u, got}, true
		if g.vers[got].u != u {
			g.e.Fail("node of another entity", g.props+" G02", "NewNode for %q returned a node of %q", g.name[u], g.name[g.vers[got].u])
			return "?", nil
		}
		if id, is := n.(numbered); is && g.hand[id.ID()] {
			g.vers[got].raw = true
		}
		if !g.vers[got].raw {
			g.checkID("NewNode", n, u)
		}
		return fmt.Sprintf("v%d", got), func(s gstate) (gstate, bool) {
			// the one present, or a new node
			if s.node[u] != 0 && !upsert {
				return s, got == s.node[u]
			}
			return s, got == int32(ver)
		}
	})
	if ok && slot >= 0 && !g.vers[h.ver].raw {
		g.h[slot].set(h)
	}
	return h, ok
}

// checkID checks that no two entities ever got nodes with the same number.
func (g *graphOps) checkID(where string, n any, u int) {
	id, ok := n.(numbered)
	if !ok {
		return
	}
	if w, ok := g.ids[id.ID()]; ok && w != u {
		g.e.Fail("numeric identifier collision", "G02", "%s: the nodes of %q and %q both have the number %d", where, g.name[w], g.name[u], id.ID())
	}
	g.ids[id.ID()] = u
}

func (g *graphOps) addNode(ctx context.Context, who, slot int, upsert bool) {
	h, ok := g.h[slot].get()
	if !ok {
		return
	}
	g.add(ctx, who, h, upsert)
}

func (g *graphOps) add(ctx context.Context, who int, h hv, upsert bool) {
	var os []graph.Option
	more := rt.Choose(6)
	if more&1 != 0 {
		os = append(os, graph.WithName("name"))
	}
	if upsert {
		os = append(os, graph.WithUpsert())
	}
	if more&2 != 0 {
		os = append(os, graph.WithNoCache())
	}
	g.rec(who, fmt.Sprintf("AddNode(n%d v%d, upsert %v)", h.u, h.ver, upsert), func() (string, func(gstate) (gstate, bool)) {
		var err error
		num := g.vers[h.ver].num
		clash := func(s gstate) bool {
			for u, v := range s.node {
				if num != 0 && u != h.u && v != 0 && g.vers[v].num == num {
					return true
				}
			}
			return false
		}
		refused := func(s gstate) (gstate, bool) { return s, clash(s) && (s.node[h.u] == 0 || upsert) }
		if p := catch(func() { err = g.g.AddNode(ctx, h.n, os...) }); p != nil {
			if num != 0 {
				return "panic", refused
			}
			g.e.Fail("AddNode panics", g.props+" G02 G06", "adding a node of %q obtained from the graph panicked: %v", g.name[h.u], p)
			return "panic", nil
		}
		switch {
		case err == nil:
			return "ok", func(s gstate) (gstate, bool) {
				if s.node[h.u] != 0 && !upsert || clash(s) {
					return s, false
				}
				s.node[h.u] = h.ver
				return s, true
			}
		case errors.Is(err, graph.ErrDuplicateNode):
			return errName(err), func(s gstate) (gstate, bool) { return s, s.node[h.u] != 0 && !upsert }
		case num != 0 && !ctxErr(err):
			return errName(err), refused
		}
		g.unexpected("AddNode", err)
		return errName(err), nil
	})
}

func (x *gx) nodeResult(where string, u int, n uided, err error) (string, func(gstate) (gstate, bool)) {
	if err != nil {
		if !errors.Is(err, graph.ErrNodeNotFound) {
			x.unexpected(where, err)
			return errName(err), nil
		}
		return errName(err), func(s gstate) (gstate, bool) { return s, s.node[u] == 0 }
	}
	got := x.ver(where, n)
	if got == 0 {
		return "?", nil
	}
	if x.vers[got].u != u {
		x.e.Fail("node of another entity", x.props, "%s(%q) returned the node of %q", where, x.name[u], x.name[x.vers[got].u])
		return "?", nil
	}
	return fmt.Sprintf("v%d", got), func(s gstate) (gstate, bool) { return s, s.node[u] == got }
}

func (x *gx) nodeSet(where string, ns []graph.Node) (got [maxN]int32, ok bool) {
	num := map[int64]int{}
	for _, n := range ns {
		v := x.ver(where, n)
		if v == 0 {
			return got, false
		}
		u := x.vers[v].u
		if got[u] != 0 {
			x.e.Fail("node listed twice", x.props+" G02", "%s lists %q twice (versions %d and %d)", where, x.name[u], got[u], v)
			return got, false
		}
		got[u] = v
		if id, is := n.(numbered); is {
			if w, dup := num[id.ID()]; dup {
				x.e.Fail("numeric identifier collision", "G02", "%s: %q and %q both have the number %d", where, x.name[u], x.name[w], id.ID())
			}
			num[id.ID()] = u
		}
	}
	return got, true
}

func (x *gx) edgeSet(where string, es []graph.Edge) (out []gedge, ok bool) {
	seen := map[[2]int]bool{}
	for _, e := range es {
		o, ok := x.readEdge(where, e)
		if !ok {
			return nil, false
		}
		if seen[[2]int{o.u, o.v}] {
			x.e.Fail("edge listed twice", x.props+" G02", "%s lists the edge between %q and %q twice", where, x.name[o.u], x.name[o.v])
			return nil, false
		}
		seen[[2]int{o.u, o.v}] = true
		out = append(out, o)
	}
	sort.Slice(out, func(i, j int) bool {
		return out[i].u < out[j].u || out[i].u == out[j].u && out[i].v < out[j].v
	})
	return out, true
}

func edgesMatch(s gstate, got []gedge) bool {
	for _, o := range got {
		if s.edge[o.u][o.v] != o.tag || s.node[o.u] != o.fv || s.node[o.v] != o.tv {
			return false
		}
		s.edge[o.u][o.v] = 0
	}
	return s.edge == [maxN][maxN]int32{}
}

func (x *gx) tagOf(s gstate, u, v int) int32 {
	u, v = x.ends(u, v)
	return s.edge[u][v]
}

func (x *gx) peers(s gstate, u int) (out [maxN]int32) {
	for v := 0; v < maxN; v++ {
		if v != u && x.tagOf(s, u, v) != 0 {
			out[v] = s.node[v]
		}
	}
	return out
}

func (x *gx) edgeResult(where string, u, v int, e graph.Edge, err error) (string, func(gstate) (gstate, bool)) {
	switch {
	case err == nil:
		o, ok := x.readEdge(where, e)
		if !ok {
			return "?", nil
		}
		if a, b := x.ends(u, v); o.u != a || o.v != b {
			x.e.Fail("edge of other nodes", x.props+" G02", "%s(%q, %q) returned an edge between %q and %q", where, x.name[u], x.name[v], x.name[o.u], x.name[o.v])
			return "?", nil
		}
		return fmt.Sprintf("e%d v%d-v%d", o.tag, o.fv, o.tv), func(s gstate) (gstate, bool) {
			return s, s.edge[o.u][o.v] == o.tag && s.node[o.u] == o.fv && s.node[o.v] == o.tv
		}
	case errors.Is(err, graph.ErrNodeNotFound):
		return errName(err), func(s gstate) (gstate, bool) { return s, s.node[u] == 0 || s.node[v] == 0 }
	case errors.Is(err, graph.ErrEdgeNotExist):
		return errName(err), func(s gstate) (gstate, bool) {
			return s, s.node[u] != 0 && s.node[v] != 0 && x.tagOf(s, u, v) == 0
		}
	}
	x.unexpected(where, err)
	return errName(err), nil
}

func (g *graphOps) link(ctx context.Context, who, u, v, with, more int) {
	var os []graph.Option
	tag := anon
	if with&3 != 0 {
		tag = g.newTag(with&1 != 0, with&2 != 0)
		if with&1 != 0 {
			os = append(os, graph.WithWeight(g.tags[tag].w))
		}
		if with&2 != 0 {
			var a attrs.Attrs = memattrs.NewFromMap(copyMap(g.tags[tag].attrs))
			if g.flaky {
				a = &flakyAttrs{gx: g.gx, a: a}
			}
			os = append(os, graph.WithAttrs(a))
		}
	}
	switch more {
	case 1:
		os = append([]graph.Option{graph.WithUID(g.uid(v))}, os...)
	case 2:
		os = append(os, graph.WithDOTID(g.name[u]))
	case 3:
		os = append(os, graph.WithUpsert(), graph.WithName(g.name[v]))
	case 4:
		os = append(os, graph.WithUID(memuid.New()), graph.WithNoCache())
	}
	a, b := g.ends(u, v)
	g.rec(who, fmt.Sprintf("Link(n%d, n%d, e%d)", u, v, tag), func() (string, func(gstate) (gstate, bool)) {
		var e graph.Edge
		var err error
		if p := catch(func() { e, err = g.g.Link(ctx, g.uid(u), g.uid(v), os...) }); p != nil {
			g.e.Fail("Link panics", g.props+" G06", "Link(%q, %q) panicked: %v", g.name[u], g.name[v], p)
			return "panic", nil
		}
		switch {
		case err == nil && u == v:
			g.e.Fail("self link", g.props, "linking %q to itself succeeded", g.name[u])
			return "ok", nil
		case err == nil:
			o, ok := g.readEdge("Link", e)
			if !ok {
				return "?", nil
			}
			if o.u != a || o.v != b {
				g.e.Fail("edge of other nodes", g.props+" G02", "Link(%q, %q) returned an edge between %q and %q", g.name[u], g.name[v], g.name[o.u], g.name[o.v])
				return "?", nil
			}
			return fmt.Sprintf("e%d v%d-v%d", o.tag, o.fv, o.tv), func(s gstate) (gstate, bool) {
				if s.node[u] == 0 || s.node[v] == 0 {
					return s, false
				}
				if s.edge[a][b] == 0 {
					s.edge[a][b] = int32(tag)
				}
				return s, s.edge[a][b] == o.tag && s.node[a] == o.fv && s.node[b] == o.tv
			}
		case errors.Is(err, graph.ErrNodeNotFound):
			return errName(err), func(s gstate) (gstate, bool) { return s, s.node[u] == 0 || s.node[v] == 0 }
		case u == v:
			return errName(err), func(s gstate) (gstate, bool) { return s, s.node[u] != 0 }
		}
		g.unexpected("Link", err)
		return errName(err), nil
	})
}

// gpic is a picture of a whole graph.
type gpic struct {
	node [maxN]int32
	edge []gedge
}

func (p gpic) String() string { return fmt.Sprint(gstate{node: p.node}, p.edge) }

func samePic(a, b gpic) bool { return a.node == b.node && fmt.Sprint(a.edge) == fmt.Sprint(b.edge) }

// reach lists what a subgraph of s must contain.
func (x *gx) reach(s gstate, root, depth int) gpic {
	dist := [maxN]int{}
	for i := range dist {
		dist[i] = -1
	}
	dist[root] = 0
	q := []int{root}
	for len(q) > 0 {
		u := q[0]
		q = q[1:]
		if dist[u] == depth {
			continue
		}
		for v := 0; v < maxN; v++ {
			if v != u && dist[v] < 0 && x.tagOf(s, u, v) != 0 {
				dist[v] = dist[u] + 1
				q = append(q, v)
			}
		}
	}
	var p gpic
	for u := range dist {
		if dist[u] >= 0 {
			p.node[u] = s.node[u]
		}
	}
	for u := 0; u < maxN; u++ {
		for v := 0; v < maxN; v++ {
			if u != v && p.node[u] != 0 && p.node[v] != 0 && x.tagOf(s, u, v) != 0 {
				p.edge = append(p.edge, gedge{u, v, s.node[u], s.node[v], x.tagOf(s, u, v)})
			}
		}
	}
	return p
}

// gsnap is a subgraph the workload holds on to.
type gsnap struct {
	desc string
	g    graph.Graph
	pic  gpic
}

// picOf reads a subgraph, which is directed whatever the graph it comes from.
func (g *graphOps) picOf(where string, sg graph.Graph) (p gpic, ok bool) {
	ctx := sctx.Background()
	x := &gx{}
	*x = *g.gx
	x.dir, x.props = true, "G03"
	ns, err := sg.Nodes(ctx)
	if err != nil {
		x.unexpected(where+" Nodes", err)
		return p, false
	}
	if p.node, ok = x.nodeSet(where, ns); !ok {
		return p, false
	}
	for u := 0; u < x.n; u++ {
		for v := 0; v < x.n; v++ {
			if p.node[u] == 0 || p.node[v] == 0 || u == v {
				continue
			}
			e, err := sg.Edge(ctx, x.uid(u), x.uid(v))
			if errors.Is(err, graph.ErrEdgeNotExist) {
				continue
			}
			if err != nil {
				x.unexpected(where+" Edge", err)
				return p, false
			}
			o, ok := x.readEdge(where, e)
			if !ok {
				return p, false
			}
			if o.u != u || o.v != v || o.fv != p.node[u] || o.tv != p.node[v] {
				x.e.Fail("subgraph edge of other nodes", "G03", "%s: the edge from %q to %q joins version %d of %q to version %d of %q; the subgraph has %v", where, x.name[u], x.name[v], o.fv, x.name[o.u], o.tv, x.name[o.v], gstate{node: p.node})
				return p, false
			}
			p.edge = append(p.edge, o)
		}
	}
	if er, is := sg.(graph.Edger); is {
		es, err := er.Edges(ctx)
		if err != nil {
			x.unexpected(where+" Edges", err)
			return p, false
		}
		if got, ok := x.edgeSet(where, es); !ok {
			return p, false
		} else if fmt.Sprint(got) != fmt.Sprint(p.edge) {
			x.e.Fail("subgraph edge list", "G03", "%s: Edges lists %v, Edge finds %v", where, got, p.edge)
			return p, false
		}
	}
	return p, true
}

// sub takes a subgraph and, sometimes, changes it.
func (g *graphOps) sub(ctx context.Context, who, root, depth, change int, plain bool) {
	desc := fmt.Sprintf("SubGraph(n%d, %d)", root, depth)
	uid := memuid.New()
	var faults *flakyCtl
	if g.flaky {
		faults = &flakyCtl{}
		if change%4 == 3 {
			faults.at = 1 + rt.Choose(6)
		}
		ctx = sctx.WithValue(ctx, flakyKey{}, faults)
		faults.ctx = ctx
	}
	opts := []graph.Option{graph.WithUID(uid)}
	if plain {
		opts = nil
	}
	var snap *gsnap
	g.recKind(who, desc, gop{sub: true}, func() (string, func(gstate) (gstate, bool)) {
		sg, err := g.g.SubGraph(ctx, g.uid(root), depth, opts...)
		if faults != nil {
			if faults.hit && err == nil {
				g.e.Fail("attribute error hidden", "A01 G03", "%s succeeded although reading an edge's attributes failed", desc)
				return "ok", nil
			}
			if !faults.hit && faults.reads > 0 && faults.foreign > 0 {
				g.e.Fail("wrong context", "A01", "%s read %d attributes with a context that is not the caller's", desc, faults.foreign)
			}
			if faults.hit {
				// A01: "return the source's error"
				if !errors.Is(err, errFlaky) {
					g.e.Fail("attribute error changed", "A01", "%s failed with %v instead of the source's error", desc, err)
				}
				return errName(err), func(s gstate) (gstate, bool) { return s, s.node[root] != 0 }
			}
		}
		if errors.Is(err, graph.ErrNodeNotFound) {
			return errName(err), func(s gstate) (gstate, bool) { return s, s.node[root] == 0 }
		}
		if err != nil && ctxErr(err) && g.nctx > 0 {
			return errName(err), func(s gstate) (gstate, bool) { return s, true }
		}
		if err != nil {
			g.e.Fail("subgraph fails", "G03", "%s failed with %v", desc, err)
			return errName(err), nil
		}
		if !plain && (sg.UID() == nil || sg.UID().String() != uid.String()) {
			g.e.Fail("subgraph identifier", "G03", "%s did not get the identifier asked for", desc)
		}
		pic, ok := g.picOf(desc, sg)
		if !ok {
			return "?", nil
		}
		snap = &gsnap{desc, sg, pic}
		return pic.String(), func(s gstate) (gstate, bool) {
			return s, s.node[root] != 0 && samePic(g.reach(s, root, depth), pic)
		}
	})
	if snap == nil {
		return
	}
	mg, ok := snap.g.(memgraph.Graph)
	if !ok {
		g.snaps = append(g.snaps, snap)
		return
	}
	switch change % 6 {
	case 1: // change the subgraph: the graph must not notice
		for u := 0; u < g.n; u++ {
			if snap.pic.node[u] != 0 {
				if err := mg.RemoveNode(ctx, g.uid(u)); err != nil {
					g.e.Fail("subgraph unusable", "G03", "removing a node of a subgraph: %v", err)
				}
				break
			}
		}
	case 2:
		for _, o := range snap.pic.edge {
			if e, err := mg.Edge(ctx, g.uid(o.u), g.uid(o.v)); err == nil {
				if err := e.Attrs().Set(ctx, "changed", "1"); err != nil {
					g.e.Fail("subgraph unusable", "G03", "setting an attribute of an edge of a subgraph: %v", err)
				}
				break
			}
		}
	case 4:
		for _, o := range snap.pic.edge {
			if err := mg.Unlink(ctx, g.uid(o.u), g.uid(o.v)); err != nil {
				g.e.Fail("subgraph unusable", "G03", "unlinking nodes of a subgraph: %v", err)
			}
			break
		}
	case 5:
		for u := 0; u < g.n; u++ {
			for v := 0; v < g.n; v++ {
				if u != v && snap.pic.node[u] != 0 && snap.pic.node[v] != 0 {
					if _, err := mg.Link(ctx, g.uid(u), g.uid(v), graph.WithWeight(77)); err != nil {
						g.e.Fail("subgraph unusable", "G03", "linking nodes of a subgraph: %v", err)
					}
				}
			}
		}
	default:
		g.snaps = append(g.snaps, snap)
		g.subsub(snap, mg, change)
	}
}

// subsub takes a subgraph of a subgraph, which nobody else has, and adds to that.
func (g *graphOps) subsub(snap *gsnap, mg memgraph.Graph, how int) {
	var roots []int
	for u := 0; u < g.n; u++ {
		if snap.pic.node[u] != 0 {
			roots = append(roots, u)
		}
	}
	if len(roots) == 0 {
		return
	}
	root, depth := roots[how%len(roots)], how%5
	desc := fmt.Sprintf("SubGraph(n%d, %d) of %s", root, depth, snap.desc)
	var err error
	var sg graph.Graph
	if p := catch(func() { sg, err = mg.SubGraph(sctx.Background(), g.uid(root), depth) }); p != nil || err != nil {
		g.e.Fail("subgraph unusable", "G03", "%s: %v %v", desc, p, err)
		return
	}
	pic, ok := g.picOf(desc, sg)
	if !ok {
		return
	}
	x := &gx{}
	*x = *g.gx
	x.dir = true
	if want := x.reach(snap.pic.state(), root, depth); !samePic(want, pic) {
		g.e.Fail("subgraph differs", "G03", "%s is %v instead of %v", desc, pic, want)
		return
	}
	// nodes the subgraph makes are as good as those it came with
	ng, ok := sg.(memgraph.Graph)
	if !ok || how%2 == 0 {
		return
	}
	for u := 0; u < g.n; u++ {
		if pic.node[u] != 0 {
			continue
		}
		ver, ent := g.newVer(u, nil)
		p := catch(func() {
			var n graph.Node
			if n, err = ng.NewNode(sctx.Background(), ent); err == nil {
				err = ng.AddNode(sctx.Background(), n)
			}
		})
		if p != nil || err != nil {
			g.e.Fail("subgraph unusable", "G03 G02", "adding a node to %s: %v %v", desc, p, err)
			return
		}
		pic.node[u] = int32(ver)
	}
	if got, ok := g.picOf(desc+" with more nodes", ng); ok && !samePic(pic, got) {
		g.e.Fail("subgraph unusable", "G03 G02", "%s with more nodes is %v instead of %v", desc, got, pic)
	}
}

// state makes a state of a picture.
func (p gpic) state() (s gstate) {
	s.node = p.node
	for _, o := range p.edge {
		s.edge[o.u][o.v] = o.tag
	}
	return s
}

// parseDOT reads a DOT document back.
func (g *gx) parseDOT(doc string) (p gpic, ok bool) {
	fail := func(f string, a ...any) {
		g.e.Fail("malformed DOT", "G05", "%s\n%s", fmt.Sprintf(f, a...), doc)
	}
	// the parser is quadratic in places: small documents only
	file, err := gdot.ParseString(doc)
	if err != nil {
		fail("the document cannot be parsed: %v", err)
		return p, false
	}
	if len(file.Graphs) != 1 {
		fail("the document holds %d graphs", len(file.Graphs))
		return p, false
	}
	gr := file.Graphs[0]
	if gr.Directed != g.dir {
		fail("the document's graph is directed: %v", gr.Directed)
		return p, false
	}
	unq := dotText
	var vs [maxN]string
	for _, st := range gr.Stmts {
		switch st := st.(type) {
		case *ast.NodeStmt:
			u := g.find(unq(st.Node.ID))
			if u < 0 {
				fail("it names an unknown node %s", st.Node.ID)
				return p, false
			}
			if p.node[u] != 0 {
				fail("it lists node %s twice", st.Node.ID)
				return p, false
			}
			p.node[u] = -1
			for _, a := range st.Attrs {
				if unq(a.Key) == "v" {
					vs[u] = unq(a.Val)
				}
			}
			if vs[u] != "" {
				n, err := strconv.Atoi(vs[u])
				if err != nil || n <= 1 || n >= len(g.vers) || g.vers[n].u != u {
					fail("node %s has the attributes of another node", st.Node.ID)
					return p, false
				}
				for k, v := range g.vers[n].attrs {
					found := false
					for _, a := range st.Attrs {
						found = found || unq(a.Key) == k && unq(a.Val) == v
					}
					if !found {
						fail("node %s lacks its attribute %q=%q", st.Node.ID, k, v)
						return p, false
					}
				}
				p.node[u] = int32(n)
			}
		case *ast.EdgeStmt:
			to, ok := st.To.Vertex.(*ast.Node)
			from, ok2 := st.From.(*ast.Node)
			if !ok || !ok2 || st.To.To != nil {
				fail("unexpected kind of edge: %v", st)
				return p, false
			}
			u, v := g.find(unq(from.ID)), g.find(unq(to.ID))
			if u < 0 || v < 0 || st.To.Directed != g.dir {
				fail("unexpected edge %v", st)
				return p, false
			}
			if p.node[u] == 0 || p.node[v] == 0 {
				fail("the edge %v joins nodes the document does not list", st)
				return p, false
			}
			u, v = g.ends(u, v)
			tag := int32(-1)
			for _, a := range st.Attrs {
				if unq(a.Key) == "e" {
					n, _ := strconv.Atoi(unq(a.Val))
					tag = int32(n)
				}
			}
			if tag > 0 && int(tag) < len(g.tags) {
				for k, v := range g.tags[tag].attrs {
					found := false
					for _, a := range st.Attrs {
						found = found || unq(a.Key) == k && unq(a.Val) == v
					}
					if !found {
						fail("the edge %v lacks its attribute %q=%q", st, k, v)
						return p, false
					}
				}
			}
			for _, o := range p.edge {
				if o.u == u && o.v == v {
					fail("it lists the edge %v twice", st)
					return p, false
				}
			}
			p.edge = append(p.edge, gedge{u: u, v: v, tag: tag})
		}
	}
	return p, true
}

// dotMatch tells whether a DOT document is one of s.
func (g *gx) dotMatch(s gstate, p gpic) bool {
	for u := range p.node {
		switch {
		case p.node[u] == 0 != (s.node[u] == 0):
			return false
		case p.node[u] == -1 && g.vers[s.node[u]].attrs["v"] != "":
			return false
		case p.node[u] > 0 && p.node[u] != s.node[u]:
			return false
		}
	}
	for _, o := range p.edge {
		t := s.edge[o.u][o.v]
		if t == 0 || o.tag == -1 && g.tags[t].attrs != nil || o.tag != -1 && o.tag != t {
			return false
		}
		s.edge[o.u][o.v] = 0
	}
	return s.edge == [maxN][maxN]int32{}
}

func (g *graphOps) dot(who int) {
	d, ok := g.g.(doter)
	if !ok {
		return
	}
	g.recKind(who, "DOT()", gop{dot: true}, func() (string, func(gstate) (gstate, bool)) {
		doc, err := d.DOT()
		if err != nil {
			g.e.Fail("DOT fails", "G05", "DOT failed with %v", err)
			return errName(err), nil
		}
		p, ok := g.parseDOT(doc)
		if !ok {
			return "?", nil
		}
		return p.String(), func(s gstate) (gstate, bool) { return s, g.dotMatch(s, p) }
	})
}

// view reads the graph in every way there is, at a quiescent moment, checks that
// the answers agree and records them as one reading.
func (g *graphOps) view(who int, all bool) {
	ctx := sctx.Background()
	bad := func(kind, f string, a ...any) {
		g.e.Fail("views disagree: "+kind, g.props+" G02", f, a...)
	}
	g.recKind(who, "all views", gop{base: true}, func() (string, func(gstate) (gstate, bool)) {
		ns, err := g.g.Nodes(ctx)
		if err != nil {
			g.unexpected("Nodes", err)
			return errName(err), nil
		}
		var s gstate
		var ok bool
		if s.node, ok = g.nodeSet("Nodes", ns); !ok {
			return "?", nil
		}
		for _, n := range ns {
			if u := g.find(n.UID().String()); !g.vers[s.node[u]].raw {
				g.checkID("Nodes", n, u)
			}
		}
		for u := 0; u < g.n; u++ {
			n, err := g.g.Node(ctx, g.uid(u))
			switch {
			case err == nil:
				if v := g.ver("Node", n); v == 0 {
					return "?", nil
				} else if v != s.node[u] {
					bad("node", "Node(%q) finds version %d, Nodes lists version %d (0: none)", g.name[u], v, s.node[u])
					return "?", nil
				}
			case s.node[u] != 0:
				bad("node", "Node(%q): %v, but Nodes lists version %d", g.name[u], err, s.node[u])
				return "?", nil
			}
		}
		es, err := g.g.Edges(ctx)
		if err != nil {
			g.unexpected("Edges", err)
			return errName(err), nil
		}
		list, ok := g.edgeSet("Edges", es)
		if !ok {
			return "?", nil
		}
		for _, o := range list {
			if o.fv != s.node[o.u] || o.tv != s.node[o.v] {
				bad("edge", "Edges lists an edge between version %d of %q and version %d of %q; the graph has %v", o.fv, g.name[o.u], o.tv, g.name[o.v], gstate{node: s.node})
				return "?", nil
			}
			s.edge[o.u][o.v] = o.tag
		}
		for u := 0; u < g.n; u++ {
			for v := 0; v < g.n; v++ {
				e, err := g.g.Edge(ctx, g.uid(u), g.uid(v))
				_, step := g.edgeResult("Edge", u, v, e, err)
				if step == nil {
					return "?", nil
				}
				if _, ok := step(s); !ok {
					bad("edge", "Edge(%q, %q) says %v %v, Edges and Nodes list %v", g.name[u], g.name[v], e, err, s)
					return "?", nil
				}
			}
			ns, err := g.g.From(ctx, g.uid(u))
			if err != nil {
				g.unexpected("From", err)
				return errName(err), nil
			}
			got, ok := g.nodeSet("From", ns)
			if !ok {
				return "?", nil
			}
			if want := g.peers(s, u); got != want {
				bad("neighbours", "From(%q) lists %v, Edges lists %v", g.name[u], gstate{node: got}, s)
				return "?", nil
			}
		}
		if d, is := g.g.(doter); is && all {
			doc, err := d.DOT()
			if err != nil {
				g.e.Fail("DOT fails", "G05", "DOT failed with %v", err)
				return errName(err), nil
			}
			p, ok := g.parseDOT(doc)
			if !ok {
				return "?", nil
			}
			if !g.dotMatch(s, p) {
				g.e.Fail("views disagree: DOT", g.props+" G02 G05", "the DOT document shows %v, the other views %v\n%s", p, s, doc)
				return "?", nil
			}
		}
		got := s
		return s.String(), func(s gstate) (gstate, bool) { return s, s == got }
	})
}

// apart sets attributes of each node and edge, when nothing else happens any
// more, and checks that they show nowhere else.
func (g *graphOps) apart(props string) {
	if g.shared {
		return
	}
	ctx := sctx.Background()
	type mark struct {
		what string
		a    attrs.Attrs
		val  string
		u, v int
	}
	var all []mark
	ns, err := g.g.Nodes(ctx)
	if err != nil {
		g.unexpected("Nodes", err)
		return
	}
	for _, n := range ns {
		u := g.find(n.UID().String())
		all = append(all, mark{what: "node " + n.UID().String(), a: n.Attrs(), u: u, v: -1})
	}
	es, err := g.g.Edges(ctx)
	if err != nil {
		g.unexpected("Edges", err)
		return
	}
	for _, e := range es {
		f, _ := e.FromNode()
		t, _ := e.ToNode()
		u, v := g.ends(g.find(f.UID().String()), g.find(t.UID().String()))
		all = append(all, mark{what: "edge " + f.UID().String() + "-" + t.UID().String(), a: e.Attrs(), u: u, v: v})
	}
	sort.Slice(all, func(i, j int) bool { return all[i].what < all[j].what })
	for i := range all {
		m := &all[i]
		m.val = fmt.Sprintf("m%d", i)
		if err := m.a.Set(ctx, "mark", m.val); err != nil {
			g.e.Fail("attribute not set", props, "setting an attribute of %s: %v", m.what, err)
		}
	}
	for _, m := range all {
		got, err := attrMap(m.a)
		if err != nil || got["mark"] != m.val {
			g.e.Fail("shared attributes", props, "the attributes of %s hold mark=%q where %q was set (%v)", m.what, got["mark"], m.val, err)
		}
	}
	// the same attributes are in a DOT document made now
	d, is := g.g.(doter)
	if !is || len(all) == 0 {
		return
	}
	doc, err := d.DOT()
	if err != nil {
		g.e.Fail("DOT fails", "G05", "DOT failed with %v", err)
		return
	}
	file, err := gdot.ParseString(doc)
	if err != nil || len(file.Graphs) != 1 {
		g.e.Fail("malformed DOT", "G05", "the document cannot be parsed: %v\n%s", err, doc)
		return
	}
	seen := map[[2]int]string{}
	markOf := func(as []*ast.Attr) string {
		for _, a := range as {
			if dotText(a.Key) == "mark" {
				return dotText(a.Val)
			}
		}
		return ""
	}
	for _, st := range file.Graphs[0].Stmts {
		switch st := st.(type) {
		case *ast.NodeStmt:
			seen[[2]int{g.find(dotText(st.Node.ID)), -1}] = markOf(st.Attrs)
		case *ast.EdgeStmt:
			to, ok := st.To.Vertex.(*ast.Node)
			from, ok2 := st.From.(*ast.Node)
			if ok && ok2 {
				u, v := g.ends(g.find(dotText(from.ID)), g.find(dotText(to.ID)))
				seen[[2]int{u, v}] = markOf(st.Attrs)
			}
		}
	}
	for _, m := range all {
		if got := seen[[2]int{m.u, m.v}]; got != m.val {
			g.e.Fail("stale DOT", "G02 G05", "the attributes of %s hold mark=%q, the DOT document made afterwards has mark=%q\n%s", m.what, m.val, got, doc)
			return
		}
	}
}

// twins exports a graph some nodes of which go by one DOT name: the export
// succeeds and leaves the names, and all else, as they are.
func (g *graphOps) twins() {
	d, is := g.g.(doter)
	if !is {
		return
	}
	ctx := sctx.Background()
	const text = "a\tb  c"
	for i := 0; i < 3; i++ {
		at := memattrs.NewFromMap(map[string]string{"text": text})
		x := &gent{uid: memuid.NewFromString(fmt.Sprint("twin", i)), typ: "twin", a: memattrs.NewFromMap(nil)}
		n, err := g.g.NewNode(ctx, x, graph.WithAttrs(at), graph.WithDOTID("twin"))
		if err == nil {
			err = g.g.AddNode(ctx, n)
		}
		if err != nil {
			g.e.Fail("twin not added", g.props, "adding a node: %v", err)
			return
		}
	}
	if _, err := g.g.Link(ctx, memuid.NewFromString("twin0"), memuid.NewFromString("twin1")); err != nil {
		g.e.Fail("twins not linked", g.props, "Link: %v", err)
		return
	}
	names := func() (m map[string]string, edges int) {
		ns, err := g.g.Nodes(ctx)
		es, err2 := g.g.Edges(ctx)
		if err != nil || err2 != nil {
			g.e.Fail("listing fails", g.props, "Nodes: %v, Edges: %v", err, err2)
		}
		m = map[string]string{}
		for _, n := range ns {
			id := "?"
			if n, is := n.(interface{ DOTID() string }); is {
				id = n.DOTID()
			}
			m[n.UID().String()] = id
		}
		return m, len(es)
	}
	was, edges := names()
	doc, err := d.DOT()
	if err != nil {
		g.e.Fail("DOT fails", "G05", "DOT of a graph with nodes of one DOT name failed with %v", err)
		return
	}
	file, err := gdot.ParseString(doc)
	if err != nil || len(file.Graphs) != 1 {
		g.e.Fail("malformed DOT", "G05", "the document cannot be parsed: %v\n%s", err, doc)
		return
	}
	nodes, found := 0, false
	for _, st := range file.Graphs[0].Stmts {
		n, is := st.(*ast.NodeStmt)
		if !is {
			continue
		}
		nodes++
		for _, a := range n.Attrs {
			found = found || dotText(a.Key) == "text" && dotText(a.Val) == text
		}
	}
	if nodes < len(was)-2 {
		g.e.Fail("incomplete DOT", "G05", "the graph has %d nodes, three of one DOT name, the document %d\n%s", len(was), nodes, doc)
	}
	if !found {
		g.e.Fail("malformed DOT", "G05", "no node has its attribute text=%q\n%s", text, doc)
	}
	is2, edges2 := names()
	same := len(is2) == len(was) && edges == edges2
	for k, v := range was {
		same = same && is2[k] == v
	}
	if !same {
		g.e.Fail("export changes the graph", "G05", "before the export: %d edges, nodes and DOT names %v, after it %d and %v", edges, was, edges2, is2)
	}
}

// dotText is the text of an identifier of a DOT document.
func dotText(s string) string {
	if strings.HasPrefix(s, `"`) {
		if t, err := strconv.Unquote(s); err == nil {
			return t
		}
	}
	return s
}

// recheck looks at the subgraphs taken during the run again.
func (g *graphOps) recheck() {
	for _, s := range g.snaps {
		if p, ok := g.picOf(s.desc+" at the end", s.g); ok && !samePic(p, s.pic) {
			g.e.Fail("subgraph changed", "G03", "%s was %v when it was taken and has become %v", s.desc, s.pic, p)
		}
	}
}

// judge looks for an order that explains the history.
func (x *gx) judge(basic, withView, sub, dot string) {
	if x.vague {
		return
	}
	try := func(keep func(gop) bool) (int, string) {
		var ops []linOp[gstate]
		for _, o := range x.hist {
			if keep(o) {
				ops = append(ops, o.linOp)
			}
		}
		v, deep := linearize(x.init, ops, 200000)
		if v == linUndecided {
			x.e.count("undecided histories")
		}
		if v == linBad {
			return v, explain(ops, deep)
		}
		return v, ""
	}
	if v, _ := try(func(gop) bool { return true }); v != linBad {
		x.e.count("linearized histories")
		return
	}
	view := func(o gop) bool { return strings.Contains(o.desc, ": all views") }
	if v, why := try(func(o gop) bool { return o.base && !view(o) }); v == linBad {
		x.e.Fail("not linearizable", basic, "%s", why)
		return
	}
	if v, why := try(func(o gop) bool { return o.base }); v == linBad {
		x.e.Fail("not linearizable", withView, "%s", why)
		return
	}
	if v, why := try(func(o gop) bool { return o.base || o.sub }); v == linBad {
		x.e.Fail("subgraph of no moment", sub, "%s", why)
	}
	if v, why := try(func(o gop) bool { return o.base || o.dot }); v == linBad {
		x.e.Fail("DOT of no moment", dot, "%s", why)
	}
}

// ---- attribute sources that fail ----

var errFlaky = errors.New("attribute source fails")

type flakyKey struct{}

// flakyCtl decides which read of one operation fails.
type flakyCtl struct {
	ctx     context.Context
	at      int // 0: none
	reads   int
	foreign int
	hit     bool
}

// flakyAttrs fails on demand of the operation reading it.
type flakyAttrs struct {
	gx *gx
	a  attrs.Attrs
}

func (f *flakyAttrs) read(ctx context.Context) error {
	rt.Yield("attrs")
	c, _ := ctx.Value(flakyKey{}).(*flakyCtl)
	if c == nil {
		return nil
	}
	c.reads++
	if c.at == c.reads {
		c.hit = true
		rt.Fault("attribute source error")
		return errFlaky
	}
	return nil
}

func (f *flakyAttrs) Keys(ctx context.Context) ([]string, error) {
	if err := f.read(ctx); err != nil {
		return nil, err
	}
	return f.a.Keys(ctx)
}

func (f *flakyAttrs) Get(ctx context.Context, k string) (string, error) {
	if err := f.read(ctx); err != nil {
		return "", err
	}
	return f.a.Get(ctx, k)
}

func (f *flakyAttrs) Set(ctx context.Context, k, v string) error { return f.a.Set(ctx, k, v) }

// ---- the scenario ----

func init() {
	register(&Scenario{
		Name:  "graph",
		Props: []string{"G01", "G02", "G03", "G05", "G06", "A01"},
		Presets: map[string][]string{
			"G01": {"base", "base", "hot"},
			"G02": {"views", "views", "base", "hot"},
			"G03": {"sub"},
			"G05": {"dot"},
			"G06": {"many", "many", "many", "base", "sub", "dot"},
			"A01": {"sub"},
		},
		Gen:   genGraph,
		Run:   runGraph,
		Check: checkGraph,
	})
}

func genGraph(r *rand.Rand, p *Plan) {
	p.P["word"] = r.Intn(1000)
	p.P["dir"] = r.Intn(2)
	p.P["n"] = 2 + r.Intn(5)
	p.P["names"] = 0
	tasks, ops := 2+r.Intn(3), 1+r.Intn(5)
	w := map[string]int{"newnode": 3, "addnode": 4, "put": 4, "addraw": 1, "addforeign": 0, "addclash": 0, "node": 2, "nodes": 2, "remove": 3, "link": 5, "edge": 2, "edges": 2, "from": 2, "unlink": 2}
	pre := 4
	switch p.Preset {
	case "hot": // few identifiers
		p.P["n"] = 2
		w["addforeign"] = 1
	case "views":
		if r.Intn(2) == 0 {
			tasks, ops = 1, 3+r.Intn(12)
			w["view"] = 6
		}
		w["addforeign"] = r.Intn(2)
	case "sub":
		w = map[string]int{"put": 3, "addnode": 1, "newnode": 1, "remove": 2, "link": 6, "unlink": 3, "sub": 8, "edges": 1}
		p.P["flaky"] = r.Intn(2)
		pre = 9
	case "dot":
		w = map[string]int{"put": 4, "addnode": 1, "newnode": 1, "remove": 3, "link": 6, "unlink": 3, "dot": 8, "edges": 1}
		pickNames(r, p)
		pre = 7
	case "many":
		w["sub"], w["dot"] = 5, 4
		tasks, ops = 2+r.Intn(5), 1+r.Intn(8)
		p.P["flaky"] = r.Intn(2)
	}
	if r.Intn(4) == 0 {
		pickNames(r, p)
	}
	if r.Intn(5) == 0 {
		w["addclash"] = 4
	}
	p.P["ids"] = r.Intn(2)
	if r.Intn(3) == 0 {
		p.P["num"] = 3 + r.Intn(6)
		w["addraw"] = 2 + r.Intn(4)
	}
	spread(r, p, &tasks, &ops)
	p.P["via"] = b2i(r.Intn(6) == 0)
	var sub Op
	gen := func(k string) Op {
		if k == "sub" && sub.K != "" && r.Intn(3) == 0 {
			return sub // again
		}
		o := Op{K: k, A: r.Intn(p.P["n"]), B: r.Intn(p.P["n"]), C: r.Intn(4), D: r.Intn(12), E: ctxStyle(r, p)}
		if (k == "put" || k == "newnode") && r.Intn(4) == 0 {
			o.C |= 4
		}
		if (k == "put" || k == "newnode") && r.Intn(6) == 0 {
			o.C |= 8
		}
		if k == "sub" && r.Intn(4) == 0 {
			o.C = r.Intn(maxN + 2)
		}
		if p.P["twin"] == 1 {
			o.I = r.Intn(2)
		}
		if k == "sub" {
			sub = o
		}
		return o
	}
	var t Task
	for i, m := 0, r.Intn(pre+1); i < m; i++ {
		k := "put"
		if i > 1 && r.Intn(2) == 0 {
			k = "link"
		}
		t.Ops = append(t.Ops, gen(k))
	}
	if p.Preset == "sub" || p.Preset == "dot" {
		// a populated graph
		t.Ops = nil
		for i := 0; i < p.P["n"]; i++ {
			if r.Intn(5) > 0 {
				o := gen("put")
				o.A = i
				t.Ops = append(t.Ops, o)
			}
		}
		for i, m := 0, r.Intn(2*p.P["n"]); i < m; i++ {
			o := gen("link")
			if p.P["wide"] == 1 && r.Intn(3) > 0 { // long paths
				o.A = i % p.P["n"]
				o.B = (i + 1) % p.P["n"]
			}
			t.Ops = append(t.Ops, o)
		}
	}
	if p.P["wide"] == 1 && r.Intn(3) == 0 {
		// many edges on one node, or all there can be
		t.Ops = nil
		for i := 0; i < p.P["n"]; i++ {
			o := gen("put")
			o.A = i
			t.Ops = append(t.Ops, o)
		}
		hub, all := r.Intn(p.P["n"]), r.Intn(3) == 0
		for u := 0; u < p.P["n"]; u++ {
			for v := 0; v < p.P["n"]; v++ {
				if u != v && (all || u == hub || v == hub && r.Intn(2) == 0) {
					o := gen("link")
					o.A, o.B = u, v
					t.Ops = append(t.Ops, o)
				}
			}
		}
		for i := 0; i < 2; i++ {
			o := gen("put")
			o.A, o.C = hub, o.C&^4|3
			t.Ops = append(t.Ops, o)
		}
	}
	if r.Intn(4) == 0 { // nodes made by hand
		o := gen("addraw")
		o.E = 0
		t.Ops = append(t.Ops, o)
		copy(t.Ops[1:], t.Ops)
		t.Ops[0] = o
	}
	p.Tasks = append(p.Tasks, t) // runs before the others
	for i := 0; i < tasks; i++ {
		var t Task
		for j := 0; j < ops; j++ {
			t.Ops = append(t.Ops, gen(pick(r, w)))
		}
		p.Tasks = append(p.Tasks, t)
	}
}

// viaSub goes on with a subgraph in the place of the graph.
func (g *graphOps) viaSub() {
	for u := 0; u < g.n; u++ {
		sg, err := g.g.SubGraph(sctx.Background(), g.uid(u), g.e.p("names")%2+g.n/2)
		if err != nil {
			continue
		}
		pic, ok := g.picOf("SubGraph", sg)
		mg, is := sg.(memgraph.Graph)
		if !ok || !is {
			return
		}
		g.e.Logf("-- from here on: the subgraph of n%d, %v", u, pic)
		g.g, g.dir = mg, true
		g.init, g.hist = pic.state(), nil
		g.ids = map[int64]int{}
		for _, v := range g.init.node {
			g.vers[v].raw = true // it has not given these numbers itself
		}
		for i := range g.h {
			g.h[i] = slot[hv]{}
		}
		return
	}
}

func newTestGraph(dir bool) (memgraph.Graph, error) {
	if dir {
		return memgraph.NewWDG()
	}
	return memgraph.NewWUG()
}

func runGraph(e *Env) {
	var gs []*graphOps
	var xs []*gx
	for i := 0; i <= e.p("twin"); i++ {
		x := newGx(e, "G01")
		if i > 0 {
			x.who = "'"
		}
		mg, err := newTestGraph(x.dir)
		if err != nil {
			e.Fail("new graph", x.props, "%v", err)
			return
		}
		x.flaky = e.p("flaky") == 1
		gs = append(gs, &graphOps{gx: x, g: mg})
		xs = append(xs, x)
	}
	e.data = xs
	g := func(op Op) *graphOps { return gs[op.I%len(gs)] }
	first := e.P.Tasks
	for _, x := range xs {
		x.alone = true
	}
	if len(first) > 0 {
		for _, op := range first[0].Ops {
			g(op).do(0, op)
		}
	}
	for _, g := range gs {
		g.alone = false
		if e.p("via") == 1 {
			g.viaSub()
		}
	}
	var ts []*rt.Task
	for i := 1; i < len(e.P.Tasks); i++ {
		i := i
		ts = append(ts, rt.GoNamed(fmt.Sprintf("client%d", i), func() {
			for _, op := range e.P.Tasks[i].Ops {
				if op.K == "view" && len(e.P.Tasks) > 2 {
					continue // only when nothing else runs
				}
				g(op).do(i, op)
			}
		}))
	}
	rt.Join(ts...)
	for _, g := range gs {
		g.recheck()
		g.view(0, true)
		g.apart("G01 G02")
		if e.P.Preset == "dot" {
			g.twins()
		}
		g.done = true
	}
}

func checkGraph(e *Env) {
	xs, _ := e.data.([]*gx)
	basic := "G01"
	switch e.P.Preset {
	case "views", "hot":
		basic = "G01 G02"
	case "sub":
		basic = "G01 G03"
	case "dot":
		basic = "G01 G05"
	}
	for _, x := range xs {
		if !x.done || len(e.viol) > 0 || e.P.Preset == "many" {
			return
		}
		x.judge(basic, basic+" G02", "G03", "G05")
	}
}
