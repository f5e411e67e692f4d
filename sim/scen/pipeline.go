package scen

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"time"

	"github.com/milosgajdos/netscrape"
	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/broker"
	"github.com/milosgajdos/netscrape/pkg/broker/digester"
	simpledigester "github.com/milosgajdos/netscrape/pkg/broker/digester/simple"
	"github.com/milosgajdos/netscrape/pkg/broker/ingester"
	simpleingester "github.com/milosgajdos/netscrape/pkg/broker/ingester/simple"
	membroker "github.com/milosgajdos/netscrape/pkg/broker/memory"
	"github.com/milosgajdos/netscrape/pkg/cache"
	memcache "github.com/milosgajdos/netscrape/pkg/cache/memory"
	"github.com/milosgajdos/netscrape/pkg/graph"
	memgraph "github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/plan"
	simpleplan "github.com/milosgajdos/netscrape/pkg/plan/simple"
	"github.com/milosgajdos/netscrape/pkg/space"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/space/link"
	jsonmarshal "github.com/milosgajdos/netscrape/pkg/space/marshal/json"
	"github.com/milosgajdos/netscrape/pkg/store"
	memstore "github.com/milosgajdos/netscrape/pkg/store/memory"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	memuid "github.com/milosgajdos/netscrape/pkg/uuid/memory"

	"verif.local/sim/sctx"
	rt "verif.local/sim/simrt"
)

func init() {
	register(&Scenario{
		Name:    "pipeline",
		Props:   []string{"E01"},
		Presets: map[string][]string{"E01": {"clean", "clean", "faulty", "faulty", "session"}},
		Gen:     genPipeline,
		Run:     runPipeline,
	})
}

func genPipeline(r *rand.Rand, p *Plan) {
	p.P["cap"] = []int{0, 1, 2, 3, 100}[r.Intn(5)]
	p.P["dir"] = r.Intn(2)
	p.P["topics"] = 1 + r.Intn(2)
	p.P["diggers"] = 1 + r.Intn(3)
	p.P["samesub"] = r.Intn(2)
	p.P["linkmode"] = r.Intn(3)
	p.P["workers"] = 1 + r.Intn(3)
	p.P["resources"] = 1 + r.Intn(3)
	p.P["upsert"] = r.Intn(2)
	p.P["ownopts"] = r.Intn(2) // broker, store and marshaler come with the run instead of the runner
	p.P["attrsopt"] = r.Intn(2)
	p.P["shortrand"] = r.Intn(4) / 3
	p.P["rerun"] = r.Intn(2)
	p.P["change"] = []int{0, 1, 1, 2}[r.Intn(4)] // 2: what was scraped is the same, but has other attributes now
	p.P["samename"] = r.Intn(2)
	p.P["resattrs"] = []int{0, 0, 3, 7, 9, 12, 16, 24}[r.Intn(8)]
	if r.Intn(3) == 0 {
		p.P["odd"] = 1 + rowOf(r) // identifiers and names that are easily confused
	}
	p.P["kinds"] = r.Intn(2)
	p.P["word"] = r.Intn(1000)
	words := r.Intn(4) == 0
	big := 1
	if r.Intn(12) == 0 {
		big = 5
		p.MaxSteps = 1_000_000
	}
	runs := 1 + r.Intn(2)
	nobj := 0
	faulty := p.Preset != "clean"
	if faulty {
		p.P["retry"] = r.Intn(3) // scraper: 0 stops at an error, 1 goes on, 2 tries again
		p.P["pubms"] = []int{0, 1, 3, 20}[r.Intn(4)]
	}
	for i := 0; i < runs; i++ {
		var t Task
		for j, m := 0, 1+r.Intn(5*big); j < m; j++ {
			o := Op{K: "obj", A: r.Intn(3), B: r.Intn(18), C: r.Intn(4), D: r.Intn(6)}
			if p.P["kinds"] == 1 {
				o.I = r.Intn(4) // not all of it is objects
			}
			if words {
				o.B += 32 * r.Intn(4)
			}
			if faulty && r.Intn(6) == 0 {
				o.X = []int{1 + r.Intn(4)} // 1 cannot be marshaled, 2 the handler fails, 3 and 4 the store fails
			}
			t.Ops = append(t.Ops, o)
			nobj++
		}
		for j, m := 0, r.Intn(6*big); j < m; j++ {
			o := Op{K: "link", A: r.Intn(10 * big), B: r.Intn(10 * big), C: r.Intn(18), D: r.Intn(6)}
			if words {
				o.C += 32 * r.Intn(4)
			}
			if faulty && r.Intn(6) == 0 {
				o.X = []int{1 + r.Intn(2)}
			}
			t.Ops = append(t.Ops, o)
		}
		p.Tasks = append(p.Tasks, t)
	}
	// what else happens
	var t Task
	for j, m := 0, r.Intn(4); j < m; j++ {
		t.Ops = append(t.Ops, Op{K: []string{"nodes", "edges", "dot", "sub"}[r.Intn(4)], A: r.Intn(10), B: r.Intn(3)})
	}
	if len(t.Ops) > 0 {
		p.Tasks = append(p.Tasks, t)
	}
	if faulty {
		var t Task
		w := map[string]int{"cancel": 3, "unsub": 3, "stop": 3}
		if p.Preset == "session" {
			w = map[string]int{"close": 3, "reopen": 3, "sessioncancel": 2, "cancel": 1}
		}
		for j, m := 0, 1+r.Intn(4); j < m; j++ {
			t.Ops = append(t.Ops, Op{K: "sleep", B: r.Intn(12)}, Op{K: pick(r, w), A: r.Intn(3), B: r.Intn(2)})
		}
		p.Tasks = append(p.Tasks, t)
	}
}

// item is one object or link to be scraped.
type item struct {
	op      Op
	run     int
	key     string
	obj     space.Entity // an object, entity or resource
	lnk     space.Link
	from    *item
	to      *item
	attrs   map[string]string
	typ     string
	name    string
	ns      string
	res     int // the resource of an object
	own     [3]string
	flag    bool
	okPub   int // publications that reported success
	badPub  int
	handled int
	failed  int // handler calls that reported an error
	stored  bool
	epoch   int // session of the last successful publication
}

type pipe struct {
	e        *Env
	b        *membroker.Memory
	runner   *netscrape.Runner
	in       *simpleingester.Ingester
	jm       *jsonmarshal.Marshaler
	s        storeAPI
	full     store.Store
	g        memgraph.Graph
	cache    *memcache.Links
	items    []*item
	byKey    map[string]*item // by identifier
	res      []space.Resource
	resAttrs []map[string]string
	plans    []plan.Plan
	cx       *ctxs
	wctx     sctx.Context // of the whole run
	vc       rt.VC
	epoch    int
	clean    bool
	calm     bool           // no more faults
	tmo      map[string]int // receives that timed out, by topic
	ended    int            // times a session ended
	digs     []*pdig
	stop     bool
	session  func()
	srv      bool // connected, as far as the workload knows
}

// pdig is one digester at work.
type pdig struct {
	topic  string
	sub    broker.Subscriber
	ctx    sctx.Context
	cancel sctx.CancelFunc
	task   *rt.Task
}

// pstore makes the store the runner hands on.
type pstore struct {
	storeAPI
	g graph.Graph
}

func (s *pstore) Graph(context.Context, ...store.Option) (graph.Graph, error) { return s.g, nil }

// pmarshal is the marshaler of a run; it fails for some items.
type pmarshal struct {
	x *pipe
	n int
}

func (m *pmarshal) Marshal(v interface{}) ([]byte, error) {
	rt.Yield("marshal")
	if u, ok := v.(interface{ UID() uuid.UID }); ok && !m.x.calm {
		if it := m.x.byKey[u.UID().String()]; it != nil && len(it.op.X) > 0 && it.op.X[0] == 1 {
			rt.Fault("marshal error")
			return nil, errInjected
		}
	}
	return m.x.jm.Marshal(v)
}

// kinds of things to be scraped
const (
	kObject = iota
	kEntity
	kResource
	kAlone // an object that belongs to no resource
)

// sent is the type of the message the item travels in.
func (it *item) sent() broker.Type {
	switch {
	case it.lnk != nil:
		return broker.Link
	case it.op.I == kEntity:
		return broker.Entity
	case it.op.I == kResource:
		return broker.Resource
	}
	return broker.Object
}

func (x *pipe) topic(typ broker.Type) string {
	if x.e.p("topics") == 2 && typ == broker.Link {
		return "links"
	}
	return "objects"
}

func (x *pipe) attrs(bits int, key string) (map[string]string, attrs.Attrs) {
	m := map[string]string{}
	if bits&1 != 0 {
		m["name"] = key
	}
	if bits&2 != 0 {
		m["a \"b\" <&>"] = "é\n" + key
	}
	if bits&4 != 0 {
		m["empty"] = ""
		m["_partial"] = "true"
	}
	if bits&8 != 0 {
		for i := 0; i < 1+bits; i++ {
			m[fmt.Sprint("more", i)] = fmt.Sprint(key, i)
		}
	}
	if bits >= 32 { // what the code under test mentions
		n := bits / 32
		for i := 0; i < n; i++ {
			m[word(x.e.p("word")+len(key)*n+i*7+bits%32)] = word(len(key) + bits)
		}
	}
	return m, memattrs.NewFromMap(m)
}

// makeResources makes the resources of a plan; gen tells one state of the world from another.
func (x *pipe) makeResources(gen int) bool {
	x.res, x.resAttrs = nil, nil
	for i := 0; i < x.e.p("resources"); i++ {
		name, uid := fmt.Sprint("r", i), fmt.Sprint("res", i)
		if x.e.p("samename") == 1 {
			name = "r"
		}
		g, k := "g", "k"
		if odd := x.e.p("odd"); odd > 0 {
			uid = names[odd-1][i+1]
			name, g, k = names[odd-1][i], names[odd-1][(i+odd)%6], names[odd-1][(i+2)%6]
		}
		m, a := x.attrs(i+gen+x.e.p("resattrs"), name)
		r, err := entity.NewResource("res", name, g, fmt.Sprintf("v%d.%d", i, gen), k, (i+gen)%2 == 0, entity.WithUID(memuid.NewFromString(uid)), entity.WithAttrs(a))
		if err != nil {
			x.e.Fail("cannot create", "E01", "%v", err)
			return false
		}
		x.res = append(x.res, r)
		x.resAttrs = append(x.resAttrs, m)
	}
	return true
}

// makeObject makes the object of an item as it is in state gen of the world.
func (x *pipe) makeObject(it *item, gen int, uid uuid.UID) bool {
	var a attrs.Attrs
	it.typ = fmt.Sprint("type", it.op.C+gen)
	if it.op.B >= 32 {
		it.typ = word(x.e.p("word") + it.op.B + it.op.C + gen)
	}
	it.attrs, a = x.attrs(it.op.B+3*gen, it.name)
	opts := []entity.Option{entity.WithAttrs(a)}
	if uid != nil {
		opts = append(opts, entity.WithUID(uid))
	}
	var o space.Entity
	var err error
	switch it.op.I {
	case kEntity:
		o, err = entity.New(it.typ, opts...)
	case kResource:
		it.own, it.flag = [3]string{fmt.Sprint("g", it.op.A), fmt.Sprint("v", gen), "k"}, (it.op.C+gen)%2 == 0
		if it.op.B >= 32 {
			it.own = [3]string{word(x.e.p("word") + it.op.C), fmt.Sprint("v", gen), word(it.op.D)}
		}
		o, err = entity.NewResource(it.typ, it.name, it.own[0], it.own[1], it.own[2], it.flag, opts...)
	case kAlone:
		o, err = entity.NewObject(it.typ, it.name, it.ns, nil, opts...)
	default:
		o, err = entity.NewObject(it.typ, it.name, it.ns, x.res[it.res], opts...)
	}
	if err != nil {
		x.e.Fail("cannot create", "E01", "%v", err)
		return false
	}
	it.obj = o
	return true
}

// change replaces the resources and objects by what they have become.
func (x *pipe) change() {
	ctx := sctx.Background()
	if !x.makeResources(1) {
		return
	}
	for _, p := range x.plans {
		if p == nil {
			continue
		}
		for _, r := range x.res {
			if err := p.Add(ctx, r); err != nil {
				x.e.Fail("plan", "E01", "adding a resource to the plan failed: %v", err)
			}
		}
	}
	for _, it := range x.items {
		if it.obj != nil {
			x.makeObject(it, 1, memuid.NewFromString(it.key))
		}
	}
}

// changeInPlace changes the attributes of the resources and objects there are.
func (x *pipe) changeInPlace() {
	ctx := sctx.Background()
	set := func(m map[string]string, a attrs.Attrs, k, v string) {
		m[k] = v
		if err := a.Set(ctx, k, v); err != nil {
			x.e.Fail("cannot create", "E01", "setting an attribute failed: %v", err)
		}
	}
	for i, r := range x.res {
		set(x.resAttrs[i], r.Attrs(), "name", fmt.Sprint("resource ", i, " has changed"))
	}
	for i, it := range x.items {
		if it.obj != nil && i%3 > 0 {
			set(it.attrs, it.obj.Attrs(), []string{"name", "later"}[i%2], it.name+" has changed")
		}
	}
}

// prepare makes everything there is to scrape.
func (x *pipe) prepare() bool {
	e := x.e
	ctx := sctx.Background()
	if !x.makeResources(0) {
		return false
	}
	var objs []*item
	for ri := range e.P.Tasks {
		isRun := false
		for _, op := range e.P.Tasks[ri].Ops {
			if op.K != "obj" {
				isRun = isRun || op.K == "link"
				continue
			}
			isRun = true
			it := &item{op: op, run: ri, res: op.A % len(x.res)}
			var uid uuid.UID
			if op.D > 0 { // else: the identifier is generated
				uid = memuid.NewFromString(fmt.Sprint("obj", len(objs)))
			}
			it.ns = []string{"ns", "ns", "", "other"}[op.D%4]
			it.name = fmt.Sprint("object ", len(objs))
			if odd := e.p("odd"); odd > 0 {
				it.name = names[odd-1][len(objs)%6]
				if uid != nil && len(objs) < maxN {
					uid = memuid.NewFromString(names[odd-1][len(objs)])
				}
			}
			if !x.makeObject(it, 0, uid) {
				return false
			}
			it.key = it.obj.UID().String()
			objs = append(objs, it)
			x.byKey[it.key] = it
			x.items = append(x.items, it)
		}
		if isRun {
			p, err := simpleplan.NewSimple()
			if err != nil {
				e.Fail("cannot create", "E01", "%v", err)
				return false
			}
			for len(x.plans) < ri {
				x.plans = append(x.plans, nil)
			}
			x.plans = append(x.plans, p)
			for _, r := range x.res {
				if err := p.Add(ctx, r); err != nil {
					e.Fail("plan", "E01", "adding a resource to the plan failed: %v", err)
				}
			}
		}
	}
	pairs := map[[2]int]bool{}
	n := 0
	for ri := range e.P.Tasks {
		for _, op := range e.P.Tasks[ri].Ops {
			if op.K != "link" || len(objs) < 2 {
				continue
			}
			u, v := op.A%len(objs), op.B%len(objs)
			k := [2]int{u, v}
			if e.p("dir") == 0 && u > v {
				k = [2]int{v, u}
			}
			if pairs[k] {
				continue
			}
			pairs[k] = true
			it := &item{op: op, run: ri, from: objs[u], to: objs[v], res: op.A % len(x.res)}
			n++
			it.name = fmt.Sprint("link ", n)
			var a attrs.Attrs
			it.attrs, a = x.attrs(op.C, it.name)
			luid := fmt.Sprint("link", n)
			if n == 1 && op.D == 3 && x.byKey[""] == nil {
				luid = ""
			}
			l, err := link.New(objs[u].obj.UID(), objs[v].obj.UID(), link.WithAttrs(a), link.WithUID(memuid.NewFromString(luid)))
			if err != nil {
				e.Fail("cannot create", "E01", "%v", err)
				return false
			}
			it.lnk, it.key = l, l.UID().String()
			x.byKey[it.key] = it
			x.items = append(x.items, it)
		}
	}
	return true
}

// ---- the scraper ----

type pscraper struct {
	x   *pipe
	run int
}

func (s *pscraper) Scrape(ctx context.Context, p plan.Plan, opts ...netscrape.Option) error {
	x := s.x
	so := netscrape.Options{}
	for _, apply := range opts {
		apply(&so)
	}
	if so.Broker == nil || so.Marshaler == nil || so.Store == nil {
		x.e.Fail("scraper not configured", "E01", "the scraper got broker %v, marshaler %v and store %v", so.Broker != nil, so.Marshaler != nil, so.Store != nil)
		return errors.New("not configured")
	}
	rs, err := p.GetAll(ctx)
	if err != nil {
		return err
	}
	planned := map[string]bool{}
	for _, r := range rs {
		planned[r.UID().String()] = true
		sr, ok := r.(space.Resource)
		for _, w := range x.res {
			if ok && w.UID().String() == r.UID().String() && (w.Version() != sr.Version() || w.Name() != sr.Name()) {
				x.e.Fail("outdated resource in the plan", "E01", "the plan handed to the scraper holds %s %s instead of %s %s", sr.Name(), sr.Version(), w.Name(), w.Version())
			}
		}
	}
	workers := x.e.p("workers")
	errs := make([]error, workers)
	var ts []*rt.Task
	for w := 0; w < workers; w++ {
		w := w
		ts = append(ts, rt.GoNamed(fmt.Sprintf("worker%d.%d", s.run, w), func() {
			errs[w] = s.work(ctx, so, w, workers, planned)
		}))
	}
	rt.Join(ts...)
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}

func (s *pscraper) work(ctx context.Context, so netscrape.Options, w, workers int, planned map[string]bool) error {
	x := s.x
	var first error
	n := -1
	for _, it := range x.items {
		if it.run != s.run {
			continue
		}
		n++
		if n%workers != w {
			continue
		}
		if !planned[x.res[it.res].UID().String()] {
			x.e.Fail("resource missing from the plan", "E01", "the plan handed to the scraper lacks resource %d", it.res)
			continue
		}
		if rt.Choose(6) == 0 {
			rt.Sleep(ms(1 + rt.Choose(3)))
		}
		typ := it.sent()
		var data interface{} = it.obj
		if it.lnk != nil {
			data = it.lnk
		}
		for try := 0; ; try++ {
			epoch := x.epoch
			err := x.in.Ingest(ctx, so.Broker, x.topic(typ), typ, data, ingester.WithMarshaler(so.Marshaler))
			x.e.Logf("run%d: ingest %s: %v", s.run, it.name, err)
			if err == nil {
				it.okPub++
				it.epoch = epoch
				break
			}
			it.badPub++
			if first == nil {
				first = fmt.Errorf("%s: %w", it.name, err)
			}
			if x.clean || x.calm {
				x.e.Fail("ingest fails", "E01", "ingesting %s failed with %v", it.name, err)
			}
			if x.e.p("retry") != 2 || try > 1 || errors.Is(err, errInjected) {
				break
			}
			rt.Sleep(ms(2))
		}
		if first != nil && x.e.p("retry") == 0 {
			return first
		}
	}
	return first
}

// ---- the digesters ----

func (x *pipe) handler(topic string) broker.Handler {
	return func(ctx context.Context, m broker.Message) error {
		rt.Acquire(&x.vc)
		defer rt.Release(&x.vc)
		if rt.Choose(5) == 0 {
			rt.Sleep(ms(1 + rt.Choose(3)))
		}
		x.torn(m)
		switch m.Type {
		case broker.Object:
			var o space.Object
			if err := x.jm.Unmarshal(m.Data, &o); err != nil {
				x.e.Fail("message cannot be decoded", "E01", "%q: %v", m.Data, err)
				return nil
			}
			it := x.take(o.UID(), topic, m)
			if it == nil {
				return nil
			}
			return x.storeObject(ctx, it, o)
		case broker.Entity:
			var o space.Entity
			if err := x.jm.Unmarshal(m.Data, &o); err != nil {
				x.e.Fail("message cannot be decoded", "E01", "%q: %v", m.Data, err)
				return nil
			}
			it := x.take(o.UID(), topic, m)
			if it == nil {
				return nil
			}
			return x.storeObject(ctx, it, o)
		case broker.Resource:
			var o space.Resource
			if err := x.jm.Unmarshal(m.Data, &o); err != nil {
				x.e.Fail("message cannot be decoded", "E01", "%q: %v", m.Data, err)
				return nil
			}
			it := x.take(o.UID(), topic, m)
			if it == nil {
				return nil
			}
			return x.storeObject(ctx, it, o)
		case broker.Link:
			var l space.Link
			if err := x.jm.Unmarshal(m.Data, &l); err != nil {
				x.e.Fail("message cannot be decoded", "E01", "%q: %v", m.Data, err)
				return nil
			}
			it := x.take(l.UID(), topic, m)
			if it == nil {
				return nil
			}
			if it.lnk == nil {
				return nil
			}
			if l.From().String() != it.from.key || l.To().String() != it.to.key {
				x.e.Fail("content differs", "E01", "%s arrived as a link from %q to %q", it.name, l.From(), l.To())
				return nil
			}
			if got, err := attrMap(l.Attrs()); err != nil || !sameMap(got, it.attrs) {
				x.e.Fail("content differs", "E01", "%s arrived with the attributes %s (%v), scraped were %s", it.name, showMap(got), err, showMap(it.attrs))
			}
			if it.from == it.to { // the graph has no place for it
				return x.fails(it)
			}
			return x.storeLink(ctx, it, l)
		}
		x.e.Fail("message of another type", "E01", "topic %q carried a message of type %d: %q", topic, int(m.Type), m.Data)
		return nil
	}
}

// torn hands the decoder a message that was cut short, in faulty runs: it has
// to say so, or something nobody scraped ends up in the store.
func (x *pipe) torn(m broker.Message) {
	if x.clean || len(m.Data) == 0 || rt.Choose(4) > 0 {
		return
	}
	rt.Fault("torn message")
	b := append([]byte{}, m.Data[:rt.Choose(len(m.Data))]...)
	var err error
	into := "object"
	var got any
	switch {
	case m.Type == broker.Link:
		var l space.Link
		into, err = "link", x.jm.Unmarshal(b, &l)
		got = l
	case rt.Choose(3) == 0:
		var r space.Resource
		into, err = "resource", x.jm.Unmarshal(b, &r)
		got = r
	case rt.Choose(2) == 0:
		var e space.Entity
		into, err = "entity", x.jm.Unmarshal(b, &e)
		got = e
	default:
		var o space.Object
		err = x.jm.Unmarshal(b, &o)
		got = o
	}
	if err == nil {
		x.e.Fail("torn message decoded", "E01", "the first %d of %d bytes of %q were decoded as %s %v without an error", len(b), len(m.Data), m.Data, into, got)
	}
}

func (x *pipe) take(u uuid.UID, topic string, m broker.Message) *item {
	it := x.byKey[u.String()]
	if it == nil {
		x.e.Fail("message nobody sent", "E01", "topic %q carried %q", topic, m.Data)
		return nil
	}
	if want := x.topic(m.Type); want != topic || it.sent() != m.Type {
		x.e.Fail("message on another topic", "E01", "%s arrived on topic %q as %v", it.name, topic, m.Type)
	}
	it.handled++
	x.e.Logf("handler of %s: %s", topic, it.name)
	return it
}

func (x *pipe) inject(ctx context.Context, it *item) context.Context {
	if len(it.op.X) == 0 || x.calm || it.op.X[0] < 3 {
		return ctx
	}
	return sctx.WithValue(ctx, faultKey{}, &faultCtl{at: it.op.X[0] - 2})
}

func (x *pipe) fails(it *item) error {
	if len(it.op.X) > 0 && it.op.X[0] == 2 && !x.calm {
		rt.Fault("handler error")
		it.failed++
		return errInjected
	}
	return nil
}

func (x *pipe) storeObject(ctx context.Context, it *item, o space.Entity) error {
	if err := x.fails(it); err != nil {
		return err
	}
	var opts []store.Option
	if x.e.p("upsert") == 1 || x.calm {
		opts = append(opts, store.WithUpsert())
	}
	if x.e.p("attrsopt") == 1 {
		opts = append(opts, store.WithAttrs(o.Attrs()))
	}
	err := x.s.Add(x.inject(ctx, it), o, opts...)
	if err != nil {
		it.failed++
		if !errors.Is(err, errInjected) {
			if errors.Is(err, store.ErrAlreadyExists) && !x.clean && it.handled > 1 {
				return nil
			}
			x.e.Fail("store refuses an object", "E01", "adding %s failed with %v", it.name, err)
		}
		return err
	}
	it.stored = true
	return nil
}

func (x *pipe) storeLink(ctx context.Context, it *item, l space.Link) error {
	if err := x.fails(it); err != nil {
		return err
	}
	tries := 0
	if x.e.p("linkmode") == 1 {
		tries = 4
	}
	if x.e.p("linkmode") > 0 {
		for i := 0; i <= tries; i++ {
			err := x.s.Link(ctx, l.From(), l.To(), store.WithAttrs(l.Attrs()))
			if err == nil {
				it.stored = true
				return nil
			}
			if !errors.Is(err, store.ErrEntityNotFound) {
				x.e.Fail("store refuses a link", "E01", "linking %s failed with %v", it.name, err)
				return err
			}
			rt.Sleep(ms(1))
		}
	}
	// the endpoints are not there yet
	if err := x.cache.Put(ctx, l); err != nil {
		x.e.Fail("cache refuses a link", "E01", "caching %s failed with %v", it.name, err)
	}
	return nil
}

// flush stores the links kept back.
func (x *pipe) flush(final bool) {
	ctx := sctx.Background()
	rt.Acquire(&x.vc)
	for _, from := range x.items {
		if from.obj == nil {
			continue
		}
		ls, err := x.cache.GetFrom(ctx, from.obj.UID())
		if err != nil {
			x.e.Fail("cache loses links", "E01", "reading the cached links failed with %v", err)
			return
		}
		for _, l := range ls {
			it := x.byKey[l.UID().String()]
			err := x.s.Link(ctx, l.From(), l.To(), store.WithAttrs(l.Attrs()))
			if err == nil && it != nil {
				it.stored = true
			}
			if err != nil && !errors.Is(err, store.ErrEntityNotFound) {
				x.e.Fail("store refuses a link", "E01", "linking %s failed with %v", l.UID(), err)
			}
		}
	}
	_ = final
}

func (x *pipe) startDiggers() {
	var topics []string
	topics = append(topics, "objects")
	if x.e.p("topics") == 2 {
		topics = append(topics, "links")
	}
	for _, t := range topics {
		var shared broker.Subscriber
		for i := 0; i < x.e.p("diggers"); i++ {
			s := shared
			if s == nil {
				var err error
				s, err = x.b.Sub(sctx.Background(), t)
				if err != nil {
					if x.srv && x.clean {
						x.e.Fail("cannot subscribe", "E01", "Sub failed with %v", err)
					}
					return
				}
			}
			if x.e.p("samesub") == 1 {
				shared = s
			}
			x.startDigger(t, s)
		}
	}
}

func (x *pipe) startDigger(t string, s broker.Subscriber) {
	d := &pdig{topic: t, sub: s}
	d.ctx, d.cancel = sctx.WithCancel(sctx.Background())
	x.digs = append(x.digs, d)
	epoch := x.epoch
	d.task = rt.GoNamed("digger", func() {
		dg, err := simpledigester.NewDigester(digester.WithHandler(x.handler(t)))
		if err != nil {
			x.e.Fail("cannot create", "E01", "NewDigester failed with %v", err)
			return
		}
		for !x.stop && d.ctx.Err() == nil {
			err := dg.Digest(d.ctx, d.sub)
			x.e.Logf("digest of %s: %v", t, err)
			switch {
			case errors.Is(err, errInjected):
				continue // the failing message is accounted for
			case errors.Is(err, broker.ErrTimeout):
				x.tmo[t]++
				x.e.count("receive timeouts")
			case x.epoch != epoch:
				return
			case errors.Is(err, broker.ErrSubscriptionInactive):
				if x.clean && !x.stop {
					x.e.Fail("digest ends", "E01", "the digest of %s ended with %v", t, err)
				}
				if x.stop || d.ctx.Err() != nil {
					return
				}
				s, err := x.b.Sub(sctx.Background(), t)
				if err != nil {
					return
				}
				d.sub = s
			default:
				if d.ctx.Err() == nil && x.clean && !x.stop {
					x.e.Fail("digest ends", "E01", "the digest of %s ended with %v", t, err)
				}
				rt.Sleep(ms(1))
			}
		}
	})
}

func (x *pipe) open() {
	ctx, cancel := sctx.WithCancel(sctx.Background())
	if err := x.b.Open(ctx); err != nil {
		x.e.Fail("cannot open", "E01", "Open failed with %v", err)
	}
	x.session, x.srv = cancel, true
}

// endSession notes that accepted messages may be gone.
func (x *pipe) endSession(f func()) {
	x.ended++
	x.epoch++
	x.srv = false
	rt.Fault("session closed")
	f()
}

func (x *pipe) run(ri int) error {
	s := &pscraper{x, ri}
	var opts []netscrape.Option
	if x.e.p("ownopts") == 1 {
		opts = append(opts, netscrape.WithStore(x.full), netscrape.WithBroker(x.b), netscrape.WithMarshaler(&pmarshal{x, ri}))
	}
	return x.runner.Run(x.cx.get(ri+1), x.plans[ri], s, opts...)
}

// pending counts accepted messages of a topic that have not been handled.
func (x *pipe) pending(topic string) int {
	n := 0
	for _, it := range x.items {
		if x.topic(it.sent()) == topic {
			n += it.okPub - it.handled
		}
	}
	return n
}

// drain waits until all accepted messages have been handled.
func (x *pipe) drain(when string) {
	for i := 0; i < 4000; i++ {
		left := max(x.pending("objects"), 0) + max(x.pending("links"), 0)
		if left == 0 || x.ended > 0 && i > 40 {
			break
		}
		if i > 400 && x.pending("objects") <= x.tmo["objects"] && x.pending("links") <= x.tmo["links"] {
			break
		}
		rt.Sleep(ms(5))
	}
	for _, t := range []string{"objects", "links"} {
		if n := x.pending(t); n > x.tmo[t] && x.ended == 0 {
			var lost []string
			for _, it := range x.items {
				if it.okPub > it.handled {
					lost = append(lost, it.name)
				}
			}
			x.e.Fail("accepted items not digested", "E01", "%s: %d accepted messages on %q were never digested (%d receives timed out): %s", when, n, t, x.tmo[t], strings.Join(lost, ", "))
		}
	}
}

func (x *pipe) halt() {
	x.stop = true
	for _, d := range x.digs {
		d.cancel()
	}
	for _, d := range x.digs {
		rt.Join(d.task)
	}
	x.digs, x.stop = nil, false
}

// compare checks the store's graph against what was scraped. must tells which
// items have to be there, may which ones can be.
func (x *pipe) compare(when string, must, may func(*item) bool) {
	e := x.e
	ctx := sctx.Background()
	nodes, err := x.g.Nodes(ctx)
	if err != nil {
		e.Fail("graph unreadable", "E01", "Nodes failed with %v", err)
		return
	}
	have := map[*item]bool{}
	for _, n := range nodes {
		it := x.byKey[n.UID().String()]
		if it == nil || it.obj == nil {
			e.Fail("something nobody scraped", "E01", "%s: the store holds %q, which was never scraped", when, n.UID())
			continue
		}
		if have[it] {
			e.Fail("stored twice", "E01", "%s: the store holds %s twice", when, it.name)
		}
		have[it] = true
		if !may(it) {
			e.Fail("stored without being scraped", "E01", "%s: the store holds %s, whose ingestion never succeeded", when, it.name)
		}
		x.content(when, it, n)
	}
	edges, err := x.g.Edges(ctx)
	if err != nil {
		e.Fail("graph unreadable", "E01", "Edges failed with %v", err)
		return
	}
	for _, ed := range edges {
		f, err1 := ed.FromNode()
		t, err2 := ed.ToNode()
		if err1 != nil || err2 != nil {
			e.Fail("graph unreadable", "E01", "an edge has no end: %v %v", err1, err2)
			continue
		}
		var it *item
		for _, c := range x.items {
			if c.lnk == nil {
				continue
			}
			fw := c.from.key == f.UID().String() && c.to.key == t.UID().String()
			bw := c.to.key == f.UID().String() && c.from.key == t.UID().String()
			if fw || bw && e.p("dir") == 0 {
				it = c
			}
		}
		if it == nil {
			e.Fail("something nobody scraped", "E01", "%s: the store links %q to %q, which was never scraped", when, f.UID(), t.UID())
			continue
		}
		if have[it] {
			e.Fail("stored twice", "E01", "%s: the store holds %s twice", when, it.name)
		}
		have[it] = true
		if !may(it) {
			e.Fail("stored without being scraped", "E01", "%s: the store holds %s, whose ingestion never succeeded", when, it.name)
		}
		got, err := attrs.ToMap(ctx, ed.Attrs())
		if err != nil || !sameMap(got, it.attrs) {
			e.Fail("content differs", "E01", "%s: %s has the attributes %s (%v), scraped were %s", when, it.name, showMap(got), err, showMap(it.attrs))
		}
	}
	for _, it := range x.items {
		if !have[it] && must(it) {
			e.Fail("missing from the store", "E01", "%s: %s is not in the store (published %d times, handled %d times, failed %d times)", when, it.name, it.okPub, it.handled, it.failed)
		}
		e.Observe(fmt.Sprint(it.name, have[it]))
	}
}

// storable tells whether a graph can hold the item: a node has no edge to itself.
func storable(it *item) bool { return it.lnk == nil || it.from != it.to }

func (x *pipe) content(when string, it *item, n graph.Node) {
	e := x.e
	ctx := sctx.Background()
	got, err := attrs.ToMap(ctx, n.Attrs())
	if err != nil || !sameMap(got, it.attrs) {
		e.Fail("content differs", "E01", "%s: %s has the attributes %s (%v), scraped were %s", when, it.name, showMap(got), err, showMap(it.attrs))
	}
	if t, ok := n.(typed); ok && t.Type() != it.typ {
		e.Fail("content differs", "E01", "%s: %s has the type %q, scraped was %q", when, it.name, t.Type(), it.typ)
	}
	gn, ok := n.(*memgraph.Node)
	if !ok {
		return
	}
	if it.op.I == kResource {
		if r, ok := gn.Entity.(space.Resource); ok && (r.Name() != it.name || [3]string{r.Group(), r.Version(), r.Kind()} != it.own || r.Namespaced() != it.flag) {
			e.Fail("content differs", "E01", "%s: %s is resource %q of group %q, version %q, kind %q, namespaced %v; scraped was group %q, version %q, kind %q, namespaced %v", when, it.name, r.Name(), r.Group(), r.Version(), r.Kind(), r.Namespaced(), it.own[0], it.own[1], it.own[2], it.flag)
		}
		return
	}
	o, ok := gn.Entity.(space.Object)
	if !ok || it.op.I == kEntity {
		return
	}
	if o.Name() != it.name || o.Namespace() != it.ns {
		e.Fail("content differs", "E01", "%s: %s is called %q in %q", when, it.name, o.Name(), o.Namespace())
	}
	if it.op.I == kAlone {
		if o.Resource() != nil {
			e.Fail("content differs", "E01", "%s: %s has a resource, %v", when, it.name, o.Resource().Name())
		}
		return
	}
	r, w := o.Resource(), x.res[it.res]
	if r == nil || r.UID().String() != w.UID().String() || r.Name() != w.Name() || r.Group() != w.Group() || r.Version() != w.Version() || r.Kind() != w.Kind() || r.Namespaced() != w.Namespaced() {
		e.Fail("content differs", "E01", "%s: %s has the wrong resource", when, it.name)
		return
	}
	if got, err := attrs.ToMap(ctx, r.Attrs()); err != nil || !sameMap(got, x.resAttrs[it.res]) {
		e.Fail("content differs", "E01", "%s: the resource of %s has the attributes %s (%v), scraped were %s", when, it.name, showMap(got), err, showMap(x.resAttrs[it.res]))
	}
}

func runPipeline(e *Env) {
	x := &pipe{e: e, byKey: map[string]*item{}, tmo: map[string]int{}, clean: e.P.Preset == "clean"}
	pub := time.Hour
	if e.p("pubms") > 0 {
		pub = ms(e.p("pubms"))
	}
	var err error
	fail := func(err error) bool {
		if err != nil {
			e.Fail("cannot create", "E01", "%v", err)
		}
		return err != nil
	}
	if x.b, err = membroker.New(broker.WithCap(e.p("cap")), broker.WithPubTimeout(pub)); fail(err) {
		return
	}
	if x.in, err = simpleingester.NewIngester(); fail(err) {
		return
	}
	if x.jm, err = jsonmarshal.NewMarshaler(); fail(err) {
		return
	}
	if x.cache, err = memcache.NewLinks(); fail(err) {
		return
	}
	if e.p("dir") == 1 {
		var g *memgraph.WDG
		g, err = memgraph.NewWDG()
		x.g = g
	} else {
		var g *memgraph.WUG
		g, err = memgraph.NewWUG()
		x.g = g
	}
	if fail(err) {
		return
	}
	st, err := memstore.NewStore(memstore.WithGraph(&faultyGraph{x.g}))
	if fail(err) {
		return
	}
	x.s = st
	x.full = &pstore{st, x.g}
	var ropts []netscrape.Option
	if e.p("ownopts") == 0 {
		ropts = append(ropts, netscrape.WithStore(x.full), netscrape.WithBroker(x.b), netscrape.WithMarshaler(&pmarshal{x, -1}))
	}
	if x.runner, err = netscrape.NewRunner(ropts...); fail(err) {
		return
	}
	if !x.prepare() {
		return
	}
	x.cx = newCtxs(e, len(e.P.Tasks))
	x.open()
	x.startDiggers()
	rt.Release(&x.vc)

	var ts []*rt.Task
	errs := make([]error, len(e.P.Tasks))
	ran := make([]bool, len(e.P.Tasks))
	for i := range e.P.Tasks {
		i := i
		if i < len(x.plans) && x.plans[i] != nil {
			ran[i] = true
			ts = append(ts, rt.GoNamed(fmt.Sprintf("run%d", i), func() {
				errs[i] = x.run(i)
				e.Logf("run%d: %v", i, errs[i])
			}))
			continue
		}
		ts = append(ts, rt.GoNamed(fmt.Sprintf("client%d", i), func() {
			for _, op := range e.P.Tasks[i].Ops {
				x.other(op)
			}
		}))
	}
	rt.Join(ts...)
	for i, err := range errs {
		if ran[i] && err != nil && x.clean {
			e.Fail("run fails", "E01", "run%d failed with %v although nothing went wrong", i, err)
		}
	}
	if x.srv && !x.clean {
		x.startDiggers() // whoever was stopped has a successor
	}
	x.drain("after the runs")
	x.halt()
	x.flush(true)
	for _, it := range x.items {
		if it.handled > it.okPub {
			e.Fail("digested more often than published", "E01", "%s was published %d times and digested %d times", it.name, it.okPub, it.handled)
		}
	}
	if x.clean && x.tmo["objects"]+x.tmo["links"] == 0 {
		e.count("complete scrapes compared")
		x.compare("after the runs", storable, storable)
	} else {
		there := func(it *item) bool { return it.obj != nil && it.handled > it.failed }
		x.compare("after the faults", func(it *item) bool {
			if it.lnk != nil {
				return it.handled > it.failed && there(it.from) && there(it.to) && storable(it)
			}
			return there(it)
		}, func(it *item) bool { return it.okPub > 0 })
	}
	if e.p("rerun") == 1 && len(e.viol) == 0 {
		// everything works again: one more scrape completes the picture
		x.calm = true
		x.endSession(func() { x.b.Close() })
		x.ended = 0
		rt.Settle()
		for _, it := range x.items {
			it.okPub, it.handled, it.failed, it.badPub = 0, 0, 0, 0
		}
		x.tmo = map[string]int{}
		switch e.p("change") {
		case 1:
			x.change()
		case 2:
			x.changeInPlace()
		}
		x.cx = newCtxs(e, len(e.P.Tasks))
		e.P = e.P.Clone()
		if nb, err := membroker.New(broker.WithCap(e.p("cap")), broker.WithPubTimeout(time.Hour)); e.p("pubms") > 0 && err == nil {
			x.b = nb // the old one is configured not to wait
			if e.p("ownopts") == 0 {
				x.runner, _ = netscrape.NewRunner(netscrape.WithStore(x.full), netscrape.WithBroker(x.b), netscrape.WithMarshaler(&pmarshal{x, -1}))
			}
		}
		x.open()
		x.startDiggers()
		var ts []*rt.Task
		for i := range e.P.Tasks {
			i := i
			if ran[i] {
				ts = append(ts, rt.GoNamed(fmt.Sprintf("rerun%d", i), func() {
					if err := x.run(i); err != nil {
						e.Fail("run fails", "E01", "run%d failed with %v when repeated without faults", i, err)
					}
				}))
			}
		}
		rt.Join(ts...)
		x.drain("after the second run")
		x.halt()
		x.flush(true)
		if x.tmo["objects"]+x.tmo["links"] == 0 {
			e.count("repeated scrapes compared")
			x.compare("after the second run", storable, storable)
		}
	}
	x.b.Close()
	rt.Settle()
}

// other does what happens besides the runs.
func (x *pipe) other(op Op) {
	ctx := sctx.Background()
	switch op.K {
	case "sleep":
		rt.Sleep(ms(op.B))
	case "cancel":
		x.cx.doCancel(1 + op.A%len(x.e.P.Tasks))
	case "close":
		x.endSession(func() { x.b.Close() })
	case "sessioncancel":
		x.endSession(x.session)
		rt.Settle()
	case "reopen":
		if !x.srv {
			x.open()
			x.startDiggers()
		}
	case "unsub":
		if len(x.digs) > 0 {
			d := x.digs[op.A%len(x.digs)]
			rt.Fault("unsubscribed")
			d.sub.Unsubscribe(anyCtx())
		}
	case "stop":
		if len(x.digs) > 0 {
			d := x.digs[op.A%len(x.digs)]
			rt.Fault("digester stopped")
			d.cancel()
			if op.B == 0 || x.e.p("diggers") == 1 {
				x.startDigger(d.topic, d.sub)
			}
		}
	case "nodes":
		if ns, err := x.g.Nodes(ctx); err != nil {
			x.e.Fail("graph unreadable", "E01", "Nodes failed with %v", err)
		} else {
			for _, n := range ns {
				if x.byKey[n.UID().String()] == nil {
					x.e.Fail("something nobody scraped", "E01", "the store holds %q, which was never scraped", n.UID())
				}
			}
		}
		if op.B == 2 {
			x.flush(false)
		}
	case "edges":
		if _, err := x.g.Edges(ctx); err != nil {
			x.e.Fail("graph unreadable", "E01", "Edges failed with %v", err)
		}
	case "dot":
		if d, ok := x.g.(interface{ DOT() (string, error) }); ok {
			if _, err := d.DOT(); err != nil {
				x.e.Fail("graph unreadable", "E01", "DOT failed with %v", err)
			}
		}
	case "sub":
		if len(x.items) > 0 {
			it := x.items[op.A%len(x.items)]
			if s, ok := x.g.(graph.SubGrapher); ok && it.obj != nil {
				_, err := s.SubGraph(ctx, it.obj.UID(), 2)
				if err != nil && !errors.Is(err, graph.ErrNodeNotFound) {
					x.e.Fail("graph unreadable", "E01", "SubGraph failed with %v", err)
				}
			}
		}
	}
}

var _ cache.Link = (*link.Link)(nil)
