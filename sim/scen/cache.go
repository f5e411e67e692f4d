package scen

import (
	"context"
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/cache"
	memcache "github.com/milosgajdos/netscrape/pkg/cache/memory"
	"github.com/milosgajdos/netscrape/pkg/space/link"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	memuid "github.com/milosgajdos/netscrape/pkg/uuid/memory"

	"verif.local/sim/sctx"
	rt "verif.local/sim/simrt"
)

func init() {
	register(&Scenario{
		Name:  "cache",
		Props: []string{"C01", "C02"},
		Presets: map[string][]string{
			"C01": {"base", "base", "hot", "bulk"},
			"C02": {"bulk", "bulk", "hot", "base"},
		},
		Gen:   genCache,
		Run:   runCache,
		Check: checkCache,
	})
}

// cstate is the reference model: the number of the link cached for each pair.
type cstate [maxN][maxN]int32

func genCache(r *rand.Rand, p *Plan) {
	p.P["n"] = 2 + r.Intn(5)
	pickNames(r, p)
	p.P["ids"] = r.Intn(4)
	p.P["shared"] = r.Intn(2) // identifiers are shared objects, or made anew for each use
	w := map[string]int{"put": 8, "from": 4, "to": 4, "delete": 3, "clear": 1}
	tasks, ops := 2+r.Intn(3), 1+r.Intn(5)
	bulk := map[string]int{"bput": 4, "bfrom": 4, "bto": 4, "bdelete": 3}
	switch p.Preset {
	case "hot":
		p.P["n"] = 2
	case "bulk":
		w["put"], w["clear"] = 4, 2
		for k, v := range bulk {
			w[k] = v
		}
	}
	if r.Intn(4) == 0 {
		tasks, ops = 1, 3+r.Intn(12)
	}
	spread(r, p, &tasks, &ops)
	gen := func(k string) Op {
		o := Op{K: k, A: r.Intn(p.P["n"]), B: r.Intn(p.P["n"]), C: r.Intn(4), D: r.Intn(12), E: ctxStyle(r, p)}
		if p.P["twin"] == 1 {
			o.I = r.Intn(2)
		}
		if _, ok := bulk[k]; ok {
			m := r.Intn(7)
			if p.P["wide"] == 1 {
				m = r.Intn(40)
			}
			for i := 0; i < m; i++ {
				o.X = append(o.X, r.Intn(p.P["n"]))
			}
		}
		return o
	}
	var t Task
	for i, m := 0, r.Intn(7); i < m; i++ {
		t.Ops = append(t.Ops, gen("put"))
	}
	p.Tasks = append(p.Tasks, t)
	for i := 0; i < tasks; i++ {
		var t Task
		for j := 0; j < ops; j++ {
			t.Ops = append(t.Ops, gen(pick(r, w)))
		}
		p.Tasks = append(p.Tasks, t)
	}
}

// clink is a link of the workload; the real ones come from space/link.
type clink struct {
	uid, from, to uuid.UID
	a             attrs.Attrs
}

func (l *clink) UID() uuid.UID      { return l.uid }
func (l *clink) From() uuid.UID     { return l.from }
func (l *clink) To() uuid.UID       { return l.to }
func (l *clink) Attrs() attrs.Attrs { return l.a }

type cacheRun struct {
	e     *Env
	n     int
	name  []string
	fixed []uuid.UID
	ends  [][2]int // of each link, by number
	texts []string // identifier of each link
	ids   int
	c     cache.BulkLinks
	hist  []linOp[cstate]
	put   []*slot[cache.Link]
	bulk  bool
	done  bool
	who   string
	nctx  int
	vague bool
}

func (x *cacheRun) uid(u int) uuid.UID {
	if x.fixed != nil {
		return x.fixed[u]
	}
	return memuid.NewFromString(x.name[u])
}

func (x *cacheRun) newLink(u, v, kind int) (cache.Link, int32) {
	k := len(x.ends)
	x.ends = append(x.ends, [2]int{u, v})
	// different versions of a link may well have the same identifier
	text := fmt.Sprintf("link%d", k)
	if x.ids == 1 {
		text = fmt.Sprintf("%d-%d", u, v)
	} else if x.ids == 2 {
		text = "link"
	}
	id := memuid.NewFromString(text)
	x.texts = append(x.texts, text)
	at := map[string]string{"link": strconv.Itoa(k)}
	if x.ids == 0 && k%3 != 0 { // told apart by their identifiers alone
		at = map[string]string{"relation": "owner"}
	}
	a := memattrs.NewFromMap(at)
	if kind&2 != 0 {
		if l, err := link.New(x.uid(u), x.uid(v), link.WithUID(id), link.WithAttrs(a)); err == nil {
			return l, int32(k)
		}
	}
	return &clink{id, x.uid(u), x.uid(v), a}, int32(k)
}

// num tells which link l is; 0 if none.
func (x *cacheRun) num(where string, l cache.Link) int32 {
	if l == nil {
		x.e.Fail("no link", "C01 C02", "%s returned a nil link", where)
		return 0
	}
	m, err := attrMap(l.Attrs())
	k, _ := strconv.Atoi(m["link"])
	if x.ids == 0 {
		n, _ := strconv.Atoi(strings.TrimPrefix(l.UID().String(), "link"))
		if n%3 != 0 && m["relation"] == "owner" {
			k = n
		}
	}
	if err != nil || k < 1 || k >= len(x.ends) || l.UID().String() != x.texts[k] {
		x.e.Fail("foreign link", "C01", "%s returned the link %q, which was never put", where, l.UID())
		return 0
	}
	if l.From().String() != x.name[x.ends[k][0]] || l.To().String() != x.name[x.ends[k][1]] {
		x.e.Fail("altered link", "C01", "%s returned link%d from %q to %q", where, k, l.From(), l.To())
		return 0
	}
	return int32(k)
}

// row reads a list of links that all start (or end) at u.
func (x *cacheRun) row(where string, u int, from bool, ls []cache.Link) (out [maxN]int32, ok bool) {
	for _, l := range ls {
		k := x.num(where, l)
		if k == 0 {
			return out, false
		}
		a, b := x.ends[k][0], x.ends[k][1]
		if !from {
			a, b = b, a
		}
		if a != u {
			x.e.Fail("link of another identifier", "C01 C02", "%s returned link%d from %q to %q", where, k, l.From(), l.To())
			return out, false
		}
		if out[b] != 0 {
			x.e.Fail("pair twice", "C01", "%s returned link%d and link%d for the same pair", where, out[b], k)
			return out, false
		}
		out[b] = k
	}
	// what the caller gets is the caller's
	for i := range ls {
		ls[i] = nil
	}
	_ = append(ls, nil, nil)
	return out, true
}

func (s cstate) row(u int, from bool) (out [maxN]int32) {
	for v := 0; v < maxN; v++ {
		if from {
			out[v] = s[u][v]
		} else {
			out[v] = s[v][u]
		}
	}
	return out
}

func (x *cacheRun) rec(who int, desc string, f func() (string, func(cstate) (cstate, bool))) {
	o := linOp[cstate]{call: rt.Seq()}
	desc += x.who
	x.e.Logf("client%d: %s ...", who, desc)
	res, step := f()
	o.desc, o.step = fmt.Sprintf("client%d: %s: %s", who, desc, res), step
	x.e.Logf("%s", o.desc)
	x.e.Observe(o.desc)
	if step != nil {
		o.ret = rt.Seq()
		x.hist = append(x.hist, o)
	}
}

func (x *cacheRun) do(who int, op Op) {
	ctx, finish := opCtx(op.E, sctx.Background())
	defer finish()
	if op.E > 0 {
		x.nctx++
	}
	u, v := op.A, op.B
	upsert := op.C&1 != 0
	var os []cache.Option
	if upsert {
		os = append(os, cache.WithUpsert())
	}
	ok := func(what string, err error) bool {
		if ctxErr(err) && x.nctx > 0 {
			x.vague = true
			return false
		}
		if err != nil {
			x.e.Fail("unexpected error", "C01", "%s failed with %v", what, err)
		}
		return err == nil
	}
	put := func(s *cstate, k int32) {
		a, b := x.ends[k][0], x.ends[k][1]
		if s[a][b] == 0 || upsert {
			s[a][b] = k
		}
	}
	del := func(s *cstate, u int) {
		for i := 0; i < maxN; i++ {
			s[u][i], s[i][u] = 0, 0
		}
	}
	switch op.K {
	case "put":
		l, k := x.newLink(u, v, op.C)
		if op.D == 7 && len(x.put) > 0 { // a link that was put before
			l, _ = x.put[int(k)%len(x.put)].get()
			k = x.num("the workload", l)
			u, v = x.ends[k][0], x.ends[k][1]
		}
		x.put = append(x.put, &slot[cache.Link]{})
		x.put[len(x.put)-1].set(l)
		what := fmt.Sprintf("Put(link%d n%d->n%d, upsert %v)", k, u, v, upsert)
		x.rec(who, what, func() (string, func(cstate) (cstate, bool)) {
			if !ok(what, x.c.Put(ctx, l, os...)) {
				return "?", nil
			}
			return "ok", func(s cstate) (cstate, bool) { put(&s, k); return s, true }
		})
	case "bput":
		x.bulk = true
		var ls []cache.Link
		var ks []int32
		for i := 0; i+1 < len(op.X); i += 2 {
			l, k := x.newLink(op.X[i], op.X[i+1], op.C)
			ls, ks = append(ls, l), append(ks, k)
			if op.D%4 == 1 && i/2%3 == op.D%3 { // the same link more than once
				j := len(ls) - 1
				if op.D > 6 {
					j = op.D % len(ls)
				}
				ls, ks = append(ls, ls[j]), append(ks, ks[j])
			}
		}
		what := fmt.Sprintf("BulkPut(link%v %v, upsert %v)", ks, op.X, upsert)
		x.rec(who, what, func() (string, func(cstate) (cstate, bool)) {
			if !ok(what, x.c.BulkPut(ctx, ls, os...)) {
				return "?", nil
			}
			return "ok", func(s cstate) (cstate, bool) {
				for _, k := range ks {
					put(&s, k)
				}
				return s, true
			}
		})
	case "from", "to":
		from := op.K == "from"
		what := fmt.Sprintf("Get%s(n%d)", map[bool]string{true: "From", false: "To"}[from], u)
		x.rec(who, what, func() (string, func(cstate) (cstate, bool)) {
			ls, err := x.get(ctx, u, from)
			if !ok(what, err) {
				return "?", nil
			}
			got, is := x.row(what, u, from, ls)
			if !is {
				return "?", nil
			}
			return fmt.Sprint(got), func(s cstate) (cstate, bool) { return s, s.row(u, from) == got }
		})
	case "bfrom", "bto":
		x.bulk = true
		from := op.K == "bfrom"
		what := fmt.Sprintf("BulkGet%s(%v)", map[bool]string{true: "From", false: "To"}[from], op.X)
		x.rec(who, what, func() (string, func(cstate) (cstate, bool)) {
			var uids []uuid.UID
			for _, u := range op.X {
				uids = append(uids, x.uid(u))
			}
			get := x.c.BulkGetFrom
			if !from {
				get = x.c.BulkGetTo
			}
			m, err := get(ctx, uids)
			if !ok(what, err) {
				return "?", nil
			}
			rows := map[int][maxN]int32{}
			for _, u := range op.X {
				rows[u] = [maxN]int32{}
			}
			seen := map[int]bool{}
			// in the order of the request: runs must repeat exactly
			for i, id := range uids {
				ls, is := m[id]
				if !is {
					continue
				}
				delete(m, id)
				got, is := x.row(what, op.X[i], from, ls)
				if !is {
					return "?", nil
				}
				if seen[op.X[i]] && rows[op.X[i]] != got {
					x.e.Fail("two answers", "C01 C02", "%s returned two lists for n%d: %v and %v", what, op.X[i], rows[op.X[i]], got)
				}
				if got != ([maxN]int32{}) || !seen[op.X[i]] {
					rows[op.X[i]] = got
				}
				seen[op.X[i]] = true
			}
			if len(m) > 0 {
				// keys may be other objects of the same text
				var left []string
				byText := map[string][]cache.Link{}
				for id, ls := range m {
					left = append(left, id.String())
					byText[id.String()] = ls
				}
				sort.Strings(left)
				for _, text := range left {
					u := -1
					for _, w := range op.X {
						if x.name[w] == text {
							u = w
						}
					}
					if u < 0 {
						x.e.Fail("unrequested identifier", "C01 C02", "%s returned links for %q", what, text)
						return "?", nil
					}
					got, is := x.row(what, u, from, byText[text])
					if !is {
						return "?", nil
					}
					rows[u] = got
				}
			}
			return fmt.Sprint(rows), func(s cstate) (cstate, bool) {
				for u, got := range rows {
					if s.row(u, from) != got {
						return s, false
					}
				}
				return s, true
			}
		})
	case "delete":
		what := fmt.Sprintf("Delete(n%d)", u)
		x.bulk = true
		x.rec(who, what, func() (string, func(cstate) (cstate, bool)) {
			if !ok(what, x.c.Delete(ctx, x.uid(u))) {
				return "?", nil
			}
			return "ok", func(s cstate) (cstate, bool) { del(&s, u); return s, true }
		})
	case "bdelete":
		x.bulk = true
		what := fmt.Sprintf("BulkDelete(%v)", op.X)
		x.rec(who, what, func() (string, func(cstate) (cstate, bool)) {
			var uids []uuid.UID
			for _, u := range op.X {
				uids = append(uids, x.uid(u))
			}
			if !ok(what, x.c.BulkDelete(ctx, uids)) {
				return "?", nil
			}
			return "ok", func(s cstate) (cstate, bool) {
				for _, u := range op.X {
					del(&s, u)
				}
				return s, true
			}
		})
	case "clear":
		x.bulk = true
		x.rec(who, "Clear()", func() (string, func(cstate) (cstate, bool)) {
			if !ok("Clear()", x.c.Clear(ctx)) {
				return "?", nil
			}
			return "ok", func(s cstate) (cstate, bool) { return cstate{}, true }
		})
	}
}

func (x *cacheRun) get(ctx context.Context, u int, from bool) ([]cache.Link, error) {
	if from {
		return x.c.GetFrom(ctx, x.uid(u))
	}
	return x.c.GetTo(ctx, x.uid(u))
}

// final reads both indexes when nothing else runs.
func (x *cacheRun) final() {
	x.rec(0, "both indexes", func() (string, func(cstate) (cstate, bool)) {
		var a, b cstate
		for u := 0; u < x.n; u++ {
			for _, from := range []bool{true, false} {
				ls, err := x.get(sctx.Background(), u, from)
				if err != nil {
					x.e.Fail("unexpected error", "C01", "reading n%d: %v", u, err)
					return "?", nil
				}
				row, ok := x.row("the final reading", u, from, ls)
				if !ok {
					return "?", nil
				}
				for v, k := range row {
					if from {
						a[u][v] = k
					} else {
						b[v][u] = k
					}
				}
			}
		}
		if a != b {
			x.e.Fail("indexes disagree", "C02 C01", "by origin the cache holds %v, by target %v", a, b)
			return "?", nil
		}
		return fmt.Sprint(a), func(s cstate) (cstate, bool) { return s, s == a }
	})
}

func runCache(e *Env) {
	var xs []*cacheRun
	for i := 0; i <= e.p("twin"); i++ {
		x := newCacheRun(e)
		if x == nil {
			return
		}
		if i > 0 {
			x.who = "'"
		}
		xs = append(xs, x)
	}
	e.data = xs
	if len(e.P.Tasks) > 0 {
		for _, op := range e.P.Tasks[0].Ops {
			xs[op.I%len(xs)].do(0, op)
		}
	}
	var ts []*rt.Task
	for i := 1; i < len(e.P.Tasks); i++ {
		i := i
		ts = append(ts, rt.GoNamed(fmt.Sprintf("client%d", i), func() {
			for _, op := range e.P.Tasks[i].Ops {
				xs[op.I%len(xs)].do(i, op)
			}
		}))
	}
	rt.Join(ts...)
	for _, x := range xs {
		x.final()
		x.done = true
	}
}

func newCacheRun(e *Env) *cacheRun {
	x := &cacheRun{e: e, n: e.p("n"), name: names[e.p("names")], ends: make([][2]int, 1), texts: make([]string, 1), ids: e.p("ids")}
	if e.p("shared") == 1 {
		for u := 0; u < x.n; u++ {
			x.fixed = append(x.fixed, memuid.NewFromString(x.name[u]))
		}
	}
	c, err := memcache.NewLinks()
	if err != nil {
		e.Fail("new cache", "C01", "%v", err)
		return nil
	}
	x.c = c
	return x
}

func checkCache(e *Env) {
	xs, _ := e.data.([]*cacheRun)
	for _, x := range xs {
		if !x.done || x.vague || len(e.viol) > 0 {
			return
		}
		x.judge()
	}
}

func (x *cacheRun) judge() {
	e := x.e
	v, deep := linearize(cstate{}, x.hist, 200000)
	switch v {
	case linBad:
		props := "C01"
		if x.bulk {
			props = "C01 C02"
		}
		e.Fail("not linearizable", props, "%s", explain(x.hist, deep))
	case linOK:
		e.count("linearized histories")
	default:
		e.count("undecided histories")
	}
}
