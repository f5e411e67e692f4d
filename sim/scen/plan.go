package scen

import (
	"errors"
	"fmt"
	"math/rand"

	"github.com/milosgajdos/netscrape/pkg/plan"
	simpleplan "github.com/milosgajdos/netscrape/pkg/plan/simple"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	memuid "github.com/milosgajdos/netscrape/pkg/uuid/memory"

	"verif.local/sim/sctx"
	rt "verif.local/sim/simrt"
)

func init() {
	register(&Scenario{
		Name:    "plan",
		Props:   []string{"P01"},
		Presets: map[string][]string{"P01": {"base", "base", "hot"}},
		Gen:     genPlan,
		Run:     runPlan,
		Check:   checkPlan,
	})
}

// pstate is the reference model: the version of each resource in the plan.
type pstate [maxN]int32

func genPlan(r *rand.Rand, p *Plan) {
	p.P["n"] = 1 + r.Intn(6)
	pickNames(r, p)
	p.P["shared"] = r.Intn(2)
	if p.Preset == "hot" {
		p.P["n"] = 1 + r.Intn(2)
	}
	w := map[string]int{"add": 7, "get": 5, "all": 5, "delete": 4}
	tasks, ops := 2+r.Intn(3), 1+r.Intn(6)
	if r.Intn(5) == 0 {
		tasks, ops = 1, 3+r.Intn(12)
	}
	spread(r, p, &tasks, &ops)
	gen := func(k string) Op {
		o := Op{K: k, A: r.Intn(p.P["n"]), C: r.Intn(4), E: ctxStyle(r, p)}
		if p.P["twin"] == 1 {
			o.I = r.Intn(2)
		}
		return o
	}
	for i := 0; i <= tasks; i++ {
		var t Task
		if i == 0 {
			for j, m := 0, r.Intn(5); j < m; j++ {
				t.Ops = append(t.Ops, gen("add"))
			}
		} else {
			for j := 0; j < ops; j++ {
				t.Ops = append(t.Ops, gen(pick(r, w)))
			}
		}
		p.Tasks = append(p.Tasks, t)
	}
}

type pres struct {
	uid uuid.UID
	ver int
}

func (p *pres) UID() uuid.UID   { return p.uid }
func (p *pres) Group() string   { return planText(p.ver, 1) }
func (p *pres) Version() string { return planText(p.ver, 0) }
func (p *pres) Kind() string    { return planText(p.ver, 2) }

// planText is the version, group or kind of a resource: one of them tells the
// resources apart, the others are the same for many.
func planText(ver, field int) string {
	if ver/2%3 == field {
		return fmt.Sprint("v", ver)
	}
	return []string{"1", "g", "k"}[field]
}

type planRun struct {
	e    *Env
	n    int
	name []string
	of   []int // identifier of each version
	p    plan.Plan
	uids [maxN]uuid.UID
	res  []*slot[plan.Resource]
	hist []linOp[pstate]
	done bool
	who  string
	nctx int

	vague bool
}

func (x *planRun) ver(where string, r plan.Resource) int32 {
	if r == nil {
		x.e.Fail("no resource", "P01", "%s returned a nil resource", where)
		return 0
	}
	var v int
	n := 0
	for _, t := range []string{r.Version(), r.Group(), r.Kind()} {
		if n == 0 {
			n, _ = fmt.Sscanf(t, "v%d", &v)
		}
	}
	if n != 1 || v < 1 || v >= len(x.of) {
		x.e.Fail("foreign resource", "P01", "%s returned a resource of version %q, group %q and kind %q, which was never added", where, r.Version(), r.Group(), r.Kind())
		return 0
	}
	if r.UID().String() != x.name[x.of[v]] {
		x.e.Fail("wrong identifier", "P01", "%s returned version %d with identifier %q", where, v, r.UID())
		return 0
	}
	return int32(v)
}

func (x *planRun) rec(who int, desc string, f func() (string, func(pstate) (pstate, bool))) {
	o := linOp[pstate]{call: rt.Seq()}
	desc += x.who
	x.e.Logf("client%d: %s ...", who, desc)
	res, step := f()
	o.desc, o.step = fmt.Sprintf("client%d: %s: %s", who, desc, res), step
	x.e.Logf("%s", o.desc)
	x.e.Observe(o.desc)
	if step != nil {
		o.ret = rt.Seq()
		x.hist = append(x.hist, o)
	}
}

func (x *planRun) do(who int, op Op) {
	ctx, finish := opCtx(op.E, sctx.Background())
	defer finish()
	if op.E > 0 {
		x.nctx++
	}
	u := op.A % x.n
	// interrupted: the operation's context was cancelled and it says so
	interrupted := func(err error) bool {
		if !ctxErr(err) || x.nctx == 0 {
			return false
		}
		x.vague = true
		return true
	}
	id := func() uuid.UID {
		if x.e.p("shared") == 1 { // one object for each identifier
			return x.uids[u]
		}
		return memuid.NewFromString(x.name[u])
	}
	switch op.K {
	case "add":
		v := len(x.of)
		x.of = append(x.of, u)
		var r plan.Resource = &pres{id(), v}
		if op.C == 2 && len(x.res) > 0 { // one that was added before
			r, _ = x.res[v%len(x.res)].get()
			v = int(x.ver("the workload", r))
			u = x.of[v]
		}
		if op.C == 1 {
			if er, err := entity.NewResource("t", "n", planText(v, 1), planText(v, 0), planText(v, 2), false, entity.WithUID(id())); err == nil {
				r = er
			}
		}
		x.res = append(x.res, &slot[plan.Resource]{})
		x.res[len(x.res)-1].set(r)
		x.rec(who, fmt.Sprintf("Add(n%d v%d)", u, v), func() (string, func(pstate) (pstate, bool)) {
			if err := x.p.Add(ctx, r); interrupted(err) {
				return "?", nil
			} else if err != nil {
				x.e.Fail("unexpected error", "P01", "Add failed with %v", err)
				return "?", nil
			}
			return "ok", func(s pstate) (pstate, bool) { s[u] = int32(v); return s, true }
		})
	case "get":
		x.rec(who, fmt.Sprintf("Get(n%d)", u), func() (string, func(pstate) (pstate, bool)) {
			r, err := x.p.Get(ctx, id())
			if interrupted(err) {
				return "?", nil
			}
			if err != nil {
				if !errors.Is(err, plan.ErrResourceNotFound) {
					x.e.Fail("unexpected error", "P01", "Get failed with %v", err)
					return "?", nil
				}
				return errName(err), func(s pstate) (pstate, bool) { return s, s[u] == 0 }
			}
			v := x.ver("Get", r)
			if v == 0 {
				return "?", nil
			}
			return fmt.Sprint("v", v), func(s pstate) (pstate, bool) { return s, s[u] == v }
		})
	case "all":
		x.rec(who, "GetAll()", func() (string, func(pstate) (pstate, bool)) {
			rs, err := x.p.GetAll(ctx)
			if interrupted(err) {
				return "?", nil
			}
			if err != nil {
				x.e.Fail("unexpected error", "P01", "GetAll failed with %v", err)
				return "?", nil
			}
			var got pstate
			for _, r := range rs {
				v := x.ver("GetAll", r)
				if v == 0 {
					return "?", nil
				}
				if got[x.of[v]] != 0 {
					x.e.Fail("resource listed twice", "P01", "GetAll lists %q twice", x.name[x.of[v]])
					return "?", nil
				}
				got[x.of[v]] = v
			}
			for i := range rs { // the collection is the caller's
				rs[i] = nil
			}
			_ = append(rs, nil, nil)
			return fmt.Sprint(got), func(s pstate) (pstate, bool) { return s, s == got }
		})
	case "delete":
		x.rec(who, fmt.Sprintf("Delete(n%d)", u), func() (string, func(pstate) (pstate, bool)) {
			if err := x.p.Delete(ctx, id()); interrupted(err) {
				return "?", nil
			} else if err != nil {
				x.e.Fail("unexpected error", "P01", "Delete failed with %v", err)
				return "?", nil
			}
			return "ok", func(s pstate) (pstate, bool) { s[u] = 0; return s, true }
		})
	}
}

func runPlan(e *Env) {
	var xs []*planRun
	for i := 0; i <= e.p("twin"); i++ {
		x := &planRun{e: e, n: e.p("n"), name: names[e.p("names")], of: make([]int, 1)}
		p, err := simpleplan.NewSimple()
		if err != nil {
			e.Fail("new plan", "P01", "%v", err)
			return
		}
		if i > 0 {
			x.who = "'"
		}
		x.p = p
		for u := range x.uids {
			x.uids[u] = memuid.NewFromString(x.name[u])
		}
		xs = append(xs, x)
	}
	e.data = xs
	if len(e.P.Tasks) > 0 {
		for _, op := range e.P.Tasks[0].Ops {
			xs[op.I%len(xs)].do(0, op)
		}
	}
	var ts []*rt.Task
	for i := 1; i < len(e.P.Tasks); i++ {
		i := i
		ts = append(ts, rt.GoNamed(fmt.Sprintf("client%d", i), func() {
			for _, op := range e.P.Tasks[i].Ops {
				xs[op.I%len(xs)].do(i, op)
			}
		}))
	}
	rt.Join(ts...)
	for _, x := range xs {
		for u := 0; u < x.n; u++ {
			x.do(0, Op{K: "get", A: u})
		}
		x.do(0, Op{K: "all"})
		x.done = true
	}
}

func checkPlan(e *Env) {
	xs, _ := e.data.([]*planRun)
	for _, x := range xs {
		if !x.done || x.vague || len(e.viol) > 0 {
			return
		}
		x.judge()
	}
}

func (x *planRun) judge() {
	e := x.e
	v, deep := linearize(pstate{}, x.hist, 200000)
	switch v {
	case linBad:
		e.Fail("not linearizable", "P01", "%s", explain(x.hist, deep))
	case linOK:
		e.count("linearized histories")
	default:
		e.count("undecided histories")
	}
}
