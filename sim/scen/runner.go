package scen

import (
	"context"
	"errors"
	"fmt"
	"math/rand"

	"github.com/milosgajdos/netscrape"
	"github.com/milosgajdos/netscrape/pkg/broker"
	"github.com/milosgajdos/netscrape/pkg/plan"
	simpleplan "github.com/milosgajdos/netscrape/pkg/plan/simple"
	"github.com/milosgajdos/netscrape/pkg/store"

	"verif.local/sim/sctx"
	rt "verif.local/sim/simrt"
)

func init() {
	register(&Scenario{
		Name:    "runner",
		Props:   []string{"R01"},
		Presets: map[string][]string{"R01": {"run"}},
		Gen:     genRunner,
		Run:     runRunner,
	})
}

func genRunner(r *rand.Rand, p *Plan) {
	for _, k := range []string{"store", "broker", "marshaler"} {
		p.P[k] = r.Intn(3) // constructor's: 0 none
	}
	p.P["prefixes"] = r.Intn(2)
	n := 1 + r.Intn(4)
	for i := 0; i < n; i++ {
		var t Task
		max := 3
		if r.Intn(8) == 0 {
			max = 12
		}
		for j, m := 0, 1+r.Intn(max); j < m; j++ {
			// A plan (0 none), B how the scraper behaves, C shared option list, D how it fails, X call options
			t.Ops = append(t.Ops, Op{K: "run", A: r.Intn(4), B: r.Intn(8), C: r.Intn(3), D: r.Intn(nErrs), X: []int{runOpt(r), runOpt(r), runOpt(r)}})
		}
		p.Tasks = append(p.Tasks, t)
	}
}

// runOpt picks the value of a run's option: 0 does not give it, 5 gives none.
func runOpt(r *rand.Rand) int {
	if r.Intn(8) == 0 {
		return 5
	}
	return r.Intn(4)
}

type fakeStore struct {
	store.Store
	n int
}

// recScraper records what it is called with.
type recScraper struct {
	calls int
	ctx   context.Context
	plan  plan.Plan
	opts  netscrape.Options
	do    func() error
}

func (s *recScraper) Scrape(ctx context.Context, p plan.Plan, opts ...netscrape.Option) error {
	s.calls++
	s.ctx, s.plan = ctx, p
	rt.Yield("scrape")
	s.opts = netscrape.Options{}
	for _, apply := range opts {
		apply(&s.opts)
	}
	return s.do()
}

func runRunner(e *Env) {
	stores := []store.Store{nil}
	brokers := []broker.Broker{nil}
	marshalers := []broker.Marshaler{nil}
	for i := 1; i <= 4; i++ {
		stores = append(stores, &fakeStore{n: i})
		brokers = append(brokers, &fakeBroker{e: e})
		marshalers = append(marshalers, &fakeMarshaler{e: e, name: fmt.Sprint(i)})
	}
	var ropts []netscrape.Option
	if rt.Choose(6) == 0 && e.p("store") > 0 && e.p("broker") > 0 && e.p("marshaler") > 0 {
		// the last ones count
		ropts = append(ropts, netscrape.WithStore(&fakeStore{n: 5}), netscrape.WithBroker(&fakeBroker{e: e}), netscrape.WithMarshaler(&fakeMarshaler{e: e, name: "replaced"}))
	}
	if i := e.p("store"); i > 0 {
		ropts = append(ropts, netscrape.WithStore(stores[i]))
	}
	if i := e.p("broker"); i > 0 {
		ropts = append(ropts, netscrape.WithBroker(brokers[i]))
	}
	if i := e.p("marshaler"); i > 0 {
		ropts = append(ropts, netscrape.WithMarshaler(marshalers[i]))
	}
	r, err := netscrape.NewRunner(ropts...)
	if err != nil {
		e.Fail("new runner", "R01", "NewRunner failed: %v", err)
		return
	}
	var plans []plan.Plan
	for i := 0; i < 3; i++ {
		p, _ := simpleplan.NewSimple()
		plans = append(plans, p)
	}
	// option lists that several runs share, with room behind them
	var lists [3][]netscrape.Option
	var listOf [3][3]int
	prefixes := e.p("prefixes") == 1
	base := make([]netscrape.Option, 0, 8)
	for i := range lists {
		if prefixes { // of one list
			if i > 0 {
				listOf[i] = listOf[i-1]
			}
			k := 1 + i
			listOf[i][i] = k
			base = append(base, []netscrape.Option{netscrape.WithStore(stores[k]), netscrape.WithBroker(brokers[k]), netscrape.WithMarshaler(marshalers[k])}[i])
			lists[i] = base[:i+1]
			continue
		}
		lists[i] = make([]netscrape.Option, 0, 8)
		for j := 0; j < 3; j++ {
			if (i+j)%2 == 0 {
				continue
			}
			k := 1 + (i+j)%4
			listOf[i][j] = k
			lists[i] = append(lists[i], []netscrape.Option{netscrape.WithStore(stores[k]), netscrape.WithBroker(brokers[k]), netscrape.WithMarshaler(marshalers[k])}[j])
		}
	}
	seq := 0
	var run func(task int, op Op)
	run = func(task int, op Op) {
		seq++
		id := fmt.Sprintf("run%d", seq)
		base, cancel := sctx.WithCancel(sctx.Background())
		defer cancel()
		ctx := sctx.WithValue(base, ctxKey{}, id)
		s := &recScraper{}
		var want error
		switch op.B {
		case 1:
			want = someError(op.D, id)
		case 2:
			want = context.Canceled
		case 6:
			cancel()
			switch op.D % 3 {
			case 0:
				want = context.Canceled
			case 1:
				want = someError(op.D, id)
			}
		case 7: // cancelled meanwhile, fails otherwise
			want = someError(op.D, id)
		}
		s.do = func() error {
			if rt.Choose(3) == 0 {
				rt.Sleep(ms(1))
			}
			switch op.B {
			case 1:
				rt.Fault("scraper error")
			case 2:
				rt.Fault("context cancelled")
				cancel()
				rt.Yield("cancelled")
				if s.ctx.Err() == nil {
					e.Fail("context not handed on", "R01", "%s: the scraper's context does not end with the caller's", id)
				}
				return s.ctx.Err()
			case 7:
				rt.Fault("context cancelled")
				cancel()
				rt.Yield("cancelled")
			case 4:
				if op.A < 3 {
					run(task, Op{K: "run", A: op.A + 1, B: op.D % 8, C: op.C, D: op.D, X: []int{op.X[1], op.X[2], op.X[0]}})
				}
			case 6: // cancelled before
				if s.ctx.Err() == nil {
					e.Fail("context not handed on", "R01", "%s: the scraper's context does not end with the caller's", id)
				}
			default:
				if s.ctx.Err() != nil {
					e.Fail("foreign cancellation", "R01", "%s: the scraper's context ended without reason", id)
				}
			}
			return want
		}
		var opts []netscrape.Option
		ws, wb, wm := e.p("store"), e.p("broker"), e.p("marshaler")
		if op.B == 5 || op.D == 5 {
			opts = lists[op.C]
			for j, w := range []*int{&ws, &wb, &wm} {
				if listOf[op.C][j] > 0 {
					*w = listOf[op.C][j]
				}
			}
			op.X = []int{0, 0, 0}
		}
		if len(opts) == 0 && op.C == 2 { // the last option of a kind counts
			for i := 0; i < 1+op.D%7; i++ {
				k := 1 + (i+op.D)%4
				switch (i + op.B) % 3 {
				case 0:
					ws, opts = k, append(opts, netscrape.WithStore(stores[k]))
				case 1:
					wb, opts = k, append(opts, netscrape.WithBroker(brokers[k]))
				case 2:
					wm, opts = k, append(opts, netscrape.WithMarshaler(marshalers[k]))
				}
			}
		}
		if op.X[0] > 0 {
			ws = op.X[0] % 5
			opts = append(opts, netscrape.WithStore(stores[ws]))
		}
		if op.X[1] > 0 {
			wb = op.X[1] % 5
			opts = append(opts, netscrape.WithBroker(brokers[wb]))
		}
		if op.X[2] > 0 {
			wm = op.X[2] % 5
			opts = append(opts, netscrape.WithMarshaler(marshalers[wm]))
		}
		var p plan.Plan
		if op.A > 0 {
			p = plans[op.A-1]
		}
		e.Logf("client%d: %s: plan %d, store %d, broker %d, marshaler %d, scraper returns %v", task, id, op.A, ws, wb, wm, want)
		var got error
		if pan := catch(func() { got = r.Run(ctx, p, s, opts...) }); pan != nil {
			e.Fail("run panics", "R01", "%s panicked: %v", id, pan)
			return
		}
		e.Logf("client%d: %s: %v", task, id, got)
		e.Observe(fmt.Sprint(id, got))
		if p == nil {
			if !errors.Is(got, netscrape.ErrMissingPlan) {
				e.Fail("missing plan accepted", "R01", "%s has no plan and returned %v", id, got)
			}
			if s.calls > 0 {
				e.Fail("scraped without a plan", "R01", "%s has no plan, the scraper was called", id)
			}
			return
		}
		if s.calls != 1 {
			e.Fail("scraper calls", "R01", "%s called the scraper %d times", id, s.calls)
			return
		}
		if got != want {
			e.Fail("scraper error changed", "R01", "%s returned %v, its scraper %v", id, got, want)
		}
		if s.ctx.Value(ctxKey{}) != id {
			e.Fail("wrong context", "R01", "%s: the scraper got the context of %v", id, s.ctx.Value(ctxKey{}))
		}
		if s.plan != p {
			e.Fail("wrong plan", "R01", "%s: the scraper did not get the run's plan", id)
		}
		if s.opts.Store != stores[ws] {
			e.Fail("wrong store", "R01", "%s: the scraper got store %v, want number %d", id, s.opts.Store, ws)
		}
		if s.opts.Broker != brokers[wb] {
			e.Fail("wrong broker", "R01", "%s: the scraper did not get broker number %d (given: %v)", id, wb, s.opts.Broker != nil)
		}
		if s.opts.Marshaler != marshalers[wm] {
			e.Fail("wrong marshaler", "R01", "%s: the scraper did not get marshaler number %d (given: %v)", id, wm, s.opts.Marshaler != nil)
		}
	}
	e.RunTasks(run)
}
