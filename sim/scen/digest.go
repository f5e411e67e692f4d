package scen

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"time"

	"github.com/milosgajdos/netscrape/pkg/broker"
	"github.com/milosgajdos/netscrape/pkg/broker/digester"
	simpledigester "github.com/milosgajdos/netscrape/pkg/broker/digester/simple"
	membroker "github.com/milosgajdos/netscrape/pkg/broker/memory"

	"verif.local/sim/sctx"
	rt "verif.local/sim/simrt"
)

func init() {
	register(&Scenario{
		Name:    "digest",
		Props:   []string{"B07"},
		Presets: map[string][]string{"B07": {"script", "live", "live"}},
		Gen:     genDigest,
		Run: func(e *Env) {
			if e.P.Preset == "script" {
				runDigestScript(e)
			} else {
				runDigestLive(e)
			}
		},
		Check: checkDigestLive,
	})
}

func genDigest(r *rand.Rand, p *Plan) {
	p.P["ownhandler"] = r.Intn(2) // the digester has a handler of its own
	if p.Preset == "script" {
		n := 1 + r.Intn(3)
		for i := 0; i < n; i++ {
			var t Task
			m := 1 + r.Intn(2)
			for j := 0; j < m; j++ {
				// A messages; B how it ends; C failing handler call; D call handler
				op := Op{K: "digest", A: r.Intn(6), B: r.Intn(8), D: r.Intn(2), X: []int{r.Intn(2 * nErrs)}}
				if r.Intn(12) == 0 {
					op.A = size(r, []int{20, 70, 130, 300}[r.Intn(4)], 2, 1000)
				}
				if p.P["ownhandler"] == 0 {
					op.D = 1
				}
				if op.A > 0 && r.Intn(3) == 0 {
					op.C = 1 + r.Intn(op.A)
				}
				t.Ops = append(t.Ops, op)
			}
			p.Tasks = append(p.Tasks, t)
		}
		return
	}
	p.P["cap"] = []int{0, 0, 1, 2, 5}[r.Intn(5)]
	p.P["topics"] = 1 + r.Intn(2)
	p.P["names"] = r.Intn(len(topicNames))
	if r.Intn(5) == 0 {
		p.Stall = 20
	}
	if r.Intn(3) == 0 { // contexts that expire
		p.P["deadline1"] = []int{1, 20, 300, 4999, 5000, 9000, 60_000}[r.Intn(7)]
		p.P["deadline2"] = []int{0, 5, 10_000}[r.Intn(3)]
	}
	nd := 1 + r.Intn(3)
	for i := 0; i < nd; i++ {
		// A topic, B context, C failing handler call, D call handler, X[0] handler style
		op := Op{K: "digest", A: r.Intn(p.P["topics"]), B: r.Intn(3), D: r.Intn(2), X: []int{r.Intn(3), r.Intn(2 * nErrs)}}
		if p.P["ownhandler"] == 0 {
			op.D = 1
		}
		if r.Intn(4) == 0 {
			op.C = 1 + r.Intn(4)
		}
		p.Tasks = append(p.Tasks, Task{Ops: []Op{op}})
	}
	np := 1 + r.Intn(3)
	for i := 0; i < np; i++ {
		var t Task
		for j, m := 0, 1+r.Intn(6); j < m; j++ {
			t.Ops = append(t.Ops, Op{K: "pub", A: r.Intn(p.P["topics"]), B: []int{0, 10, 100}[r.Intn(3)], D: r.Intn(6)})
			if r.Intn(5) == 0 {
				t.Ops = append(t.Ops, Op{K: "sleep", B: wait(r, []int{1, 10, 4000, 6000}[r.Intn(4)])})
			}
		}
		p.Tasks = append(p.Tasks, t)
	}
	var t Task
	for j, m := 0, r.Intn(4); j < m; j++ {
		t.Ops = append(t.Ops, Op{K: "sleep", B: wait(r, []int{0, 1, 7, 50, 3000}[r.Intn(5)])})
		switch r.Intn(5) {
		case 0, 1:
			t.Ops = append(t.Ops, Op{K: "cancel", C: 1 + r.Intn(2)})
		case 2, 3:
			t.Ops = append(t.Ops, Op{K: "unsub", A: r.Intn(nd)})
		case 4:
			t.Ops = append(t.Ops, Op{K: "close"})
		}
	}
	p.Tasks = append(p.Tasks, t)
}

const nErrs = 7

// someError makes an error for what fails, which may look like an error of the broker or of a context.
func someError(kind int, what string) error {
	switch kind {
	case 1:
		return broker.ErrTimeout
	case 2:
		return context.Canceled
	case 3:
		return context.DeadlineExceeded
	case 4:
		return broker.ErrSubscriptionInactive
	case 5:
		return broker.ErrNotConnected
	case 6:
		return fmt.Errorf("%s fails: %w", what, []error{io.EOF, broker.ErrTimeout, context.Canceled}[len(what)%3])
	}
	return fmt.Errorf("%s fails", what)
}

// fakeSub is a subscription that follows a script.
type fakeSub struct {
	broker.Subscriber // whatever else the interface has
	e                 *Env
	name              string
	msgs              []broker.Message
	next              int
	end               error // returned after the messages; nil: wait for the context
	calls             int
	failed            error // error returned so far
	after             int   // receives after the context was cancelled
	overlap           bool
	inside            bool
	received          []string
}

func (s *fakeSub) ID(context.Context) (string, error)                      { return s.name, nil }
func (s *fakeSub) Topic(context.Context, ...broker.Option) (string, error) { return "t", nil }
func (s *fakeSub) Unsubscribe(context.Context, ...broker.Option) error     { return nil }
func (s *fakeSub) Receive(ctx context.Context, h broker.Handler, _ ...broker.Option) error {
	rt.Yield("fake receive")
	s.calls++
	if s.inside {
		s.overlap = true
	}
	s.inside = true
	defer func() { s.inside = false }()
	if s.failed != nil {
		s.e.Fail("receive after an error", "B07", "%s: the digester went on receiving after %v", s.name, s.failed)
		if s.calls > 200 {
			rt.Block("a digester that does not stop")
		}
		return s.failed
	}
	if ctx.Err() != nil {
		s.after++
		if s.after > 60 {
			s.e.Fail("digester spins", "B07", "%s: the digester called Receive %d times after its context was cancelled", s.name, s.after)
			s.failed = errors.New("stop")
			return s.failed
		}
		if s.next >= len(s.msgs) || rt.Choose(2) == 0 {
			return nil
		}
	}
	if s.next < len(s.msgs) {
		m := s.msgs[s.next]
		s.next++
		s.received = append(s.received, msgKey(m))
		if err := h(ctx, m); err != nil {
			s.failed = err
			return err
		}
		return nil
	}
	if s.end != nil {
		s.failed = s.end
		return s.end
	}
	for ctx.Err() == nil {
		rt.Sleep(ms(1))
	}
	return nil
}

func runDigestScript(e *Env) {
	type hcall struct{ who, key string }
	var calls = map[string][]hcall{} // by message prefix (digest call)
	ends := map[string]error{}       // failing message -> error
	mk := func(who string) broker.Handler {
		return func(ctx context.Context, m broker.Message) error {
			rt.Yield("handler")
			d := m.Attrs["digest"]
			calls[d] = append(calls[d], hcall{who, msgKey(m)})
			e.Logf("handler %s gets %s", who, msgKey(m))
			if rt.Choose(4) == 0 {
				rt.Sleep(ms(1))
			}
			return ends[m.Attrs["id"]]
		}
	}
	var dopts []digester.Option
	if e.p("ownhandler") == 1 {
		if rt.Choose(4) == 0 {
			// the last one counts
			dopts = append(dopts, digester.WithHandler(mk("replaced")))
		}
		dopts = append(dopts, digester.WithHandler(mk("own")))
	}
	d, err := simpledigester.NewDigester(dopts...)
	if err != nil {
		e.Fail("new digester", "B07", "NewDigester failed: %v", err)
		return
	}
	n := 0
	e.RunTasks(func(task int, op Op) {
		n++
		name := fmt.Sprintf("d%d", n)
		s := &fakeSub{e: e, name: name}
		for i := 0; i < op.A; i++ {
			id := fmt.Sprintf("%s.%d", name, i)
			m := broker.Message{UID: id, Type: broker.Type(i % 5), Data: []byte(id), Attrs: map[string]string{"digest": name, "id": id}}
			switch i % 7 {
			case 3:
				m.Data = nil
			case 4:
				m.Data, m.UID = []byte{}, ""
			case 5:
				m.Data = []byte("same")
			}
			s.msgs = append(s.msgs, m)
			if op.C == i+1 {
				rt.Fault("handler error")
				ends[id] = someError(op.X[0], "handler of "+id)
			}
		}
		ctx, cancel := sctx.WithCancel(sctx.Background())
		defer cancel()
		switch op.B {
		case 0:
			s.end = broker.ErrTimeout
		case 1:
			s.end = broker.ErrSubscriptionInactive
		case 2:
			s.end = fmt.Errorf("receive fails in %s", name)
		case 4:
			s.end = context.Canceled
		case 5:
			s.end = context.DeadlineExceeded
		case 6:
			s.end = fmt.Errorf("receive in %s: %w", name, broker.ErrTimeout)
		case 3:
			rt.GoNamed("canceller", func() {
				rt.Sleep(ms(rt.Choose(4)))
				rt.Fault("context cancelled")
				e.Logf("%s: cancel", name)
				cancel()
			})
		case 7: // a context that expires
			rt.Fault("context deadline")
			ctx, cancel = sctx.WithTimeout(ctx, ms(rt.Choose(6)))
			defer cancel()
		}
		var opts []digester.Option
		want := "own"
		if op.D == 1 {
			want = "call " + name
			opts = append(opts, digester.WithHandler(mk(want)))
		}
		e.Logf("client%d: digest %s: %d messages, end %v, handler fails at %d", task, name, op.A, s.end, op.C)
		err := d.Digest(ctx, s, opts...)
		e.Logf("client%d: digested %s: %v", task, name, err)
		e.Observe(fmt.Sprint(name, err, len(s.received)))
		got := calls[name]
		if len(got) != len(s.received) {
			e.Fail("not every message handled once", "B07", "%s: took %d messages, handled %d", name, len(s.received), len(got))
			return
		}
		for i, g := range got {
			if g.key != s.received[i] {
				e.Fail("wrong message handled", "B07", "%s: message %d is %s, handled %s", name, i, s.received[i], g.key)
			}
			if g.who != want {
				e.Fail("wrong handler", "B07", "%s: message %d was handled by %q instead of %q", name, i, g.who, want)
			}
		}
		if s.overlap {
			e.Fail("overlapping receives", "B07", "%s: the digester received concurrently with itself", name)
		}
		switch {
		case s.failed != nil:
			if err != s.failed {
				e.Fail("digest error", "B07", "%s: returned %v instead of %v", name, err, s.failed)
			}
		case ctx.Err() == nil:
			e.Fail("digest returns early", "B07", "%s: returned %v although nothing had ended it", name, err)
		}
	})
}

// ---- digesters on a real broker ----

type digRec struct {
	op        Op
	s         *subRec
	ctx       int
	tcall     time.Duration
	tret      time.Duration
	call, ret int64
	err       error
	want      string
	fail      error
	busy      time.Duration // when the last handler call ended
	last      time.Duration // when the last receive began
	got       []string
}

type digRun struct {
	br     *brokerRun
	digs   []*digRec
	byTask map[int][]*digRec
	byMsg  map[string]*digRec // who took the message
	done   bool
}

// tapSub notes which digest takes which message of a real subscription.
type tapSub struct {
	broker.Subscriber
	dr *digRun
	g  *digRec
}

func (s *tapSub) Receive(ctx context.Context, h broker.Handler, opts ...broker.Option) error {
	return s.Subscriber.Receive(ctx, func(ctx context.Context, m broker.Message) error {
		s.dr.byMsg[msgKey(m)] = s.g
		return h(ctx, m)
	}, opts...)
}

func runDigestLive(e *Env) {
	br := &brokerRun{e: e, byKey: map[string]*pubRec{}, stalls: e.P.Stall > 0, name: topicNames[e.p("names")]}
	dr := &digRun{br: br, byTask: map[int][]*digRec{}, byMsg: map[string]*digRec{}}
	e.data = dr
	b, err := membroker.New(broker.WithCap(e.p("cap")))
	if err != nil {
		e.Fail("new broker", "B07", "New failed: %v", err)
		return
	}
	br.b = b
	br.ctx = newCtxs(e, 2)
	for i := 1; i <= 2; i++ {
		if d := e.p(fmt.Sprint("deadline", i)); d > 0 {
			br.ctx.deadline(i, ms(d))
		}
	}
	br.octx = newCtxs(e, 1)
	br.open(0)
	mk := func(who string) broker.Handler {
		return func(ctx context.Context, m broker.Message) error {
			k := msgKey(m)
			d := dr.byMsg[k]
			e.Logf("handler %s gets %s", who, k)
			if d == nil {
				e.Fail("handled without receiving", "B07", "%s was handled by %q, but no digest had received it", k, who)
				return nil
			}
			d.last = rt.Now()
			if d.want != who {
				e.Fail("wrong handler", "B07", "%s was handled by %q instead of %q", k, who, d.want)
			}
			if d.fail != nil {
				e.Fail("handled after an error", "B07", "%s was handled after the handler had failed", k)
			}
			d.got = append(d.got, k)
			r := &recvRec{sub: d.s, n: 1, th: rt.Now(), hstart: rt.Seq(), call: rt.Seq(), tcall: rt.Now()}
			br.got(r, k)
			switch d.op.X[0] {
			case 1:
				rt.Sleep(ms(5))
			case 2:
				rt.Yield("handler")
			}
			d.busy = rt.Now()
			if d.op.C > 0 && len(d.got) == d.op.C {
				rt.Fault("handler error")
				d.fail = someError(d.op.X[1], "handler of "+k)
				return d.fail
			}
			return nil
		}
	}
	var dopts []digester.Option
	if e.p("ownhandler") == 1 {
		if rt.Choose(4) == 0 {
			// the last one counts
			dopts = append(dopts, digester.WithHandler(mk("replaced")))
		}
		dopts = append(dopts, digester.WithHandler(mk("own")))
	}
	d, err := simpledigester.NewDigester(dopts...)
	if err != nil {
		e.Fail("new digester", "B07", "NewDigester failed: %v", err)
		return
	}
	for i, t := range e.P.Tasks {
		for _, op := range t.Ops {
			if op.K == "digest" {
				g := &digRec{op: op, s: br.subscribe(op.A, 0), ctx: op.B, want: "own"}
				dr.digs = append(dr.digs, g)
				dr.byTask[i] = append(dr.byTask[i], g)
			}
		}
	}
	e.RunTasks(func(task int, op Op) {
		switch op.K {
		case "digest":
			g := dr.byTask[task][0]
			dr.byTask[task] = dr.byTask[task][1:]
			if g.s.err != nil {
				return
			}
			var opts []digester.Option
			if op.D == 1 {
				g.want = fmt.Sprintf("call %d", task)
				opts = append(opts, digester.WithHandler(mk(g.want)))
			}
			g.call, g.tcall = rt.Seq(), rt.Now()
			g.last = g.tcall
			e.Logf("client%d: digest topic %d with ctx %d", task, op.A, op.B)
			g.err = d.Digest(br.ctx.get(op.B), &tapSub{g.s.s, dr, g}, opts...)
			g.ret, g.tret = rt.Seq(), rt.Now()
			e.Logf("client%d: digested: %v", task, g.err)
		case "pub":
			br.pub(task, Op{A: op.A, B: op.B, D: op.D})
		case "sleep":
			rt.Sleep(span(op.B))
		case "cancel":
			br.ctx.doCancel(op.C)
		case "unsub":
			if op.A < len(dr.digs) && dr.digs[op.A].s.err == nil {
				br.unsub(dr.digs[op.A].s)
			}
		case "close":
			br.close()
		}
	})
	rt.Calm()
	for t := 0; t < e.p("topics"); t++ {
		s := br.subscribe(t, 0)
		if s.err != nil {
			break
		}
		for {
			r := br.recv(99, s, Op{B: 20_000}, 1)
			r.drain = true
			if r.err != nil || r.n == 0 {
				break
			}
		}
	}
	dr.done = true
}

func checkDigestLive(e *Env) {
	dr, _ := e.data.(*digRun)
	if dr == nil || !dr.done {
		return
	}
	br := dr.br
	exact := !br.stalls && rt.Drift() == 0
	closed := func(before int64) bool {
		for _, c := range br.closes {
			if c.call < before {
				return true
			}
		}
		return false
	}
	timeouts := map[int]int{}
	for i, g := range dr.digs {
		if g.ret == 0 {
			continue
		}
		e.Observe(fmt.Sprint(i, g.err, len(g.got)))
		what := fmt.Sprintf("digest %d (topic %d, called at %v)", i, g.op.A, g.tcall)
		unsubbed := false
		for _, u := range g.s.unsubs {
			if u.call < g.ret {
				unsubbed = true
			}
		}
		cancelled := g.ctx > 0 && br.ctx.call[g.ctx-1] > 0 && br.ctx.call[g.ctx-1] < g.ret
		if g.fail == nil && errors.Is(g.err, broker.ErrTimeout) {
			timeouts[g.op.A]++
		}
		switch {
		case g.fail != nil:
			e.count("digest ended by its handler")
			if g.err != g.fail {
				e.Fail("digest error", "B07", "%s returned %v, its handler failed with %v", what, g.err, g.fail)
			}
		case g.err != nil && g.err == broker.ErrTimeout:
			e.count("digest ended by a timeout")
			if idle := g.tret - max(g.busy, g.tcall); idle < 5*time.Second {
				e.Fail("digest timed out early", "B07 B03", "%s timed out after %v", what, idle)
			}
		case unsubbed || closed(g.ret) || cancelled:
			e.count("digest interrupted")
			if g.err != nil && g.err != broker.ErrSubscriptionInactive && !ctxErr(g.err) && !errors.Is(g.err, broker.ErrNotConnected) {
				e.Fail("digest error", "B07", "%s returned %v", what, g.err)
			}
		default:
			e.Fail("digest returns for no reason", "B07", "%s returned %v although nothing had ended it", what, g.err)
		}
		if exact {
			limit := func(at time.Duration, why string) {
				lim := max(at, g.tcall, g.busy)
				if g.tret > lim {
					e.Fail("digest goes on", "B07", "%s returned at %v although %s at %v", what, g.tret, why, at)
				}
			}
			if cancelled {
				limit(br.ctx.at[g.ctx-1], "its context was cancelled")
			}
			for _, u := range g.s.unsubs {
				if u.call < g.ret {
					limit(u.tcall, "it was unsubscribed")
				}
			}
			for _, c := range br.closes {
				if c.call < g.ret {
					limit(c.tcall, "the session was closed")
				}
			}
			if g.fail == nil && g.tret-max(g.busy, g.tcall) > 5*time.Second {
				e.Fail("digest goes on", "B07", "%s idled for %v", what, g.tret-max(g.busy, g.tcall))
			}
		}
	}
	// conservation and order
	for t := 0; t < e.p("topics"); t++ {
		lost := 0
		for _, p := range br.pubs {
			if p.topic != t || p.ret == 0 {
				continue
			}
			if p.err != nil && p.delivered != nil {
				e.Fail("failed publish handled", "B07", "publishing %s failed with %v, yet it was handled", p.key, p.err)
			}
			if p.err == nil && p.delivered == nil && !br.mayHaveEnded(p.call) {
				lost++
			}
		}
		if lost > timeouts[t] {
			e.Fail("digester loses messages", "B07", "%d accepted messages of topic %d were never handled, %d digests timed out", lost, t, timeouts[t])
		}
		for i, g := range dr.digs {
			if g.op.A != t {
				continue
			}
			for a := range g.got {
				for b := a + 1; b < len(g.got); b++ {
					pa, pb := br.byKey[g.got[a]], br.byKey[g.got[b]]
					if pa != nil && pb != nil && pb.ret != 0 && pb.ret < pa.call {
						e.Fail("handled out of order", "B07", "digest %d handled %s before %s, which was published first", i, pa.key, pb.key)
					}
				}
			}
		}
	}
}
