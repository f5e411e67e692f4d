package scen

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"strconv"
	"time"

	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/broker"
	"github.com/milosgajdos/netscrape/pkg/broker/ingester"
	simpleingester "github.com/milosgajdos/netscrape/pkg/broker/ingester/simple"
	membroker "github.com/milosgajdos/netscrape/pkg/broker/memory"

	"github.com/milosgajdos/netscrape/pkg/space/entity"
	memuid "github.com/milosgajdos/netscrape/pkg/uuid/memory"

	"verif.local/sim/sctx"
	rt "verif.local/sim/simrt"
)

func init() {
	register(&Scenario{
		Name:    "ingest",
		Props:   []string{"B08"},
		Presets: map[string][]string{"B08": {"fake", "fake", "live"}},
		Gen:     genIngest,
		Run: func(e *Env) {
			if e.P.Preset == "live" {
				runIngestLive(e)
			} else {
				runIngestFake(e)
			}
		},
	})
}

func genIngest(r *rand.Rand, p *Plan) {
	p.P["own"] = r.Intn(3)
	p.P["cap"] = r.Intn(3)
	p.P["names"] = r.Intn(len(topicNames))
	n := 1 + r.Intn(4)
	max := 4
	if r.Intn(10) == 0 {
		max = 25
	}
	for i := 0; i < n; i++ {
		var t Task
		for j, m := 0, 1+r.Intn(max); j < m; j++ {
			// A topic, B type, C data, D marshaler of the call (0: none), X: pub error, context
			op := Op{K: "ingest", A: r.Intn(3), B: r.Intn(6), C: r.Intn(nData), D: r.Intn(4), X: []int{r.Intn(2 * nErrs), r.Intn(4), r.Intn(8)}}
			if r.Intn(10) == 0 {
				op.B = []int{-1, 6, 7, 255, 256, 1 << 20}[r.Intn(6)]
			}
			t.Ops = append(t.Ops, op)
		}
		p.Tasks = append(p.Tasks, t)
	}
	if p.Preset == "live" {
		p.Tasks = append(p.Tasks, Task{Ops: []Op{{K: "sleep", B: []int{0, 1, 20}[r.Intn(3)]}, {K: "cancel", C: 1}}})
		if r.Intn(3) == 0 {
			p.Tasks = append(p.Tasks, Task{Ops: []Op{{K: "sleep", B: []int{0, 5, 100}[r.Intn(3)]}, {K: "close"}}})
		}
	}
}

const nData = 19 + 17

type failJSON struct{ id string }

func (f failJSON) MarshalJSON() ([]byte, error) { return nil, errors.New("cannot encode " + f.id) }

// ingestData makes data nobody else ingests.
func ingestData(kind int, id string) interface{} {
	switch kind {
	case 0:
		return id
	case 1:
		return map[string]interface{}{"id": id, "n": 1.5, "l": []int{1, 2}, "x": nil}
	case 2:
		return struct {
			ID   string `json:"id"`
			HTML string
			skip int
		}{id, "<a href=\"x\">&</a>\u2028é\x01", 3}
	case 3:
		return nil
	case 4:
		return []byte(id)
	case 5:
		return make(chan int)
	case 6:
		return failJSON{id}
	case 7:
		return math.Inf(1)
	case 8:
		return json.RawMessage(`{ "id" : "` + id + `" }`)
	case 9:
		return &broker.Message{UID: id, Data: []byte("x")}
	case 10:
		return map[string]string{"b": id, "a": "1", "c": ""}
	case 11:
		return json.Number("12345678901234567890")
	case 12:
		return []interface{}{id, 1e21, int64(math.MaxInt64), true}
	}
	// strings that are JSON themselves
	if kind >= 14 && kind < 18 {
		return []interface{}{`{"id": "` + id + `" }`, `"` + id + `"`, "[" + strconv.Itoa(len(id)) + `,"` + id + `"]`, jsonString(`{"id":"` + id + `"}`)}[kind-14]
	}
	if kind == 18 {
		return "null"
	}
	if kind > 18 { // what a program may be tempted to treat otherwise
		return []interface{}{
			bytes.NewBufferString(id),
			manyFaces{id},
			&manyFaces{id},
			errors.New(id),
			textData(id),
			broker.Message{UID: id, Type: broker.Entity, Data: []byte(`{"id":1}`)},
			(*manyFaces)(nil),
			anySpace(id),
			[]string{id, ""},
			[]byte(nil),
			json.RawMessage(nil),
			struct{}{},
			"bad \xff " + id,
			map[int]interface{}{2: id, 1: []byte(id)},
			[]byte(`{"id": "` + id + `" }`),
			[]byte(`"` + id + `"`),
			json.RawMessage(`"<` + id + `>"`),
		}[kind-19]
	}
	return bytes.Repeat([]byte(id), []int{1, 200, 3000}[len(id)%3])
}

type jsonString string

// manyFaces can present itself in many ways.
type manyFaces struct{ ID string }

func (m manyFaces) String() string                 { return "string " + m.ID }
func (m manyFaces) Error() string                  { return "error " + m.ID }
func (m manyFaces) Bytes() []byte                  { return []byte("bytes " + m.ID) }
func (m manyFaces) Marshal() ([]byte, error)       { return []byte("marshal " + m.ID), nil }
func (m manyFaces) Read(p []byte) (int, error)     { return 0, io.EOF }
func (m *manyFaces) UnmarshalJSON([]byte) error    { return nil }
func (m manyFaces) MarshalBinary() ([]byte, error) { return []byte("binary " + m.ID), nil }

type textData string

func (t textData) MarshalText() ([]byte, error) { return []byte("text " + string(t)), nil }

// anySpace is an entity.
func anySpace(id string) interface{} {
	e, err := entity.New("t", entity.WithUID(memuid.NewFromString(id)), entity.WithAttrs(memattrs.NewFromMap(map[string]string{"a": id})))
	if err != nil {
		return id
	}
	return e
}

// shared is data that changes between ingestions.
type shared struct {
	ID string
	N  int
}

type mcall struct {
	who  string
	data interface{}
	out  []byte
	err  error
}

// fakeMarshaler records its calls and fails for some data.
type fakeMarshaler struct {
	e     *Env
	name  string
	calls map[string][]mcall // by task
}

func (m *fakeMarshaler) Marshal(x interface{}) ([]byte, error) {
	rt.Yield("marshal")
	if rt.Choose(5) == 0 {
		rt.Sleep(ms(1))
	}
	id := fmt.Sprintf("%T %v", x, x)
	if f, ok := x.(failJSON); ok {
		rt.Fault("marshal error")
		err := fmt.Errorf("%s cannot marshal %s", m.name, f.id)
		m.calls[taskName()] = append(m.calls[taskName()], mcall{m.name, x, nil, err})
		if rt.Choose(2) == 0 {
			return []byte(m.name + ":"), err // as far as it got
		}
		return nil, err
	}
	out := []byte(m.name + ":" + id)
	if rt.Choose(6) == 0 {
		out = nil
	}
	m.calls[taskName()] = append(m.calls[taskName()], mcall{m.name, x, append([]byte(nil), out...), nil})
	rt.Yield("marshaled")
	return out, nil
}

func taskName() string { return rt.Cur().Name }

type pcall struct {
	topic string
	m     broker.Message
	err   error
	ctx   context.Context
	data  []byte
}

// fakeBroker records publishes.
type fakeBroker struct {
	broker.Broker // whatever else the interface has
	e             *Env
	calls         map[string][]*pcall
	all           []*pcall
	next          map[string]error // outcome of the next publish of a task
	cancel        map[string]func()
}

func (b *fakeBroker) Pub(ctx context.Context, topic string, m broker.Message, opts ...broker.Option) error {
	c := &pcall{topic: topic, m: m, ctx: ctx, data: append([]byte(nil), m.Data...)}
	b.calls[taskName()] = append(b.calls[taskName()], c)
	b.all = append(b.all, c)
	rt.Yield("fake publish")
	if rt.Choose(5) == 0 {
		rt.Sleep(ms(1))
	}
	if _, ok := ctx.Deadline(); ok {
		b.e.Fail("publish context", "B08", "the publish got a context with a deadline, the caller's has none")
	}
	if f := b.cancel[taskName()]; f != nil {
		f()
		rt.Yield("cancelled")
		if ctx.Err() == nil {
			b.e.Fail("publish context", "B08", "the publish got a context that does not end with the caller's")
		}
	}
	c.err = b.next[taskName()]
	if c.err != nil {
		rt.Fault("publish error")
	}
	if !bytes.Equal(c.data, m.Data) {
		b.e.Fail("payload changes", "B08", "the payload handed to Pub changed during the call")
	}
	return c.err
}

func (b *fakeBroker) Sub(context.Context, string, ...broker.Option) (broker.Subscriber, error) {
	return nil, broker.ErrNotImplemented
}

type ctxKey struct{}

func runIngestFake(e *Env) {
	b := &fakeBroker{e: e, calls: map[string][]*pcall{}, next: map[string]error{}, cancel: map[string]func(){}}
	other := &fakeBroker{e: e, calls: map[string][]*pcall{}, next: map[string]error{}}
	mx := make([]*fakeMarshaler, 4)
	for i := range mx {
		mx[i] = &fakeMarshaler{e: e, name: fmt.Sprintf("m%d", i), calls: map[string][]mcall{}}
	}
	var iopts []ingester.Option
	own := e.p("own")
	if own > 0 {
		if rt.Choose(4) == 0 {
			// the last one counts
			iopts = append(iopts, ingester.WithMarshaler(&fakeMarshaler{e: e, name: "replaced", calls: map[string][]mcall{}}))
		}
		iopts = append(iopts, ingester.WithMarshaler(mx[own]))
	}
	in, err := simpleingester.NewIngester(iopts...)
	if err != nil {
		e.Fail("new ingester", "B08", "NewIngester failed: %v", err)
		return
	}
	seq := 0
	npub := 0
	own1 := map[int]*shared{}
	e.RunTasks(func(task int, op Op) {
		seq++
		id := fmt.Sprintf("d%d", seq)
		data := ingestData(op.C, id)
		if op.X[2] == 1 { // what was ingested before, changed
			if own1[task] == nil {
				own1[task] = &shared{}
			}
			own1[task].ID, own1[task].N = id, seq
			data = own1[task]
			if op.C%2 == 0 {
				data = map[string]interface{}{"same": own1[task]}
			}
		}
		topic := topicNames[e.p("names")](op.A)
		typ := broker.Type(op.B)
		me := taskName()
		for _, m := range mx {
			m.calls[me] = nil
		}
		b.calls[me] = nil
		other.calls[me] = nil
		var perr error
		if op.X[0] < nErrs {
			perr = someError(op.X[0], "publish of "+id)
		}
		b.next[me] = perr
		var opts []ingester.Option
		want := own
		if op.D > 0 {
			want = op.D
			opts = append(opts, ingester.WithMarshaler(mx[op.D]))
		}
		ctx := sctx.WithValue(sctx.Background(), ctxKey{}, id)
		b.cancel[me] = nil
		if op.X[2] == 2 || op.X[2] == 3 { // the context ends while publishing
			var cancel func()
			ctx, cancel = sctx.WithCancel(ctx)
			defer cancel()
			b.cancel[me] = func() { rt.Fault("context cancelled"); cancel() }
		}
		e.Logf("client%d: ingest %s (kind %d) type %d to %q with marshaler %d", task, id, op.C, op.B, topic, want)
		var got error
		if pan := catch(func() { got = in.Ingest(ctx, b, topic, typ, data, opts...) }); pan != nil {
			e.Fail("ingest panics", "B08", "ingesting %s panicked: %v", id, pan)
			return
		}
		e.Logf("client%d: ingested %s: %v", task, id, got)
		e.Observe(fmt.Sprint(id, got))
		var wantData []byte
		var merr error
		if want == 0 {
			wantData, merr = json.Marshal(data)
			for _, m := range mx {
				if len(m.calls[me]) > 0 {
					e.Fail("foreign marshaler", "B08", "%s was marshaled with %s although none is configured", id, m.name)
				}
			}
		} else {
			for i, m := range mx {
				if i != want && len(m.calls[me]) > 0 {
					e.Fail("wrong marshaler", "B08", "%s was marshaled with %s instead of %s", id, m.name, mx[want].name)
				}
			}
			c := mx[want].calls[me]
			if len(c) == 0 {
				e.Fail("marshaler not used", "B08", "%s: the configured marshaler %s was not called", id, mx[want].name)
				return
			}
			wantData, merr = c[len(c)-1].out, c[len(c)-1].err
		}
		pubs := b.calls[me]
		if merr != nil {
			if len(pubs) > 0 {
				e.Fail("published although marshaling failed", "B08", "%s: marshaling failed with %v, published %d messages", id, merr, len(pubs))
			}
			if got == nil || want != 0 && !errors.Is(got, merr) {
				e.Fail("marshaling error lost", "B08", "%s: marshaling failed with %v, returned %v", id, merr, got)
			}
			return
		}
		if len(pubs) != 1 {
			e.Fail("not exactly one message", "B08", "%s: %d messages were published (%v)", id, len(pubs), got)
			return
		}
		npub++
		p := pubs[0]
		if p.topic != topic || p.m.Type != typ || !bytes.Equal(p.data, wantData) {
			e.Fail("message not faithful", "B08", "%s: published %q type %d on %q, want %q type %d on %q", id, p.data, p.m.Type, p.topic, wantData, typ, topic)
		}
		if p.ctx.Value(ctxKey{}) != id {
			e.Fail("publish context", "B08", "%s: the publish did not get the caller's context", id)
		}
		if perr == nil && got != nil || perr != nil && !errors.Is(got, perr) {
			e.Fail("publish error lost", "B08", "%s: publishing returned %v, ingesting %v", id, perr, got)
		}
	})
	rt.Settle()
	if len(b.all) != npub && len(e.viol) == 0 {
		e.Fail("stray messages", "B08", "%d messages were published for %d successful marshalings", len(b.all), npub)
	}
}

func runIngestLive(e *Env) {
	b, err := membroker.New(broker.WithCap(e.p("cap")), broker.WithPubTimeout(time.Second))
	if err != nil {
		return
	}
	b.Open(sctx.Background())
	cx := newCtxs(e, 1)
	in, err := simpleingester.NewIngester()
	if err != nil {
		e.Fail("new ingester", "B08", "NewIngester failed: %v", err)
		return
	}
	type rec struct {
		topic    string
		typ      broker.Type
		data     []byte
		err      error
		merr     error
		got      int
		bad      bool
		ctx      int
		done     bool
		tc, tr   time.Duration
		optional bool
	}
	recs := map[string]*rec{}
	var order []*rec
	closed := false
	var rx []*rt.Task
	stop := false
	for i := 0; i < 3; i++ {
		i := i
		s, err := b.Sub(sctx.Background(), topicNames[e.p("names")](i))
		if err != nil {
			e.Fail("subscribe", "B08", "Sub failed: %v", err)
			return
		}
		rx = append(rx, rt.GoNamed("reader", func() {
			for {
				err := s.Receive(sctx.Background(), func(_ context.Context, m broker.Message) error {
					k := fmt.Sprintf("%d/%d/%s", i, int(m.Type), m.Data)
					r := recs[k]
					if r == nil {
						e.Fail("stray message", "B08", "topic %d carried type %d %q, which nobody ingested", i, int(m.Type), m.Data)
						return nil
					}
					r.got++
					return nil
				}, broker.WithSubTimeout(time.Minute))
				if err != nil || stop {
					return
				}
			}
		}))
	}
	seq := 0
	e.RunTasks(func(task int, op Op) {
		switch op.K {
		case "sleep":
			rt.Sleep(ms(op.B))
			return
		case "cancel":
			cx.doCancel(op.C)
			return
		case "close":
			rt.Fault("session closed")
			closed = true
			b.Close()
			return
		}
		seq++
		kind := op.C
		switch kind {
		case 3, 7, 11, 18, 19, 22, 25, 26, 28, 29, 30: // not unique
			kind = 0
		}
		data := ingestData(kind, fmt.Sprintf("d%d", seq))
		r := &rec{topic: topicNames[e.p("names")](op.A), typ: broker.Type(op.B), ctx: b2i(op.X[1] == 1)}
		var opts []ingester.Option
		switch {
		case op.D == 0 || op.D == 1:
			r.data, r.merr = json.Marshal(data)
		default:
			m := prefixMarshaler(fmt.Sprintf("%d", op.D))
			opts = append(opts, ingester.WithMarshaler(m))
			r.data, r.merr = m.Marshal(data)
		}
		if r.merr == nil {
			recs[fmt.Sprintf("%d/%d/%s", op.A, op.B, r.data)] = r
		}
		order = append(order, r)
		r.tc = rt.Now()
		r.err = in.Ingest(cx.get(r.ctx), b, r.topic, r.typ, data, opts...)
		r.tr = rt.Now()
		r.done = true
		e.Logf("client%d: ingest %q on %q: %v", task, r.data, r.topic, r.err)
		e.Observe(fmt.Sprint(r.err))
		if r.merr != nil && r.err == nil {
			e.Fail("marshaling error lost", "B08", "marshaling fails with %v, ingesting succeeded", r.merr)
		}
		if r.err != nil && r.merr == nil && !closed && (r.ctx == 0 || cx.call[0] == 0) && !errors.Is(r.err, broker.ErrTimeout) {
			e.Fail("ingest fails", "B08", "ingesting %q failed with %v", r.data, r.err)
		}
		if r.ctx > 0 && cx.call[0] > 0 && r.tr > max(r.tc, cx.at[0]) {
			e.Fail("publish context", "B08", "ingesting %q went on until %v although its context was cancelled at %v", r.data, r.tr, cx.at[0])
		}
	})
	rt.Settle()
	for _, r := range order {
		if r.merr != nil || !r.done {
			continue
		}
		if r.err != nil && r.got > 0 {
			e.Fail("failed ingest published", "B08", "ingesting %q failed with %v, yet its message arrived", r.data, r.err)
		}
		if r.got > 1 || r.err == nil && r.got == 0 && !closed {
			e.Fail("not exactly one message", "B08", "ingesting %q succeeded, its message arrived %d times", r.data, r.got)
		}
	}
	stop = true
	b.Close()
	rt.Join(rx...)
}

type prefixMarshaler string

func (p prefixMarshaler) Marshal(x interface{}) ([]byte, error) {
	if f, ok := x.(failJSON); ok {
		return []byte(string(p) + " " + f.id), errors.New("cannot encode " + f.id)
	}
	return []byte(fmt.Sprintf("%s %T %v", string(p), x, x)), nil
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
