package scen

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"time"

	"github.com/milosgajdos/netscrape/pkg/broker"
	simpledigester "github.com/milosgajdos/netscrape/pkg/broker/digester/simple"
	"github.com/milosgajdos/netscrape/pkg/broker/handlers"
	membroker "github.com/milosgajdos/netscrape/pkg/broker/memory"

	"verif.local/sim/sctx"
	rt "verif.local/sim/simrt"
	"verif.local/sim/sos"
)

func init() {
	register(&Scenario{
		Name:    "dump",
		Props:   []string{"B09"},
		Presets: map[string][]string{"B09": {"fake", "live", "direct"}},
		Gen:     genDump,
		Run:     runDump,
	})
}

// size class of a payload
var dumpSizes = []int{0, 1, 3, 64, 600, 5000, 33000, 100000, 40, 7, 32768, 65536, 4096, 1}

func genDump(r *rand.Rand, p *Plan) {
	p.P["cap"] = r.Intn(4)
	n := 1 + r.Intn(6)
	var t Task
	total := 0
	for i := 0; i < n; i++ {
		c := r.Intn(len(dumpSizes))
		if c == 7 && r.Intn(4) != 0 {
			c = 3
		}
		total += dumpSizes[c]
		t.Ops = append(t.Ops, Op{K: "msg", A: c, B: r.Intn(4), C: r.Intn(1000)})
	}
	p.Tasks = append(p.Tasks, t)
	if r.Intn(4) != 0 {
		p.P["fault"] = 1 + r.Intn(6)
		p.P["once"] = r.Intn(2)
		switch r.Intn(3) {
		case 0:
			p.P["after"] = r.Intn(total + 1)
		case 1: // at the end of a payload
			k := r.Intn(n)
			for i := 0; i < k; i++ {
				p.P["after"] += dumpSizes[t.Ops[i].A]
			}
		case 2: // inside a payload
			k := r.Intn(n)
			for i := 0; i < k; i++ {
				p.P["after"] += dumpSizes[t.Ops[i].A]
			}
			p.P["after"] += r.Intn(dumpSizes[t.Ops[k].A] + 1)
		}
	}
	p.P["noise"] = r.Intn(2)
	p.P["ctx"] = r.Intn(3) // 1: cancelled while the messages are dumped, 2: from the start (direct)
	p.P["ctxat"] = r.Intn(8)
	if r.Intn(4) == 0 {
		p.P["redirect"] = 1
	}
}

func dumpPayload(op Op) []byte {
	n := dumpSizes[op.A]
	switch op.B {
	case 0:
		if n == 0 {
			return nil
		}
		b := make([]byte, n)
		rand.New(rand.NewSource(int64(op.C))).Read(b)
		return b
	case 1:
		return bytes.Repeat([]byte{'a' + byte(op.C%26)}, n)
	case 2:
		return bytes.Repeat([]byte{'\n'}, n)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(op.C + i)
	}
	return b
}

func runDump(e *Env) {
	var msgs []broker.Message
	for _, t := range e.P.Tasks {
		for i, op := range t.Ops {
			msgs = append(msgs, broker.Message{UID: fmt.Sprint(i), Type: broker.Type(i % 5), Data: dumpPayload(op)})
		}
	}
	copies := make([][]byte, len(msgs))
	for _, m := range msgs {
		e.Observe(fmt.Sprint(len(m.Data)))
	}
	for i, m := range msgs {
		copies[i] = append([]byte(nil), m.Data...)
	}
	if e.p("redirect") == 1 {
		// the program has put another file in the place of its standard output
		sos.Redirect()
	}
	var ferr error
	if k := e.p("fault"); k > 0 {
		ferr = []error{sos.ErrIO, sos.ErrSpace, sos.ErrPipe, sos.ErrShut, errors.New("interrupted"), io.ErrShortWrite}[k-1]
		sos.Inject(&sos.Fault{After: e.p("after"), Err: ferr, Once: e.p("once") == 1})
		e.Logf("standard output fails after %d bytes with %v (once: %d)", e.p("after"), ferr, e.p("once"))
	}
	// what must have happened after the first n messages
	check := func(n int, failed error) {
		var full []byte
		for i := 0; i < n; i++ {
			full = append(full, copies[i]...)
		}
		out := sos.Written()
		if n := sos.Elsewhere(); n > 0 {
			e.Fail("written elsewhere", "B09", "%d bytes went to what was the standard output before the program changed it", n)
		}
		for i := range copies {
			if !bytes.Equal(copies[i], msgs[i].Data) {
				e.Fail("payload changed", "B09", "the payload of message %d was changed", i)
			}
		}
		if failed == nil {
			if !bytes.Equal(out, full) {
				e.Fail("payload not written", "B09", "%d messages of %d bytes reported as written, but the output has %d bytes (first difference at %d)", n, len(full), len(out), diffAt(full, out))
			}
			return
		}
		var rest []byte
		if n < len(copies) {
			rest = copies[n]
		}
		if len(out) < len(full) || !bytes.Equal(out[:len(full)], full) {
			e.Fail("payload not written", "B09", "%d messages of %d bytes reported as written, but the output has %d bytes (first difference at %d)", n, len(full), len(out), diffAt(full, out))
			return
		}
		if tail := out[len(full):]; len(tail) > len(rest) || !bytes.Equal(tail, rest[:len(tail)]) {
			e.Fail("more than a prefix", "B09", "writing message %d failed (%v), and the output after its predecessors is not a prefix of its payload (%d bytes)", n, failed, len(tail))
		}
		if !errors.Is(failed, ferr) {
			e.Fail("wrong write error", "B09", "the write failed with %v, reported was %v", ferr, failed)
		}
	}
	// does writing everything hit the fault?
	total := 0
	for _, c := range copies {
		total += len(c)
	}
	hits := ferr != nil && e.p("after") < total
	if e.p("noise") == 1 {
		rt.GoNamed("noise", func() {
			for i := 0; i < 20; i++ {
				rt.Yield("noise")
			}
		})
	}
	switch e.P.Preset {
	case "direct":
		ctx, cancel := sctx.WithCancel(sctx.Background())
		defer cancel()
		for i, m := range msgs {
			if k := e.p("ctx"); k == 2 || k == 1 && i >= e.p("ctxat") {
				rt.Fault("context cancelled")
				cancel()
			}
			err := handlers.DumpData(ctx, m)
			e.Logf("dump %d (%d bytes): %v", i, len(m.Data), err)
			e.Observe(fmt.Sprint(err))
			if err != nil {
				if errors.Is(err, context.Canceled) && ctx.Err() != nil { // not asked to do it any more
					ferr = context.Canceled
				}
				check(i, err)
				if ferr == nil {
					e.Fail("write error out of nothing", "B09", "dumping returned %v", err)
				}
				return
			}
			check(i+1, nil)
		}
	case "fake", "live":
		d, err := simpledigester.NewDigester()
		if err != nil {
			e.Fail("new digester", "B09", "NewDigester failed: %v", err)
			return
		}
		end := fmt.Errorf("end of the script")
		handled := 0
		var sub broker.Subscriber
		fake := &fakeSub{e: e, name: "s", msgs: msgs, end: end}
		sub = fake
		var b *membroker.Memory
		if e.P.Preset == "live" {
			end = broker.ErrTimeout
			b, _ = membroker.New(broker.WithCap(e.p("cap")))
			b.Open(sctx.Background())
			sub, err = b.Sub(sctx.Background(), "t")
			if err != nil {
				e.Fail("subscribe", "B09", "Sub failed: %v", err)
				return
			}
			rt.GoNamed("publisher", func() {
				for _, m := range msgs {
					if rt.Choose(4) == 0 {
						rt.Sleep(ms(100))
					}
					if err := b.Pub(sctx.Background(), "t", m, broker.WithPubTimeout(time.Minute)); err != nil {
						return
					}
				}
			})
		}
		ctx, cancel := sctx.WithCancel(sctx.Background())
		defer cancel()
		cs := &countSub{Subscriber: sub, n: &handled}
		if e.p("ctx") == 1 { // while a message is being handed over
			cs.before = func(n int) {
				if n == e.p("ctxat") {
					rt.Fault("context cancelled")
					cancel()
				}
			}
		}
		err = d.Digest(ctx, cs)
		e.Logf("digested %d messages: %v", handled, err)
		e.Observe(fmt.Sprint(handled, err))
		switch {
		case errors.Is(err, end):
			if hits && len(sos.Written()) != total {
				e.Fail("write failure not reported", "B09", "the output failed after %d of %d bytes, but the digest went on to its end (%v)", e.p("after"), total, err)
			}
			check(len(msgs), nil)
		case errors.Is(err, context.Canceled) && ctx.Err() != nil:
			switch {
			case cs.err == nil:
				check(handled, nil)
			case errors.Is(cs.err, context.Canceled): // not asked to write it any more
				ferr = context.Canceled
				fallthrough
			default:
				check(handled-1, cs.err)
			}
		case handled == 0:
			e.Fail("digest failed", "B09", "Digest returned %v without handling a message", err)
		default:
			check(handled-1, err)
			if ferr == nil {
				e.Fail("write error out of nothing", "B09", "Digest returned %v", err)
			}
		}
		if b != nil {
			b.Close()
		}
	}
}

// countSub counts handled messages.
type countSub struct {
	broker.Subscriber
	n      *int
	before func(n int)
	err    error // of the last handler
}

func (s *countSub) Receive(ctx context.Context, h broker.Handler, opts ...broker.Option) error {
	return s.Subscriber.Receive(ctx, func(ctx context.Context, m broker.Message) error {
		if s.before != nil {
			s.before(*s.n)
		}
		*s.n++
		s.err = h(ctx, m)
		return s.err
	}, opts...)
}

func diffAt(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}
