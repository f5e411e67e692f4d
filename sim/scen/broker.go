package scen

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand"
	"sort"
	"strings"
	"time"

	"github.com/milosgajdos/netscrape/pkg/broker"
	membroker "github.com/milosgajdos/netscrape/pkg/broker/memory"

	"verif.local/sim/sctx"
	rt "verif.local/sim/simrt"
)

const brokerProps = "B01 B02 B03 B04 B05 B06"

func init() {
	register(&Scenario{
		Name:  "broker",
		Props: []string{"B01", "B02", "B03", "B04", "B05", "B06"},
		Presets: map[string][]string{
			"B01": {"flow", "flow", "mixed", "sessions", "unsub", "cancel", "bulk", "crowd", "topics"},
			"B02": {"flow", "full", "topics", "cap100", "mixed", "bulk", "crowd"},
			"B03": {"timing", "timing", "timing", "cancel", "sessions"},
			"B04": {"cancel", "cancel", "timing", "mixed"},
			"B05": {"sessions", "sessions", "sessions", "opencancel", "mixed"},
			"B06": {"unsub", "unsub", "unsub", "unsub", "mixed", "crowd", "mass"},
		},
		Gen:   genBroker,
		Run:   runBroker,
		Check: checkBroker,
	})
}

// presets: weights of the operations
var brokerWeights = map[string]map[string]int{
	"flow":       {"pub": 10, "recv": 9, "sub": 2, "sleep": 1},
	"full":       {"pub": 12, "recv": 5, "sub": 1, "sleep": 2},
	"topics":     {"pub": 8, "recv": 6, "sub": 5},
	"timing":     {"pub": 8, "recv": 8, "sub": 1, "sleep": 5, "cancel": 2, "unsub": 1},
	"cancel":     {"pub": 10, "recv": 8, "sub": 2, "cancel": 5, "sleep": 2},
	"sessions":   {"pub": 7, "recv": 6, "sub": 4, "close": 3, "open": 4, "sleep": 1, "unsub": 1, "cancel": 1},
	"opencancel": {"pub": 7, "recv": 5, "sub": 4, "close": 2, "open": 4, "cancelopen": 3, "sleep": 2},
	"unsub":      {"pub": 6, "recv": 8, "sub": 5, "unsub": 7, "info": 2, "close": 1, "open": 1},
	"mixed":      {"pub": 8, "recv": 8, "sub": 3, "unsub": 2, "close": 1, "open": 2, "cancel": 2, "cancelopen": 1, "sleep": 2, "info": 1},
	"crowd":      {"pub": 10, "recv": 8, "sub": 6, "unsub": 2, "cancel": 1, "sleep": 1, "close": 1, "open": 1},
	"cap100":     {"pubn": 1},
	"bulk":       {"pubn": 1},
	"mass":       {"massunsub": 1},
}

func genBroker(r *rand.Rand, p *Plan) {
	w := brokerWeights[p.Preset]
	p.P["cap"] = []int{0, 0, 1, 1, 2, 3, 5}[r.Intn(7)]
	if p.Preset == "full" {
		p.P["cap"] = 1 + r.Intn(3)
	}
	p.P["topics"] = 1 + r.Intn(2)
	if p.Preset == "topics" {
		p.P["topics"] = 3
	}
	p.P["names"] = r.Intn(len(topicNames))
	if r.Intn(4) == 0 {
		p.P["twin"] = 1 // a second broker beside the first
	}
	if r.Intn(6) == 0 {
		p.P["fine"] = 1 // timeouts that are not whole milliseconds
	}
	if r.Intn(8) == 0 {
		p.P["cap"] = size(r, []int{-1, 8, 17, 64, 200}[r.Intn(5)], 0, 1000)
	}
	if r.Intn(6) == 0 {
		p.P["opts"] = 1 // calls are given options that do not concern them
	}
	if r.Intn(25) == 0 {
		p.P["huge"] = 1 // some payloads are large
	}
	p.P["ctxs"] = 3
	p.P["brokerTimeout"] = []int{0, 0, 30, 200}[r.Intn(4)]
	if r.Intn(12) == 0 {
		p.P["brokerTimeout"] = longTimeouts[r.Intn(len(longTimeouts))]
	}
	stallable := p.Preset != "timing"
	if stallable && r.Intn(4) == 0 {
		p.Stall = []int{5, 20, 60}[r.Intn(3)]
	}
	if p.Preset == "timing" && r.Intn(3) == 0 || (p.Preset == "cancel" || p.Preset == "mixed") && r.Intn(4) == 0 {
		// contexts expire on their own
		p.P["deadline1"] = []int{1, 15, 15, 60, 3000, 400_000}[r.Intn(6)]
		p.P["deadline2"] = []int{60, 60, 10, 25, 7000, 100_000_000}[r.Intn(6)]
		p.P["deadline3"] = []int{0, 0, 0, 1, 5, 120}[r.Intn(6)]
	}
	if p.Preset == "cap100" {
		p.P["cap"] = -1 - r.Intn(3)
		if r.Intn(3) == 0 {
			p.P["cap"] = 100 + r.Intn(5)
		}
		p.P["topics"] = 1
		p.NoRace = true
		n := 1 + r.Intn(3)
		for i := 0; i < n; i++ {
			p.Tasks = append(p.Tasks, Task{Ops: []Op{{K: "pubn", A: 0, B: 10, D: 110/n + r.Intn(10)}}})
		}
		if r.Intn(2) == 0 {
			p.Tasks = append(p.Tasks, Task{Ops: []Op{{K: "sub", B: 0}, {K: "recv", A: 0, B: 20}, {K: "recv", A: 0, B: 20}}})
		}
		return
	}
	if p.Preset == "bulk" {
		p.P["cap"] = size(r, []int{0, 1, 5, 16, 40, 64, 100, 130, 300, -1}[r.Intn(10)], 0, 1000)
		p.P["twin"] = 0
		p.P["topics"] = 1 + r.Intn(3)
		p.P["opened"] = 1
		p.P["presubs"] = p.P["topics"] * (1 + r.Intn(2))
		p.P["subs"] = p.P["presubs"]
		p.MaxSteps = 1_000_000
		p.NoRace = r.Intn(4) != 0
		to := []int{10, 100, 5000, 0}[r.Intn(4)]
		size := size(r, []int{20, 60, 140, 300}[r.Intn(4)], 5, 1500)
		cancelled := 0
		if r.Intn(4) == 0 { // every other call has a context that ends early
			cancelled = 1
			p.Tasks = append(p.Tasks, Task{Ops: []Op{{K: "sleep", B: []int{1, 30}[r.Intn(2)]}, {K: "cancel", C: 1}}})
		}
		for i, n := 0, 1+r.Intn(3); i < n; i++ {
			p.Tasks = append(p.Tasks, Task{Ops: []Op{{K: "pubn", A: i % p.P["topics"], B: to, C: cancelled * r.Intn(2), D: 1 + size/n + r.Intn(5)}}})
		}
		late := r.Intn(3) == 0 // the subscribers come when messages are there
		if late {
			p.P["presubs"], p.P["subs"] = 0, p.P["topics"]
		}
		for i, n := 0, r.Intn(3); i < n; i++ {
			t := Task{}
			if r.Intn(2) == 0 {
				t.Ops = append(t.Ops, Op{K: "sleep", B: []int{1, 50, 4000}[r.Intn(3)]})
			}
			if late {
				k := i % p.P["topics"]
				t.Ops = append(t.Ops, Op{K: "sub", A: k, B: k},
					Op{K: "recvn", A: k, B: []int{10, 5000, 0, 1}[r.Intn(4)], C: cancelled * r.Intn(2), D: 1 + r.Intn(size), E: []int{0, 0, 1, 2, 3}[r.Intn(5)]})
				p.Tasks = append(p.Tasks, t)
				continue
			}
			t.Ops = append(t.Ops, Op{K: "recvn", A: i % p.P["presubs"], B: []int{10, 5000, 0, 1}[r.Intn(4)], C: cancelled * r.Intn(2), D: 1 + r.Intn(size), E: []int{0, 0, 1, 2, 3}[r.Intn(5)]})
			p.Tasks = append(p.Tasks, t)
		}
		return
	}
	if p.Preset == "mass" {
		p.P["twin"] = 0
		p.P["topics"] = 1 + r.Intn(4)
		p.P["opened"] = 1
		p.P["mass"] = size(r, []int{30, 110, 130, 220}[r.Intn(4)], 10, 1000)
		p.MaxSteps = 1_000_000
		p.NoRace = r.Intn(4) != 0
		for i, n := 0, 1+r.Intn(3); i < n; i++ {
			t := Task{}
			if r.Intn(2) == 0 {
				t.Ops = append(t.Ops, Op{K: "sleep", B: 1 + r.Intn(3)})
			}
			// A first, B step, D how many
			t.Ops = append(t.Ops, Op{K: "massunsub", A: r.Intn(10), B: 1 + r.Intn(2), D: p.P["mass"]})
			if r.Intn(3) == 0 {
				t.Ops = append(t.Ops, Op{K: "pub", A: r.Intn(p.P["topics"]), B: 10})
			}
			p.Tasks = append(p.Tasks, t)
		}
		if r.Intn(2) == 0 {
			p.Tasks = append(p.Tasks, Task{Ops: []Op{{K: "sleep", B: r.Intn(4)}, {K: "close"}}})
		}
		if r.Intn(3) == 0 {
			p.Tasks = append(p.Tasks, Task{Ops: []Op{{K: "sleep", B: r.Intn(4)}, {K: "open"}}})
		}
		return
	}
	p.P["opened"] = 1
	if (p.Preset == "sessions" || p.Preset == "opencancel" || p.Preset == "mixed") && r.Intn(3) == 0 {
		p.P["opened"] = 0
	}
	if p.Preset == "opencancel" {
		p.P["openctx"] = r.Intn(3) // context of the first session
	}
	p.P["subs"] = 4
	p.P["presubs"] = r.Intn(3)
	if p.Preset == "crowd" {
		p.P["topics"] = 1 + r.Intn(9)
		p.P["subs"] = nSlots
		p.P["presubs"] = r.Intn(nSlots)
	}
	many := p.Preset == "topics" && r.Intn(4) == 0
	if many {
		p.P["topics"] = size(r, []int{20, 35, 70, 140}[r.Intn(4)], 10, 400)
		p.P["names"] = []int{0, 3, 4}[r.Intn(3)]
		p.P["presubs"] = r.Intn(8)
		p.P["subs"] = nSlots
		p.MaxSteps = 400_000
		p.NoRace = r.Intn(2) == 0
	}
	timeout := func() int {
		if p.Preset == "timing" && r.Intn(10) == 0 {
			return longTimeouts[r.Intn(len(longTimeouts))]
		}
		if p.P["fine"] == 1 && r.Intn(2) == 0 {
			return -[]int{1, 999, 1500, 100_000, 700_000, 999_999, 1_500_000, 30_200_000}[r.Intn(8)] // nanoseconds
		}
		return wait(r, []int{0, 1, 10, 10, 25, 50, 100, 300, 5000, 7000, 90_000, 200_000}[r.Intn(12)])
	}
	ctx := func() int {
		if w["cancel"] == 0 || r.Intn(3) != 0 {
			return 0
		}
		return 1 + r.Intn(p.P["ctxs"])
	}
	n := 2 + r.Intn(4)
	if p.Preset == "crowd" {
		n = 3 + r.Intn(8)
	}
	// some runs repeat one kind of mishap
	mood := 0
	if !many && p.Preset != "crowd" && r.Intn(5) == 0 {
		mood = 1 + r.Intn(10) // the handlers' behaviour; 10: short timeouts
		p.P["presubs"] = 1 + r.Intn(2)
		p.P["subs"] = p.P["presubs"] + r.Intn(2)
	}
	for i := 0; i < n; i++ {
		var t Task
		// a task leans to one kind of operation
		lean := map[string]int{}
		for k, v := range w {
			lean[k] = v
		}
		switch r.Intn(4) {
		case 0:
			lean["pub"] *= 6
		case 1:
			lean["recv"] *= 6
		}
		m := 1 + r.Intn(7)
		for j := 0; j < m; j++ {
			op := Op{K: pick(r, lean)}
			switch op.K {
			case "pub":
				op.A, op.B, op.C, op.D = r.Intn(p.P["topics"]), timeout(), ctx(), r.Intn(6)
				if mood == 10 && r.Intn(4) != 0 {
					op.B = 1
				}
			case "sub":
				op.A, op.B = r.Intn(p.P["topics"]), r.Intn(p.P["subs"])
				op.C = ctx()
			case "recv":
				op.A, op.B, op.C = r.Intn(p.P["subs"]), timeout(), ctx()
				op.D = 0
				if r.Intn(3) == 0 {
					op.D = 1 + r.Intn(9)
				}
				if mood > 0 && r.Intn(4) != 0 {
					op.D = mood
					if mood == 10 {
						op.D, op.B = 0, 1
					}
				}
			case "unsub", "info":
				op.A = r.Intn(p.P["subs"])
			case "open":
				op.C = 0
				if w["cancelopen"] > 0 && r.Intn(2) == 0 {
					op.C = 1 + r.Intn(2)
				}
			case "cancel":
				op.C = 1 + r.Intn(p.P["ctxs"])
			case "cancelopen":
				op.C = 1 + r.Intn(2)
			case "sleep":
				op.B = wait(r, []int{1, 5, 10, 30, 100, 1000}[r.Intn(6)])
			}
			if many && r.Intn(5) == 0 { // A first topic, D how many
				op = Op{K: "puball", A: r.Intn(p.P["topics"]), B: []int{1, 10}[r.Intn(2)], D: 1 + r.Intn(p.P["topics"])}
			}
			if p.P["twin"] == 1 && r.Intn(3) == 0 {
				op.I = 1
			}
			t.Ops = append(t.Ops, op)
		}
		p.Tasks = append(p.Tasks, t)
	}
}

type pubRec struct {
	topic        int
	key          string
	call, ret    int64
	tcall, tret  time.Duration
	timeout      time.Duration
	ctx          int
	err          error
	delivered    *recvRec
	deliveredHow int
}

type recvRec struct {
	sub               *subRec
	call, ret, hstart int64
	tcall, tret, th   time.Duration
	hend              time.Duration
	timeout           time.Duration
	ctx               int
	err               error
	n                 int
	key               string
	herr              error
	drain             bool
	prev              error // error of the handler
}

// wait returns the instant at which the receive stopped waiting.
func (r *recvRec) tw() time.Duration {
	if r.n > 0 {
		return r.th
	}
	return r.tret
}

type subRec struct {
	topic       int
	call, ret   int64
	err         error
	s           broker.Subscriber
	id          string
	idx         int
	unsubs      []*unsubRec
	tcall, tret time.Duration
	ctx         int
}

type unsubRec struct {
	call, ret   int64
	tcall, tret time.Duration
	err         error
}

type sessRec struct {
	call, ret   int64
	tcall, tret time.Duration
	ctx         int // 0: never cancelled
	err         error
}

type brokerRun struct {
	e       *Env
	inst    int
	name    func(int) string
	b       *membroker.Memory
	ctx     *ctxs
	octx    *ctxs
	pubs    []*pubRec
	byKey   map[string]*pubRec
	recvs   []*recvRec
	subs    []*subRec
	slots   []slot[*subRec]
	opens   []*sessRec
	closes  []*sessRec
	mass    []*subRec
	blank   bool
	seqMsg  int
	stalls  bool
	drained bool
	alive   []string
	late    []string
	nclose  int
}

func topicName(i int) string { return topicNames[0](i) }

const nSlots = 12

// topicNames are the ways topics are named: pairs that a careless comparison confuses.
var topicNames = []func(int) string{
	func(i int) string {
		if i < 4 {
			return []string{"t0", "", "t/2", "t 3"}[i]
		}
		return fmt.Sprint("t", i)
	},
	func(i int) string {
		return []string{"Topic", "topic", "topic ", "TOPIC", "\ttopic", "topics", "to", "topi", "c", "pic"}[i%10]
	},
	func(i int) string {
		return []string{"a", "a/b", "a/", "a.b", "*", "a.*", "#", "b/a", "/a", "a//b"}[i%10]
	},
	func(i int) string { return strings.Repeat("long topic ", 30) + string(rune('a'+i)) },
	func(i int) string { return string(rune('a'+i)) + strings.Repeat(" long topic", 30) },
	func(i int) string {
		return []string{"\x00", "", "é", "e\u0301", "\xff", "\xfe", "0", "00", "nil", "default"}[i%10]
	},
	func(i int) string { // the same FNV-1a, CRC-32, FNV-1, Adler-32 and 31-polynomial in pairs
		return []string{"costarring", "liquid", "plumless", "buckeroo", "creamwove", "quists", "fccf", "dfce", "Aa", "BB"}[i%10]
	},
}

// longTimeouts are milliseconds.
var longTimeouts = []int{700_000, 1_800_000, 10_800_000, 90_000_000, 172_800_000, 700_000_000}

// span is a timeout of the workload: milliseconds, or nanoseconds if negative.
func span(n int) time.Duration {
	if n < 0 {
		return time.Duration(-n)
	}
	return ms(n)
}

func msgKey(m broker.Message) string {
	keys := make([]string, 0, len(m.Attrs))
	for k, v := range m.Attrs {
		keys = append(keys, k+"="+v)
	}
	sort.Strings(keys)
	if len(m.Data) > 300 {
		h := fnv.New64a()
		h.Write(m.Data)
		return fmt.Sprintf("%q/%d/%q... %d bytes, hash %x/%q/%v", m.UID, int(m.Type), m.Data[:20], len(m.Data), h.Sum64(), keys, m.Attrs == nil)
	}
	return fmt.Sprintf("%q/%d/%q/%v/%q/%v", m.UID, int(m.Type), m.Data, m.Data == nil, keys, m.Attrs == nil)
}

// message makes a message that differs from all others in at least one field.
func (br *brokerRun) message(task, style int) broker.Message {
	br.seqMsg++
	n := br.seqMsg
	id := fmt.Sprintf("%c%d", 'm'+rune(br.inst), n)
	m := broker.Message{Type: broker.Type(n % 6)}
	if n%7 == 0 {
		m.Type = broker.Type(n%3*1000 - 1)
	}
	switch style {
	case 0:
		m.UID, m.Data = id, []byte("data of "+id)
	case 1: // like the ingester: no identifier
		m.Data = []byte("data of " + id)
		switch {
		case !br.blank && br.inst == 0 && n%3 == 0: // one that holds nothing
			br.blank = true
			return broker.Message{}
		case n%4 == 0: // hardly anything
			return broker.Message{Type: broker.Type(10000 + n)}
		case n%4 == 1:
			return broker.Message{Attrs: map[string]string{"id": id}}
		}
	case 2:
		m.UID, m.Data, m.Attrs = "same", []byte("same"), map[string]string{"id": id, "k": "v", "empty": "", "": "x", "Key ": " v\n"}
	case 3:
		m.UID = id
		if n%5 == 0 {
			m.Data, m.Attrs = []byte(word(n)), map[string]string{word(n + 1): word(n), word(n / 5): id}
		}
		if n%5 == 1 {
			m.Data = payload(n / 5)
		}
	case 4:
		m.UID, m.Data, m.Attrs = id, []byte{}, map[string]string{}
	default:
		m.UID, m.Data = "same", append(make([]byte, 100), id...)
		switch n % 9 {
		case 1:
			m.Data = []byte(id + "\x00\x00\x00")
		case 2:
			m.Data = []byte(" \t" + id + " \r\n")
		case 4:
			m.Data = []byte("\xff\xfe" + id + "\x80")
		case 7:
			m.Data = []byte("{\"id\": \"" + id + "\", \"x\": [1,  null]}\n")
		}
		if n%5 == 0 {
			m.Data = append(bytes.Repeat([]byte{byte(n)}, 5000), id...)
		}
		if n%3 == 0 && br.e.p("huge") == 1 {
			m.Data = append(bytes.Repeat([]byte("0123456789"), 7000), id...)
		}
	}
	return m
}

func (br *brokerRun) pub(task int, op Op) *pubRec {
	m := br.message(task, op.D)
	p := &pubRec{topic: op.A, key: msgKey(m), ctx: op.C}
	p.timeout = ms(br.e.p("brokerTimeout"))
	if p.timeout == 0 {
		p.timeout = 5 * time.Second
	}
	var opts []broker.Option
	if op.B != 0 {
		p.timeout = span(op.B)
		opts = append(opts, broker.WithPubTimeout(p.timeout))
	}
	if br.e.p("opts") == 1 {
		opts = br.foreign(opts, broker.WithSubTimeout(ms(3)))
	}
	br.byKey[p.key] = p
	br.pubs = append(br.pubs, p)
	c := br.ctx.get(op.C)
	p.tcall, p.call = rt.Now(), rt.Seq()
	br.e.Logf("client%d: publish %s on topic %d, timeout %v, ctx %d", task, p.key, op.A, p.timeout, op.C)
	p.err = br.b.Pub(c, br.name(op.A), m, opts...)
	p.ret, p.tret = rt.Seq(), rt.Now()
	br.e.Logf("client%d: published %s: %v", task, p.key, p.err)
	return p
}

// foreign adds options that mean nothing to the call they are given to.
func (br *brokerRun) foreign(opts []broker.Option, o broker.Option) []broker.Option {
	switch rt.Choose(4) {
	case 0:
		return append(opts, o)
	case 1:
		return append([]broker.Option{o}, opts...)
	case 2:
		return append(opts, broker.WithCap(br.e.p("cap")+2), broker.WithSink(broker.FanIn))
	}
	return opts
}

func (br *brokerRun) subscribe(topic, ctx int) *subRec {
	s := &subRec{topic: topic, idx: len(br.subs), ctx: ctx}
	br.subs = append(br.subs, s)
	s.tcall, s.call = rt.Now(), rt.Seq()
	var opts []broker.Option
	if br.e.p("opts") == 1 {
		opts = br.foreign(opts, broker.WithPubTimeout(ms(2)))
	}
	s.s, s.err = br.b.Sub(br.ctx.get(ctx), br.name(topic), opts...)
	s.ret, s.tret = rt.Seq(), rt.Now()
	br.e.Logf("subscription %d to topic %d: %v", s.idx, topic, s.err)
	if s.err == nil {
		br.info(s)
	}
	return s
}

func (br *brokerRun) info(s *subRec) {
	id, err := s.s.ID(anyCtx())
	if err != nil || id == "" || (s.id != "" && s.id != id) {
		br.e.Fail("subscription identity", "B06 U01", "subscription %d: identifier %q, error %v, before %q", s.idx, id, err, s.id)
	}
	s.id = id
	t, err := s.s.Topic(anyCtx())
	if err != nil || t != br.name(s.topic) {
		br.e.Fail("subscription topic", "B01 B06", "subscription %d: topic %q, error %v, want %q", s.idx, t, err, br.name(s.topic))
	}
}

// anyCtx is the context of a call that does nothing a context could interrupt:
// sometimes it ended before the call.
func anyCtx() sctx.Context {
	if rt.Choose(4) > 0 {
		return sctx.Background()
	}
	rt.Fault("context cancelled")
	c, cancel := sctx.WithCancel(sctx.Background())
	cancel()
	return c
}

func (br *brokerRun) unsub(s *subRec) {
	u := &unsubRec{}
	s.unsubs = append(s.unsubs, u)
	u.tcall, u.call = rt.Now(), rt.Seq()
	br.e.Logf("unsubscribe %d", s.idx)
	u.err = s.s.Unsubscribe(anyCtx())
	u.ret, u.tret = rt.Seq(), rt.Now()
	br.e.Logf("unsubscribed %d: %v", s.idx, u.err)
}

func (br *brokerRun) close() {
	c := &sessRec{}
	br.closes = append(br.closes, c)
	c.tcall, c.call = rt.Now(), rt.Seq()
	br.e.Logf("close")
	rt.Fault("session closed")
	c.err = br.b.Close()
	c.ret, c.tret = rt.Seq(), rt.Now()
	br.e.Logf("closed: %v", c.err)
}

func (br *brokerRun) open(ctx int) {
	o := &sessRec{ctx: ctx}
	br.opens = append(br.opens, o)
	o.tcall, o.call = rt.Now(), rt.Seq()
	br.e.Logf("open with ctx o%d", ctx)
	o.err = br.b.Open(br.octx.get(ctx))
	o.ret, o.tret = rt.Seq(), rt.Now()
	br.e.Logf("opened: %v", o.err)
}

var errHandler = errors.New("handler failed")

func (br *brokerRun) recv(task int, s *subRec, op Op, depth int) *recvRec {
	r := &recvRec{sub: s, ctx: op.C, timeout: 5 * time.Second}
	var opts []broker.Option
	if op.B != 0 {
		r.timeout = span(op.B)
		opts = append(opts, broker.WithSubTimeout(r.timeout))
	}
	if br.e.p("opts") == 1 {
		opts = br.foreign(opts, broker.WithPubTimeout(ms(3)))
	}
	br.recvs = append(br.recvs, r)
	h := func(ctx context.Context, m broker.Message) error {
		r.n++
		if r.n == 1 {
			r.hstart, r.th = rt.Seq(), rt.Now()
		}
		k := msgKey(m)
		r.key = k
		br.e.Logf("client%d: handler of subscription %d gets %s", task, s.idx, k)
		br.got(r, k)
		switch op.D {
		case 1:
			rt.Fault("handler error")
			r.herr = fmt.Errorf("%w: %s", errHandler, k)
		case 7: // errors the broker itself uses
			rt.Fault("handler error")
			r.herr = []error{broker.ErrTimeout, context.Canceled, broker.ErrSubscriptionInactive, broker.ErrNotConnected, context.DeadlineExceeded}[len(br.recvs)%5]
		case 2:
			rt.Fault("slow handler")
			rt.Sleep(ms(20))
		case 3:
			rt.Fault("unsubscribe inside handler")
			br.unsub(s)
		case 4:
			if br.e.P.Preset == "sessions" || br.e.P.Preset == "mixed" {
				rt.Fault("close inside handler")
				br.close()
			} else {
				rt.Yield("handler")
			}
		case 5:
			rt.Fault("publish inside handler")
			if depth == 0 {
				br.pub(task, Op{A: s.topic, B: 10, D: 0})
			}
		case 6:
			rt.Fault("receive inside handler")
			if depth == 0 {
				br.recv(task, s, Op{B: 10}, depth+1)
			}
		case 8:
			rt.Fault("subscribe inside handler")
			if t := br.subscribe((s.topic+len(br.recvs)%2)%br.e.p("topics"), 0); t.err == nil {
				br.slots[len(br.recvs)%br.e.p("subs")].set(t)
			}
		case 9:
			if op.C > 0 {
				rt.Fault("context cancelled inside handler")
				br.ctx.doCancel(op.C)
				if ctx.Err() == nil {
					br.e.Fail("handler context", "B03 B07", "the context of a handler does not end with the caller's")
				}
			}
		}
		r.hend = rt.Now()
		return r.herr
	}
	c := br.ctx.get(op.C)
	r.tcall, r.call = rt.Now(), rt.Seq()
	br.e.Logf("client%d: receive on subscription %d (topic %d), timeout %v, ctx %d", task, s.idx, s.topic, r.timeout, op.C)
	r.err = s.s.Receive(c, h, opts...)
	r.ret, r.tret = rt.Seq(), rt.Now()
	br.e.Logf("client%d: received on subscription %d: %v", task, s.idx, r.err)
	return r
}

// got checks a delivery as it happens.
func (br *brokerRun) got(r *recvRec, k string) {
	p := br.byKey[k]
	if p == nil {
		br.e.Fail("unknown message", "B01", "a handler was given a message nobody published: %s", k)
		return
	}
	if p.topic != r.sub.topic {
		br.e.Fail("wrong topic", "B01", "message %s of topic %d was given to a subscription of topic %d", k, p.topic, r.sub.topic)
	}
	if p.delivered != nil {
		br.e.Fail("delivered twice", "B01", "message %s was given to two handlers", k)
		return
	}
	if r.n > 1 {
		br.e.Fail("two messages in one receive", "B01 B03 B07", "one receive handed over more than one message (%s)", k)
		return
	}
	p.delivered = r
}

func newBrokerRun(e *Env, inst int) *brokerRun {
	br := &brokerRun{e: e, inst: inst, byKey: map[string]*pubRec{}, stalls: e.P.Stall > 0, name: topicNames[e.p("names")]}
	opts := []broker.Option{broker.WithCap(e.p("cap"))}
	if t := e.p("brokerTimeout"); t > 0 {
		opts = append(opts, broker.WithPubTimeout(ms(t)))
	}
	if e.p("opts") == 1 {
		opts = append(opts, broker.WithSubTimeout(ms(700)), broker.WithSink(broker.FanIn))
	}
	b, err := membroker.New(opts...)
	if err != nil {
		e.Fail("new broker", brokerProps, "New failed: %v", err)
		return nil
	}
	br.b = b
	br.ctx = newCtxs(e, e.p("ctxs"))
	br.octx = newCtxs(e, 2)
	for i := 1; i <= 3; i++ {
		if d := e.p(fmt.Sprint("deadline", i)); d > 0 {
			br.ctx.deadline(i, ms(d))
		}
	}
	br.slots = make([]slot[*subRec], nSlots)
	if e.p("opened") == 1 || e.P.Preset == "cap100" {
		br.open(e.p("openctx"))
		for i := 0; i < e.p("presubs"); i++ {
			if s := br.subscribe(i%e.p("topics"), 0); s.err == nil {
				br.slots[i].set(s)
			}
		}
		for i := 0; i < e.p("mass"); i++ {
			br.mass = append(br.mass, br.subscribe(i%e.p("topics"), 0))
		}
	}
	return br
}

func runBroker(e *Env) {
	var all []*brokerRun
	for i := 0; i <= e.p("twin"); i++ {
		br := newBrokerRun(e, i)
		if br == nil {
			return
		}
		all = append(all, br)
	}
	e.data = all
	e.RunTasks(func(task int, op Op) {
		br := all[op.I%len(all)]
		switch op.K {
		case "pub":
			br.pub(task, op)
		case "pubn":
			for i := 0; i < op.D; i++ {
				o := Op{A: op.A, B: op.B, D: i % 6}
				if op.C > 0 && i%2 == 1 {
					o.C = op.C
				}
				br.pub(task, o)
			}
		case "puball":
			for i := 0; i < op.D; i++ {
				br.pub(task, Op{A: (op.A + i) % e.p("topics"), B: op.B, D: i % 6})
			}
		case "sub":
			if s := br.subscribe(op.A, op.C); s.err == nil {
				br.slots[op.B].set(s)
			}
		case "recv":
			if s, ok := br.slots[op.A].get(); ok {
				br.recv(task, s, op, 0)
			}
		case "recvn":
			if s, ok := br.slots[op.A].get(); ok {
				idle := 0
				for i := 0; i < op.D && idle < 12; i++ {
					o := Op{B: op.B}
					if op.E == 1 || op.E == 2 && i%3 == 2 {
						o.D = 1
					}
					if op.C > 0 && i%2 == 1 {
						o.C = op.C
					}
					r := br.recv(task, s, o, 1)
					if r.err != nil && op.E == 0 {
						break
					}
					if r.n == 0 {
						idle++
					}
				}
			}
		case "unsub":
			if s, ok := br.slots[op.A].get(); ok {
				br.unsub(s)
			}
		case "massunsub":
			for i, j := op.A, 0; i < len(br.mass) && j < op.D; i, j = i+op.B, j+1 {
				br.unsub(br.mass[i])
			}
		case "info":
			if s, ok := br.slots[op.A].get(); ok {
				br.info(s)
			}
		case "open":
			br.open(op.C)
		case "close":
			br.close()
		case "cancel":
			br.ctx.doCancel(op.C)
		case "cancelopen":
			br.octx.doCancel(op.C)
		case "sleep":
			e.Logf("client%d: sleep %v", task, span(op.B))
			rt.Sleep(span(op.B))
		}
	})
	rt.Calm()
	rt.Settle()
	for _, br := range all {
		br.drain()
	}
	for _, br := range all {
		br.nclose = len(br.closes)
		br.close()
		for _, s := range br.subs { // it is never too late to unsubscribe
			if s.err == nil && (len(br.mass) > 0 || rt.Choose(3) == 0) {
				t0 := rt.Now()
				if err := s.s.Unsubscribe(anyCtx()); err != nil {
					e.Fail("unsubscribe failed", "B06", "unsubscribing after close returned %v", err)
				}
				if rt.Now() > t0 {
					e.Fail("unsubscribe blocked", "B06", "unsubscribing after close took %v", rt.Now()-t0)
				}
			}
		}
	}
	rt.Settle()
	alive := rt.Alive()
	if len(alive) > 0 {
		e.Fail("background activity after close", "B05 B06", "after the session was closed and all is quiet these goroutines are still there: %v", alive)
	}
	for _, br := range all {
		br.alive = alive
		br.finish()
	}
}

// drain empties the topics.
func (br *brokerRun) drain() {
	e := br.e
	e.Logf("-- all clients are done")
	open := true
	for i := 0; i < max(1, e.p("topics")); i++ {
		s := br.subscribe(i, 0)
		if s.err != nil {
			open = false
			break
		}
		for {
			r := br.recv(99, s, Op{B: 20_000}, 1)
			r.drain = true
			if r.err != nil || r.n == 0 {
				break
			}
		}
	}
	br.drained = true
	e.Observe(fmt.Sprint("open", open))
	// is the session state what its history says?
	now := rt.Seq()
	if open && br.defClosed(now, now) {
		e.Fail("accepted while closed", "B05", "subscribing succeeded although the session was closed")
	}
	if open {
		for _, o := range br.opens {
			// the only session, its context cancelled long ago
			if o.ctx > 0 && br.octx.call[o.ctx-1] > 0 && len(br.opens) == 1 {
				e.Fail("open after its context was cancelled", "B05", "the context of the session was cancelled, all is quiet, and the session still accepts subscriptions")
			}
		}
	}
}

// finish probes what is left after the session was closed.
func (br *brokerRun) finish() {
	e := br.e
	if err := br.b.Pub(sctx.Background(), br.name(0), broker.Message{UID: "late"}, broker.WithPubTimeout(ms(1))); !errors.Is(err, broker.ErrNotConnected) {
		e.Fail("publish on a closed broker", "B05", "publishing after close returned %v", err)
	}
	if _, err := br.b.Sub(sctx.Background(), br.name(0)); !errors.Is(err, broker.ErrNotConnected) {
		e.Fail("subscribe on a closed broker", "B05", "subscribing after close returned %v", err)
	}
	// old subscriptions take nothing any more
	probe := func(when string) {
		n := 0
		for _, s := range br.subs {
			if s.err != nil || n > 3 {
				continue
			}
			n++
			t0 := rt.Now()
			called := false
			err := s.s.Receive(sctx.Background(), func(context.Context, broker.Message) error { called = true; return nil }, broker.WithSubTimeout(ms(50)))
			if called {
				e.Fail("old subscription gets messages", "B05 B06", "a subscription of an ended session was given a message %s", when)
			}
			if err == nil && rt.Now() == t0 && len(s.unsubs) == 0 {
				// a wake-up without a reason of its own; allowed: the session has ended
				continue
			}
		}
	}
	probe("after close")
	// a fresh session
	if err := br.b.Open(sctx.Background()); err != nil {
		e.Fail("reopen", "B05", "opening again failed: %v", err)
		return
	}
	rt.Settle()
	for i := 0; i < max(1, e.p("topics")); i++ {
		s, err := br.b.Sub(sctx.Background(), br.name(i))
		if err != nil {
			e.Fail("fresh session unstable", "B05", "subscribing in a freshly opened session failed: %v", err)
			return
		}
		var got []string
		h := func(_ context.Context, m broker.Message) error { got = append(got, msgKey(m)); return nil }
		err = s.Receive(sctx.Background(), h, broker.WithSubTimeout(ms(1)))
		if len(got) > 0 {
			e.Fail("stale message", "B05", "a fresh session delivered %v", got)
		} else if !errors.Is(err, broker.ErrTimeout) {
			e.Fail("fresh session receive", "B05 B03", "receive in an empty fresh session returned %v instead of the timeout error", err)
		}
		m := broker.Message{UID: "fresh", Data: []byte("x")}
		var done []*rt.Task
		var perr, rerr error
		done = append(done, rt.GoNamed("fresh receiver", func() {
			rerr = s.Receive(sctx.Background(), h, broker.WithSubTimeout(ms(500)))
		}))
		done = append(done, rt.GoNamed("fresh publisher", func() {
			perr = br.b.Pub(sctx.Background(), br.name(i), m, broker.WithPubTimeout(ms(500)))
		}))
		rt.Join(done...)
		if perr != nil || rerr != nil || len(got) != 1 || got[0] != msgKey(m) {
			e.Fail("fresh session exchange", "B05", "publish %v, receive %v, handed over %v", perr, rerr, got)
		}
	}
	probe("in a later session")
	if err := br.b.Close(); err != nil {
		e.Fail("close", "B05", "close failed: %v", err)
	}
	rt.Settle()
	if a := rt.Alive(); len(a) > 0 && len(br.alive) == 0 {
		e.Fail("background activity after close", "B05 B06", "after the second session was closed these goroutines are still there: %v", a)
	}
	br.closes = br.closes[:br.nclose]
}

// ended reports whether the session opened by o had certainly ended before seq.
func (br *brokerRun) ended(o *sessRec, seq int64) bool {
	for _, c := range br.closes {
		if o.ret < c.call && c.ret != 0 && c.ret < seq {
			return true
		}
	}
	return false
}

func (br *brokerRun) cancelled(o *sessRec) int64 {
	if o.ctx <= 0 {
		return 0
	}
	return br.octx.call[o.ctx-1]
}

// defOpen reports whether the broker was certainly open from a to b.
func (br *brokerRun) defOpen(a, b int64) bool {
next:
	for _, o := range br.opens {
		if o.ret == 0 || o.ret >= a || o.err != nil {
			continue
		}
		for _, c := range br.closes {
			if !(c.ret != 0 && c.ret < o.call || c.call > b) {
				continue next
			}
		}
		for _, q := range br.opens {
			x := br.cancelled(q)
			if x == 0 || x > b || q.call > o.ret {
				continue
			}
			if q == o || !br.ended(q, o.call) {
				continue next
			}
		}
		return true
	}
	return false
}

// defClosed reports whether the broker was certainly closed from a to b.
func (br *brokerRun) defClosed(a, b int64) bool {
	any := false
	for _, o := range br.opens {
		if o.call < b {
			any = true
		}
	}
	if !any {
		return true
	}
next:
	for _, c := range br.closes {
		if c.ret == 0 || c.ret >= a {
			continue
		}
		for _, o := range br.opens {
			if o.call < b && o.ret >= c.call {
				continue next
			}
		}
		return true
	}
	return false
}

// mayHaveEnded reports whether a session end may explain the loss of something since seq.
func (br *brokerRun) mayHaveEnded(since int64) bool { return br.mayHaveEndedBy(since, 1<<62) }

// mayHaveEndedBy: a session end that may have taken effect after since and began before until.
func (br *brokerRun) mayHaveEndedBy(since, until int64) bool {
	for _, c := range br.closes {
		if (c.ret == 0 || c.ret > since) && c.call < until {
			return true
		}
	}
	for _, o := range br.opens {
		if x := br.cancelled(o); x > 0 && x < until && !br.ended(o, since) {
			return true
		}
	}
	return false
}

func ctxErr(err error) bool {
	return errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded)
}

func checkBroker(e *Env) {
	all, _ := e.data.([]*brokerRun)
	for _, br := range all {
		br.check()
	}
}

func (br *brokerRun) check() {
	e := br.e
	if !br.drained {
		return
	}
	exact := !br.stalls && rt.Drift() == 0 // simulated time passes only while everybody waits
	capacity := e.p("cap")
	if capacity < 0 {
		capacity = 100
	}
	for _, p := range br.pubs {
		if p.ret == 0 {
			continue
		}
		e.Observe(fmt.Sprintf("p%d %v %v", p.topic, p.err, p.delivered != nil))
		what := fmt.Sprintf("publish of %s on topic %d (called at %v, timeout %v)", p.key, p.topic, p.tcall, p.timeout)
		switch {
		case p.err == nil:
			e.count("publish accepted")
			if br.defClosed(p.call, p.ret) {
				e.Fail("publish accepted while closed", "B05", "%s succeeded although no session was open", what)
			}
		case errors.Is(p.err, broker.ErrTimeout):
			e.count("publish timeout")
			if p.tret-p.tcall < p.timeout {
				props := "B03"
				if p.ctx > 0 && br.ctx.call[p.ctx-1] > 0 && br.ctx.call[p.ctx-1] < p.ret {
					props += " B04"
				}
				e.Fail("publish timed out early", props, "%s timed out after %v", what, p.tret-p.tcall)
			}
			if br.defClosed(p.call, p.ret) {
				e.Fail("publish outside a session", "B05", "%s timed out although no session was open", what)
			}
		case errors.Is(p.err, broker.ErrNotConnected):
			e.count("publish not connected")
			if br.defOpen(p.call, p.ret) {
				e.Fail("publish refused while open", "B04 B05", "%s failed with %v although the session was open", what, p.err)
			}
		case ctxErr(p.err):
			e.count("publish cancelled")
			if p.ctx == 0 || br.ctx.call[p.ctx-1] == 0 || br.ctx.call[p.ctx-1] > p.ret {
				e.Fail("publish cancelled for no reason", "B03 B04", "%s failed with %v but its context was not cancelled", what, p.err)
			} else if want := br.ctx.get(p.ctx).Err(); !errors.Is(p.err, want) {
				e.Fail("publish context error", "B04", "%s failed with %v, its context's error is %v", what, p.err, want)
			}
		default:
			e.Fail("publish error", "B02 B03 B04", "%s failed with %v", what, p.err)
		}
		if p.err != nil && p.delivered != nil {
			props := "B01 B02"
			if ctxErr(p.err) {
				props += " B04"
			}
			e.Fail("failed publish delivered", props, "%s returned %v, yet its message was given to a handler", what, p.err)
		}
		if exact && p.tret-p.tcall > p.timeout {
			e.Fail("publish overdue", "B03", "%s ended only after %v (%v)", what, p.tret-p.tcall, p.err)
		}
		if exact && p.ctx > 0 && br.ctx.call[p.ctx-1] > 0 {
			at := br.ctx.at[p.ctx-1]
			if at < p.tcall {
				at = p.tcall
			}
			if p.tret > at && br.ctx.call[p.ctx-1] < p.ret {
				e.Fail("publish outlives its context", "B03 B04", "%s ended at %v, its context at %v", what, p.tret, br.ctx.at[p.ctx-1])
			}
		}
		if exact {
			for _, c := range br.closes {
				if c.tcall > p.tcall && c.tcall < p.tret {
					e.Fail("publish outlives its session", "B03 B05", "%s ended at %v although the session was closed at %v", what, p.tret, c.tcall)
				}
			}
			if at, ok := br.soleCancel(); ok && at > p.tcall && at < p.tret {
				e.Fail("publish outlives its session", "B03 B05", "%s ended at %v although the session's context was cancelled at %v", what, p.tret, at)
			}
		}
	}
	for _, s := range br.subs {
		if s.ret == 0 {
			continue
		}
		e.Observe(fmt.Sprintf("s%d %v", s.topic, s.err))
		if s.err == nil {
			if br.defClosed(s.call, s.ret) {
				e.Fail("subscribed while closed", "B05", "subscribing to topic %d succeeded although no session was open", s.topic)
			}
		} else if errors.Is(s.err, broker.ErrNotConnected) {
			if br.defOpen(s.call, s.ret) {
				e.Fail("subscribe refused while open", "B04 B05", "subscribing to topic %d failed with %v although the session was open", s.topic, s.err)
			}
		} else if !(ctxErr(s.err) && s.ctx > 0 && br.ctx.call[s.ctx-1] > 0 && br.ctx.call[s.ctx-1] < s.ret) {
			e.Fail("subscribe error", "B05 B04", "subscribing to topic %d failed with %v", s.topic, s.err)
		}
		for _, u := range s.unsubs {
			if u.ret != 0 && u.err != nil {
				e.Fail("unsubscribe failed", "B06", "unsubscribing returned %v", u.err)
			}
			if exact && u.ret != 0 && u.tret > u.tcall {
				e.Fail("unsubscribe blocked", "B06", "unsubscribing took %v", u.tret-u.tcall)
			}
		}
	}
	ids := map[string]int{}
	for _, s := range br.subs {
		if s.err == nil && s.ret != 0 {
			if o, ok := ids[s.id]; ok {
				e.Fail("subscription identifiers collide", "B06 U01", "subscriptions %d and %d have the same identifier %q", o, s.idx, s.id)
			}
			ids[s.id] = s.idx
		}
	}
	for _, c := range append(append([]*sessRec{}, br.closes...), br.opens...) {
		if c.ret != 0 && c.err != nil {
			e.Fail("open or close failed", "B05", "opening or closing returned %v", c.err)
		}
		if exact && c.ret != 0 && c.tret > c.tcall {
			e.Fail("open or close blocked", "B05", "opening or closing took %v", c.tret-c.tcall)
		}
	}
	for _, r := range br.recvs {
		if r.ret == 0 {
			continue
		}
		e.Observe(fmt.Sprintf("r%d %v %d", r.sub.topic, r.err, r.n))
		what := fmt.Sprintf("receive on subscription %d (topic %d, called at %v, timeout %v)", r.sub.idx, r.sub.topic, r.tcall, r.timeout)
		inactive := false // unsubscribed before the call
		unsubbed := false // unsubscribed by the end of the call
		for _, u := range r.sub.unsubs {
			if u.ret != 0 && u.ret < r.call {
				inactive = true
			}
			if u.call < r.ret {
				unsubbed = true
			}
		}
		if inactive {
			if r.n > 0 {
				e.Fail("message after unsubscribe", "B06", "%s was given %s although it had been unsubscribed", what, r.key)
			}
			if !errors.Is(r.err, broker.ErrSubscriptionInactive) {
				e.Fail("receive after unsubscribe", "B06", "%s returned %v although it had been unsubscribed", what, r.err)
			}
			continue
		}
		sessionOver := br.mayHaveEndedBy(r.sub.call, r.ret)
		ctxOver := r.ctx > 0 && br.ctx.call[r.ctx-1] > 0 && br.ctx.call[r.ctx-1] < r.ret
		if r.n > 0 {
			e.count("message handled")
			if r.err != r.herr {
				e.Fail("handler error lost", "B01 B04 B07", "%s returned %v, its handler %v", what, r.err, r.herr)
			}
			// nothing of an ended session is taken by a later receive
			if p := br.byKey[r.key]; p != nil && p.ret != 0 {
				for _, c := range br.closes {
					if c.ret != 0 && p.ret < c.call && c.ret < r.call {
						e.Fail("message of an ended session", "B05 B01", "%s was given %s, published in a session that had been closed before", what, r.key)
					}
				}
			}
		} else {
			switch {
			case r.err == nil:
				e.count("receive interrupted")
				if !ctxOver && !sessionOver && !unsubbed {
					e.Fail("receive woke for no reason", "B03 B04 B06", "%s returned without error and without a message, but nothing had interrupted it", what)
				}
			case errors.Is(r.err, broker.ErrTimeout):
				e.count("receive timeout")
				if r.tret-r.tcall < r.timeout {
					e.Fail("receive timed out early", "B03", "%s timed out after %v", what, r.tret-r.tcall)
				}
			case errors.Is(r.err, broker.ErrSubscriptionInactive), errors.Is(r.err, broker.ErrNotConnected):
				e.count("receive inactive")
				if !unsubbed && !sessionOver {
					e.Fail("subscription inactive for no reason", "B04 B06", "%s returned %v, but neither was it unsubscribed nor had the session ended", what, r.err)
				}
			case ctxErr(r.err) && ctxOver:
			default:
				e.Fail("receive error", "B03 B04", "%s returned %v", what, r.err)
			}
		}
		if exact {
			if r.tw()-r.tcall > r.timeout {
				e.Fail("receive overdue", "B03", "%s ended only after %v", what, r.tw()-r.tcall)
			}
			if ctxOver {
				at := br.ctx.at[r.ctx-1]
				if at < r.tcall {
					at = r.tcall
				}
				if r.tw() > at {
					e.Fail("receive outlives its context", "B03", "%s waited until %v, its context ended at %v", what, r.tw(), br.ctx.at[r.ctx-1])
				}
			}
			for _, c := range br.closes {
				if c.tcall > r.tcall && c.tcall < r.tw() {
					e.Fail("receive outlives its session", "B03 B05", "%s waited until %v although the session was closed at %v", what, r.tw(), c.tcall)
				}
			}
			if at, ok := br.soleCancel(); ok && at > r.tcall && at < r.tw() {
				e.Fail("receive outlives its session", "B03 B05", "%s waited until %v although the session's context was cancelled at %v", what, r.tw(), at)
			}
			for _, u := range r.sub.unsubs {
				if u.tcall > r.tcall && u.tcall < r.tw() {
					e.Fail("receive outlives its subscription", "B03 B06", "%s waited until %v although it was unsubscribed at %v", what, r.tw(), u.tcall)
				}
			}
		}
	}
	br.order()
	br.conserve()
	br.capacityCheck(capacity)
	if exact {
		br.meet(capacity)
	}
}

// soleCancel returns when the context of the only session ever opened was cancelled.
func (br *brokerRun) soleCancel() (time.Duration, bool) {
	if len(br.opens) != 1 || br.opens[0].ctx == 0 {
		return 0, false
	}
	i := br.opens[0].ctx - 1
	return br.octx.at[i], br.octx.call[i] > 0
}

// involved names the properties that something gone wrong on a topic contradicts because of what
// else happened there: a call that was cancelled, timed out or failed (B04), a subscription that
// was ended (B06), a session that had ended before the message was published (B05).
func (br *brokerRun) involved(topic int, published int64) string {
	b04, b05, b06 := false, false, false
	over := func(ctx int) bool { return ctx > 0 && br.ctx.call[ctx-1] > 0 }
	for _, r := range br.recvs {
		if r.sub.topic == topic && !r.drain && (over(r.ctx) && br.ctx.call[r.ctx-1] < r.ret || r.herr != nil) {
			b04 = true
		}
	}
	for _, p := range br.pubs {
		b04 = b04 || p.topic == topic && p.err != nil
	}
	for _, s := range br.subs {
		b04 = b04 || s.topic == topic && over(s.ctx)
		b06 = b06 || s.topic == topic && len(s.unsubs) > 0
	}
	for _, c := range br.closes {
		b05 = b05 || c.ret != 0 && c.ret < published
	}
	for _, o := range br.opens {
		b05 = b05 || br.cancelled(o) > 0 && br.ended(o, published)
	}
	s := ""
	for i, b := range []bool{b04, b05, b06} {
		if b {
			s += []string{" B04", " B05", " B06"}[i]
		}
	}
	return s
}

// order checks publication order among the delivered messages of a topic.
func (br *brokerRun) order() {
	for _, a := range br.pubs {
		if a.err != nil || a.delivered == nil || a.ret == 0 {
			continue
		}
		for _, b := range br.pubs {
			if b.topic != a.topic || b.err != nil || b.delivered == nil || b.call < a.ret {
				continue
			}
			if b.delivered.hstart < a.delivered.call {
				br.e.Fail("out of order", "B01", "%s was published before %s on topic %d, but handed out after it", a.key, b.key, a.topic)
			}
		}
	}
}

// conserve checks that every accepted message was delivered or excusably discarded.
func (br *brokerRun) conserve() {
	for t := 0; t < max(1, br.e.p("topics")); t++ {
		var lost []*pubRec
		for _, p := range br.pubs {
			if p.topic == t && p.ret != 0 && p.err == nil && p.delivered == nil && !br.mayHaveEnded(p.call) {
				lost = append(lost, p)
			}
		}
		var discards []int64 // ends of receives that may have discarded a message
		for _, r := range br.recvs {
			if r.sub.topic == t && !r.drain && r.ret != 0 && r.n == 0 && errors.Is(r.err, broker.ErrTimeout) {
				discards = append(discards, r.ret)
			}
		}
		sort.Slice(lost, func(i, j int) bool { return lost[i].call > lost[j].call })
		sort.Slice(discards, func(i, j int) bool { return discards[i] > discards[j] })
		for i, p := range lost {
			if i >= len(discards) || discards[i] < p.call {
				br.e.Fail("message lost", "B01 B02"+br.involved(t, p.call), "%s was accepted on topic %d but never delivered (%d undelivered, %d receives timed out)", p.key, t, len(lost), len(discards))
				break
			}
			br.e.count("message discarded by a timed-out receive")
		}
	}
}

// capacityCheck looks for more waiting messages than the capacity allows.
func (br *brokerRun) capacityCheck(capacity int) {
	for t := 0; t < max(1, br.e.p("topics")); t++ {
		timeouts := 0
		for _, r := range br.recvs {
			if r.sub.topic == t && !r.drain && r.n == 0 && errors.Is(r.err, broker.ErrTimeout) {
				timeouts++
			}
		}
		var acc []*pubRec
		for _, p := range br.pubs {
			if p.topic == t && p.err == nil && p.ret != 0 {
				acc = append(acc, p)
			}
		}
		for _, at := range acc {
			s := at.ret
			waiting, lost := 0, 0
			for _, m := range acc {
				if m.ret > s || br.mayHaveEndedBy(m.call, s) {
					continue
				}
				if m.delivered == nil {
					if !br.mayHaveEnded(m.call) {
						lost++
					}
				} else if m.delivered.call > s {
					waiting++
				}
			}
			if lost > timeouts {
				waiting += lost - timeouts
			}
			if waiting > capacity {
				br.e.Fail("capacity exceeded", "B02", "%d accepted messages of topic %d were waiting, capacity %d", waiting, t, capacity)
				return
			}
		}
	}
}

// meet checks that nobody waits (simulated time passing) for what is there.
func (br *brokerRun) meet(capacity int) {
	over := func(a0, a1, b0, b1 time.Duration) bool { return max(a0, b0) < min(a1, b1) }
	for _, r := range br.recvs {
		if r.ret == 0 || r.tw() == r.tcall {
			continue
		}
		for _, p := range br.pubs {
			if p.ret == 0 || p.topic != r.sub.topic {
				continue
			}
			if over(r.tcall, r.tw(), p.tcall, p.tret) {
				br.e.Fail("publisher and receiver both wait", "B02 B03"+br.involved(p.topic, p.call), "topic %d: a publish waited from %v to %v while a receive waited from %v to %v", p.topic, p.tcall, p.tret, r.tcall, r.tw())
			}
			if p.err == nil && p.delivered != nil && p.delivered != r && over(r.tcall, r.tw(), p.tret, p.delivered.tcall) {
				br.e.Fail("receiver waits beside a message", "B01 B02 B03"+br.involved(p.topic, p.call), "topic %d: a receive waited from %v to %v while %s was pending from %v to %v", p.topic, r.tcall, r.tw(), p.key, p.tret, p.delivered.tcall)
			}
		}
	}
	for _, p := range br.pubs {
		if p.ret == 0 || p.tret == p.tcall {
			continue
		}
		// instants at which the number of waiting messages may change
		times := []time.Duration{p.tcall}
		for _, q := range br.pubs {
			if q.topic == p.topic && q.tret > p.tcall && q.tret < p.tret {
				times = append(times, q.tret)
			}
			if d := q.delivered; d != nil && q.topic == p.topic && d.th > p.tcall && d.th < p.tret {
				times = append(times, d.th)
			}
		}
		for _, t := range times {
			waiting := 0
			for _, q := range br.pubs {
				if q.topic != p.topic || q.err != nil || q.ret == 0 || q.tret > t {
					continue
				}
				if q.delivered != nil && q.delivered.th <= t {
					continue
				}
				waiting++
			}
			if waiting < capacity {
				br.e.Fail("publisher waits although there is room", "B02"+br.involved(p.topic, p.call), "topic %d: a publish waited from %v to %v; at %v at most %d of %d places were taken", p.topic, p.tcall, p.tret, t, waiting, capacity)
				return
			}
		}
	}
}
