From 31b0c98b8325efb7f568c57bccf1c1570faebcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 01/23] fix: memory broker: serialise concurrent Unsubscribe
 calls

Unsubscribe changed the subscription under the read lock: two concurrent
calls could both close the exit channel and panic, and Receive raced with it.
---
 pkg/broker/memory/subscriber.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/broker/memory/subscriber.go b/pkg/broker/memory/subscriber.go
index 881e479..5222d87 100644
--- a/pkg/broker/memory/subscriber.go
+++ b/pkg/broker/memory/subscriber.go
@@ -31,8 +31,8 @@ func (s *Subscriber) Topic(ctx context.Context, opts ...broker.Option) (string,
 
 // Unsubscribe unsubscribes from the topic.
 func (s *Subscriber) Unsubscribe(ctx context.Context, opts ...broker.Option) error {
-	s.RLock()
-	defer s.RUnlock()
+	s.Lock()
+	defer s.Unlock()
 
 	if s.active {
 		close(s.exit)
-- 
2.43.0


From 869e2997c9cc9cd1eaa6da5f65cd8e40f7ae0156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 02/23] fix: memory broker: tie the session goroutine to its
 own session

Concurrent Opens could start several sessions, and the goroutine of a session
read the exit and control channels of whatever session was current and closed
that one when its own ended.
---
 pkg/broker/memory/memory.go | 38 +++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/pkg/broker/memory/memory.go b/pkg/broker/memory/memory.go
index cfeedf0..8cf729f 100644
--- a/pkg/broker/memory/memory.go
+++ b/pkg/broker/memory/memory.go
@@ -67,15 +67,22 @@ func New(opts ...broker.Option) (*Memory, error) {
 }
 
 // run starts the broker.
-func (m *Memory) run(ctx context.Context) {
-	defer m.Close()
+func (m *Memory) run(ctx context.Context, exit <-chan struct{}, ctl <-chan sub) {
+	defer func() {
+		m.Lock()
+		defer m.Unlock()
+		// NOTE: a new session might have been opened in the meantime
+		if m.exit == exit {
+			m.closeSession()
+		}
+	}()
 	for {
 		select {
 		case <-ctx.Done():
 			return
-		case <-m.exit:
+		case <-exit:
 			return
-		case sub := <-m.ctl:
+		case sub := <-ctl:
 			m.Lock()
 			if _, ok := m.subs[sub.topic]; ok {
 				delete(m.subs[sub.topic], sub.id)
@@ -87,15 +94,12 @@ func (m *Memory) run(ctx context.Context) {
 
 // Open opens a new broker session.
 func (m *Memory) Open(ctx context.Context, opts ...broker.Option) error {
-	m.RLock()
+	m.Lock()
+	defer m.Unlock()
+
 	if m.connected {
-		m.RUnlock()
 		return nil
 	}
-	m.RUnlock()
-
-	m.Lock()
-	defer m.Unlock()
 
 	m.connected = true
 	m.exit = make(chan struct{})
@@ -103,7 +107,7 @@ func (m *Memory) Open(ctx context.Context, opts ...broker.Option) error {
 
 	// TODO: we should make sure Close() stops this goroutine
 	// Try adding it to a sync.WaitGroup
-	go m.run(ctx)
+	go m.run(ctx, m.exit, m.ctl)
 
 	return nil
 }
@@ -201,8 +205,16 @@ func (m *Memory) Close() error {
 	m.Lock()
 	defer m.Unlock()
 
+	m.closeSession()
+
+	return nil
+}
+
+// closeSession closes the current session if there is one.
+// NOTE: it must be called with m locked!
+func (m *Memory) closeSession() {
 	if !m.connected {
-		return nil
+		return
 	}
 
 	close(m.exit)
@@ -216,6 +228,4 @@ func (m *Memory) Close() error {
 	}
 
 	m.connected = false
-
-	return nil
 }
-- 
2.43.0


From 1986d11eec84ccfd4cd82203f65ebdf266c2f1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 03/23] fix: memory broker: keep sessions apart in Pub, Sub and
 Close

Close left the topics nobody had subscribed to, and Pub and Sub could create
a topic of an ended session after Close, so a later session was given their
messages and their closed exit channel.
---
 pkg/broker/memory/memory.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/pkg/broker/memory/memory.go b/pkg/broker/memory/memory.go
index 8cf729f..9a24588 100644
--- a/pkg/broker/memory/memory.go
+++ b/pkg/broker/memory/memory.go
@@ -129,13 +129,6 @@ func (m *Memory) publishMsg(ctx context.Context, q queue, msg broker.Message, ti
 // If the topic does not exist, it is automatically created.
 // NOTE: Pub is a blocking call!
 func (m *Memory) Pub(ctx context.Context, topic string, msg broker.Message, opts ...broker.Option) error {
-	m.RLock()
-	if !m.connected {
-		m.RUnlock()
-		return broker.ErrNotConnected
-	}
-	m.RUnlock()
-
 	popts := broker.Options{}
 	for _, apply := range opts {
 		apply(&popts)
@@ -147,6 +140,10 @@ func (m *Memory) Pub(ctx context.Context, topic string, msg broker.Message, opts
 	}
 
 	m.Lock()
+	if !m.connected {
+		m.Unlock()
+		return broker.ErrNotConnected
+	}
 	q, ok := m.topics[topic]
 	if !ok {
 		q = queue{
@@ -162,18 +159,15 @@ func (m *Memory) Pub(ctx context.Context, topic string, msg broker.Message, opts
 
 // Sub subscribes to the given topic.
 func (m *Memory) Sub(ctx context.Context, topic string, opts ...broker.Option) (broker.Subscriber, error) {
-	m.RLock()
-	if !m.connected {
-		m.RUnlock()
-		return nil, broker.ErrNotConnected
-	}
-	m.RUnlock()
-
 	uid := memuid.New()
 
 	m.Lock()
 	defer m.Unlock()
 
+	if !m.connected {
+		return nil, broker.ErrNotConnected
+	}
+
 	q, ok := m.topics[topic]
 	if !ok {
 		q = queue{
@@ -224,6 +218,8 @@ func (m *Memory) closeSession() {
 			delete(m.subs[topic], id)
 		}
 		delete(m.subs, topic)
+	}
+	for topic := range m.topics {
 		delete(m.topics, topic)
 	}
 
-- 
2.43.0


From 1e057395b5e1f1fbdeb151f7ff2dc3ae14e5ce69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 04/23] fix: memory broker: report interrupted publishes

Cancelling the context of a Pub closed the whole broker and reported success;
so did a Pub interrupted by Close. It also read the exit channel of whatever
session was current instead of its own.
---
 pkg/broker/memory/memory.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/broker/memory/memory.go b/pkg/broker/memory/memory.go
index 9a24588..ac3d658 100644
--- a/pkg/broker/memory/memory.go
+++ b/pkg/broker/memory/memory.go
@@ -115,9 +115,9 @@ func (m *Memory) Open(ctx context.Context, opts ...broker.Option) error {
 func (m *Memory) publishMsg(ctx context.Context, q queue, msg broker.Message, timeout time.Duration) error {
 	select {
 	case <-ctx.Done():
-		return m.Close()
-	case <-m.exit:
-		return nil
+		return ctx.Err()
+	case <-q.exit:
+		return broker.ErrNotConnected
 	case <-time.After(timeout):
 		return broker.ErrTimeout
 	case q.msg <- msg:
-- 
2.43.0


From e95919368992d1e4d3f5e148421376468eae9c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 05/23] fix: memory broker: Receive fails once its session has
 ended

It returned no error, or a message of the ended session, so a digester
would spin on it forever.
---
 pkg/broker/memory/subscriber.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/broker/memory/subscriber.go b/pkg/broker/memory/subscriber.go
index 5222d87..5b2555b 100644
--- a/pkg/broker/memory/subscriber.go
+++ b/pkg/broker/memory/subscriber.go
@@ -69,6 +69,12 @@ func (s *Subscriber) Receive(ctx context.Context, h broker.Handler, opts ...brok
 	}
 	s.RUnlock()
 
+	select {
+	case <-s.queue.exit:
+		return broker.ErrSubscriptionInactive
+	default:
+	}
+
 	select {
 	case <-ctx.Done():
 		return nil
-- 
2.43.0


From 230ab0c70782075224c6cc775421acf7f05641fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:35 +0000
Subject: [PATCH 06/23] fix: digester: stop when the context is cancelled

An interrupted Receive returns no error, so Digest kept calling it forever.
---
 pkg/broker/digester/simple/digester.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/broker/digester/simple/digester.go b/pkg/broker/digester/simple/digester.go
index acc1a8b..c5a53ee 100644
--- a/pkg/broker/digester/simple/digester.go
+++ b/pkg/broker/digester/simple/digester.go
@@ -31,6 +31,10 @@ func (d *Digester) handle(ctx context.Context, sub broker.Subscriber, h broker.H
 		if err := sub.Receive(ctx, h); err != nil {
 			return err
 		}
+		// NOTE: Receive does not fail when it is interrupted by ctx
+		if err := ctx.Err(); err != nil {
+			return err
+		}
 	}
 }
 
-- 
2.43.0


From 7a2a174d5957bf1f11c5bd1a942ae5e852326a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:35 +0000
Subject: [PATCH 07/23] fix: digester: honour the handler given to NewDigester

---
 pkg/broker/digester/simple/digester.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/broker/digester/simple/digester.go b/pkg/broker/digester/simple/digester.go
index c5a53ee..ef18135 100644
--- a/pkg/broker/digester/simple/digester.go
+++ b/pkg/broker/digester/simple/digester.go
@@ -41,7 +41,7 @@ func (d *Digester) handle(ctx context.Context, sub broker.Subscriber, h broker.H
 // Digest reads data from broker via sub and handles it via an optional handler.
 // If no handler has been given, the message payload is copied to stdout.
 func (d *Digester) Digest(ctx context.Context, sub broker.Subscriber, opts ...digester.Option) error {
-	dopts := digester.Options{}
+	dopts := d.opts
 	for _, apply := range opts {
 		apply(&dopts)
 	}
-- 
2.43.0


From 87cb93dc1ab71cc4e4bbff81639e9629a4bbd641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:35 +0000
Subject: [PATCH 08/23] fix: ingester: honour the marshaler given to
 NewIngester

---
 pkg/broker/ingester/simple/ingester.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/broker/ingester/simple/ingester.go b/pkg/broker/ingester/simple/ingester.go
index adacc20..d2ac488 100644
--- a/pkg/broker/ingester/simple/ingester.go
+++ b/pkg/broker/ingester/simple/ingester.go
@@ -27,7 +27,7 @@ func NewIngester(opts ...ingester.Option) (*Ingester, error) {
 
 // Ingest ingests messages to the broker marshaled with the given marshaler.
 func (in *Ingester) Ingest(ctx context.Context, b broker.Broker, topic string, msgType broker.Type, data interface{}, opts ...ingester.Option) error {
-	ropts := ingester.Options{}
+	ropts := in.opts
 	for _, apply := range opts {
 		apply(&ropts)
 	}
-- 
2.43.0


From 56047a22bebf53b5086558dac933d4b125017669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:35 +0000
Subject: [PATCH 09/23] fix: runner: hand the whole configuration to the
 scraper

Run ignored the options of the runner, dropped the store and the marshaler,
and scraped without a plan instead of failing with ErrMissingPlan.
---
 runner.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/runner.go b/runner.go
index 7a62861..19b04e4 100644
--- a/runner.go
+++ b/runner.go
@@ -25,10 +25,14 @@ func NewRunner(opts ...Option) (*Runner, error) {
 
 // Run runs netscraping using scraper s.
 func (r *Runner) Run(ctx context.Context, p plan.Plan, s Scraper, opts ...Option) error {
-	sopts := Options{}
+	if p == nil {
+		return ErrMissingPlan
+	}
+
+	sopts := r.opts
 	for _, apply := range opts {
 		apply(&sopts)
 	}
 
-	return s.Scrape(ctx, p, WithBroker(sopts.Broker))
+	return s.Scrape(ctx, p, WithStore(sopts.Store), WithBroker(sopts.Broker), WithMarshaler(sopts.Marshaler))
 }
-- 
2.43.0


From c58eaa9c0211abfc96b1c5239feec0526d8aa783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:18 +0000
Subject: [PATCH 10/23] fix: memory graph: release the lock after exporting to
 DOT

---
 pkg/graph/memory/wg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 557325d..122f7b0 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -411,7 +411,7 @@ func (g *WG) DOTAttributers() (graph, node, edge encoding.Attributer) {
 // DOT returns the GrapViz dot representation of the graph.
 func (g *WG) DOT() (string, error) {
 	g.mu.RLock()
-	defer g.mu.RLock()
+	defer g.mu.RUnlock()
 
 	b, err := dot.Marshal(g.WeightedGraphBuilder, "", "", "  ")
 	if err != nil {
-- 
2.43.0


From dacee8c66468a7784ffc019c9f3971f381866b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:22 +0000
Subject: [PATCH 11/23] fix: memory graph: change the graph under one lock

---
 pkg/graph/memory/wg.go | 40 +++++++++++-----------------------------
 1 file changed, 11 insertions(+), 29 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 122f7b0..9a22415 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -2,7 +2,6 @@ package memory
 
 import (
 	"context"
-	"errors"
 	"fmt"
 	"sync"
 
@@ -162,22 +161,19 @@ func (g *WG) Nodes(ctx context.Context) ([]graph.Node, error) {
 
 // RemoveNode removes the node with the given uid from graph.
 func (g *WG) RemoveNode(ctx context.Context, uid uuid.UID, opts ...graph.Option) error {
-	g.mu.RLock()
+	g.mu.Lock()
+	defer g.mu.Unlock()
+
 	node, ok := g.nodes[uid.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil
 	}
-	g.mu.RUnlock()
 
 	gnode, ok := node.(*Node)
 	if !ok {
 		return graph.ErrInvalidNode
 	}
 
-	g.mu.Lock()
-	defer g.mu.Unlock()
-
 	g.WeightedGraphBuilder.RemoveNode(gnode.ID())
 
 	delete(g.nodes, uid.String())
@@ -188,33 +184,22 @@ func (g *WG) RemoveNode(ctx context.Context, uid uuid.UID, opts ...graph.Option)
 // Link creates a new link (edge) between from and to and returns it or it returns the existing edge.
 // It returns error if either of the nodes does not exist in the graph.
 func (g *WG) Link(ctx context.Context, from, to uuid.UID, opts ...graph.Option) (graph.Edge, error) {
-	g.mu.RLock()
-	e, err := g.Edge(ctx, from, to)
-	if err != nil && !errors.Is(err, graph.ErrEdgeNotExist) {
-		g.mu.RUnlock()
-		return nil, err
-	}
-
-	if e != nil {
-		g.mu.RUnlock()
-		return e, nil
-	}
+	g.mu.Lock()
+	defer g.mu.Unlock()
 
 	f, ok := g.nodes[from.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil, graph.ErrNodeNotFound
 	}
 
 	t, ok := g.nodes[to.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil, graph.ErrNodeNotFound
 	}
-	g.mu.RUnlock()
 
-	g.mu.Lock()
-	defer g.mu.Unlock()
+	if e := g.WeightedEdge(f.(*Node).ID(), t.(*Node).ID()); e != nil {
+		return e.(*Edge), nil
+	}
 
 	edge, err := NewEdge(f.(*Node), t.(*Node), opts...)
 	if err != nil {
@@ -293,26 +278,23 @@ func (g *WG) From(ctx context.Context, uid uuid.UID) ([]graph.Node, error) {
 // Unlink removes the link between from and to nodes.
 // If neither of the nodes with given UIDs exist it returns nil.
 func (g *WG) Unlink(ctx context.Context, from, to uuid.UID, opts ...graph.Option) error {
-	g.mu.RLock()
+	g.mu.Lock()
+	defer g.mu.Unlock()
+
 	f, ok := g.nodes[from.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil
 	}
 
 	t, ok := g.nodes[to.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil
 	}
-	g.mu.RUnlock()
 
 	// NOTE: it's safe to switch type without checking if possible
 	// the nodes in g.nodes are guaranteed to be *Nodes since the only
 	// way to add nodes in is via AddNode which does type assertion
-	g.mu.Lock()
 	g.WeightedGraphBuilder.RemoveEdge(f.(*Node).ID(), t.(*Node).ID())
-	g.mu.Unlock()
 
 	return nil
 }
-- 
2.43.0


From 6e515e807a8e6a237263f918eee8e9ab170492c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 12/23] fix: memory graph: fail linking a node to itself
 instead of panicking

---
 pkg/graph/memory/wg.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 9a22415..efe0e52 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -183,6 +183,7 @@ func (g *WG) RemoveNode(ctx context.Context, uid uuid.UID, opts ...graph.Option)
 
 // Link creates a new link (edge) between from and to and returns it or it returns the existing edge.
 // It returns error if either of the nodes does not exist in the graph.
+// It returns error if from and to are the same node.
 func (g *WG) Link(ctx context.Context, from, to uuid.UID, opts ...graph.Option) (graph.Edge, error) {
 	g.mu.Lock()
 	defer g.mu.Unlock()
@@ -197,6 +198,11 @@ func (g *WG) Link(ctx context.Context, from, to uuid.UID, opts ...graph.Option)
 		return nil, graph.ErrNodeNotFound
 	}
 
+	// NOTE: the underlying graph panics when adding an edge from a node to itself
+	if f.(*Node).ID() == t.(*Node).ID() {
+		return nil, graph.ErrUnsupported
+	}
+
 	if e := g.WeightedEdge(f.(*Node).ID(), t.(*Node).ID()); e != nil {
 		return e.(*Edge), nil
 	}
-- 
2.43.0


From 543d842987efc77321e914464374dd7ab0b4225d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 13/23] fix: memory graph: give every new node an ID of its own

---
 pkg/graph/memory/wg.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index efe0e52..f087d67 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -27,6 +27,8 @@ type WG struct {
 	dotid string
 	// nodes maps graph nodes
 	nodes map[string]graph.Node
+	// nextID is the lowest ID that no new node has been given yet
+	nextID *int64
 	// dot are graph DOT options
 	dot graph.DOTOptions
 }
@@ -54,6 +56,7 @@ func NewWG(wg WeightedGraphBuilder, opts ...graph.Option) (*WG, error) {
 		uid:                  uid,
 		dotid:                dotid,
 		nodes:                make(map[string]graph.Node),
+		nextID:               new(int64),
 		dot:                  gopts.DOTOptions,
 	}, nil
 }
@@ -66,7 +69,8 @@ func (g WG) UID() uuid.UID {
 // NewNode creates a new graph node and returns it.
 // NOTE: this is a convenience method that creates
 // the new *memory.Node such that it makes sure its
-// ID() does not ireturn an ID that already exist in the graph.
+// ID() does not return an ID that already exist in the graph
+// or that has been given to another new node.
 func (g *WG) NewNode(ctx context.Context, ent graph.Entity, opts ...graph.Option) (graph.Node, error) {
 	gopts := graph.Options{}
 	for _, apply := range opts {
@@ -74,10 +78,16 @@ func (g *WG) NewNode(ctx context.Context, ent graph.Entity, opts ...graph.Option
 	}
 
 	g.mu.Lock()
-	gnode := g.WeightedGraphBuilder.NewNode()
+	// NOTE: the ID is reserved here: the nodes created before
+	// this one might not have been added to the graph yet
+	for g.WeightedGraphBuilder.Node(*g.nextID) != nil {
+		*g.nextID++
+	}
+	id := *g.nextID
+	*g.nextID++
 	g.mu.Unlock()
 
-	node, err := NewNode(gnode.ID(), ent, opts...)
+	node, err := NewNode(id, ent, opts...)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From bc6bfce86c3787df239339680774d53e0f99ecc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 14/23] fix: memory graph: tell nodes apart by UID when adding
 them

---
 pkg/graph/memory/wg.go | 49 ++++++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index f087d67..6e403fd 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -122,25 +122,52 @@ func (g *WG) AddNode(ctx context.Context, n graph.Node, opts ...graph.Option) er
 	g.mu.Lock()
 	defer g.mu.Unlock()
 
-	if node := g.WeightedGraphBuilder.Node(gnode.ID()); node != nil {
-		if _, ok := g.nodes[n.UID().String()]; ok {
-			if !gopts.Upsert {
-				return graph.ErrDuplicateNode
-			}
-			g.nodes[n.UID().String()] = n
+	if node, ok := g.nodes[n.UID().String()]; ok {
+		if !gopts.Upsert {
+			return graph.ErrDuplicateNode
 		}
-
-		g.nodes[n.UID().String()] = n
-
-		return nil
+		g.replaceNode(node.(*Node), gnode)
+	} else {
+		g.WeightedGraphBuilder.AddNode(gnode)
 	}
 
-	g.WeightedGraphBuilder.AddNode(gnode)
 	g.nodes[n.UID().String()] = n
 
 	return nil
 }
 
+// replaceNode replaces node old with node n in the underlying graph.
+// The edges of the old node become the edges of the new one.
+func (g *WG) replaceNode(old, n *Node) {
+	var edges []*Edge
+	for _, we := range gonum.WeightedEdgesOf(g.WeightedGraphBuilder.WeightedEdges()) {
+		e := *we.(*Edge)
+		if e.from.ID() != old.ID() && e.to.ID() != old.ID() {
+			continue
+		}
+		if e.from.ID() == old.ID() {
+			e.from = n
+		}
+		if e.to.ID() == old.ID() {
+			e.to = n
+		}
+		edges = append(edges, &e)
+	}
+
+	if old.ID() == n.ID() {
+		g.WeightedGraphBuilder.RemoveNode(old.ID())
+		g.WeightedGraphBuilder.AddNode(n)
+	} else {
+		// NOTE: this panics if n.ID() is taken, before anything is changed
+		g.WeightedGraphBuilder.AddNode(n)
+		g.WeightedGraphBuilder.RemoveNode(old.ID())
+	}
+
+	for _, e := range edges {
+		g.SetWeightedEdge(e)
+	}
+}
+
 // Node returns the node with the given ID if it exists
 // in the graph, and error if it could not be found.
 func (g *WG) Node(ctx context.Context, uid uuid.UID) (graph.Node, error) {
-- 
2.43.0


From e8efccc5c1f21b1ed3a3a2b9438fab73c4f32947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 15/23] fix: memory graph: create the node an upsert asks for

---
 pkg/graph/memory/wg.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 6e403fd..d6d71e1 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -71,6 +71,8 @@ func (g WG) UID() uuid.UID {
 // the new *memory.Node such that it makes sure its
 // ID() does not return an ID that already exist in the graph
 // or that has been given to another new node.
+// If the graph already contains a node with the same UID, that node
+// is returned unless upsert is requested.
 func (g *WG) NewNode(ctx context.Context, ent graph.Entity, opts ...graph.Option) (graph.Node, error) {
 	gopts := graph.Options{}
 	for _, apply := range opts {
@@ -93,7 +95,7 @@ func (g *WG) NewNode(ctx context.Context, ent graph.Entity, opts ...graph.Option
 	}
 
 	g.mu.Lock()
-	if n, ok := g.nodes[node.UID().String()]; ok {
+	if n, ok := g.nodes[node.UID().String()]; ok && !gopts.Upsert {
 		g.mu.Unlock()
 		return n, nil
 	}
-- 
2.43.0


From 49e0a60f52f74da489f6c13f5706c2bba442e835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 16/23] fix: memory graph: take subgraphs at one moment with
 their own edges

---
 pkg/graph/memory/wg.go | 39 ++++++++++++++++-----------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index d6d71e1..582bff9 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -347,12 +347,12 @@ func (g *WG) Unlink(ctx context.Context, from, to uuid.UID, opts ...graph.Option
 // SubGraph returns the subgraph of the graph rooted in the node with the given uid up to the given depth.
 func (g *WG) SubGraph(ctx context.Context, uid uuid.UID, depth int, opts ...graph.Option) (graph.Graph, error) {
 	g.mu.RLock()
+	defer g.mu.RUnlock()
+
 	root, ok := g.nodes[uid.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil, graph.ErrNodeNotFound
 	}
-	g.mu.RUnlock()
 
 	sg, err := NewWDG(opts...)
 	if err != nil {
@@ -378,11 +378,9 @@ func (g *WG) SubGraph(ctx context.Context, uid uuid.UID, depth int, opts ...grap
 		Visit: visit,
 	}
 
-	g.mu.RLock()
 	_ = bfs.Walk(g.WeightedGraphBuilder, root.(*Node), func(n gonum.Node, d int) bool {
 		return d == depth
 	})
-	g.mu.RUnlock()
 
 	if sgErr != nil {
 		return nil, sgErr
@@ -394,25 +392,20 @@ func (g *WG) SubGraph(ctx context.Context, uid uuid.UID, depth int, opts ...grap
 			pnode := nodes.Node()
 			peer := pnode.(*Node)
 			if to, ok := sgNodes[peer.ID()]; ok {
-				if edges := g.WeightedEdges(); edges != nil {
-					for edges.Next() {
-						we := edges.WeightedEdge()
-						e := we.(*Edge)
-
-						a, err := memattrs.NewCopyFrom(ctx, e.Attrs())
-						if err != nil {
-							return nil, fmt.Errorf("subgraph %s attr copy error: %v", sg.UID(), err)
-						}
-
-						opts := []graph.Option{
-							graph.WithAttrs(a),
-							graph.WithWeight(e.Weight()),
-						}
-
-						if _, err := sg.Link(ctx, node.UID(), to.UID(), opts...); err != nil {
-							return nil, fmt.Errorf("subgraph %s link error: %v", sg.UID(), err)
-						}
-					}
+				e := g.WeightedEdge(id, peer.ID()).(*Edge)
+
+				a, err := memattrs.NewCopyFrom(ctx, e.Attrs())
+				if err != nil {
+					return nil, fmt.Errorf("subgraph %s attr copy error: %v", sg.UID(), err)
+				}
+
+				opts := []graph.Option{
+					graph.WithAttrs(a),
+					graph.WithWeight(e.Weight()),
+				}
+
+				if _, err := sg.Link(ctx, node.UID(), to.UID(), opts...); err != nil {
+					return nil, fmt.Errorf("subgraph %s link error: %v", sg.UID(), err)
 				}
 			}
 		}
-- 
2.43.0


From ccbf16816c59d8e58627d6489c422a8effffcd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:03 +0000
Subject: [PATCH 17/23] fix: memory graph: wrap the attribute source's error

---
 pkg/graph/memory/wg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 582bff9..c004c0a 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -396,7 +396,7 @@ func (g *WG) SubGraph(ctx context.Context, uid uuid.UID, depth int, opts ...grap
 
 				a, err := memattrs.NewCopyFrom(ctx, e.Attrs())
 				if err != nil {
-					return nil, fmt.Errorf("subgraph %s attr copy error: %v", sg.UID(), err)
+					return nil, fmt.Errorf("subgraph %s attr copy error: %w", sg.UID(), err)
 				}
 
 				opts := []graph.Option{
-- 
2.43.0


From 6430dfaf5eef3ace80455fb1a5d53aff9fdd00b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 18/23] fix: memory store: return every entity a bulk get asks
 for

---
 pkg/store/memory/store.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/store/memory/store.go b/pkg/store/memory/store.go
index 0567a14..5b49469 100644
--- a/pkg/store/memory/store.go
+++ b/pkg/store/memory/store.go
@@ -200,8 +200,7 @@ func (m *Memory) BulkGet(ctx context.Context, uids []uuid.UID, opts ...store.Opt
 
 	ents := make([]store.Entity, len(uids))
 
-	i := 0
-	for _, uid := range uids {
+	for i, uid := range uids {
 		e, err := m.get(ctx, uid, opts...)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 4e33e68a7a73f81560dec8e554bb82c186c9812a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 19/23] fix: memory store: keep the attributes of stored
 entities

---
 pkg/store/memory/store.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/store/memory/store.go b/pkg/store/memory/store.go
index 5b49469..33f17cc 100644
--- a/pkg/store/memory/store.go
+++ b/pkg/store/memory/store.go
@@ -71,7 +71,12 @@ func (m *Memory) add(ctx context.Context, e store.Entity, opts ...store.Option)
 		apply(&aopts)
 	}
 
-	n, err := m.g.NewNode(ctx, e, graph.WithAttrs(aopts.Attrs))
+	attrs := aopts.Attrs
+	if attrs == nil {
+		attrs = e.Attrs()
+	}
+
+	n, err := m.g.NewNode(ctx, e, graph.WithAttrs(attrs))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 4995b466865ce7b37c9673a681eb2878537c1770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 20/23] fix: memory store: replace the stored entity on upsert

---
 pkg/store/memory/store.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/store/memory/store.go b/pkg/store/memory/store.go
index 33f17cc..893536b 100644
--- a/pkg/store/memory/store.go
+++ b/pkg/store/memory/store.go
@@ -76,7 +76,9 @@ func (m *Memory) add(ctx context.Context, e store.Entity, opts ...store.Option)
 		attrs = e.Attrs()
 	}
 
-	n, err := m.g.NewNode(ctx, e, graph.WithAttrs(attrs))
+	// NOTE: upsert makes sure the node is created from the given entity:
+	// whether it replaces the stored entity is up to AddNode
+	n, err := m.g.NewNode(ctx, e, graph.WithAttrs(attrs), graph.WithUpsert())
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 7e719ca42189daa9f9b5cd4a95edb4e17cb9f1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:07 +0000
Subject: [PATCH 21/23] fix: memory cache: putting a link keeps the other links

---
 pkg/cache/memory/links.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/cache/memory/links.go b/pkg/cache/memory/links.go
index 489f89d..53d313f 100644
--- a/pkg/cache/memory/links.go
+++ b/pkg/cache/memory/links.go
@@ -35,11 +35,11 @@ func (c *Links) put(ctx context.Context, link cache.Link, opts ...cache.Option)
 
 	f, t := link.From(), link.To()
 
-	if c.from[f][t] == nil {
+	if c.from[f] == nil {
 		c.from[f] = make(map[uuid.UID]cache.Link)
 	}
 
-	if c.to[t][f] == nil {
+	if c.to[t] == nil {
 		c.to[t] = make(map[uuid.UID]cache.Link)
 	}
 
-- 
2.43.0


From b480b5993dea61f83dc5ce1edd0f5698f9c47ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 22/23] fix: memory cache: delete removes links from both
 indexes

---
 pkg/cache/memory/links.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/cache/memory/links.go b/pkg/cache/memory/links.go
index 53d313f..874068b 100644
--- a/pkg/cache/memory/links.go
+++ b/pkg/cache/memory/links.go
@@ -103,6 +103,12 @@ func (c *Links) GetTo(ctx context.Context, uid uuid.UID, opts ...cache.Option) (
 }
 
 func (c *Links) delete(ctx context.Context, uid uuid.UID, opts ...cache.Option) error {
+	for t := range c.from[uid] {
+		delete(c.to[t], uid)
+	}
+	for f := range c.to[uid] {
+		delete(c.from[f], uid)
+	}
 	delete(c.to, uid)
 	delete(c.from, uid)
 	return nil
-- 
2.43.0


From 9f8fd12130c339db65eaf16a847181d133f8d383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 23/23] fix: memory cache: compare UIDs by value

---
 pkg/cache/memory/links.go | 46 ++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/pkg/cache/memory/links.go b/pkg/cache/memory/links.go
index 874068b..671cc0a 100644
--- a/pkg/cache/memory/links.go
+++ b/pkg/cache/memory/links.go
@@ -10,10 +10,10 @@ import (
 
 // Links in is-memory cache.Link cache.
 type Links struct {
-	// from indexes from->to links.
-	from map[uuid.UID]map[uuid.UID]cache.Link
-	// to indexes to<-from links.
-	to map[uuid.UID]map[uuid.UID]cache.Link
+	// from indexes from->to links by UID strings.
+	from map[string]map[string]cache.Link
+	// to indexes to<-from links by UID strings.
+	to map[string]map[string]cache.Link
 	// mu synchronizes access to Links
 	mu *sync.RWMutex
 }
@@ -21,8 +21,8 @@ type Links struct {
 // NewLinks creates a new Links cache and returns it
 func NewLinks() (*Links, error) {
 	return &Links{
-		from: make(map[uuid.UID]map[uuid.UID]cache.Link),
-		to:   make(map[uuid.UID]map[uuid.UID]cache.Link),
+		from: make(map[string]map[string]cache.Link),
+		to:   make(map[string]map[string]cache.Link),
 		mu:   &sync.RWMutex{},
 	}, nil
 }
@@ -33,14 +33,14 @@ func (c *Links) put(ctx context.Context, link cache.Link, opts ...cache.Option)
 		apply(&copts)
 	}
 
-	f, t := link.From(), link.To()
+	f, t := link.From().String(), link.To().String()
 
 	if c.from[f] == nil {
-		c.from[f] = make(map[uuid.UID]cache.Link)
+		c.from[f] = make(map[string]cache.Link)
 	}
 
 	if c.to[t] == nil {
-		c.to[t] = make(map[uuid.UID]cache.Link)
+		c.to[t] = make(map[string]cache.Link)
 	}
 
 	if copts.Upsert {
@@ -66,7 +66,7 @@ func (c *Links) Put(ctx context.Context, link cache.Link, opts ...cache.Option)
 	return c.put(ctx, link, opts...)
 }
 
-func (c *Links) get(ctx context.Context, uid uuid.UID, index map[uuid.UID]cache.Link, opts ...cache.Option) ([]cache.Link, error) {
+func (c *Links) get(ctx context.Context, uid uuid.UID, index map[string]cache.Link, opts ...cache.Option) ([]cache.Link, error) {
 	lx := make([]cache.Link, len(index))
 
 	i := 0
@@ -83,7 +83,7 @@ func (c *Links) GetFrom(ctx context.Context, uid uuid.UID, opts ...cache.Option)
 	c.mu.RLock()
 	defer c.mu.RUnlock()
 
-	if from, ok := c.from[uid]; ok {
+	if from, ok := c.from[uid.String()]; ok {
 		return c.get(ctx, uid, from, opts...)
 	}
 
@@ -95,7 +95,7 @@ func (c *Links) GetTo(ctx context.Context, uid uuid.UID, opts ...cache.Option) (
 	c.mu.RLock()
 	defer c.mu.RUnlock()
 
-	if to, ok := c.to[uid]; ok {
+	if to, ok := c.to[uid.String()]; ok {
 		return c.get(ctx, uid, to, opts...)
 	}
 
@@ -103,14 +103,16 @@ func (c *Links) GetTo(ctx context.Context, uid uuid.UID, opts ...cache.Option) (
 }
 
 func (c *Links) delete(ctx context.Context, uid uuid.UID, opts ...cache.Option) error {
-	for t := range c.from[uid] {
-		delete(c.to[t], uid)
+	u := uid.String()
+
+	for t := range c.from[u] {
+		delete(c.to[t], u)
 	}
-	for f := range c.to[uid] {
-		delete(c.from[f], uid)
+	for f := range c.to[u] {
+		delete(c.from[f], u)
 	}
-	delete(c.to, uid)
-	delete(c.from, uid)
+	delete(c.to, u)
+	delete(c.from, u)
 	return nil
 }
 
@@ -126,8 +128,8 @@ func (c *Links) Clear(ctx context.Context, opts ...cache.Option) error {
 	c.mu.Lock()
 	defer c.mu.Unlock()
 
-	c.from = make(map[uuid.UID]map[uuid.UID]cache.Link)
-	c.to = make(map[uuid.UID]map[uuid.UID]cache.Link)
+	c.from = make(map[string]map[string]cache.Link)
+	c.to = make(map[string]map[string]cache.Link)
 
 	return nil
 }
@@ -154,7 +156,7 @@ func (c *Links) BulkGetFrom(ctx context.Context, uids []uuid.UID, opts ...cache.
 
 	for _, uid := range uids {
 		lx := []cache.Link{}
-		from, ok := c.from[uid]
+		from, ok := c.from[uid.String()]
 		if !ok {
 			continue
 		}
@@ -177,7 +179,7 @@ func (c *Links) BulkGetTo(ctx context.Context, uids []uuid.UID, opts ...cache.Op
 
 	for _, uid := range uids {
 		lx := []cache.Link{}
-		to, ok := c.to[uid]
+		to, ok := c.to[uid.String()]
 		if !ok {
 			continue
 		}
-- 
2.43.0

