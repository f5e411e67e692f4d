#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe=None, state=None, hook=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

BM = "pkg/broker/memory/memory.go"; BS = "pkg/broker/memory/subscriber.go"
WG = "pkg/graph/memory/wg.go"; ST = "pkg/store/memory/store.go"; CA = "pkg/cache/memory/links.go"

prop("B01", "Accepted messages are delivered once, in order, unchanged, on their own topic",
 "Every message whose publication reported success is handed, unchanged in every field, to exactly one handler call among the subscribers of its own topic, and messages of one topic whose publications do not overlap are handed out in publication order. Only two things may discard an accepted message: the end of the session it was published in, and a receive that ends with the timeout error, which discards at most one pending message of its own topic. A message whose publication reported an error is never handed to any handler.",
 ["schedules", "fault_sequences", "histories", "configurations"],
 "every interleaving of publishers and subscribers on several topics, every capacity, every placement of timeouts, cancellations, handler failures, unsubscriptions and closes",
 "The tests publish at most two identical messages with no concurrent receiver or fault; loss, duplication and reordering need particular interleavings.",
 [BM, BS], [("one bounded FIFO channel per topic shared by all subscribers", BM), ("receive runs the handler once per message it takes", BS)],
 ["results of Pub", "handler invocations", "results of Receive"])

prop("B02", "A publish outcome is truthful and respects the configured capacity",
 "A publish returns success only when its message was made available to the topic's subscribers, and at no time are more accepted messages of a topic waiting undelivered than the broker's capacity allows (capacity zero: a publish succeeds only by handing its message to a receive in progress; negative capacity: 100). While the session is open and the topic has room, or a receiver is waiting, a publish whose context is live succeeds without waiting for its timeout; creating a topic concurrently from several publishers and subscribers yields a single topic.",
 ["schedules", "fault_sequences", "configurations"],
 "every interleaving of first and later publishes and subscriptions on the same topic, every capacity, every placement of closes, cancellations and timeouts",
 "The tests fill a queue of one or two from one goroutine; they never observe the bound or a topic creation race.",
 [BM], [("topic creation under the broker lock", BM), ("bounded channel of the configured size", BM)],
 ["results of Pub", "number of accepted but undelivered messages per topic"])

prop("B03", "Blocked publish and receive calls end exactly when they should",
 "A publish that finds no room, or a receive that finds no message, fails with the timeout error when its timeout has elapsed and not before: the timeout given to the call, else (publish) the broker's, else five seconds. Cancelling its context, closing the session or (receive) unsubscribing ends a blocked call promptly, without waiting for the timeout. A receive reports success without having run its handler only when one of those three interruptions happened.",
 ["schedules", "fault_sequences", "configurations"],
 "every timeout setting at each level, every instant at which a message, a free slot, a cancellation, a close or an unsubscription arrives relative to the deadline, including ties and stalled tasks",
 "The tests wait out one 100 ms timeout in real time; they cannot place events around a deadline nor tell early from late.",
 [BM, BS], [("select over context, exit, timer and queue", BM), ("select over context, exits, timer and queue", BS)],
 ["return value and simulated duration of Pub and Receive"])

prop("B04", "One caller's cancellation, timeout or failure never disturbs the others",
 "Cancelling the context of, timing out, or failing the handler of one publish, subscribe or receive call ends only that call: the session stays open, and every other publisher, subscriber and topic proceeds as if that call had simply not been made. A publish whose context is cancelled before its message is accepted reports the context's error.",
 ["schedules", "fault_sequences"],
 "every choice of victim call and instant of its cancellation, timeout or handler error among concurrently running calls",
 "No test cancels a context or fails a handler while another call is in flight.",
 [BM, BS], [("per-call context, timer and select", BM), ("per-call context, timer and select", BS)],
 ["results of the calls that were not cancelled", "whether the session is still open"])

prop("B05", "Broker sessions open, close and reopen cleanly in any order",
 "Opening and closing are idempotent and may be called repeatedly and concurrently: the broker accepts publishes and subscriptions exactly from a successful open until the next close (or the cancellation of the context that session was opened with), and outside that time they fail with the not-connected error. A session opened after another was closed is fresh and stable: no message, subscription, topic or belated shutdown of an earlier session affects it. Closing wakes everything blocked on the session and leaves none of its background activity running.",
 ["schedules", "fault_sequences", "histories"],
 "every sequence and interleaving of open, close, open-context cancellation, publish, subscribe and receive over several sessions",
 "The tests open once and close once or twice, sequentially, and never reuse a broker after closing it.",
 [BM, BS], [("connected flag and exit channel per session", BM), ("session goroutine that ends the session when its context ends", BM)],
 ["results of Open, Close, Pub, Sub, Receive", "goroutines alive after the last close"])

prop("B06", "Unsubscribing is safe at any moment and affects only that subscription",
 "Unsubscribing may be called at any time, repeatedly, concurrently with itself, with receives, with closing the broker, and from inside a handler; it never fails, crashes, blocks or leaves background activity behind after the session ends. After it returns, a receive on that subscription fails with the inactive error and takes no message, a receive that was blocked on it has been released, and every other subscription, its identity and its messages are unaffected.",
 ["schedules", "fault_sequences"],
 "every interleaving of repeated unsubscriptions with receives, publishes and closes over several subscribers of one topic",
 "The tests unsubscribe once, sequentially; the double close and the lost-release races need two calls in flight.",
 [BS, BM], [("active flag and per-subscription exit channel", BS), ("control channel to the session goroutine", BM)],
 ["results of Unsubscribe and Receive", "crashes", "goroutines alive at the end"])

prop("B07", "A digester handles every message it takes once and stops when told to",
 "A digester hands every message it takes from its subscription to the handler configured for the call, else for the digester, exactly once and in the order received, and returns the first error of the handler or of the subscription (a receive timeout, an inactive subscription), unchanged, taking no further message after it. When its context is cancelled, its subscription is cancelled or the broker session ends, it returns within a bounded number of steps instead of spinning or hanging.",
 ["schedules", "fault_sequences", "histories"],
 "every message sequence, handler failure point, and instant of cancellation, unsubscription, close or timeout, with one or several digesters per topic",
 "No test runs a digester at all; stopping and failure behaviour depends on when the interruption lands.",
 ["pkg/broker/digester/simple/digester.go", BS], [("receive loop ended by the first error", "pkg/broker/digester/simple/digester.go")],
 ["handler invocations", "result of Digest", "number of receives after the interruption"])

prop("B08", "Ingesting publishes exactly one faithful message or reports why not",
 "Ingesting data publishes exactly one message, on the given topic, with the given type and with precisely the bytes produced by the marshaler configured for the call, else for the ingester, else by standard JSON encoding; it succeeds exactly when that publish succeeded. If marshaling or publishing fails, that error is returned to the caller and (marshaling) nothing is published. The publish runs under the caller's context, and concurrent ingests through one ingester do not influence each other.",
 ["schedules", "fault_sequences", "configurations"],
 "every combination of marshaler configuration, data, marshaling failure and broker outcome (success, timeout, cancellation, closed), for concurrent ingests",
 "No test runs an ingester at all, let alone with a failing marshaler or broker.",
 ["pkg/broker/ingester/simple/ingester.go"], [("marshal then publish", "pkg/broker/ingester/simple/ingester.go")],
 ["messages reaching the broker", "result of Ingest"])

prop("B09", "The default handler writes the whole payload to stdout or reports the failure",
 "A message digested without a configured handler has exactly its payload bytes, complete and in order of receipt, written to the standard output. If writing fails part-way or entirely, the failure is returned (and ends the digest) and never more than a prefix of that payload has been written; success is never reported for a payload that was not written in full.",
 ["fault_sequences", "schedules", "inputs"],
 "every payload and every point at which a write to the standard output fails, is cut short or finds the device full",
 "No test exercises the handler, and tests cannot make standard output fail at a chosen byte.",
 ["pkg/broker/handlers/handlers.go", "pkg/broker/digester/simple/digester.go"], [("copy loop that reports write errors", "pkg/broker/handlers/handlers.go")],
 ["bytes reaching standard output", "result of the handler and of Digest"])

prop("E01", "The scrape pipeline neither loses, duplicates nor alters what was scraped",
 "When a scraper run ingests the resources and links of its plan into the broker it was given and digesters decode them into a store, then, once the run has succeeded and the digesters have drained the topics, the store's graph holds exactly the scraped entities and links, each with its identifier, type and attributes, however the scraper, the ingesters and the digesters interleave. Under injected failures (cancellation, timeouts, torn messages, failing marshalers or stores, session close) it holds a subset of them, never anything else, and every missing item is accounted for by a reported error, a discard the broker documents, or the session's end.",
 ["schedules", "fault_sequences", "histories"],
 "every interleaving of scrapers, ingesters, digesters and store users over one broker, with faults at arbitrary instants",
 "The tests exercise each package alone; nothing runs the pipeline end to end.",
 ["runner.go", BM, BS, "pkg/broker/ingester/simple/ingester.go", "pkg/broker/digester/simple/digester.go", "pkg/space/marshal/json/json.go", ST, WG],
 [("runner passes broker, store and marshaler to the scraper", "runner.go"), ("ingest, queue, digest, decode, store", BM)],
 ["final contents of the store's graph compared with the scraped input", "errors reported on the way"])

prop("R01", "A run hands the scraper its plan, context and configuration and nothing else",
 "Running a scraper calls it exactly once with the given context and plan and with the store, broker and marshaler given for that run, else those the runner was created with, and returns the scraper's error unchanged. A run without a plan fails with the missing-plan error and does not call the scraper. Concurrent runs of one runner are independent: what is configured for, cancelled in, or fails in one run is not observed in another.",
 ["schedules", "fault_sequences", "configurations"],
 "every combination of construction-time and run-time options and every interleaving of concurrent, failing and cancelled runs of one runner",
 "No test covers the runner.",
 ["runner.go", "options.go", "errors.go"], [("options merged per run and passed on", "runner.go")],
 ["what the scraper receives", "result of Run"])

prop("S01", "Concurrent store operations are linearizable",
 "Every concurrent history of add, get, delete, link and unlink, also through the graph handle the store hands out, can be explained by executing the operations one at a time, each between its call and its return, on a simple model: a map of entities and a set of links whose endpoints are both present. Adding an existing entity fails with already-exists and changes nothing unless upsert is requested, in which case the stored entity is replaced and its links are kept; getting an absent entity fails with not-found, linking with an absent endpoint fails with not-found and links nothing, and deleting or unlinking something absent succeeds.",
 ["schedules", "histories"],
 "every interleaving of any number of callers over a shared store, directed or undirected, including deletes racing links, upserts and reads",
 "The tests are single-threaded; lost updates, dangling links and broken upserts need interleavings or multi-step histories.",
 [ST, WG], [("store-level read/write lock", ST), ("graph-level lock", WG)],
 ["operation results", "Nodes, Edges and From of the graph after the run"])

prop("S02", "Bulk store operations are isolated, positional and stop at the first failure",
 "A bulk store operation takes effect as if its items were applied one after another in the given order with no other store operation in between. It stops at the first item that fails, reports that item's error, and leaves exactly the effects of the items before it. A bulk get returns, for each requested identifier, the entity with that identifier in the same position, all from one moment, or an error and no entities if any is absent.",
 ["schedules", "histories", "fault_sequences"],
 "every list (empty, repeated, failing at any position) and every interleaving with single and bulk operations of other callers",
 "The tests run one bulk call at a time on distinct entities and check counts only.",
 [ST], [("store lock held across the whole bulk", ST)],
 ["results of bulk calls and concurrent readers", "final contents"])

prop("S03", "What is stored is what is read back, attributes included",
 "An entity read from the store or from its graph has the identifier, type and attributes it was last added with: the attributes given explicitly to the add if any, else the entity's own. A link made with attributes carries those attributes, linking an already linked pair changes nothing, and replacing an entity by upsert leaves its links, their attributes and their weights as they were, attached to the entity's current version.",
 ["histories", "schedules"],
 "every sequence of adds, upserts, links, unlinks and deletes, with and without explicit attributes, concurrently with readers",
 "The tests check identifiers and counts, not attributes, and never upsert a linked entity with different content.",
 [ST, WG, "pkg/graph/memory/node.go", "pkg/graph/memory/edge.go"], [("attributes forwarded to graph nodes and edges", ST), ("node replacement keeps edges", WG)],
 ["UID, Type, Attrs of entities and edges read back"])

prop("G01", "Concurrent graph operations are linearizable",
 "Every concurrent history of node creation and addition, removal, lookup, listing, linking, edge lookup, neighbour listing and unlinking on a weighted directed or undirected graph can be explained by executing the operations one at a time, each between its call and its return, on a simple set of nodes and edges. Adding an existing node without upsert fails with the duplicate error, with upsert it replaces that node and keeps its edges; linking linked nodes returns the existing edge; operations on absent nodes and edges report exactly the documented errors, or succeed without effect for removals; linking a node to itself fails and changes nothing.",
 ["schedules", "histories"],
 "every interleaving of any number of callers on a shared directed or undirected graph",
 "The tests are single-threaded; removal racing linking and duplicate additions need interleavings.",
 [WG, "pkg/graph/memory/wdg.go", "pkg/graph/memory/wug.go"], [("graph read/write lock", WG), ("index from identifier to node", WG)],
 ["operation results", "Nodes, Edges, From, Edge"])

prop("G02", "All views of a graph agree and no node silently aliases another",
 "At every quiescent moment all views of a graph (node lookup, node list, edge list, edge lookup, neighbours, DOT) describe the same graph: each identifier names exactly one node, numeric node identifiers are unique, every edge joins two present nodes in their current version, and a directed edge is visible only in its direction while an undirected one is visible in both. Nodes obtained from the graph for different entities, even before any of them is added, never collide: adding one never replaces, hides or blocks another.",
 ["schedules", "histories"],
 "every sequence and interleaving of node creation, addition, upsert, removal, linking and unlinking, with nodes created ahead of being added or re-added after removal",
 "The tests create and add one node at a time and compare counts of one view.",
 [WG, "pkg/graph/memory/node.go"], [("fresh numeric identifiers for new nodes", WG), ("identifier index kept in step with the underlying graph", WG)],
 ["all read operations compared with each other at quiescence"])

prop("G03", "A subgraph is exact and taken at one moment",
 "A subgraph request returns exactly the nodes reachable from the root within the requested depth, at one moment between the call and its return, and exactly the edges of the graph among those nodes, each with its own direction, weight and a copy of its own attributes. An absent root fails with the node-not-found error. Neither taking a subgraph nor later changes to either graph affects the other's structure.",
 ["schedules", "histories", "inputs"],
 "every graph, root and depth, with concurrent additions, removals, links and unlinks during the traversal",
 "The tests check the node count of one fixed graph, sequentially; they never look at the edges.",
 [WG], [("breadth-first walk and edge copy", WG)],
 ["nodes and edges of the returned graph compared with a reference model"])

prop("G05", "DOT export is complete, consistent and leaves the graph usable",
 "Exporting a graph to DOT while others change it returns a well-formed document containing exactly the nodes and edges (with direction) the graph had at one moment between the call and its return. The export never changes the graph and never prevents later operations, including changes, from completing.",
 ["schedules", "histories"],
 "every graph content and every interleaving of exports with reads and changes",
 "The tests check that the output is non-empty and never touch the graph afterwards.",
 [WG], [("marshal under the graph's read lock", WG)],
 ["parsed DOT output", "completion of operations after an export"])

prop("G06", "Graph and store operations always complete and never crash",
 "Any number of concurrent readers and writers on a graph, or on a store and the graph handle it exposes, all complete: no combination of lookups, listings, links, unlinks, additions, removals, subgraphs, exports and bulk operations can deadlock, wait forever, crash, or race on memory. Failing operations release everything they hold.",
 ["schedules", "fault_sequences"],
 "every interleaving of concurrent operations, in particular readers overlapping waiting writers, operations that fail, and attribute sources that fail",
 "The tests are single-threaded, where nested or leaked locks are invisible.",
 [WG, ST], [("lock acquisition and release in every operation", WG), ("store lock around graph lock", ST)],
 ["completion of every call under every schedule", "race and panic detection"])

prop("C01", "The link cache behaves as one atomic value-keyed map",
 "Every concurrent history of put, get-from, get-to, delete, clear and their bulk forms can be explained by executing the operations one at a time, each between its call and its return, on a map from ordered pairs of identifiers to links, where identifiers with equal text are the same identifier. A put without upsert keeps the link already cached for the same ordered pair, with upsert it replaces it, and it never affects any other pair.",
 ["schedules", "histories"],
 "every interleaving and sequence of cache operations over a small set of identifiers, equal identifiers being distinct objects",
 "The tests use one link per origin and one identifier object per identifier, sequentially.",
 [CA], [("two indexes under one lock", CA)],
 ["results of GetFrom, GetTo and the bulk gets"])

prop("C02", "Both cache indexes always agree, and deletes and bulks are complete",
 "At every moment a link is returned among the links from its origin exactly when it is returned among the links to its target. After deleting an identifier no link from it or to it is returned by any query, and every other link still is; after a clear nothing is. Each bulk operation is observed by others entirely or not at all, and returned collections are private to the caller.",
 ["schedules", "histories"],
 "every sequence and interleaving of single and bulk puts, deletes, clears and reads",
 "The tests delete an identifier that has links in one direction only and never read through the other index.",
 [CA], [("both indexes updated together under one lock", CA)],
 ["GetFrom and GetTo of every identifier at quiescence and from concurrent readers"])

prop("P01", "A plan is one atomic map of resources",
 "Every concurrent history of add, get, get-all and delete on a plan can be explained by executing the operations one at a time, each between its call and its return, on a map from resource identifier (by value) to the last resource added with it; an absent resource is reported with the not-found error and deleting it succeeds. The collection returned by get-all contains each resource present at one moment exactly once and is private to the caller.",
 ["schedules", "histories"],
 "every interleaving and sequence of plan operations by any number of callers",
 "The tests are single-threaded.",
 ["pkg/plan/simple/simple.go"], [("index under a read/write lock", "pkg/plan/simple/simple.go")],
 ["results of Get and GetAll"])

prop("U01", "Generated identifiers are unique under concurrency",
 "Identifiers generated without being specified (for entities, resources, objects, links, graphs, edges, stores and subscriptions) are non-empty and pairwise distinct, however many are generated and however the generating calls interleave, and an identifier never changes once it has been handed out.",
 ["schedules", "histories"],
 "every interleaving of generating calls in any number of tasks",
 "The tests compare two identifiers generated in sequence.",
 ["pkg/uuid/memory/default.go", "pkg/space/entity/entity.go", "pkg/space/link/link.go", BM, "pkg/graph/memory/edge.go"],
 [("random identifiers", "pkg/uuid/memory/default.go")],
 ["identifiers of everything created in a run"])

prop("A01", "Copying attributes or marshaling is complete or reports the failure",
 "Copying attributes, converting them to a map, marshaling an entity, resource, object or link, and taking a subgraph either include every attribute of the source with its value or return the source's error; converting a node's or edge's attributes to DOT attributes includes all of them with their values or, on a failing source, none. They never report success with something missing or invented, whichever read of the source fails or is cancelled. The caller's context is the one handed to the attribute source where the operation takes one, and a failed operation leaves its inputs unchanged and everything involved usable.",
 ["fault_sequences", "schedules", "inputs"],
 "every attribute set and every point at which the (possibly remote, slow or cancelled) attribute source fails, alone and concurrently",
 "The tests use the in-memory attributes, which never fail.",
 ["pkg/attrs/attrs.go", "pkg/attrs/memory/memory.go", "pkg/space/marshal/marshal.go", "pkg/space/marshal/json/json.go", WG],
 [("error of every key and value read is propagated", "pkg/attrs/attrs.go")],
 ["result and error of each operation under a scripted attribute source"])

prop("J01", "JSON marshaling round-trips every entity, resource, object and link",
 "Marshaling an entity, resource, object or link with the JSON marshaler and unmarshaling the result yields an equal value (identifier, type, names, attributes, nested resource), for every content. Unsupported types are reported with the unsupported-type error.",
 ["inputs"],
 "every value of the marshaled types",
 "The tests marshal a handful of fixed values.",
 ["pkg/space/marshal/marshal.go", "pkg/space/marshal/json/json.go"], [("conversion to and from wire structs", "pkg/space/marshal/marshal.go")],
 ["Marshal and Unmarshal"])

prop("D01", "Default DOT identifiers derive from the entity's own description",
 "Unless overridden, an entity's DOT identifier is its identifier, a resource's is its group, version and kind, an object's is its resource's group, version and kind followed by namespace and name, and graph nodes and edges inherit them; an explicit DOT identifier always wins.",
 ["inputs", "configurations"],
 "every combination of names, resources and options",
 "The tests check a handful of fixed combinations.",
 ["pkg/space/entity/entity.go", "pkg/space/entity/resource.go", "pkg/space/entity/object.go", "pkg/graph/memory/node.go", "pkg/graph/memory/edge.go"],
 [("constructors", "pkg/space/entity/object.go")], ["DOTID"])

prop("T01", "Message type names are total and stable",
 "Every message type has its documented name and every other value is named Unknown.",
 ["inputs"], "every integer value of the type",
 "The tests check the listed constants.",
 ["pkg/broker/type.go"], [("switch over the types", "pkg/broker/type.go")], ["String"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
