From 6b9fba488a7bb2ca39abee57e2e0405ca65ae6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:50 +0000
Subject: [PATCH 01/29] fix: links cache: do not drop the other links of an
 endpoint on Put

---
 pkg/cache/memory/links.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/cache/memory/links.go b/pkg/cache/memory/links.go
index 489f89d..53d313f 100644
--- a/pkg/cache/memory/links.go
+++ b/pkg/cache/memory/links.go
@@ -35,11 +35,11 @@ func (c *Links) put(ctx context.Context, link cache.Link, opts ...cache.Option)
 
 	f, t := link.From(), link.To()
 
-	if c.from[f][t] == nil {
+	if c.from[f] == nil {
 		c.from[f] = make(map[uuid.UID]cache.Link)
 	}
 
-	if c.to[t][f] == nil {
+	if c.to[t] == nil {
 		c.to[t] = make(map[uuid.UID]cache.Link)
 	}
 
-- 
2.43.0


From 4bf024db1d6116d8dbf3deb7ea93f241aa5b15af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:50 +0000
Subject: [PATCH 02/29] fix: links cache: index links by UID value, not by UID
 pointer

---
 pkg/cache/memory/links.go | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/pkg/cache/memory/links.go b/pkg/cache/memory/links.go
index 53d313f..5a44d62 100644
--- a/pkg/cache/memory/links.go
+++ b/pkg/cache/memory/links.go
@@ -11,9 +11,9 @@ import (
 // Links in is-memory cache.Link cache.
 type Links struct {
 	// from indexes from->to links.
-	from map[uuid.UID]map[uuid.UID]cache.Link
+	from map[string]map[string]cache.Link
 	// to indexes to<-from links.
-	to map[uuid.UID]map[uuid.UID]cache.Link
+	to map[string]map[string]cache.Link
 	// mu synchronizes access to Links
 	mu *sync.RWMutex
 }
@@ -21,8 +21,8 @@ type Links struct {
 // NewLinks creates a new Links cache and returns it
 func NewLinks() (*Links, error) {
 	return &Links{
-		from: make(map[uuid.UID]map[uuid.UID]cache.Link),
-		to:   make(map[uuid.UID]map[uuid.UID]cache.Link),
+		from: make(map[string]map[string]cache.Link),
+		to:   make(map[string]map[string]cache.Link),
 		mu:   &sync.RWMutex{},
 	}, nil
 }
@@ -33,14 +33,14 @@ func (c *Links) put(ctx context.Context, link cache.Link, opts ...cache.Option)
 		apply(&copts)
 	}
 
-	f, t := link.From(), link.To()
+	f, t := link.From().String(), link.To().String()
 
 	if c.from[f] == nil {
-		c.from[f] = make(map[uuid.UID]cache.Link)
+		c.from[f] = make(map[string]cache.Link)
 	}
 
 	if c.to[t] == nil {
-		c.to[t] = make(map[uuid.UID]cache.Link)
+		c.to[t] = make(map[string]cache.Link)
 	}
 
 	if copts.Upsert {
@@ -66,7 +66,7 @@ func (c *Links) Put(ctx context.Context, link cache.Link, opts ...cache.Option)
 	return c.put(ctx, link, opts...)
 }
 
-func (c *Links) get(ctx context.Context, uid uuid.UID, index map[uuid.UID]cache.Link, opts ...cache.Option) ([]cache.Link, error) {
+func (c *Links) get(ctx context.Context, uid uuid.UID, index map[string]cache.Link, opts ...cache.Option) ([]cache.Link, error) {
 	lx := make([]cache.Link, len(index))
 
 	i := 0
@@ -83,7 +83,7 @@ func (c *Links) GetFrom(ctx context.Context, uid uuid.UID, opts ...cache.Option)
 	c.mu.RLock()
 	defer c.mu.RUnlock()
 
-	if from, ok := c.from[uid]; ok {
+	if from, ok := c.from[uid.String()]; ok {
 		return c.get(ctx, uid, from, opts...)
 	}
 
@@ -95,7 +95,7 @@ func (c *Links) GetTo(ctx context.Context, uid uuid.UID, opts ...cache.Option) (
 	c.mu.RLock()
 	defer c.mu.RUnlock()
 
-	if to, ok := c.to[uid]; ok {
+	if to, ok := c.to[uid.String()]; ok {
 		return c.get(ctx, uid, to, opts...)
 	}
 
@@ -103,8 +103,8 @@ func (c *Links) GetTo(ctx context.Context, uid uuid.UID, opts ...cache.Option) (
 }
 
 func (c *Links) delete(ctx context.Context, uid uuid.UID, opts ...cache.Option) error {
-	delete(c.to, uid)
-	delete(c.from, uid)
+	delete(c.to, uid.String())
+	delete(c.from, uid.String())
 	return nil
 }
 
@@ -120,8 +120,8 @@ func (c *Links) Clear(ctx context.Context, opts ...cache.Option) error {
 	c.mu.Lock()
 	defer c.mu.Unlock()
 
-	c.from = make(map[uuid.UID]map[uuid.UID]cache.Link)
-	c.to = make(map[uuid.UID]map[uuid.UID]cache.Link)
+	c.from = make(map[string]map[string]cache.Link)
+	c.to = make(map[string]map[string]cache.Link)
 
 	return nil
 }
@@ -148,7 +148,7 @@ func (c *Links) BulkGetFrom(ctx context.Context, uids []uuid.UID, opts ...cache.
 
 	for _, uid := range uids {
 		lx := []cache.Link{}
-		from, ok := c.from[uid]
+		from, ok := c.from[uid.String()]
 		if !ok {
 			continue
 		}
@@ -171,7 +171,7 @@ func (c *Links) BulkGetTo(ctx context.Context, uids []uuid.UID, opts ...cache.Op
 
 	for _, uid := range uids {
 		lx := []cache.Link{}
-		to, ok := c.to[uid]
+		to, ok := c.to[uid.String()]
 		if !ok {
 			continue
 		}
-- 
2.43.0


From 36f2bed214a52a754e3b9912d2c1351618e9369d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:50 +0000
Subject: [PATCH 03/29] fix: links cache: Delete removes the links from both
 indexes

---
 pkg/cache/memory/links.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/cache/memory/links.go b/pkg/cache/memory/links.go
index 5a44d62..fd72af7 100644
--- a/pkg/cache/memory/links.go
+++ b/pkg/cache/memory/links.go
@@ -103,8 +103,17 @@ func (c *Links) GetTo(ctx context.Context, uid uuid.UID, opts ...cache.Option) (
 }
 
 func (c *Links) delete(ctx context.Context, uid uuid.UID, opts ...cache.Option) error {
-	delete(c.to, uid.String())
-	delete(c.from, uid.String())
+	id := uid.String()
+
+	for t := range c.from[id] {
+		delete(c.to[t], id)
+	}
+	for f := range c.to[id] {
+		delete(c.from[f], id)
+	}
+
+	delete(c.to, id)
+	delete(c.from, id)
 	return nil
 }
 
-- 
2.43.0


From a261832d19565f9ecc4b383aeb699d98b4df1d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:50 +0000
Subject: [PATCH 04/29] fix: store: BulkGet returns every requested entity

---
 pkg/store/memory/store.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/store/memory/store.go b/pkg/store/memory/store.go
index 0567a14..5b49469 100644
--- a/pkg/store/memory/store.go
+++ b/pkg/store/memory/store.go
@@ -200,8 +200,7 @@ func (m *Memory) BulkGet(ctx context.Context, uids []uuid.UID, opts ...store.Opt
 
 	ents := make([]store.Entity, len(uids))
 
-	i := 0
-	for _, uid := range uids {
+	for i, uid := range uids {
 		e, err := m.get(ctx, uid, opts...)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 32d156e86f07ab22c083af0ba5763201f55d6916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:50 +0000
Subject: [PATCH 05/29] fix: store: keep the attributes of the added entity

---
 pkg/store/memory/store.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/store/memory/store.go b/pkg/store/memory/store.go
index 5b49469..33f17cc 100644
--- a/pkg/store/memory/store.go
+++ b/pkg/store/memory/store.go
@@ -71,7 +71,12 @@ func (m *Memory) add(ctx context.Context, e store.Entity, opts ...store.Option)
 		apply(&aopts)
 	}
 
-	n, err := m.g.NewNode(ctx, e, graph.WithAttrs(aopts.Attrs))
+	attrs := aopts.Attrs
+	if attrs == nil {
+		attrs = e.Attrs()
+	}
+
+	n, err := m.g.NewNode(ctx, e, graph.WithAttrs(attrs))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From dd98e4f9597c7e6c183d38bbd40328c508c13b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:50 +0000
Subject: [PATCH 06/29] fix: attrs: NewCopyFrom accepts nil attributes

---
 pkg/attrs/memory/memory.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pkg/attrs/memory/memory.go b/pkg/attrs/memory/memory.go
index b8b916e..5b1ba07 100644
--- a/pkg/attrs/memory/memory.go
+++ b/pkg/attrs/memory/memory.go
@@ -21,17 +21,19 @@ func New() *Attrs {
 func NewCopyFrom(ctx context.Context, a attrs.Attrs) (*Attrs, error) {
 	attrs := make(Attrs)
 
+	if a == nil {
+		return &attrs, nil
+	}
+
 	keys, err := a.Keys(ctx)
 	if err != nil {
 		return nil, err
 	}
 
-	if a != nil {
-		for _, k := range keys {
-			attrs[k], err = a.Get(ctx, k)
-			if err != nil {
-				return nil, err
-			}
+	for _, k := range keys {
+		attrs[k], err = a.Get(ctx, k)
+		if err != nil {
+			return nil, err
 		}
 	}
 
-- 
2.43.0


From a1ecf77614257a7f34be8ab285c662a5b6c10e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:50 +0000
Subject: [PATCH 07/29] fix: ingester: honour the options given to NewIngester

---
 pkg/broker/ingester/simple/ingester.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/broker/ingester/simple/ingester.go b/pkg/broker/ingester/simple/ingester.go
index adacc20..d2ac488 100644
--- a/pkg/broker/ingester/simple/ingester.go
+++ b/pkg/broker/ingester/simple/ingester.go
@@ -27,7 +27,7 @@ func NewIngester(opts ...ingester.Option) (*Ingester, error) {
 
 // Ingest ingests messages to the broker marshaled with the given marshaler.
 func (in *Ingester) Ingest(ctx context.Context, b broker.Broker, topic string, msgType broker.Type, data interface{}, opts ...ingester.Option) error {
-	ropts := ingester.Options{}
+	ropts := in.opts
 	for _, apply := range opts {
 		apply(&ropts)
 	}
-- 
2.43.0


From 9d5c3708e2c26a0225020760e993e6cd42233562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:50 +0000
Subject: [PATCH 08/29] fix: digester: honour the options given to NewDigester

---
 pkg/broker/digester/simple/digester.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/broker/digester/simple/digester.go b/pkg/broker/digester/simple/digester.go
index acc1a8b..32530f2 100644
--- a/pkg/broker/digester/simple/digester.go
+++ b/pkg/broker/digester/simple/digester.go
@@ -37,7 +37,7 @@ func (d *Digester) handle(ctx context.Context, sub broker.Subscriber, h broker.H
 // Digest reads data from broker via sub and handles it via an optional handler.
 // If no handler has been given, the message payload is copied to stdout.
 func (d *Digester) Digest(ctx context.Context, sub broker.Subscriber, opts ...digester.Option) error {
-	dopts := digester.Options{}
+	dopts := d.opts
 	for _, apply := range opts {
 		apply(&dopts)
 	}
-- 
2.43.0


From 1acb135e1e88e45218edc99de2b0af1b2af6ab55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:51 +0000
Subject: [PATCH 09/29] fix: runner: pass all options to the scraper and report
 a missing plan

---
 runner.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/runner.go b/runner.go
index 7a62861..19b04e4 100644
--- a/runner.go
+++ b/runner.go
@@ -25,10 +25,14 @@ func NewRunner(opts ...Option) (*Runner, error) {
 
 // Run runs netscraping using scraper s.
 func (r *Runner) Run(ctx context.Context, p plan.Plan, s Scraper, opts ...Option) error {
-	sopts := Options{}
+	if p == nil {
+		return ErrMissingPlan
+	}
+
+	sopts := r.opts
 	for _, apply := range opts {
 		apply(&sopts)
 	}
 
-	return s.Scrape(ctx, p, WithBroker(sopts.Broker))
+	return s.Scrape(ctx, p, WithStore(sopts.Store), WithBroker(sopts.Broker), WithMarshaler(sopts.Marshaler))
 }
-- 
2.43.0


From 432bd01b47d3d3117a5bbf2bb498a67b5d77c4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:16 +0000
Subject: [PATCH 10/29] fix: graph: DOT releases the graph lock

---
 pkg/graph/memory/wg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 557325d..122f7b0 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -411,7 +411,7 @@ func (g *WG) DOTAttributers() (graph, node, edge encoding.Attributer) {
 // DOT returns the GrapViz dot representation of the graph.
 func (g *WG) DOT() (string, error) {
 	g.mu.RLock()
-	defer g.mu.RLock()
+	defer g.mu.RUnlock()
 
 	b, err := dot.Marshal(g.WeightedGraphBuilder, "", "", "  ")
 	if err != nil {
-- 
2.43.0


From b3b551456255d5e32703a502c55f6245e3cdd62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:16 +0000
Subject: [PATCH 11/29] fix: graph: Link checks and links in one critical
 section

---
 pkg/graph/memory/wg.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 122f7b0..7bd010b 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -188,33 +188,27 @@ func (g *WG) RemoveNode(ctx context.Context, uid uuid.UID, opts ...graph.Option)
 // Link creates a new link (edge) between from and to and returns it or it returns the existing edge.
 // It returns error if either of the nodes does not exist in the graph.
 func (g *WG) Link(ctx context.Context, from, to uuid.UID, opts ...graph.Option) (graph.Edge, error) {
-	g.mu.RLock()
-	e, err := g.Edge(ctx, from, to)
+	g.mu.Lock()
+	defer g.mu.Unlock()
+
+	e, err := g.edge(from, to)
 	if err != nil && !errors.Is(err, graph.ErrEdgeNotExist) {
-		g.mu.RUnlock()
 		return nil, err
 	}
 
 	if e != nil {
-		g.mu.RUnlock()
 		return e, nil
 	}
 
 	f, ok := g.nodes[from.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil, graph.ErrNodeNotFound
 	}
 
 	t, ok := g.nodes[to.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil, graph.ErrNodeNotFound
 	}
-	g.mu.RUnlock()
-
-	g.mu.Lock()
-	defer g.mu.Unlock()
 
 	edge, err := NewEdge(f.(*Node), t.(*Node), opts...)
 	if err != nil {
@@ -226,11 +220,9 @@ func (g *WG) Link(ctx context.Context, from, to uuid.UID, opts ...graph.Option)
 	return edge, nil
 }
 
-// Edge returns edge between nodes with the given UIDs.
-func (g *WG) Edge(ctx context.Context, uid, vid uuid.UID) (graph.Edge, error) {
-	g.mu.RLock()
-	defer g.mu.RUnlock()
-
+// edge returns edge between nodes with the given UIDs.
+// It must be called with the graph lock held.
+func (g *WG) edge(uid, vid uuid.UID) (graph.Edge, error) {
 	from, ok := g.nodes[uid.String()]
 	if !ok {
 		return nil, graph.ErrNodeNotFound
@@ -251,6 +243,14 @@ func (g *WG) Edge(ctx context.Context, uid, vid uuid.UID) (graph.Edge, error) {
 	return nil, graph.ErrEdgeNotExist
 }
 
+// Edge returns edge between nodes with the given UIDs.
+func (g *WG) Edge(ctx context.Context, uid, vid uuid.UID) (graph.Edge, error) {
+	g.mu.RLock()
+	defer g.mu.RUnlock()
+
+	return g.edge(uid, vid)
+}
+
 // Edges returns all the edges (lines) from u to v.
 func (g *WG) Edges(ctx context.Context) ([]graph.Edge, error) {
 	g.mu.RLock()
-- 
2.43.0


From 521108cffb3be43c0681558097a0ded7963aefa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:16 +0000
Subject: [PATCH 12/29] fix: graph: linking a node to itself returns an error
 instead of panicking

---
 pkg/graph/memory/wg.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 7bd010b..9305b36 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -186,7 +186,7 @@ func (g *WG) RemoveNode(ctx context.Context, uid uuid.UID, opts ...graph.Option)
 }
 
 // Link creates a new link (edge) between from and to and returns it or it returns the existing edge.
-// It returns error if either of the nodes does not exist in the graph.
+// It returns error if either of the nodes does not exist in the graph or if they are the same node.
 func (g *WG) Link(ctx context.Context, from, to uuid.UID, opts ...graph.Option) (graph.Edge, error) {
 	g.mu.Lock()
 	defer g.mu.Unlock()
@@ -210,6 +210,10 @@ func (g *WG) Link(ctx context.Context, from, to uuid.UID, opts ...graph.Option)
 		return nil, graph.ErrNodeNotFound
 	}
 
+	if f.(*Node).ID() == t.(*Node).ID() {
+		return nil, graph.ErrUnsupported
+	}
+
 	edge, err := NewEdge(f.(*Node), t.(*Node), opts...)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 90bc1a646193c09407e4662b30f1a0d5c36243af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:16 +0000
Subject: [PATCH 13/29] fix: graph: RemoveNode and Unlink look up and remove in
 one critical section

---
 pkg/graph/memory/wg.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 9305b36..e06dae0 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -162,22 +162,19 @@ func (g *WG) Nodes(ctx context.Context) ([]graph.Node, error) {
 
 // RemoveNode removes the node with the given uid from graph.
 func (g *WG) RemoveNode(ctx context.Context, uid uuid.UID, opts ...graph.Option) error {
-	g.mu.RLock()
+	g.mu.Lock()
+	defer g.mu.Unlock()
+
 	node, ok := g.nodes[uid.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil
 	}
-	g.mu.RUnlock()
 
 	gnode, ok := node.(*Node)
 	if !ok {
 		return graph.ErrInvalidNode
 	}
 
-	g.mu.Lock()
-	defer g.mu.Unlock()
-
 	g.WeightedGraphBuilder.RemoveNode(gnode.ID())
 
 	delete(g.nodes, uid.String())
@@ -297,26 +294,23 @@ func (g *WG) From(ctx context.Context, uid uuid.UID) ([]graph.Node, error) {
 // Unlink removes the link between from and to nodes.
 // If neither of the nodes with given UIDs exist it returns nil.
 func (g *WG) Unlink(ctx context.Context, from, to uuid.UID, opts ...graph.Option) error {
-	g.mu.RLock()
+	g.mu.Lock()
+	defer g.mu.Unlock()
+
 	f, ok := g.nodes[from.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil
 	}
 
 	t, ok := g.nodes[to.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil
 	}
-	g.mu.RUnlock()
 
 	// NOTE: it's safe to switch type without checking if possible
 	// the nodes in g.nodes are guaranteed to be *Nodes since the only
 	// way to add nodes in is via AddNode which does type assertion
-	g.mu.Lock()
 	g.WeightedGraphBuilder.RemoveEdge(f.(*Node).ID(), t.(*Node).ID())
-	g.mu.Unlock()
 
 	return nil
 }
-- 
2.43.0


From 50683b348781f9e79209c92cf0747f72e48756a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 14/29] fix: graph: SubGraph edges keep their own weight and
 attributes

---
 pkg/graph/memory/wg.go | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index e06dae0..592a6dc 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -365,25 +365,21 @@ func (g *WG) SubGraph(ctx context.Context, uid uuid.UID, depth int, opts ...grap
 			pnode := nodes.Node()
 			peer := pnode.(*Node)
 			if to, ok := sgNodes[peer.ID()]; ok {
-				if edges := g.WeightedEdges(); edges != nil {
-					for edges.Next() {
-						we := edges.WeightedEdge()
-						e := we.(*Edge)
-
-						a, err := memattrs.NewCopyFrom(ctx, e.Attrs())
-						if err != nil {
-							return nil, fmt.Errorf("subgraph %s attr copy error: %v", sg.UID(), err)
-						}
-
-						opts := []graph.Option{
-							graph.WithAttrs(a),
-							graph.WithWeight(e.Weight()),
-						}
-
-						if _, err := sg.Link(ctx, node.UID(), to.UID(), opts...); err != nil {
-							return nil, fmt.Errorf("subgraph %s link error: %v", sg.UID(), err)
-						}
-					}
+				we := g.WeightedEdge(id, peer.ID())
+				e := we.(*Edge)
+
+				a, err := memattrs.NewCopyFrom(ctx, e.Attrs())
+				if err != nil {
+					return nil, fmt.Errorf("subgraph %s attr copy error: %v", sg.UID(), err)
+				}
+
+				opts := []graph.Option{
+					graph.WithAttrs(a),
+					graph.WithWeight(e.Weight()),
+				}
+
+				if _, err := sg.Link(ctx, node.UID(), to.UID(), opts...); err != nil {
+					return nil, fmt.Errorf("subgraph %s link error: %v", sg.UID(), err)
 				}
 			}
 		}
-- 
2.43.0


From 5058f3167f9ea43ce8f28d9971dd744daffea089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 15/29] fix: graph: SubGraph reads the graph under one read
 lock

---
 pkg/graph/memory/wg.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 592a6dc..f3e8775 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -318,12 +318,12 @@ func (g *WG) Unlink(ctx context.Context, from, to uuid.UID, opts ...graph.Option
 // SubGraph returns the subgraph of the graph rooted in the node with the given uid up to the given depth.
 func (g *WG) SubGraph(ctx context.Context, uid uuid.UID, depth int, opts ...graph.Option) (graph.Graph, error) {
 	g.mu.RLock()
+	defer g.mu.RUnlock()
+
 	root, ok := g.nodes[uid.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil, graph.ErrNodeNotFound
 	}
-	g.mu.RUnlock()
 
 	sg, err := NewWDG(opts...)
 	if err != nil {
@@ -349,11 +349,9 @@ func (g *WG) SubGraph(ctx context.Context, uid uuid.UID, depth int, opts ...grap
 		Visit: visit,
 	}
 
-	g.mu.RLock()
 	_ = bfs.Walk(g.WeightedGraphBuilder, root.(*Node), func(n gonum.Node, d int) bool {
 		return d == depth
 	})
-	g.mu.RUnlock()
 
 	if sgErr != nil {
 		return nil, sgErr
-- 
2.43.0


From 7c7c68ddd330227c62a2898bb0f001353e955cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 16/29] fix: graph: AddNode identifies nodes by UID and upsert
 replaces the node

---
 pkg/graph/memory/wg.go | 48 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index f3e8775..32271a8 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -113,15 +113,13 @@ func (g *WG) AddNode(ctx context.Context, n graph.Node, opts ...graph.Option) er
 	g.mu.Lock()
 	defer g.mu.Unlock()
 
-	if node := g.WeightedGraphBuilder.Node(gnode.ID()); node != nil {
-		if _, ok := g.nodes[n.UID().String()]; ok {
-			if !gopts.Upsert {
-				return graph.ErrDuplicateNode
-			}
-			g.nodes[n.UID().String()] = n
+	if node, ok := g.nodes[n.UID().String()]; ok {
+		if !gopts.Upsert {
+			return graph.ErrDuplicateNode
+		}
+		if node != n {
+			g.replace(node.(*Node), gnode)
 		}
-
-		g.nodes[n.UID().String()] = n
 
 		return nil
 	}
@@ -132,6 +130,40 @@ func (g *WG) AddNode(ctx context.Context, n graph.Node, opts ...graph.Option) er
 	return nil
 }
 
+// replace replaces old with the node n which has the same UID, keeping its edges.
+// It must be called with the graph lock held.
+func (g *WG) replace(old, n *Node) {
+	var edges []*Edge
+
+	for _, we := range gonum.WeightedEdgesOf(g.WeightedGraphBuilder.WeightedEdges()) {
+		e := *we.(*Edge)
+		if e.from.ID() != old.ID() && e.to.ID() != old.ID() {
+			continue
+		}
+		if e.from.ID() == old.ID() {
+			e.from = n
+		}
+		if e.to.ID() == old.ID() {
+			e.to = n
+		}
+		edges = append(edges, &e)
+	}
+
+	if n.ID() == old.ID() {
+		g.WeightedGraphBuilder.RemoveNode(old.ID())
+		g.WeightedGraphBuilder.AddNode(n)
+	} else {
+		g.WeightedGraphBuilder.AddNode(n)
+		g.WeightedGraphBuilder.RemoveNode(old.ID())
+	}
+
+	for _, e := range edges {
+		g.WeightedGraphBuilder.SetWeightedEdge(e)
+	}
+
+	g.nodes[n.UID().String()] = n
+}
+
 // Node returns the node with the given ID if it exists
 // in the graph, and error if it could not be found.
 func (g *WG) Node(ctx context.Context, uid uuid.UID) (graph.Node, error) {
-- 
2.43.0


From fcb90ed9ee9481066a07793b0756ac716e0740f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 17/29] fix: graph: NewNode reserves the node ID and carries
 the given entity

---
 pkg/graph/memory/wg.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 32271a8..7e5b37c 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -28,6 +28,8 @@ type WG struct {
 	dotid string
 	// nodes maps graph nodes
 	nodes map[string]graph.Node
+	// nextID is the lowest node ID that has not been reserved by NewNode
+	nextID *int64
 	// dot are graph DOT options
 	dot graph.DOTOptions
 }
@@ -55,6 +57,7 @@ func NewWG(wg WeightedGraphBuilder, opts ...graph.Option) (*WG, error) {
 		uid:                  uid,
 		dotid:                dotid,
 		nodes:                make(map[string]graph.Node),
+		nextID:               new(int64),
 		dot:                  gopts.DOTOptions,
 	}, nil
 }
@@ -75,22 +78,25 @@ func (g *WG) NewNode(ctx context.Context, ent graph.Entity, opts ...graph.Option
 	}
 
 	g.mu.Lock()
-	gnode := g.WeightedGraphBuilder.NewNode()
-	g.mu.Unlock()
+	defer g.mu.Unlock()
 
-	node, err := NewNode(gnode.ID(), ent, opts...)
-	if err != nil {
-		return nil, err
+	// NOTE: the node which already is in the graph keeps its ID
+	if n, ok := g.nodes[ent.UID().String()]; ok {
+		return NewNode(n.(*Node).ID(), ent, opts...)
 	}
 
-	g.mu.Lock()
-	if n, ok := g.nodes[node.UID().String()]; ok {
-		g.mu.Unlock()
-		return n, nil
+	// NOTE: the ID is reserved so that two new nodes never share an ID
+	// even if neither of them has been added to the graph yet
+	id := g.WeightedGraphBuilder.NewNode().ID()
+	if id < *g.nextID {
+		id = *g.nextID
+	}
+	for g.WeightedGraphBuilder.Node(id) != nil {
+		id++
 	}
-	g.mu.Unlock()
+	*g.nextID = id + 1
 
-	return node, nil
+	return NewNode(id, ent, opts...)
 }
 
 // AddNode adds node n to the graph.
-- 
2.43.0


From 1760b86abdf25cee0d36821b649d6d19a59bf527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 18/29] fix: broker: Sub keeps the other subscriptions of the
 topic

---
 pkg/broker/memory/memory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/broker/memory/memory.go b/pkg/broker/memory/memory.go
index cfeedf0..d90d370 100644
--- a/pkg/broker/memory/memory.go
+++ b/pkg/broker/memory/memory.go
@@ -188,7 +188,7 @@ func (m *Memory) Sub(ctx context.Context, topic string, opts ...broker.Option) (
 		exit:   make(chan struct{}),
 	}
 
-	if m.subs[topic][sub.id] == nil {
+	if m.subs[topic] == nil {
 		m.subs[topic] = make(map[string]*Subscriber)
 	}
 	m.subs[topic][sub.id] = sub
-- 
2.43.0


From 5820f03fc9e1be1dc3864f4c83f6dc8f2cc70a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 19/29] fix: broker: Close drops the topics without subscribers
 too

---
 pkg/broker/memory/memory.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/broker/memory/memory.go b/pkg/broker/memory/memory.go
index d90d370..e359526 100644
--- a/pkg/broker/memory/memory.go
+++ b/pkg/broker/memory/memory.go
@@ -212,6 +212,8 @@ func (m *Memory) Close() error {
 			delete(m.subs[topic], id)
 		}
 		delete(m.subs, topic)
+	}
+	for topic := range m.topics {
 		delete(m.topics, topic)
 	}
 
-- 
2.43.0


From 7ec2008334fb9c524c0d172f5a98e2cd89d6d4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 20/29] fix: broker: Pub and Sub check the session and use it
 in one critical section

---
 pkg/broker/memory/memory.go | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/pkg/broker/memory/memory.go b/pkg/broker/memory/memory.go
index e359526..fa94f10 100644
--- a/pkg/broker/memory/memory.go
+++ b/pkg/broker/memory/memory.go
@@ -125,13 +125,6 @@ func (m *Memory) publishMsg(ctx context.Context, q queue, msg broker.Message, ti
 // If the topic does not exist, it is automatically created.
 // NOTE: Pub is a blocking call!
 func (m *Memory) Pub(ctx context.Context, topic string, msg broker.Message, opts ...broker.Option) error {
-	m.RLock()
-	if !m.connected {
-		m.RUnlock()
-		return broker.ErrNotConnected
-	}
-	m.RUnlock()
-
 	popts := broker.Options{}
 	for _, apply := range opts {
 		apply(&popts)
@@ -143,6 +136,11 @@ func (m *Memory) Pub(ctx context.Context, topic string, msg broker.Message, opts
 	}
 
 	m.Lock()
+	if !m.connected {
+		m.Unlock()
+		return broker.ErrNotConnected
+	}
+
 	q, ok := m.topics[topic]
 	if !ok {
 		q = queue{
@@ -158,18 +156,15 @@ func (m *Memory) Pub(ctx context.Context, topic string, msg broker.Message, opts
 
 // Sub subscribes to the given topic.
 func (m *Memory) Sub(ctx context.Context, topic string, opts ...broker.Option) (broker.Subscriber, error) {
-	m.RLock()
-	if !m.connected {
-		m.RUnlock()
-		return nil, broker.ErrNotConnected
-	}
-	m.RUnlock()
-
 	uid := memuid.New()
 
 	m.Lock()
 	defer m.Unlock()
 
+	if !m.connected {
+		return nil, broker.ErrNotConnected
+	}
+
 	q, ok := m.topics[topic]
 	if !ok {
 		q = queue{
-- 
2.43.0


From 6094354962f5eb49452cb2ada9e5fefa86bb0baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 21/29] fix: broker: Pub reports messages that have not been
 enqueued

---
 pkg/broker/memory/memory.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/broker/memory/memory.go b/pkg/broker/memory/memory.go
index fa94f10..5781e03 100644
--- a/pkg/broker/memory/memory.go
+++ b/pkg/broker/memory/memory.go
@@ -111,9 +111,9 @@ func (m *Memory) Open(ctx context.Context, opts ...broker.Option) error {
 func (m *Memory) publishMsg(ctx context.Context, q queue, msg broker.Message, timeout time.Duration) error {
 	select {
 	case <-ctx.Done():
-		return m.Close()
-	case <-m.exit:
-		return nil
+		return ctx.Err()
+	case <-q.exit:
+		return broker.ErrNotConnected
 	case <-time.After(timeout):
 		return broker.ErrTimeout
 	case q.msg <- msg:
-- 
2.43.0


From 08b48df84859acbafd5cc399bd75d17377c29be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 22/29] fix: broker: a session is opened once and its goroutine
 only ends that session

---
 pkg/broker/memory/memory.go | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/pkg/broker/memory/memory.go b/pkg/broker/memory/memory.go
index 5781e03..193f3aa 100644
--- a/pkg/broker/memory/memory.go
+++ b/pkg/broker/memory/memory.go
@@ -67,15 +67,20 @@ func New(opts ...broker.Option) (*Memory, error) {
 }
 
 // run starts the broker.
-func (m *Memory) run(ctx context.Context) {
-	defer m.Close()
+func (m *Memory) run(ctx context.Context, exit <-chan struct{}, ctl <-chan sub) {
 	for {
 		select {
 		case <-ctx.Done():
+			m.Lock()
+			// NOTE: only close the session this goroutine has been started for
+			if m.exit == exit {
+				m.close()
+			}
+			m.Unlock()
 			return
-		case <-m.exit:
+		case <-exit:
 			return
-		case sub := <-m.ctl:
+		case sub := <-ctl:
 			m.Lock()
 			if _, ok := m.subs[sub.topic]; ok {
 				delete(m.subs[sub.topic], sub.id)
@@ -87,15 +92,12 @@ func (m *Memory) run(ctx context.Context) {
 
 // Open opens a new broker session.
 func (m *Memory) Open(ctx context.Context, opts ...broker.Option) error {
-	m.RLock()
+	m.Lock()
+	defer m.Unlock()
+
 	if m.connected {
-		m.RUnlock()
 		return nil
 	}
-	m.RUnlock()
-
-	m.Lock()
-	defer m.Unlock()
 
 	m.connected = true
 	m.exit = make(chan struct{})
@@ -103,7 +105,7 @@ func (m *Memory) Open(ctx context.Context, opts ...broker.Option) error {
 
 	// TODO: we should make sure Close() stops this goroutine
 	// Try adding it to a sync.WaitGroup
-	go m.run(ctx)
+	go m.run(ctx, m.exit, m.ctl)
 
 	return nil
 }
@@ -196,8 +198,16 @@ func (m *Memory) Close() error {
 	m.Lock()
 	defer m.Unlock()
 
+	m.close()
+
+	return nil
+}
+
+// close closes broker session.
+// It must be called with the broker lock held.
+func (m *Memory) close() {
 	if !m.connected {
-		return nil
+		return
 	}
 
 	close(m.exit)
@@ -213,6 +223,4 @@ func (m *Memory) Close() error {
 	}
 
 	m.connected = false
-
-	return nil
 }
-- 
2.43.0


From faf384a5ddd2d8b082b897c40deeea61c6f8c2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 23/29] fix: broker: concurrent Unsubscribe calls close the
 subscription once

---
 pkg/broker/memory/subscriber.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/broker/memory/subscriber.go b/pkg/broker/memory/subscriber.go
index 881e479..5222d87 100644
--- a/pkg/broker/memory/subscriber.go
+++ b/pkg/broker/memory/subscriber.go
@@ -31,8 +31,8 @@ func (s *Subscriber) Topic(ctx context.Context, opts ...broker.Option) (string,
 
 // Unsubscribe unsubscribes from the topic.
 func (s *Subscriber) Unsubscribe(ctx context.Context, opts ...broker.Option) error {
-	s.RLock()
-	defer s.RUnlock()
+	s.Lock()
+	defer s.Unlock()
 
 	if s.active {
 		close(s.exit)
-- 
2.43.0


From f0ef4d51f14accdbb3c9f54e195fb14002093823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:27 +0000
Subject: [PATCH 24/29] fix: broker: Receive reports that no message has been
 received

---
 pkg/broker/memory/subscriber.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/broker/memory/subscriber.go b/pkg/broker/memory/subscriber.go
index 5222d87..4f2aa1d 100644
--- a/pkg/broker/memory/subscriber.go
+++ b/pkg/broker/memory/subscriber.go
@@ -71,7 +71,7 @@ func (s *Subscriber) Receive(ctx context.Context, h broker.Handler, opts ...brok
 
 	select {
 	case <-ctx.Done():
-		return nil
+		return ctx.Err()
 	case <-time.After(recvTimeout):
 		// NOTE: drop the message once the timeout expires
 		select {
@@ -80,9 +80,9 @@ func (s *Subscriber) Receive(ctx context.Context, h broker.Handler, opts ...brok
 		}
 		return broker.ErrTimeout
 	case <-s.queue.exit:
-		return nil
+		return broker.ErrSubscriptionInactive
 	case <-s.exit:
-		return nil
+		return broker.ErrSubscriptionInactive
 	case msg := <-s.queue.msg:
 		if err := h(ctx, msg); err != nil {
 			return err
-- 
2.43.0


From 630e135ce2e5b6ebc7ccae6d9fb46be817b38fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:27 +0000
Subject: [PATCH 25/29] fix: broker: honour the receive timeout given to New
 and Sub

---
 pkg/broker/memory/memory.go     | 54 ++++++++++++++++++++++-----------
 pkg/broker/memory/subscriber.go |  4 ++-
 2 files changed, 39 insertions(+), 19 deletions(-)

diff --git a/pkg/broker/memory/memory.go b/pkg/broker/memory/memory.go
index 193f3aa..2600714 100644
--- a/pkg/broker/memory/memory.go
+++ b/pkg/broker/memory/memory.go
@@ -31,13 +31,14 @@ type queue struct {
 // Memory is in-memory broker.
 type Memory struct {
 	sync.RWMutex
-	connected  bool
-	size       int
-	pubTimeout time.Duration
-	subs       map[string]map[string]*Subscriber
-	topics     map[string]queue
-	exit       chan struct{}
-	ctl        chan sub
+	connected   bool
+	size        int
+	pubTimeout  time.Duration
+	recvTimeout time.Duration
+	subs        map[string]map[string]*Subscriber
+	topics      map[string]queue
+	exit        chan struct{}
+	ctl         chan sub
 }
 
 // New crates a new in-memory broker and returns it.
@@ -57,12 +58,18 @@ func New(opts ...broker.Option) (*Memory, error) {
 		pubTimeout = DefaultTimeout
 	}
 
+	recvTimeout := bopts.RecvTimeout
+	if recvTimeout == 0 {
+		recvTimeout = DefaultTimeout
+	}
+
 	return &Memory{
-		connected:  false,
-		size:       size,
-		pubTimeout: pubTimeout,
-		subs:       make(map[string]map[string]*Subscriber),
-		topics:     make(map[string]queue),
+		connected:   false,
+		size:        size,
+		pubTimeout:  pubTimeout,
+		recvTimeout: recvTimeout,
+		subs:        make(map[string]map[string]*Subscriber),
+		topics:      make(map[string]queue),
 	}, nil
 }
 
@@ -158,6 +165,16 @@ func (m *Memory) Pub(ctx context.Context, topic string, msg broker.Message, opts
 
 // Sub subscribes to the given topic.
 func (m *Memory) Sub(ctx context.Context, topic string, opts ...broker.Option) (broker.Subscriber, error) {
+	sopts := broker.Options{}
+	for _, apply := range opts {
+		apply(&sopts)
+	}
+
+	recvTimeout := sopts.RecvTimeout
+	if recvTimeout == 0 {
+		recvTimeout = m.recvTimeout
+	}
+
 	uid := memuid.New()
 
 	m.Lock()
@@ -177,12 +194,13 @@ func (m *Memory) Sub(ctx context.Context, topic string, opts ...broker.Option) (
 	}
 
 	sub := &Subscriber{
-		id:     uid.String(),
-		topic:  topic,
-		active: true,
-		queue:  q,
-		ctl:    m.ctl,
-		exit:   make(chan struct{}),
+		id:          uid.String(),
+		topic:       topic,
+		active:      true,
+		queue:       q,
+		ctl:         m.ctl,
+		exit:        make(chan struct{}),
+		recvTimeout: recvTimeout,
 	}
 
 	if m.subs[topic] == nil {
diff --git a/pkg/broker/memory/subscriber.go b/pkg/broker/memory/subscriber.go
index 4f2aa1d..b6c8ab2 100644
--- a/pkg/broker/memory/subscriber.go
+++ b/pkg/broker/memory/subscriber.go
@@ -17,6 +17,8 @@ type Subscriber struct {
 	queue  queue
 	ctl    chan<- sub
 	exit   chan struct{}
+	// recvTimeout is the default receive timeout
+	recvTimeout time.Duration
 }
 
 // ID returns subscriber ID
@@ -59,7 +61,7 @@ func (s *Subscriber) Receive(ctx context.Context, h broker.Handler, opts ...brok
 
 	recvTimeout := ropts.RecvTimeout
 	if recvTimeout == 0 {
-		recvTimeout = DefaultTimeout
+		recvTimeout = s.recvTimeout
 	}
 
 	s.RLock()
-- 
2.43.0


From a57c262e88e63460f9e24c5ffa79be761e76bd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:29 +0000
Subject: [PATCH 26/29] fix: give ingested messages a unique ID

---
 pkg/broker/ingester/simple/ingester.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/broker/ingester/simple/ingester.go b/pkg/broker/ingester/simple/ingester.go
index d2ac488..87652b6 100644
--- a/pkg/broker/ingester/simple/ingester.go
+++ b/pkg/broker/ingester/simple/ingester.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/milosgajdos/netscrape/pkg/broker"
 	"github.com/milosgajdos/netscrape/pkg/broker/ingester"
+	memuid "github.com/milosgajdos/netscrape/pkg/uuid/memory"
 )
 
 // Ingester digests data from broker.
@@ -33,6 +34,7 @@ func (in *Ingester) Ingest(ctx context.Context, b broker.Broker, topic string, m
 	}
 
 	msg := &broker.Message{
+		UID:  memuid.New().String(),
 		Type: msgType,
 	}
 
-- 
2.43.0


From b11f35030b83a396702cfab3332bcd26c82635dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 27/29] fix: graph: DOT shows the DOT ID and the DOT attributes
 of the graph

---
 pkg/graph/memory/wg.go | 45 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 7e5b37c..5d8ef73 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -438,12 +438,55 @@ func (g *WG) DOTAttributers() (graph, node, edge encoding.Attributer) {
 	return graph, node, edge
 }
 
+// dotAttrs are DOT attributes which may be missing.
+type dotAttrs struct {
+	a encoding.Attributer
+}
+
+// Attributes implements encoding.Attributer.
+func (d dotAttrs) Attributes() []encoding.Attribute {
+	if d.a == nil {
+		return nil
+	}
+
+	return d.a.Attributes()
+}
+
+// dotGraph is an undirected graph with the DOT attributes of wg.
+type dotGraph struct {
+	gonum.Graph
+	wg *WG
+}
+
+// DOTAttributers implements dot.Attributers.
+func (d dotGraph) DOTAttributers() (graph, node, edge encoding.Attributer) {
+	graph, node, edge = d.wg.DOTAttributers()
+
+	return dotAttrs{graph}, dotAttrs{node}, dotAttrs{edge}
+}
+
+// dotDigraph is a directed graph with the DOT attributes of wg.
+type dotDigraph struct {
+	gonum.Directed
+	wg *WG
+}
+
+// DOTAttributers implements dot.Attributers.
+func (d dotDigraph) DOTAttributers() (graph, node, edge encoding.Attributer) {
+	return dotGraph{d.Directed, d.wg}.DOTAttributers()
+}
+
 // DOT returns the GrapViz dot representation of the graph.
 func (g *WG) DOT() (string, error) {
 	g.mu.RLock()
 	defer g.mu.RUnlock()
 
-	b, err := dot.Marshal(g.WeightedGraphBuilder, "", "", "  ")
+	var dg gonum.Graph = dotGraph{g.WeightedGraphBuilder, g}
+	if d, ok := g.WeightedGraphBuilder.(gonum.Directed); ok {
+		dg = dotDigraph{d, g}
+	}
+
+	b, err := dot.Marshal(dg, g.DOTID(), "", "  ")
 	if err != nil {
 		return "", fmt.Errorf("DOT marshal error: %w", err)
 	}
-- 
2.43.0


From 6b8d3268baabb6d7a3e5f99e19b1cea70f08aa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 28/29] fix: store: Get reports a node which is not an entity
 instead of panicking

---
 pkg/store/memory/store.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/store/memory/store.go b/pkg/store/memory/store.go
index 33f17cc..956c8b0 100644
--- a/pkg/store/memory/store.go
+++ b/pkg/store/memory/store.go
@@ -116,7 +116,12 @@ func (m *Memory) get(ctx context.Context, uid uuid.UID, opts ...store.Option) (s
 		return nil, err
 	}
 
-	return e.(*memory.Node), nil
+	ent, ok := e.(store.Entity)
+	if !ok {
+		return nil, graph.ErrInvalidNode
+	}
+
+	return ent, nil
 }
 
 // Get Entity from store.
-- 
2.43.0


From ef5529e1af3019954329406945d98346d89cb141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 29/29] fix: converting missing attributes to a map does not
 panic

---
 pkg/attrs/attrs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/attrs/attrs.go b/pkg/attrs/attrs.go
index 1dd9011..bff2654 100644
--- a/pkg/attrs/attrs.go
+++ b/pkg/attrs/attrs.go
@@ -37,9 +37,14 @@ type DOT interface {
 }
 
 // ToMap returns map of attributes.
+// If a is nil the map is empty.
 func ToMap(ctx context.Context, a Attrs) (map[string]string, error) {
 	m := make(map[string]string)
 
+	if a == nil {
+		return m, nil
+	}
+
 	keys, err := a.Keys(ctx)
 	if err != nil {
 		return nil, err
-- 
2.43.0

