// Demonstrations of the genuine defects found in the pinned tree (see
// ../known_findings.txt). Run with ./run.sh [TREE]; every test fails on the
// original commit cc3ed34 and passes on the repaired tree. Not used by any check.
package findings

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/milosgajdos/netscrape"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/broker"
	"github.com/milosgajdos/netscrape/pkg/broker/digester"
	dsimple "github.com/milosgajdos/netscrape/pkg/broker/digester/simple"
	"github.com/milosgajdos/netscrape/pkg/broker/ingester"
	isimple "github.com/milosgajdos/netscrape/pkg/broker/ingester/simple"
	membroker "github.com/milosgajdos/netscrape/pkg/broker/memory"
	"github.com/milosgajdos/netscrape/pkg/cache"
	memcache "github.com/milosgajdos/netscrape/pkg/cache/memory"
	"github.com/milosgajdos/netscrape/pkg/graph"
	memgraph "github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/plan"
	psimple "github.com/milosgajdos/netscrape/pkg/plan/simple"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/space/link"
	"github.com/milosgajdos/netscrape/pkg/store"
	memstore "github.com/milosgajdos/netscrape/pkg/store/memory"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	memuid "github.com/milosgajdos/netscrape/pkg/uuid/memory"
)

var ctx = context.Background()

func within(t *testing.T, what string, f func()) {
	t.Helper()
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		t.Fatalf("%s: does not return", what)
	}
}

func uid(s string) uuid.UID { return memuid.NewFromString(s) }

func ent(t *testing.T, id string, m map[string]string) *entity.Entity {
	e, err := entity.New("typ", entity.WithUID(uid(id)), entity.WithAttrs(memattrs.NewFromMap(m)))
	if err != nil {
		t.Fatal(err)
	}
	return e
}

func TestCachePutKeepsOtherLinks(t *testing.T) {
	c, _ := memcache.NewLinks()
	a, b, d := uid("a"), uid("b"), uid("d")
	l1, _ := link.New(a, b)
	l2, _ := link.New(a, d)
	c.Put(ctx, l1)
	c.Put(ctx, l2)
	if l, _ := c.GetFrom(ctx, a); len(l) != 2 {
		t.Errorf("GetFrom: %d links, want 2", len(l))
	}
}

func TestCacheDeleteRemovesReverse(t *testing.T) {
	c, _ := memcache.NewLinks()
	a, b := uid("a"), uid("b")
	l1, _ := link.New(a, b)
	c.Put(ctx, l1)
	c.Delete(ctx, b)
	if l, _ := c.GetFrom(ctx, a); len(l) != 0 {
		t.Errorf("link to a deleted UID survives")
	}
}

func TestCacheUIDValueIdentity(t *testing.T) {
	c, _ := memcache.NewLinks()
	l1, _ := link.New(uid("a"), uid("b"))
	c.Put(ctx, l1)
	if l, _ := c.GetFrom(ctx, uid("a")); len(l) != 1 {
		t.Errorf("GetFrom an equal UID: %d links, want 1", len(l))
	}
	var _ cache.BulkLinks = c
}

func TestStoreBulkGet(t *testing.T) {
	s, _ := memstore.NewStore()
	s.BulkAdd(ctx, []store.Entity{ent(t, "a", nil), ent(t, "b", nil)})
	es, err := s.BulkGet(ctx, []uuid.UID{uid("a"), uid("b")})
	if err != nil || len(es) != 2 || es[0] == nil || es[1] == nil || es[0].UID().String() != "a" || es[1].UID().String() != "b" {
		t.Errorf("BulkGet: %v %v", es, err)
	}
}

func TestStoreKeepsAttrs(t *testing.T) {
	s, _ := memstore.NewStore()
	s.Add(ctx, ent(t, "a", map[string]string{"k": "v"}))
	e, _ := s.Get(ctx, uid("a"))
	if v, _ := e.Attrs().Get(ctx, "k"); v != "v" {
		t.Errorf("attribute k of a stored entity: %q", v)
	}
}

func TestStoreUpsertReplaces(t *testing.T) {
	s, _ := memstore.NewStore()
	s.Add(ctx, ent(t, "a", nil))
	s.Add(ctx, ent(t, "b", nil))
	s.Link(ctx, uid("a"), uid("b"))
	e2, _ := entity.New("typ2", entity.WithUID(uid("a")))
	if err := s.Add(ctx, e2, store.WithUpsert()); err != nil {
		t.Fatal(err)
	}
	e, _ := s.Get(ctx, uid("a"))
	if e.Type() != "typ2" {
		t.Errorf("upsert did not replace: type %s", e.Type())
	}
	g, _ := s.Graph()
	ns, _ := g.From(ctx, uid("a"))
	if len(ns) != 1 {
		t.Errorf("upsert lost the links")
	}
	all, _ := g.Nodes(ctx)
	if len(all) != 2 {
		t.Errorf("nodes: %d", len(all))
	}
}

func TestDOTReleasesLock(t *testing.T) {
	g, _ := memgraph.NewWUG()
	g.DOT()
	within(t, "NewNode after DOT", func() { g.NewNode(ctx, ent(t, "a", nil)) })
}

func TestNewNodeIDsUnique(t *testing.T) {
	g, _ := memgraph.NewWUG()
	a, _ := g.NewNode(ctx, ent(t, "a", nil))
	b, _ := g.NewNode(ctx, ent(t, "b", nil))
	g.AddNode(ctx, a)
	g.AddNode(ctx, b)
	ns, _ := g.Nodes(ctx)
	if len(ns) != 2 {
		t.Errorf("nodes: %d, want 2", len(ns))
	}
}

func TestAddNodeDuplicateUID(t *testing.T) {
	g, _ := memgraph.NewWUG()
	a, _ := memgraph.NewNode(1, ent(t, "a", nil))
	b, _ := memgraph.NewNode(2, ent(t, "a", nil))
	g.AddNode(ctx, a)
	if err := g.AddNode(ctx, b); !errors.Is(err, graph.ErrDuplicateNode) {
		t.Errorf("second node with the same UID: %v", err)
	}
	ns, _ := g.Nodes(ctx)
	if len(ns) != 1 {
		t.Errorf("nodes: %d, want 1", len(ns))
	}
}

func TestSelfLink(t *testing.T) {
	g, _ := memgraph.NewWUG()
	a, _ := g.NewNode(ctx, ent(t, "a", nil))
	g.AddNode(ctx, a)
	defer func() {
		if r := recover(); r != nil {
			t.Errorf("self link panics: %v", r)
		}
	}()
	if _, err := g.Link(ctx, uid("a"), uid("a")); err == nil {
		t.Errorf("self link accepted")
	}
}

func TestConcurrentLinkSameEdge(t *testing.T) {
	for i := 0; i < 3000; i++ {
		g, _ := memgraph.NewWUG()
		for _, n := range []string{"a", "b"} {
			nn, _ := g.NewNode(ctx, ent(t, n, nil))
			g.AddNode(ctx, nn)
		}
		var wg sync.WaitGroup
		var es [4]graph.Edge
		within(t, "concurrent Link", func() {
			for k := range es {
				wg.Add(1)
				go func(k int) { defer wg.Done(); es[k], _ = g.Link(ctx, uid("a"), uid("b")) }(k)
			}
			wg.Wait()
		})
		for k := range es {
			if es[k] != es[0] {
				t.Fatalf("concurrent Link calls returned different edges")
			}
		}
	}
}

func TestSubGraphEdges(t *testing.T) {
	g, _ := memgraph.NewWDG()
	for _, n := range []string{"a", "b", "c"} {
		nn, _ := g.NewNode(ctx, ent(t, n, nil))
		g.AddNode(ctx, nn)
	}
	g.Link(ctx, uid("a"), uid("b"), graph.WithWeight(1))
	g.Link(ctx, uid("a"), uid("c"), graph.WithWeight(2))
	for i := 0; i < 20; i++ {
		sg, err := g.SubGraph(ctx, uid("a"), 5)
		if err != nil {
			t.Fatal(err)
		}
		for to, w := range map[string]float64{"b": 1, "c": 2} {
			e, err := sg.Edge(ctx, uid("a"), uid(to))
			if err != nil || e.Weight() != w {
				t.Fatalf("edge a->%s: %v weight %v want %v", to, err, e.Weight(), w)
			}
		}
	}
}

func TestBrokerTopicSurvivesClose(t *testing.T) {
	b, _ := membroker.New(broker.WithCap(1))
	b.Open(ctx)
	b.Pub(ctx, "t", broker.Message{UID: "old"})
	b.Close()
	time.Sleep(20 * time.Millisecond)
	b.Open(ctx)
	defer b.Close()
	s, _ := b.Sub(ctx, "t")
	got := ""
	err := s.Receive(ctx, func(_ context.Context, m broker.Message) error { got = m.UID; return nil }, broker.WithSubTimeout(50*time.Millisecond))
	if !errors.Is(err, broker.ErrTimeout) {
		t.Errorf("fresh session: Receive returned %v, delivered %q", err, got)
	}
}

func TestBrokerReopen(t *testing.T) {
	for i := 0; i < 500; i++ {
		b, _ := membroker.New(broker.WithCap(1))
		b.Open(ctx)
		time.Sleep(100 * time.Microsecond)
		b.Close()
		b.Open(ctx)
		time.Sleep(200 * time.Microsecond)
		if err := b.Pub(ctx, "t", broker.Message{}); err != nil {
			t.Fatalf("run %d: the goroutine of the previous session closed the new one: %v", i, err)
		}
		b.Close()
	}
}

func TestPubCancelledContext(t *testing.T) {
	b, _ := membroker.New()
	b.Open(ctx)
	defer b.Close()
	c, cancel := context.WithCancel(ctx)
	cancel()
	if err := b.Pub(c, "t", broker.Message{}); err == nil {
		t.Errorf("Pub reported success for a message that was not enqueued")
	}
	if _, err := b.Sub(ctx, "t"); err != nil {
		t.Errorf("one publisher's cancelled context closed the broker: %v", err)
	}
}

func TestPubDuringClose(t *testing.T) {
	b, _ := membroker.New()
	b.Open(ctx)
	e := make(chan error)
	go func() { e <- b.Pub(ctx, "t", broker.Message{}) }()
	time.Sleep(20 * time.Millisecond)
	b.Close()
	if err := <-e; err == nil {
		t.Errorf("Pub reported success for a message that was not enqueued")
	}
}

func TestConcurrentUnsubscribe(t *testing.T) {
	for i := 0; i < 2000; i++ {
		b, _ := membroker.New()
		b.Open(ctx)
		s, _ := b.Sub(ctx, "t")
		var wg sync.WaitGroup
		var bad interface{}
		start := make(chan struct{})
		for k := 0; k < 4; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						bad = r
					}
				}()
				<-start
				s.Unsubscribe(ctx)
			}()
		}
		close(start)
		wg.Wait()
		b.Close()
		if bad != nil {
			t.Fatalf("concurrent Unsubscribe: %v", bad)
		}
	}
}

func TestDigestStops(t *testing.T) {
	b, _ := membroker.New()
	b.Open(ctx)
	s, _ := b.Sub(ctx, "t")
	d, _ := dsimple.NewDigester()
	c, cancel := context.WithCancel(ctx)
	cancel()
	within(t, "Digest with a cancelled context", func() { d.Digest(c, s) })
	s2, _ := b.Sub(ctx, "t")
	b.Close()
	within(t, "Digest on a closed broker", func() { d.Digest(ctx, s2) })
}

func TestDigesterConstructorHandler(t *testing.T) {
	b, _ := membroker.New(broker.WithCap(1))
	b.Open(ctx)
	defer b.Close()
	s, _ := b.Sub(ctx, "t")
	stop := errors.New("stop")
	d, _ := dsimple.NewDigester(digester.WithHandler(func(context.Context, broker.Message) error { return stop }))
	b.Pub(ctx, "t", broker.Message{})
	within(t, "Digest", func() {
		if err := d.Digest(ctx, s); !errors.Is(err, stop) {
			t.Errorf("constructor's handler not used: %v", err)
		}
	})
}

type mm struct{}

func (mm) Marshal(interface{}) ([]byte, error) { return []byte("mm"), nil }

func TestIngesterConstructorMarshaler(t *testing.T) {
	b, _ := membroker.New(broker.WithCap(1))
	b.Open(ctx)
	defer b.Close()
	s, _ := b.Sub(ctx, "t")
	in, _ := isimple.NewIngester(ingester.WithMarshaler(mm{}))
	in.Ingest(ctx, b, "t", broker.Entity, 1)
	s.Receive(ctx, func(_ context.Context, m broker.Message) error {
		if string(m.Data) != "mm" {
			t.Errorf("constructor's marshaler not used: %s", m.Data)
		}
		return nil
	})
}

type scraper struct{ o netscrape.Options }

func (s *scraper) Scrape(_ context.Context, _ plan.Plan, opts ...netscrape.Option) error {
	for _, f := range opts {
		f(&s.o)
	}
	return nil
}

func TestRunnerOptions(t *testing.T) {
	b, _ := membroker.New()
	r, _ := netscrape.NewRunner(netscrape.WithBroker(b), netscrape.WithMarshaler(mm{}))
	s := &scraper{}
	p, _ := psimple.NewSimple()
	r.Run(ctx, p, s)
	if s.o.Broker != broker.Broker(b) || s.o.Marshaler == nil {
		t.Errorf("scraper got %v", fmt.Sprint(s.o))
	}
	if err := r.Run(ctx, nil, s); !errors.Is(err, netscrape.ErrMissingPlan) {
		t.Errorf("no plan: %v", err)
	}
}

func TestNewCopyFromNil(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Errorf("NewCopyFrom(nil) panics: %v", r)
		}
	}()
	memattrs.NewCopyFrom(ctx, nil)
}

func TestBrokerRecvTimeoutOption(t *testing.T) {
	b, _ := membroker.New(broker.WithSubTimeout(10 * time.Millisecond))
	b.Open(ctx)
	defer b.Close()
	s, _ := b.Sub(ctx, "t")
	within(t, "Receive with the broker's timeout", func() { s.Receive(ctx, nil) })
}
