package main

import (
	"go/types"
	"strings"
)

// Types of the module and the interfaces they are there to implement.

// conform lists which types implement which interfaces; a path outside of the module is written in full.
var conform = []struct {
	typ    string
	ifaces []string
}{
	{"pkg/attrs/memory.Attrs", []string{"pkg/attrs.Attrs", "pkg/attrs.DOT", "gonum.org/v1/gonum/graph/encoding.Attributer"}},
	{"pkg/uuid/memory.UID", []string{"pkg/uuid.UID"}},
	{"pkg/space/entity.Entity", []string{"pkg/space.Entity", "pkg/store.Entity", "pkg/graph.Entity", "pkg/graph.DOTEntity"}},
	{"pkg/space/entity.Resource", []string{"pkg/space.Resource", "pkg/plan.Resource", "pkg/store.Entity", "pkg/graph.DOTEntity"}},
	{"pkg/space/entity.Object", []string{"pkg/space.Object", "pkg/store.Entity", "pkg/graph.DOTEntity"}},
	{"pkg/space/link.Link", []string{"pkg/space.Link", "pkg/store.Link", "pkg/cache.Link"}},
	{"pkg/space/marshal/json.Marshaler", []string{"pkg/broker.Marshaler", "pkg/broker.Unmarshaler"}},
	{"pkg/cache/memory.Links", []string{"pkg/cache.Links", "pkg/cache.BulkLinks"}},
	{"pkg/graph/memory.Node", []string{"pkg/graph.Node", "pkg/graph.DOTNode", "pkg/graph.Entity", "pkg/store.Entity", "gonum.org/v1/gonum/graph.Node", "gonum.org/v1/gonum/graph/encoding/dot.Node", "gonum.org/v1/gonum/graph/encoding.Attributer"}},
	{"pkg/graph/memory.Edge", []string{"pkg/graph.Edge", "pkg/graph.DOTEdge", "gonum.org/v1/gonum/graph.WeightedEdge", "gonum.org/v1/gonum/graph/encoding.Attributer"}},
	{"pkg/graph/memory.WG", []string{"pkg/graph/memory.Graph", "pkg/graph.DOTGraph"}},
	{"pkg/graph/memory.WUG", []string{"pkg/graph/memory.Graph", "pkg/graph.DOTGraph"}},
	{"pkg/graph/memory.WDG", []string{"pkg/graph/memory.Graph", "pkg/graph.DOTGraph"}},
	{"pkg/plan/simple.Simple", []string{"pkg/plan.Plan"}},
	{"pkg/broker/memory.Memory", []string{"pkg/broker.Broker"}},
	{"pkg/broker/memory.Subscriber", []string{"pkg/broker.Subscriber"}},
	{"pkg/broker/ingester/simple.Ingester", []string{"pkg/broker/ingester.Ingester"}},
	{"pkg/broker/digester/simple.Digester", []string{"pkg/broker/digester.Digester"}},
	{"pkg/store/memory.Memory", []string{"pkg/store.Store", "pkg/store.BulkStore", "pkg/store/memory.Store", "pkg/store/memory.BulkStore"}},
}

// lookupType finds the type path.Name in the program.
func (c *Ctx) lookupType(name string) types.Type {
	i := strings.LastIndex(name, ".")
	path, id := name[:i], name[i+1:]
	if strings.HasPrefix(path, "pkg/") {
		path = modPath + "/" + path
	}
	for _, p := range c.ssa.AllPackages() {
		if p.Pkg.Path() == path {
			if o, ok := p.Pkg.Scope().Lookup(id).(*types.TypeName); ok {
				return o.Type()
			}
		}
	}
	return nil
}

func (c *Ctx) conformCheck() {
	for _, k := range conform {
		cn := strings.TrimPrefix(k.typ, "pkg/")
		t := c.lookupType(k.typ)
		if !c.require(t != nil, "anchor", cn, "", "%s does not exist any more", k.typ) {
			continue
		}
		for _, in := range k.ifaces {
			it := c.lookupType(in)
			if !c.require(it != nil && types.IsInterface(it), "anchor", in, "", "%s does not exist any more", in) {
				continue
			}
			m, wrong := types.MissingMethod(types.NewPointer(t), it.Underlying().(*types.Interface), true)
			why := ""
			if m != nil {
				why = "the method " + m.Name() + " is missing"
				if wrong {
					why = "the method " + m.Name() + " has another signature"
				}
			}
			c.require(m == nil, "a type implements its interfaces", cn+" "+strings.TrimPrefix(in, "pkg/"), "", "it does not implement %s: %s", in, why)
		}
	}
}

func init() {
	register(&Check{
		ID: "C29", Title: "every implementation implements its interfaces",
		Rules: "the method set of every implementation is compared with the interfaces it is there to implement",
		Min:   30,
		Run:   func(c *Ctx) { c.conformCheck() },
	})
}
