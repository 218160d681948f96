package main

import (
	"go/types"
	"strings"
)

// dynCalls runs the method name of a value of dynamic type t.
func (c *Ctx) dynCalls(o *State, t types.Type, v *Term, name string) []*State {
	sel := c.ssa.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	f := c.ssa.MethodValue(sel)
	if f == nil || f.Blocks == nil {
		return nil
	}
	args := []*Term{v}
	for i := 1; i < len(f.Params); i++ {
		args = append(args, paramTerm(f, i))
	}
	return c.callOn(o, f, args...)
}

// typeOf returns the dynamic type of an interface value, nil when it is not known.
func typeOf(v *Term) types.Type {
	if v.Op == "iface" {
		t, _ := v.Aux.(types.Type)
		return t
	}
	if v.Type != nil && !types.IsInterface(v.Type) {
		return v.Type
	}
	return nil
}

func (c *Ctx) iface(name string) *types.Interface {
	t := c.lookupType(name)
	if t == nil {
		return nil
	}
	i, _ := t.Underlying().(*types.Interface)
	return i
}

// dotCheck: DOT encodes the graph itself.
func (c *Ctx) dotCheck() {
	r := c.graphRoles()
	if r == nil {
		return
	}
	directed := c.iface("gonum.org/v1/gonum/graph.Directed")
	attributers := c.iface("gonum.org/v1/gonum/graph/encoding/dot.Attributers")
	named := c.iface("gonum.org/v1/gonum/graph/encoding/dot.Node")
	attributer := c.iface("gonum.org/v1/gonum/graph/encoding.Attributer")
	if !c.require(directed != nil && attributers != nil && named != nil && attributer != nil, "anchor", "gonum dot interfaces", "", "the interfaces of the DOT encoder are missing") {
		return
	}
	p := types.NewPointer(r.node)
	c.require(types.Implements(p, named) && types.Implements(p, attributer), "nodes show their ID and attributes", "graph/memory.Node", "", "a node is not a dot.Node and an encoding.Attributer")
	c.require(types.Implements(types.NewPointer(r.edge), attributer), "edges show their attributes", "graph/memory.Edge", "", "an edge is not an encoding.Attributer")
	c.dotMembers()
	sub := newCtx(c.Program, c.check)
	for kind, want := range map[string]types.Type{"node": p, "edge": types.NewPointer(r.edge)} {
		ok, why := isSet(sub.containers(sub.activities()).members[kind], want)
		c.require(ok, "the members of the graph are nodes and edges of the module", kind, "", "%s", why)
	}
	// a graph of any history: what was encoded before does not show what was changed since
	if m := c.method(r.typ, "DOT"); c.need(m, "graph/memory.WG.DOT") {
		for _, o := range c.paths(m) {
			if !c.returned(o, 2, "WG DOT") || o.notNil(o.ret[1]) {
				continue
			}
			var enc *Event
			for _, e := range o.events {
				if e.Kind == EvExt && strings.HasSuffix(e.Name, "graph/encoding/dot.Marshal") && len(e.Res) == 2 {
					enc = e
				}
			}
			out := strip(o.ret[0])
			c.require(enc != nil && (same(o.ret[1], enc.Res[1]) || out.Op == "conv" && strip(out.Args[0]) == strip(enc.Res[0])), "DOT encodes the graph as it is now", "WG DOT", fnPos(m), "returns %s on the path where %s", out, o.describe())
		}
	}
	for _, k := range []struct {
		ctor string
		opts int
		dir  int
	}{{"NewWDG", 0, present}, {"NewWUG", 0, absent}, {"NewWG", 1, unknown}} {
		f := c.fn("pkg/graph/memory", k.ctor)
		if !c.need(f, "graph/memory."+k.ctor) || !c.require(len(f.Params) > k.opts, "anchor", k.ctor+" options", fnPos(f), "the constructor takes no options any more") {
			continue
		}
		n := namedOf(derefType(f.Signature.Results().At(0).Type()))
		for _, o := range c.paths(f) {
			if !c.returned(o, 2, k.ctor) || !nilErr(o.ret[1], o) {
				continue
			}
			m := c.method(n, "DOT")
			if !c.need(m, k.ctor+" DOT") {
				return
			}
			name := c.access(o, n, o.ret[0], "DOTID")
			for _, x := range c.callOn(o, m, o.ret[0]) {
				c.dotPath(r, x, len(o.events), k.ctor, k.dir, name, param(f, k.opts), directed, attributers)
			}
		}
	}
}

func (c *Ctx) dotPath(r *graphRoles, o *State, from int, cn string, dir int, name, opts *Term, directed, attributers *types.Interface) {
	if !c.returned(o, 2, cn) {
		return
	}
	pos := ""
	var enc *Event
	for _, e := range o.events[from:] {
		if e.Kind == EvExt && strings.HasSuffix(e.Name, "graph/encoding/dot.Marshal") {
			c.require(enc == nil, "the graph is encoded once", cn, e.Pos, "it is encoded twice")
			enc = e
			pos = e.Pos
		}
	}
	if !c.require(enc != nil && len(enc.Args) == 4 && len(enc.Res) == 2, "the graph is encoded once", cn, pos, "there is no call of dot.Marshal on the path where %s", o.describe()) {
		return
	}
	if !nilErr(enc.Res[1], o) {
		c.require(o.notNil(o.ret[1]) || same(o.ret[1], enc.Res[1]), "a failed encoding is reported", cn, pos, "returns %s", o.ret[1])
		if o.notNil(enc.Res[1]) {
			return
		}
	}
	out := strip(o.ret[0])
	c.require(nilErr(o.ret[1], o) || same(o.ret[1], enc.Res[1]), "DOT returns the encoding", cn, pos, "reports %s", o.ret[1])
	c.require(out.Op == "conv" && strip(out.Args[0]) == strip(enc.Res[0]), "DOT returns the encoding", cn, pos, "returns %s", out)

	g := enc.Args[0]
	t := typeOf(g)
	if !c.require(t != nil, "the graph is encoded with its ID and attributes", cn, pos, "the type of what is encoded is not known: %s", g) {
		return
	}
	v := strip(g)
	// the ID
	id := enc.Args[1]
	if isConst(strip(id)) && id.String() == `""` {
		id = nil
		for _, x := range c.dynCalls(o, t, v, "DOTID") {
			if x.status == stRet && len(x.ret) == 1 {
				id = x.ret[0]
			}
		}
	}
	c.require(id != nil && name != nil && sameStr(id, name), "DOT names the graph by its DOT ID", cn, pos, "the name is %v and the DOT ID is %v", id, name)
	// direction
	is := types.Implements(t, directed)
	switch dir {
	case present:
		c.require(is, "a directed graph is shown as one", cn, pos, "what is encoded is not directed")
	case absent:
		c.require(!is, "an undirected graph is shown as one", cn, pos, "what is encoded is directed")
	}
	// the content
	var builder *Term
	for _, q := range []string{"Nodes", "From", "Edge"} {
		ok := false
		for _, x := range c.dynCalls(o, t, v, q) {
			ok = false
			if x.status != stRet || len(x.ret) != 1 {
				break
			}
			y := strip(x.ret[0])
			if y.Op != "gread" || gname(y) != q || !argsInOrder(y.Args[1:]) {
				break
			}
			b := strip(y.Args[0])
			if builder == nil {
				builder = b
			}
			ok = builder == b
		}
		c.require(ok, "DOT shows the nodes and edges of the graph", cn+" "+q, pos, "%s of what is encoded is not that of the graph", q)
	}
	c.require(builder != nil && r.ownBuilder(o, builder), "DOT shows the nodes and edges of the graph", cn, pos, "%v is encoded", builder)
	// the attributes
	if !c.require(types.Implements(t, attributers), "DOT shows the DOT attributes of the graph", cn, pos, "what is encoded (%s) has no DOT attributes", shortName(typeName(t))) {
		return
	}
	for _, x := range c.dynCalls(o, t, v, "DOTAttributers") {
		if !c.require(x.status == stRet && len(x.ret) == 3, "DOT shows the DOT attributes of the graph", cn, pos, "no attributes") {
			continue
		}
		for i, fd := range []string{"GraphAttrs", "NodeAttrs", "EdgeAttrs"} {
			c.dotAttrs(x, x.ret[i], opts, fd, cn+" "+fd, pos)
		}
	}
}

func argsInOrder(a []*Term) bool {
	for i, x := range a {
		if x.Op != "param" || !strings.HasSuffix(x.Str, "@"+string(rune('1'+i))) {
			return false
		}
	}
	return true
}

// ownBuilder: b is the gonum graph of a graph made on the path.
func (r *graphRoles) ownBuilder(o *State, b *Term) bool {
	for a, v := range o.cells {
		if a.Op == "faddr" && a.Str == r.builder && strip(v) == b {
			return true
		}
	}
	return false
}

// dotAttrs: the value shows the attributes the option gave, or none.
func (c *Ctx) dotAttrs(o *State, v, opts *Term, field, cn, pos string) {
	const rule = "DOT shows the DOT attributes of the graph"
	given := func(t *Term) bool {
		t = strip(t)
		if t.Op != "field" || !strings.HasSuffix(t.Str, "."+field) {
			return false
		}
		b, _, ok := optionField(t.Args[0], "DOTOptions")
		return ok && same(b, opts)
	}
	t := typeOf(v)
	if t == nil {
		if o.isNil(v) {
			c.fail(rule, cn, pos, "the encoder is given no attributer")
			return
		}
		c.require(given(v) && o.notNil(v), rule, cn, pos, "the attributes are those of %s, which may be nil: %v", v, !o.notNil(v))
		return
	}
	outs := c.dynCalls(o, t, strip(v), "Attributes")
	c.require(len(outs) > 0, rule, cn, pos, "the attributes of %s are not known", v)
	for _, x := range outs {
		if x.status != stRet || len(x.ret) != 1 {
			c.fail(rule, cn, pos, "reading the attributes fails on the path where %s", x.describe())
			continue
		}
		y := strip(x.ret[0])
		a, ok := isPure(y, "Attributes")
		for _, e := range x.events {
			if (e.Kind == EvExt || e.Kind == EvInvoke || e.Kind == EvCall) && strings.HasSuffix("."+e.Name, ".Attributes") && len(e.Res) == 1 && strip(e.Res[0]) == y && len(e.Args) > 0 {
				a, ok = e.Args[0], true
			}
		}
		if ok {
			c.require(given(a), rule, cn, pos, "the attributes are those of %s", a)
			c.require(x.notNil(a), rule, cn, pos, "DOT panics when no attributes are given (%s is nil)", a)
			continue
		}
		none := noOptions(x, opts)
		for _, f := range x.flist {
			if f.T.Op == "eq" && f.V {
				for j := 0; j < 2; j++ {
					none = none || f.T.Args[j] == tNil && given(f.T.Args[1-j])
				}
			}
		}
		empty := x.isNil(y) || y.Op == "makeslice" || y.Op == "seq" && len(y.Args) == 0
		c.require(none && empty, rule, cn, pos, "the attributes are %s on the path where %s", y, x.describe())
	}
}

func init() {
	register(&Check{
		ID: "C34", Title: "the DOT form shows the graph",
		Rules: "on every path of DOT on a new graph of each kind: the value given to the DOT encoder is evaluated - its name, its direction, the graph its queries read and the attributes its attributers return",
		Min:   25,
		Run:   func(c *Ctx) { c.dotCheck() },
	})
}
