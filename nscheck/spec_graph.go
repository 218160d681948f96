package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// graphRoles are the parts of the in-memory weighted graph.
type graphRoles struct {
	typ, node, edge *types.Named
	builder, nodes  string // field keys
}

func (c *Ctx) graphRoles() *graphRoles {
	r := &graphRoles{typ: c.named("pkg/graph/memory", "WG"), node: c.named("pkg/graph/memory", "Node"), edge: c.named("pkg/graph/memory", "Edge")}
	if !c.require(r.typ != nil && r.node != nil && r.edge != nil, "anchor", "graph/memory types", "", "WG, Node or Edge does not exist") {
		return nil
	}
	st, ok := r.typ.Underlying().(*types.Struct)
	if !c.require(ok, "anchor", "graph/memory.WG struct", "", "not a struct") {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		t := st.Field(i).Type()
		switch u := t.Underlying().(type) {
		case *types.Interface:
			for j := 0; j < u.NumMethods(); j++ {
				if u.Method(j).Name() == "SetWeightedEdge" {
					r.builder = fieldKey(r.typ, i)
				}
			}
		case *types.Map:
			// by UID to the nodes; other maps are something else
			b, ok := u.Key().Underlying().(*types.Basic)
			if m := types.NewMethodSet(u.Elem()); ok && b.Kind() == types.String && m.Lookup(nil, "UID") != nil {
				r.nodes = fieldKey(r.typ, i)
			}
		}
	}
	if !c.require(r.builder != "" && r.nodes != "", "anchor", "graph/memory.WG state", "", "the graph has no gonum graph or no node index") {
		return nil
	}
	return r
}

func (r *graphRoles) isNodes(t, g *Term) bool {
	b, k := fieldRead(t)
	return k == r.nodes && b == g
}

func (r *graphRoles) isBuilder(t, g *Term) bool {
	b, k := fieldRead(t)
	return k == r.builder && b == g
}

// nodeOf tells whether t is the node of the graph with the UID string key.
func (r *graphRoles) nodeOf(t, g, key *Term) bool {
	t = strip(t)
	return t.Op == "lookup" && r.isNodes(t.Args[0], g) && same(t.Args[1], key)
}

// idOf tells whether t is the ID of the node with the UID string key.
func (r *graphRoles) idOf(t, g, key *Term) bool {
	x, ok := isPure(t, "ID")
	return ok && r.nodeOf(x, g, key)
}

// has tells what the path knows about the node with the UID string key.
func (r *graphRoles) has(o *State, g, key *Term) int {
	for _, f := range o.flist {
		t := f.T
		switch t.Op {
		case "in":
			if r.isNodes(t.Args[0], g) && same(t.Args[1], key) {
				if f.V {
					return present
				}
				return absent
			}
		case "eq":
			for j := 0; j < 2; j++ {
				if t.Args[1-j] == tNil && r.nodeOf(t.Args[j], g, key) {
					if f.V {
						return absent
					}
					return present
				}
			}
		}
	}
	return unknown
}

// gread matches a read of the gonum graph of g.
func (r *graphRoles) gread(t, g *Term, names ...string) ([]*Term, bool) {
	t = strip(t)
	if t.Op != "gread" || !contains(names, gname(t)) || !r.isBuilder(t.Args[0], g) {
		return nil, false
	}
	return t.Args[1:], true
}

// eqFact tells what the path knows about a == b, where a and b are matched by functions.
func eqFact(fl []Fact, a, b func(*Term) bool) int {
	for _, f := range fl {
		if f.T.Op != "eq" {
			continue
		}
		for j := 0; j < 2; j++ {
			if a(f.T.Args[j]) && b(f.T.Args[1-j]) {
				if f.V {
					return present
				}
				return absent
			}
		}
	}
	for _, f := range fl {
		if f.T.Op == "lt" && f.V {
			for j := 0; j < 2; j++ {
				if a(f.T.Args[j]) && b(f.T.Args[1-j]) {
					return absent
				}
			}
		}
	}
	return unknown
}

func is(x *Term) func(*Term) bool { return func(t *Term) bool { return same(t, x) } }

// gchanges lists what the path does to the graph.
func (c *Ctx) gchanges(o *State) []*Event {
	var r []*Event
	for _, e := range changes(o.events) {
		if e.Kind == EvGo || e.Kind == EvSend || e.Kind == EvClose || e.Kind == EvSelect {
			continue
		}
		r = append(r, e)
	}
	return r
}

func (c *Ctx) unchanged(o *State, rule, cn string) bool {
	ch := c.gchanges(o)
	pos, what := pathScope(o).pos(), ""
	if len(ch) > 0 {
		pos, what = ch[0].Pos, ch[0].String()
	}
	return c.require(len(ch) == 0, rule, cn, pos, "the graph is changed (%s) on the path where %s", what, o.describe())
}

// indexed: the node index and the gonum graph change together.
func (c *Ctx) indexed(r *graphRoles, o *State, g *Term, cn string) {
	sc := pathScope(o)
	added, setn := map[*Term]bool{}, map[*Term]*Term{}
	var removed []*Term
	var deleted []*Term
	always := map[*Term]bool{} // what happens outside of loops
	both := func(a, b *Term) bool { return !always[a] || always[b] }
	each(o.events, func(e *Event, in []*Seg) {
		switch e.Kind {
		case EvGWrite:
			if !r.isBuilder(e.Args[0], g) {
				return
			}
			switch e.Name {
			case "AddNode":
				added[strip(e.Args[1])] = added[strip(e.Args[1])] || len(in) == 0
			case "RemoveNode":
				removed = append(removed, strip(e.Args[1]))
				always[strip(e.Args[1])] = len(in) == 0
			}
		case EvMapSet:
			if r.isNodes(e.Args[0], g) {
				c.require(same(e.Args[1], uidStr(e.Args[2])), "nodes are indexed by their UID", cn, e.Pos, "node %s is filed under %s", e.Args[2], e.Args[1])
				setn[strip(e.Args[2])] = e.Args[1]
				if len(in) == 0 {
					always[strip(e.Args[2])] = true
				}
			}
		case EvMapDel:
			if r.isNodes(e.Args[0], g) {
				deleted = append(deleted, e.Args[1])
				always[e.Args[1]] = len(in) == 0
			}
		case EvStore:
			if b, k := e.Args[0], e.Args[0].Str; b.Op == "faddr" && (k == r.nodes || k == r.builder) && b.Args[0] == g && !e.Fresh {
				c.fail("the node index matches the graph", cn, e.Pos, "%s is replaced as a whole", k)
			}
		}
	})
	for n, top := range added {
		_, ok := setn[n]
		c.require(ok && (!top || always[n]), "the node index matches the graph", cn, sc.pos(), "node %s is added to the graph but not to the index", n)
	}
	for n := range setn {
		top, ok := added[n]
		c.require(ok && (top || !always[n]), "the node index matches the graph", cn, sc.pos(), "node %s is added to the index but not to the graph", n)
	}
	for _, id := range removed {
		n, isID := isPure(id, "ID")
		ok := false
		if isID && n.Op == "lookup" && r.isNodes(n.Args[0], g) {
			for _, k := range deleted {
				ok = ok || same(k, n.Args[1]) && both(id, k)
			}
			for x, k := range setn {
				ok = ok || same(k, n.Args[1]) && both(id, x)
			}
		}
		c.require(ok, "the node index matches the graph", cn, sc.pos(), "node with ID %s is removed from the graph but stays in the index", id)
	}
	for _, k := range deleted {
		ok := false
		for _, id := range removed {
			ok = ok || r.idOf(id, g, k) && both(k, id)
		}
		c.require(ok, "the node index matches the graph", cn, sc.pos(), "the node with UID %s is removed from the index but stays in the graph", k)
	}
}

func (c *Ctx) addNodeCheck(r *graphRoles) {
	f := c.declared(r.typ, "AddNode")
	if !c.opParams(f, 4, "WG.AddNode") {
		return
	}
	cn := "WG.AddNode"
	g, n, opts := param(f, 0), param(f, 2), param(f, 3)
	key := uidStr(n)
	c.argsKeptBy(f)
	for _, o := range c.paths(f) {
		if !c.returned(o, 1, cn) {
			continue
		}
		sc := pathScope(o)
		for _, e := range sc.Events {
			if e.Kind == EvAssert && strip(e.Args[0]) == n {
				c.fail("a node of another type is rejected", cn, e.Pos, "AddNode panics when the node is no *memory.Node")
			}
		}
		ret := o.ret[0]
		isNode := unknown
		for _, fc := range o.flist {
			if fc.T.Op == "istype" && strip(fc.T.Args[0]) == n {
				isNode = absent
				if fc.V {
					isNode = present
				}
			}
		}
		if isNode == absent {
			c.require(c.errIsA(o, ret, "pkg/graph", "ErrInvalidNode"), "a node of another type is rejected", cn, sc.pos(), "returns %s for a node which is no *memory.Node", ret)
			c.unchanged(o, "a rejected node changes nothing", cn)
			continue
		}
		c.indexed(r, o, g, cn)
		ups, known := sc.upsert(opts)
		switch k := r.has(o, g, key); {
		case k == absent:
			c.require(nilErr(ret, o), "a new node is added", cn, sc.pos(), "returns %s for a node whose UID is not in the graph", ret)
			ch := c.gchanges(o)
			var add, set int
			for _, e := range ch {
				switch {
				case e.Kind == EvGWrite && e.Name == "AddNode" && r.isBuilder(e.Args[0], g) && strip(e.Args[1]) == n:
					add++
				case e.Kind == EvMapSet && r.isNodes(e.Args[0], g) && same(e.Args[1], key) && strip(e.Args[2]) == n:
					set++
				default:
					c.fail("adding a node changes nothing else", cn, e.Pos, "%s", e)
				}
			}
			c.require(add == 1 && set == 1, "a new node is added", cn, sc.pos(), "the node is not added to the graph and to the index exactly once on the path where %s", o.describe())
		case k == present && known && !ups:
			c.require(c.errIsA(o, ret, "pkg/graph", "ErrDuplicateNode"), "a duplicate is rejected without upsert", cn, sc.pos(), "returns %s for a UID which is in the graph", ret)
			c.unchanged(o, "a rejected node changes nothing", cn)
		case k == present && known && ups:
			c.require(nilErr(ret, o), "upsert succeeds", cn, sc.pos(), "returns %s", ret)
			old := func(t *Term) bool { return r.nodeOf(t, g, key) }
			if eqFact(o.flist, is(n), old) == present && len(c.gchanges(o)) == 0 {
				continue // the node itself
			}
			c.replaceSpec(r, o, g, n, key, cn)
		default:
			c.fail("AddNode decides on presence and upsert", cn, sc.pos(), "it is not known whether the UID is in the graph (%d) or upsert is set (%v) on the path where %s", k, known, o.describe())
		}
	}
}

// replaceSpec: the path replaces the node filed under key by n, keeping its edges.
func (c *Ctx) replaceSpec(r *graphRoles, o *State, g, n, key *Term, cn string) {
	sc := pathScope(o)
	oldID := func(t *Term) bool { return r.idOf(t, g, key) }
	var seq []string
	var setLoop *Loop
	seen := false
	for i, e := range sc.Events {
		switch {
		case e.Kind == EvGWrite && e.Name == "RemoveNode" && r.isBuilder(e.Args[0], g) && oldID(e.Args[1]):
			seq = append(seq, "remove")
		case e.Kind == EvGWrite && e.Name == "AddNode" && r.isBuilder(e.Args[0], g) && strip(e.Args[1]) == n:
			seq = append(seq, "add")
		case e.Kind == EvMapSet && r.isNodes(e.Args[0], g) && same(e.Args[1], key) && strip(e.Args[2]) == n:
			seen = true
		case e.Kind == EvLoopStart && e.Loop.Kind == "slice":
			for _, sg := range e.Loop.Segs {
				for _, x := range sg.Events {
					if x.Kind == EvGWrite && x.Name == "SetWeightedEdge" {
						setLoop = e.Loop
					}
				}
			}
			if setLoop == e.Loop {
				seq = append(seq, "edges")
			}
		case e.Kind == EvGWrite:
			c.fail("upsert replaces the node", cn, e.Pos, "%s", e)
		}
		_ = i
	}
	order := strings.Join(seq, " ")
	eqIDs := eqFact(o.flist, oldID, is(pureOf("ID", n)))
	ok := order == "remove add edges" || order == "add remove edges" && eqIDs == absent
	c.require(ok && seen, "upsert replaces the node", cn, sc.pos(), "the old node is not removed, the new one not added and the edges not restored in a safe order (%s) on the path where %s", order, o.describe())
	if setLoop == nil {
		return
	}
	c.require(sc.loopDone(setLoop), "upsert keeps the edges of the node", cn, setLoop.Pos, "not all edges are restored")
	for _, sg := range setLoop.Segs {
		k := 0
		for _, x := range sg.Events {
			if x.Kind == EvGWrite {
				k++
				c.require(x.Name == "SetWeightedEdge" && r.isBuilder(x.Args[0], g) && loopElem(setLoop, x.Args[1]), "upsert keeps the edges of the node", cn, x.Pos, "%s", x)
			}
		}
		c.require(k == 1, "upsert keeps the edges of the node", cn, setLoop.Pos, "an edge is not restored exactly once")
	}
	ps, ok := sc.parts(setLoop.Over)
	if !c.require(ok && len(ps) == 1 && ps[0].Kind == "each", "upsert keeps the edges of the node", cn, setLoop.Pos, "the restored edges are not collected from the edges of the graph") {
		return
	}
	l := ps[0].Loop
	src := l.Over
	if src != nil && strip(src).Op == "ext" && strings.HasSuffix(strip(src).Str, "WeightedEdgesOf") {
		src = strip(src).Args[0]
	}
	_, isEdges := r.gread(src, g, "WeightedEdges")
	before := strings.HasPrefix(strip(src).Str, "WeightedEdges@g0")
	c.require(isEdges && before && sc.loopDone(l), "upsert keeps the edges of the node", cn, l.Pos, "the edges of the graph are not all visited before the old node is removed")
	for i, sgp := range ps[0].Segs {
		st := ps[0].St[i]
		var el *Term
		termEl := func(t *Term) bool { return loopElem(l, t) }
		end := func(name string) func(*Term) bool {
			return func(t *Term) bool {
				x, ok := isPure(t, "ID")
				if !ok {
					return false
				}
				y, ok := isPure(x, name)
				return ok && termEl(y)
			}
		}
		kf, kt := eqFact(st.flist, oldID, end("From")), eqFact(st.flist, oldID, end("To"))
		if len(sgp) == 0 {
			c.require(kf == absent && kt == absent, "upsert keeps the edges of the node", cn, l.Pos, "an edge is dropped on the path where %s", st.describe())
			continue
		}
		if !c.require(len(sgp) == 1 && sgp[0].Kind == "one", "upsert keeps the edges of the node", cn, l.Pos, "an edge is restored more than once") {
			continue
		}
		el = strip(sgp[0].Val)
		cells := c.structCells(st, el)
		for _, fd := range []struct{ acc, name string }{{"UID", "UID"}, {"Attrs", "attributes"}, {"Weight", "weight"}, {"DOTID", "DOT ID"}} {
			k := c.fieldOfAccessor(r.edge, fd.acc)
			v := cells[k]
			x, ok := (*Term)(nil), false
			if v != nil {
				x, ok = isPure(v, fd.acc)
			}
			c.require(ok && termEl(x), "upsert keeps the edges of the node", cn+" edge "+fd.name, l.Pos, "the restored edge has %s %v", fd.name, v)
		}
		for _, fd := range []struct {
			acc      string
			k, other int
		}{{"From", kf, kt}, {"To", kt, kf}} {
			v := cells[c.fieldOfAccessor(r.edge, fd.acc)]
			keeps := false
			if v != nil {
				x, ok := isPure(v, fd.acc)
				keeps = ok && termEl(x)
			}
			// an edge does not have the same node at both ends
			good := fd.k == present && v != nil && strip(v) == n || fd.k != present && (fd.k == absent || fd.other == present) && keeps
			c.require(good, "upsert moves the edges to the new node", cn+" edge "+fd.acc, l.Pos, "the restored edge has end %s=%v on the path where %s", fd.acc, v, st.describe())
		}
	}
}

// fieldOfAccessor returns the field key an accessor of the type returns.
func (c *Ctx) fieldOfAccessor(n *types.Named, name string) string {
	if k := c.accessorField(n, name); k != "" {
		return k
	}
	f := c.declared(n, name)
	if f == nil {
		return ""
	}
	for _, o := range c.paths(f) {
		if o.status == stRet && len(o.ret) > 0 {
			if _, k := fieldRead(o.ret[0]); k != "" {
				return k
			}
		}
	}
	return ""
}

// newNodeCheck: NewNode never gives out an ID which is in use or has been given out.
func (c *Ctx) newNodeCheck(r *graphRoles) {
	f := c.declared(r.typ, "NewNode")
	cn := "WG.NewNode"
	if !c.opParams(f, 4, cn) {
		return
	}
	g, ent := param(f, 0), param(f, 2)
	key := uidStr(ent)
	idKey := c.fieldOfAccessor(r.node, "ID")
	for _, o := range c.paths(f) {
		if !c.returned(o, 2, cn) {
			continue
		}
		sc := pathScope(o)
		if !nilErr(o.ret[1], o) {
			c.require(len(c.gchanges(o)) == 0, "NewNode does not add the node", cn, sc.pos(), "fails after changing the graph")
			continue
		}
		n := strip(o.ret[0])
		cells := c.structCells(o, n)
		for k, v := range cells {
			if strings.HasSuffix(k, ".Entity") {
				c.require(strip(v) == ent, "NewNode returns a node of the entity", cn, sc.pos(), "the node carries %s", v)
			}
		}
		for _, w := range c.wantsOf("pkg/graph/memory", "NewNode", func(i int) *Term { return []*Term{cells[idKey], ent, param(f, 3)}[i] }) {
			if got := c.access(o, r.node, n, w.name); n.Op == "alloc" && w.name != "ID" {
				c.require(got != nil && w.ok(c, o, got), "NewNode returns a node made with the options", cn+" "+w.name, sc.pos(), "%s is %v, not %s, on the path where %s", w.name, got, w.desc, o.describe())
			}
		}
		id := cells[idKey]
		if !c.require(n.Op == "alloc" && id != nil, "NewNode returns a new node", cn, sc.pos(), "returns %s", n) {
			continue
		}
		var res []*Event
		for _, e := range c.gchanges(o) {
			if e.Kind == EvStore && !strings.HasPrefix(e.Args[0].String(), "alloc") {
				res = append(res, e)
				continue
			}
			c.fail("NewNode does not add the node", cn, e.Pos, "%s", e)
		}
		switch r.has(o, g, key) {
		case present:
			c.require(r.idOf(id, g, key), "a node in the graph keeps its ID", cn, sc.pos(), "the new node of an entity in the graph gets ID %s", id)
		case absent:
			free := eqFact(o.flist, is(tNil), func(t *Term) bool {
				a, ok := r.gread(t, g, "Node")
				return ok && same(a[0], id)
			}) == present
			c.require(free, "a new node gets an unused ID", cn, sc.pos(), "the graph is not known to have no node with ID %s on the path where %s", id, o.describe())
			ok := false
			for _, e := range res {
				x, d := splitAdd(e.Args[1])
				y, d2 := splitAdd(id)
				if x != y || d-d2 < 1 {
					continue
				}
				before := o.initialOf(e.Args[0])
				if c.atLeast(sc, id, before, 0) {
					ok = true
				}
			}
			c.require(ok, "a new node gets an ID which was not given out before", cn, sc.pos(), "ID %s is not reserved on the path where %s", id, o.describe())
		default:
			c.fail("NewNode looks for the node of the entity", cn, sc.pos(), "it is not known whether the entity is in the graph on the path where %s", o.describe())
		}
	}
}

// initialOf matches reads of address a before the path changed it.
func (o *State) initialOf(a *Term) func(*Term) bool {
	return func(t *Term) bool {
		t = strip(t)
		return t.Op == "load" && t.Args[0] == a
	}
}

// atLeast tells whether the path knows x >= y.
func (c *Ctx) atLeast(sc *Scope, x *Term, y func(*Term) bool, d int) bool {
	if y(x) {
		return true
	}
	if d > 6 {
		return false
	}
	for _, f := range sc.facts() {
		if f.T.Op == "lt" {
			if !f.V && same(f.T.Args[0], x) && y(f.T.Args[1]) || f.V && y(f.T.Args[0]) && same(f.T.Args[1], x) {
				return true
			}
		}
	}
	switch {
	case x.Op == "add":
		// a sum with a non negative term
		for i, a := range x.Args {
			if nonNeg(a) {
				rest := intT(0)
				for j, b := range x.Args {
					if j != i {
						rest = mkAdd(rest, b)
					}
				}
				if c.atLeast(sc, rest, y, d+1) {
					return true
				}
			}
		}
	case x.Op == "loopphi":
		l := sc.loopOf(x)
		if l == nil || l.PhiTerm[x] == nil || !c.atLeast(sc, l.PhiTerm[x], y, d+1) {
			return false
		}
		for _, n := range l.PhiNext[x] {
			b, k := splitAdd(n)
			if b != x || k < 0 {
				return false
			}
		}
		return true
	}
	return false
}

func (c *Ctx) linkCheck(r *graphRoles) {
	f := c.declared(r.typ, "Link")
	cn := "WG.Link"
	if c.opParams(f, 5, cn) {
		g, from, to, opts := param(f, 0), pureOf("String", param(f, 2)), pureOf("String", param(f, 3)), param(f, 4)
		for _, o := range c.paths(f) {
			if !c.returned(o, 2, cn) {
				continue
			}
			sc := pathScope(o)
			hf, ht := r.has(o, g, from), r.has(o, g, to)
			edge := func(t *Term) bool {
				a, ok := r.gread(t, g, "WeightedEdge", "Edge")
				return ok && r.idOf(a[0], g, from) && r.idOf(a[1], g, to)
			}
			if hf == absent || ht == absent {
				c.require(c.errIsA(o, o.ret[1], "pkg/graph", "ErrNodeNotFound") && nilErr(o.ret[0], o), "linking a missing node fails", cn, sc.pos(), "returns %s, %s", o.ret[0], o.ret[1])
				c.unchanged(o, "a failed link changes nothing", cn)
				continue
			}
			if !c.require(hf == present && ht == present, "Link looks up both nodes", cn, sc.pos(), "it is not known whether the nodes exist on the path where %s", o.describe()) {
				continue
			}
			ex := eqFact(o.flist, is(tNil), edge)
			self := eqFact(o.flist, func(t *Term) bool { return r.idOf(t, g, from) }, func(t *Term) bool { return r.idOf(t, g, to) })
			if self == unknown {
				self = eqFact(o.flist, func(t *Term) bool { return r.nodeOf(t, g, from) }, func(t *Term) bool { return r.nodeOf(t, g, to) })
			}
			if self == unknown {
				self = eqFact(o.flist, is(from), is(to))
			}
			switch {
			case ex == absent: // the edge is not nil
				c.require(nilErr(o.ret[1], o) && edge(o.ret[0]), "linking linked nodes returns the edge", cn, sc.pos(), "returns %s, %s", o.ret[0], o.ret[1])
				c.unchanged(o, "linking linked nodes changes nothing", cn)
			case self == present:
				c.require(c.errIsA(o, o.ret[1], "pkg/graph", "ErrUnsupported") && nilErr(o.ret[0], o), "linking a node with itself fails", cn, sc.pos(), "returns %s, %s", o.ret[0], o.ret[1])
				c.unchanged(o, "a failed link changes nothing", cn)
			case !nilErr(o.ret[1], o):
				c.fail("linking two nodes succeeds", cn, sc.pos(), "returns %s on the path where %s", o.ret[1], o.describe())
			default:
				c.require(ex == present, "linking linked nodes returns the edge", cn, sc.pos(), "a new edge is made without knowing that there is none on the path where %s", o.describe())
				c.require(self == absent, "linking a node with itself fails", cn, sc.pos(), "an edge is made without knowing that the nodes differ (gonum panics) on the path where %s", o.describe())
				e := strip(o.ret[0])
				n := 0
				for _, x := range c.gchanges(o) {
					if x.Kind == EvGWrite && x.Name == "SetWeightedEdge" && r.isBuilder(x.Args[0], g) && strip(x.Args[1]) == e {
						n++
						continue
					}
					c.fail("linking changes only the edge", cn, x.Pos, "%s", x)
				}
				c.require(n == 1, "linking adds the edge it returns", cn, sc.pos(), "the returned edge is not added exactly once")
				cells := c.structCells(o, e)
				fv, tv := cells[c.fieldOfAccessor(r.edge, "From")], cells[c.fieldOfAccessor(r.edge, "To")]
				c.require(e.Op == "alloc" && fv != nil && tv != nil && r.nodeOf(fv, g, from) && r.nodeOf(tv, g, to), "the edge joins the nodes of the given UIDs", cn, sc.pos(), "the edge goes from %v to %v", fv, tv)
				w := cells[c.fieldOfAccessor(r.edge, "Weight")]
				okW := false
				if w != nil {
					x, ini, ok := optionField(w, "Weight")
					okW = ok && same(x, opts) && isZeroOptions(ini) || zeroLit(strip(w)) && noOptions(o, opts)
				}
				c.require(okW, "the edge has the given weight", cn, sc.pos(), "the edge weight is %v", w)
				a := cells[c.fieldOfAccessor(r.edge, "Attrs")]
				c.require(c.attrsOption(o, a, opts), "the edge has the given attributes", cn, sc.pos(), "the edge attributes are %v on the path where %s", a, o.describe())
				for _, k := range c.wantsOf("pkg/graph/memory", "NewEdge", func(i int) *Term { return []*Term{fv, tv, opts}[i] }) {
					if k.name != "UID" && k.name != "DOTID" || e.Op != "alloc" {
						continue
					}
					got := c.access(o, r.edge, e, k.name)
					c.require(got != nil && k.ok(c, o, got), "the edge has the given UID and DOT ID", cn+" "+k.name, sc.pos(), "%s is %v, not %s, on the path where %s", k.name, got, k.desc, o.describe())
				}
			}
		}
	}
	f = c.declared(r.typ, "Edge")
	cn = "WG.Edge"
	if c.opParams(f, 4, cn) {
		g, from, to := param(f, 0), pureOf("String", param(f, 2)), pureOf("String", param(f, 3))
		for _, o := range c.paths(f) {
			if !c.returned(o, 2, cn) {
				continue
			}
			sc := pathScope(o)
			c.unchanged(o, "queries change nothing", cn)
			hf, ht := r.has(o, g, from), r.has(o, g, to)
			edge := func(t *Term) bool {
				a, ok := r.gread(t, g, "WeightedEdge", "Edge")
				return ok && r.idOf(a[0], g, from) && r.idOf(a[1], g, to)
			}
			ex := eqFact(o.flist, is(tNil), edge)
			switch {
			case hf == absent || ht == absent:
				c.require(c.errIsA(o, o.ret[1], "pkg/graph", "ErrNodeNotFound") && nilErr(o.ret[0], o), "an edge of a missing node is an error", cn, sc.pos(), "returns %s, %s", o.ret[0], o.ret[1])
			case ex == present:
				c.require(c.errIsA(o, o.ret[1], "pkg/graph", "ErrEdgeNotExist") && nilErr(o.ret[0], o), "a missing edge is an error", cn, sc.pos(), "returns %s, %s", o.ret[0], o.ret[1])
			case ex == absent:
				c.require(nilErr(o.ret[1], o) && edge(o.ret[0]), "the edge between the nodes is returned", cn, sc.pos(), "returns %s, %s", o.ret[0], o.ret[1])
			default:
				c.fail("Edge looks up nodes and edge", cn, sc.pos(), "the result is not decided on the path where %s", o.describe())
			}
		}
	}
	f = c.declared(r.typ, "Unlink")
	cn = "WG.Unlink"
	if c.opParams(f, 5, cn) {
		g, from, to := param(f, 0), pureOf("String", param(f, 2)), pureOf("String", param(f, 3))
		for _, o := range c.paths(f) {
			if !c.returned(o, 1, cn) {
				continue
			}
			sc := pathScope(o)
			c.require(nilErr(o.ret[0], o), "unlink succeeds", cn, sc.pos(), "returns %s on the path where %s", o.ret[0], o.describe())
			hf, ht := r.has(o, g, from), r.has(o, g, to)
			edge := func(t *Term) bool {
				a, ok := r.gread(t, g, "WeightedEdge", "Edge")
				return ok && r.idOf(a[0], g, from) && r.idOf(a[1], g, to)
			}
			if hf == absent || ht == absent || eqFact(o.flist, is(tNil), edge) == present {
				c.unchanged(o, "unlinking what is not linked changes nothing", cn)
				continue
			}
			n := 0
			for _, x := range c.gchanges(o) {
				if x.Kind == EvGWrite && x.Name == "RemoveEdge" && r.isBuilder(x.Args[0], g) && r.idOf(x.Args[1], g, from) && r.idOf(x.Args[2], g, to) {
					n++
					continue
				}
				c.fail("unlink removes only the edge", cn, x.Pos, "%s", x)
			}
			c.require(n == 1 && hf == present && ht == present, "unlink removes the edge", cn, sc.pos(), "the edge from the first to the second node is not removed on the path where %s", o.describe())
		}
	}
}

// attrsOption: the attributes a are the option Attrs of opts, or new ones when there is none.
func (c *Ctx) attrsOption(o *State, a, opts *Term) bool {
	if a == nil {
		return false
	}
	if x, ini, ok := optionField(a, "Attrs"); ok && same(x, opts) && isZeroOptions(ini) {
		return true
	}
	return c.newAttrs(o, a) && (noOptions(o, opts) || eqFact(o.flist, is(tNil), func(t *Term) bool {
		x, _, ok := optionField(t, "Attrs")
		return ok && same(x, opts)
	}) == present)
}

// newAttrs tells whether a is an empty attributes object made on the path.
func (c *Ctx) newAttrs(o *State, a *Term) bool {
	a = strip(a)
	if a.Op != "alloc" {
		return false
	}
	v := o.cells[a]
	if v == nil || strip(v).Op != "makemap" {
		return false
	}
	for _, e := range o.events {
		if e.Kind == EvMapSet && strip(e.Args[0]) == strip(v) {
			return false
		}
	}
	return true
}

func (c *Ctx) removeCheck(r *graphRoles) {
	f := c.declared(r.typ, "RemoveNode")
	cn := "WG.RemoveNode"
	if c.opParams(f, 4, cn) {
		g, key := param(f, 0), pureOf("String", param(f, 2))
		for _, o := range c.paths(f) {
			if !c.returned(o, 1, cn) {
				continue
			}
			sc := pathScope(o)
			c.indexed(r, o, g, cn)
			switch r.has(o, g, key) {
			case absent:
				c.require(nilErr(o.ret[0], o), "removing a missing node is no error", cn, sc.pos(), "returns %s", o.ret[0])
				c.unchanged(o, "removing a missing node changes nothing", cn)
			case present:
				if c.notMemNode(r, o, g, key) {
					c.unchanged(o, "a rejected node changes nothing", cn)
					continue // never filed by AddNode
				}
				c.require(nilErr(o.ret[0], o), "removing a node succeeds", cn, sc.pos(), "returns %s", o.ret[0])
				rm, del := 0, 0
				for _, x := range c.gchanges(o) {
					switch {
					case x.Kind == EvGWrite && x.Name == "RemoveNode" && r.isBuilder(x.Args[0], g) && r.idOf(x.Args[1], g, key):
						rm++
					case x.Kind == EvMapDel && r.isNodes(x.Args[0], g) && same(x.Args[1], key):
						del++
					default:
						c.fail("removing a node changes nothing else", cn, x.Pos, "%s", x)
					}
				}
				c.require(rm == 1 && del == 1, "a removed node is gone", cn, sc.pos(), "the node stays in the graph or in the index on the path where %s", o.describe())
			default:
				c.fail("RemoveNode looks up the node", cn, sc.pos(), "it is not known whether the node exists on the path where %s", o.describe())
			}
		}
	}
	// no other operation touches the index or the gonum graph inconsistently
	for _, m := range c.exportedMethods(r.typ) {
		for _, o := range c.paths(m) {
			if m.Name() != "RemoveNode" {
				c.indexed(r, o, param(m, 0), "WG."+m.Name())
			}
			if m.Name() != "AddNode" { // the edges AddNode moves are decided by C17
				c.edgesJoinNodes(r, o, param(m, 0), "WG."+m.Name())
			}
		}
	}
}

// edgesJoinNodes: an edge is added between nodes of the graph only (gonum adds missing ones silently).
func (c *Ctx) edgesJoinNodes(r *graphRoles, o *State, g *Term, cn string) {
	each(o.events, func(e *Event, in []*Seg) {
		if e.Kind != EvGWrite || e.Name != "SetWeightedEdge" || !r.isBuilder(e.Args[0], g) {
			return
		}
		cells := c.structCells(o, strip(e.Args[1]))
		for _, end := range []string{"From", "To"} {
			n := cells[c.fieldOfAccessor(r.edge, end)]
			ok := false
			if n != nil {
				n = strip(n)
				ok = n.Op == "lookup" && r.isNodes(n.Args[0], g) && r.has(o, g, n.Args[1]) == present
			}
			c.require(ok, "edges join nodes of the graph", cn, e.Pos, "an edge is added whose %s node is %v, which is not known to be in the graph", end, n)
		}
	})
}

func (c *Ctx) notMemNode(r *graphRoles, o *State, g, key *Term) bool {
	for _, f := range o.flist {
		if f.T.Op == "istype" && !f.V && r.nodeOf(f.T.Args[0], g, key) {
			return true
		}
	}
	return false
}

// nodesOf strips the conversion of a gonum iterator to a slice.
func nodesOf(t *Term) *Term {
	t = strip(t)
	if t.Op == "ext" && (strings.HasSuffix(t.Str, "graph.NodesOf") || strings.HasSuffix(t.Str, "graph.WeightedEdgesOf") || strings.HasSuffix(t.Str, "graph.EdgesOf")) {
		return strip(t.Args[0])
	}
	return t
}

// partsSource returns the sequence the parts are exactly the elements of.
func partsSource(ps []Part) *Term {
	if len(ps) != 1 {
		return nil
	}
	var src *Term
	if ps[0].Kind == "each" {
		src = ps[0].Loop.Over
	} else if ps[0].Kind == "all" {
		src = ps[0].Val
	}
	if src == nil || !elementsOf(ps, src) {
		return nil
	}
	return strip(src)
}

func (c *Ctx) queryCheck(r *graphRoles) {
	f := c.declared(r.typ, "Node")
	cn := "WG.Node"
	if c.opParams(f, 3, cn) {
		g, key := param(f, 0), pureOf("String", param(f, 2))
		for _, o := range c.paths(f) {
			if !c.returned(o, 2, cn) {
				continue
			}
			sc := pathScope(o)
			c.unchanged(o, "queries change nothing", cn)
			switch r.has(o, g, key) {
			case absent:
				c.require(c.errIsA(o, o.ret[1], "pkg/graph", "ErrNodeNotFound") && nilErr(o.ret[0], o), "a missing node is an error", cn, sc.pos(), "returns %s, %s", o.ret[0], o.ret[1])
			case present:
				c.require(nilErr(o.ret[1], o) && r.nodeOf(o.ret[0], g, key), "the node with the UID is returned", cn, sc.pos(), "returns %s, %s", o.ret[0], o.ret[1])
			default:
				c.fail("Node looks up the node", cn, sc.pos(), "it is not known whether the node exists on the path where %s", o.describe())
			}
		}
	}
	for _, q := range []struct {
		name string
		n    int
		read []string
	}{{"Nodes", 2, []string{"Nodes"}}, {"Edges", 2, []string{"WeightedEdges", "Edges"}}, {"From", 3, []string{"From"}}} {
		f := c.declared(r.typ, q.name)
		cn := "WG." + q.name
		if !c.opParams(f, q.n, cn) {
			continue
		}
		g := param(f, 0)
		var key *Term
		if q.name == "From" {
			key = pureOf("String", param(f, 2))
		}
		for _, o := range c.paths(f) {
			if !c.returned(o, 2, cn) {
				continue
			}
			sc := pathScope(o)
			c.unchanged(o, "queries change nothing", cn)
			c.require(nilErr(o.ret[1], o), "queries succeed", cn, sc.pos(), "returns %s on the path where %s", o.ret[1], o.describe())
			ps, ok := sc.parts(o.ret[0])
			if key != nil && r.has(o, g, key) == absent {
				c.require(ok && len(ps) == 0, "a missing node reaches no nodes", cn, sc.pos(), "returns %s", o.ret[0])
				continue
			}
			good := false
			if src := partsSource(ps); ok && src != nil {
				a, isRead := r.gread(nodesOf(src), g, q.read...)
				good = isRead && (key == nil || r.idOf(a[0], g, key)) || q.name == "Nodes" && r.isNodes(src, g)
				if ps[0].Kind == "each" && !sc.loopDone(ps[0].Loop) {
					good = false
				}
			}
			c.require(good, "all and only the members of the graph are returned", cn, sc.pos(), "%s is not exactly %s of the graph on the path where %s", o.ret[0], q.name, o.describe())
		}
	}
}

// optsValue applies the option functions in the sequence t to the zero options
// and returns the fields they set.
func (c *Ctx) optsValue(o *State, t *Term) (map[string]*Term, bool) {
	t = strip(t)
	r := map[string]*Term{}
	if t == tNil {
		return r, true
	}
	if t.Op != "seq" {
		return nil, false
	}
	for i, a := range t.Args {
		if v, ok := o.cells[mk("iaddr", "", t, intT(int64(i)))]; ok {
			a = v
		}
		a = strip(a)
		f, ok := a.Aux.(*ssa.Function)
		if !ok || a.Op != "closure" && a.Op != "func" {
			return nil, false
		}
		var free []*Term
		if a.Op == "closure" {
			free = a.Args
		}
		s := o.clone()
		s.events, s.flist = nil, append([]Fact(nil), o.flist...)
		s.status, s.frames = stRun, nil
		n := len(s.events)
		outs := c.m.Run(f, []*Term{paramTerm(f, 0)}, free, s)
		if len(outs) != 1 {
			return nil, false
		}
		for _, e := range outs[0].events[n:] {
			if e.Kind == EvStore && e.Args[0].Op == "faddr" {
				r[e.Args[0].Str[strings.LastIndex(e.Args[0].Str, ".")+1:]] = e.Args[1]
			}
		}
	}
	return r, true
}

func (c *Ctx) subGraphCheck(r *graphRoles) {
	f := c.declared(r.typ, "SubGraph")
	cn := "WG.SubGraph"
	if !c.opParams(f, 5, cn) {
		return
	}
	add, link := c.declared(r.typ, "AddNode"), c.declared(r.typ, "Link")
	ctors := map[string]bool{}
	for _, fn := range c.funcs {
		if fn.Pkg == r.typ2pkg(c) && fn.Signature.Recv() == nil && strings.HasPrefix(fn.Name(), "New") && fn.Signature.Results().Len() == 2 {
			if n := namedOf(fn.Signature.Results().At(0).Type()); n != nil && strings.HasPrefix(n.Obj().Name(), "W") {
				ctors[fn.String()] = true
			}
		}
	}
	var cp *ssa.Function
	for _, fn := range c.funcs {
		if strings.HasSuffix(fn.String(), "pkg/attrs/memory.NewCopyFrom") {
			cp = fn
		}
	}
	if !c.need(cp, "attrs/memory.NewCopyFrom") {
		return
	}
	c.m.opaque = func(fn *ssa.Function) bool {
		return fn == add || fn == link || fn == cp || ctors[fn.String()]
	}
	defer func() { c.m.opaque = nil }()
	g, key, depth, opts := param(f, 0), pureOf("String", param(f, 2)), param(f, 3), param(f, 4)
	for _, o := range c.paths(f) {
		if !c.returned(o, 2, cn) {
			continue
		}
		sc := pathScope(o)
		for _, e := range c.gchanges(o) {
			c.fail("SubGraph leaves the graph alone", cn, e.Pos, "%s", e)
		}
		switch r.has(o, g, key) {
		case absent:
			c.require(c.errIsA(o, o.ret[1], "pkg/graph", "ErrNodeNotFound") && nilErr(o.ret[0], o), "the subgraph of a missing node is an error", cn, sc.pos(), "returns %s, %s", o.ret[0], o.ret[1])
			continue
		case unknown:
			// failing early is fine
			if !nilErr(o.ret[1], o) && c.failedCall(o, o.ret[1]) {
				continue
			}
			c.fail("SubGraph looks up the root", cn, sc.pos(), "it is not known whether the root exists on the path where %s", o.describe())
			continue
		}
		if !nilErr(o.ret[1], o) {
			// the cause must be a call which failed
			c.require(c.failedCall(o, o.ret[1]) && nilErr(o.ret[0], o), "SubGraph succeeds unless copying fails", cn, sc.pos(), "returns %s, %s on the path where %s", o.ret[0], o.ret[1], o.describe())
			continue
		}
		var made *Event
		for _, e := range o.events {
			if e.Kind == EvCall && ctors[e.Name] {
				c.require(made == nil, "a new graph is returned", cn, e.Pos, "two graphs are made")
				made = e
			}
		}
		if !c.require(made != nil && strip(o.ret[0]) == strip(made.Res[0]), "a new graph is returned", cn, sc.pos(), "returns %s", o.ret[0]) {
			continue
		}
		c.require(len(made.Args) > 0 && same(made.Args[len(made.Args)-1], opts), "the options are those of the new graph", cn, made.Pos, "the graph is made with %v", made.Args)
		sg := strip(made.Res[0])
		isSG := func(t *Term) bool {
			t = strip(t)
			for i := 0; i < 3; i++ {
				if t == sg {
					return true
				}
				b, _ := fieldRead(t)
				if b == nil {
					return false
				}
				t = strip(b)
			}
			return false
		}
		var walk *Event
		for _, e := range o.events {
			if e.Kind == EvGRead && e.Name == "Walk" && r.isBuilder(e.Args[0], g) {
				c.require(walk == nil, "the walk starts at the root", cn, e.Pos, "the graph is walked twice")
				walk = e
			}
		}
		if !c.require(walk != nil && walk.Loop != nil, "the neighbourhood is found by a walk", cn, sc.pos(), "there is no walk of the graph") {
			continue
		}
		w := walk.Loop
		c.require(w.Kind == "bfs", "the walk is breadth first", cn, walk.Pos, "depth is the distance from the root only in a breadth first walk")
		c.require(r.nodeOf(walk.Args[1], g, key), "the walk starts at the root", cn, walk.Pos, "the walk starts at %s", walk.Args[1])
		c.require(walk.Args[2] == tNil || o.isNil(walk.Args[2]), "the walk follows every edge", cn, walk.Pos, "edges are filtered")
		c.untilSpec(w, depth, cn)
		// visits
		added := func(evs []*Event) []*Event {
			var calls []*Event
			for _, e := range evs {
				if e.Kind == EvCall && e.Aux == add {
					calls = append(calls, e)
				}
			}
			return calls
		}
		now := false // the visit itself adds the node
		for _, s := range w.Segs {
			now = now || len(added(s.Events)) > 0
		}
		var members *Term
		for _, s := range w.Segs {
			if now {
				calls := added(s.Events)
				ok := len(calls) == 1 && isSG(calls[0].Args[0]) && strip(calls[0].Args[2]) == w.Iter
				if !c.require(ok, "every visited node is added", cn, walk.Pos, "a visited node is not added exactly once on the path where %s", s.St.describe()) {
					continue
				}
				err := strip(calls[0].Res[0])
				if s.St.notNil(err) {
					kept := false
					for cell, v := range s.St.cells {
						if cell.Op == "alloc" && (strip(v) == err || errorCell(cell) && s.St.notNil(v)) {
							for lv, val := range foldLoopvars(o, cell) {
								_ = val
								if o.isNil(lv) {
									kept = true
								}
							}
						}
					}
					c.require(kept, "a failure to add is reported", cn, walk.Pos, "the error of adding a node is lost")
					continue
				}
			}
			found := false
			for _, e := range s.Events {
				if e.Kind == EvMapSet && strip(e.Args[2]) == w.Iter && same(e.Args[1], pureOf("ID", w.Iter)) {
					members, found = strip(e.Args[0]), true
				}
			}
			c.require(found, "every visited node is remembered", cn, walk.Pos, "a visited node is not remembered for linking on the path where %s", s.St.describe())
		}
		if members == nil {
			continue
		}
		each(o.events, func(e *Event, in []*Seg) {
			switch {
			case (e.Kind == EvMapDel || e.Kind == EvMapSet) && strip(e.Args[0]) == members:
				visit := false
				for _, g := range in {
					for _, s := range w.Segs {
						visit = visit || g == s
					}
				}
				c.require(visit && e.Kind == EvMapSet, "every visited node is remembered", cn, e.Pos, "%s changes which nodes are linked", e)
			}
		})
		if !now {
			// the remembered nodes are added afterwards
			var later *Loop
			for _, l := range sc.loops() {
				if l.Kind != "map" || strip(l.Over) != members {
					continue
				}
				for _, s := range l.Segs {
					if len(added(s.Events)) > 0 {
						later = l
					}
				}
			}
			if !c.require(later != nil && sc.loopDone(later), "every visited node is added", cn, walk.Pos, "the visited nodes are not added to the new graph") {
				continue
			}
			for _, s := range later.Segs {
				calls := added(s.Events)
				ok := len(calls) == 1 && isSG(calls[0].Args[0]) && loopElem(later, calls[0].Args[2])
				if c.require(ok, "every visited node is added", cn, later.Pos, "a visited node is not added exactly once on the path where %s", s.St.describe()) {
					err := strip(calls[0].Res[0])
					c.require(s.St.isNil(err), "a failure to add is reported", cn, later.Pos, "the loop goes on after a failure to add a node")
				}
			}
			linked := false
			for _, e := range o.events {
				if e.Kind == EvLoopStart && e.Loop == later {
					c.require(!linked, "nodes are added before they are linked", cn, later.Pos, "edges are made before the nodes are added")
				}
				linked = linked || e.Kind == EvLoopStart && e.Loop.Kind == "map" && strip(e.Loop.Over) == members && e.Loop != later
			}
		}
		if members == nil {
			continue
		}
		// links
		var outer *Loop
		for _, l := range sc.loops() {
			if l.Kind == "map" && strip(l.Over) == members {
				outer = l // the last one
			}
		}
		if !c.require(outer != nil, "edges between members are linked", cn, sc.pos(), "there is no loop over the visited nodes") {
			continue
		}
		c.require(sc.loopDone(outer), "edges between members are linked", cn, outer.Pos, "not all visited nodes are processed")
		fromID := func(t *Term) bool {
			if loopKey(outer, t) {
				return true
			}
			x, ok := isPure(t, "ID")
			return ok && loopElem(outer, x)
		}
		for _, s := range outer.Segs {
			var inner *Loop
			gs := segScope(s)
			for _, e := range s.Events {
				if e.Kind == EvLoopStart {
					a, ok := r.gread(nodesOf(e.Loop.Over2()), g, "From")
					if ok && fromID(a[0]) {
						inner = e.Loop
					}
				}
			}
			if !c.require(inner != nil, "edges between members are linked", cn, outer.Pos, "there is no loop over the neighbours of a visited node on the path where %s", s.St.describe()) {
				continue
			}
			done := false
			for _, e := range gs.Events {
				if e.Kind == EvLoopEnd && e.Loop == inner {
					done = e.Normal && inner.Full
				}
			}
			c.require(done, "edges between members are linked", cn, inner.Pos, "not all neighbours are processed")
			peer := func(t *Term) bool { return loopElem(inner, t) }
			peerID := func(t *Term) bool {
				x, ok := isPure(keyOfElem(t, o.events), "ID")
				return ok && peer(x)
			}
			for _, is := range inner.Segs {
				st := is.St
				var calls []*Event
				for _, e := range is.Events {
					if e.Kind == EvCall && e.Aux == link {
						calls = append(calls, e)
					}
				}
				if len(calls) == 0 {
					out := false
					for _, fc := range st.flist {
						if fc.T.Op == "in" && !fc.V && strip(fc.T.Args[0]) == members && peerID(fc.T.Args[1]) {
							out = true
						}
					}
					c.require(out, "edges between members are linked", cn, inner.Pos, "an edge is skipped on the path where %s", st.describe())
					continue
				}
				e := calls[0]
				member := func(t *Term) bool {
					x := strip(t)
					return x.Op == "lookup" && strip(x.Args[0]) == members && peerID(x.Args[1])
				}
				fu, ok1 := isPure(e.Args[2], "UID")
				tu, ok2 := isPure(e.Args[3], "UID")
				ends := len(calls) == 1 && isSG(e.Args[0]) && ok1 && ok2 && loopElem(outer, fu) && (peer(tu) || member(tu))
				c.require(ends, "the edge of the subgraph joins the same nodes", cn, e.Pos, "links %s with %s", e.Args[2], e.Args[3])
				inM := false
				for _, fc := range st.flist {
					if fc.T.Op == "in" && fc.V && strip(fc.T.Args[0]) == members && peerID(fc.T.Args[1]) {
						inM = true
					}
				}
				c.require(inM, "only members are linked", cn, e.Pos, "a node is linked without knowing that it has been visited on the path where %s", st.describe())
				ov, ok := c.optsValue(st, e.Args[4])
				src := func(t *Term, acc string) bool {
					x, ok := isPure(t, acc)
					if !ok {
						return false
					}
					a, ok := r.gread(x, g, "WeightedEdge", "Edge")
					return ok && fromID(a[0]) && peerID(a[1])
				}
				c.require(ok && ov["Weight"] != nil && src(ov["Weight"], "Weight"), "the edge of the subgraph has the same weight", cn, e.Pos, "the weight is %v", ov["Weight"])
				at := ov["Attrs"]
				okA := false
				if ok && at != nil {
					x := strip(at)
					if x.Op == "res" && x.Args[0].Op == "call" && strings.HasPrefix(x.Args[0].Str, cp.String()+"@") {
						okA = src(x.Args[0].Args[1], "Attrs")
					}
				}
				c.require(okA, "the edge of the subgraph has a copy of the attributes", cn, e.Pos, "the attributes are %v", at)
			}
		}
	}
}

// Over2 returns what the loop runs over, nil terms excluded.
func (l *Loop) Over2() *Term {
	if l.Over == nil {
		return tNil
	}
	return l.Over
}

func (r *graphRoles) typ2pkg(c *Ctx) *ssa.Package { return c.ssa.Package(r.typ.Obj().Pkg()) }

// foldLoopvars lists the names a cell has after loops.
func foldLoopvars(o *State, cell *Term) map[*Term]*Term {
	r := map[*Term]*Term{}
	for lv, v := range foldInit {
		if lv.Op == "loopvar" && lv.Args[0] == cell {
			r[lv] = v
		}
	}
	return r
}

// failedCall tells whether err is or wraps the error of a call which is known to have failed.
func (c *Ctx) failedCall(o *State, err *Term) bool {
	bad := false
	termHas(strip(err), func(t *Term) bool {
		x := strip(t)
		if isErrorType(x.Type) && (x.Op == "res" || x.Op == "loopvar") && o.notNil(x) {
			bad = true
		}
		return false
	})
	return bad
}

// untilSpec: the walk stops at the first node at the given depth.
func (c *Ctx) untilSpec(w *Loop, depth *Term, cn string) {
	if !c.require(len(w.Until) > 0, "the walk ends at the depth", cn, w.Pos, "the walk does not look at the depth") {
		return
	}
	for _, want := range []bool{true, false} {
		for _, u := range w.Until {
			s := newState(c.m)
			if want {
				s.assume(mkEq(u.Depth, depth), true, "")
			} else {
				s.assume(mkLt(u.Depth, depth), true, "")
			}
			feasible := true
			for _, f := range u.Facts {
				if !s.assume(f.T, f.V, "") {
					feasible = false
				}
			}
			if !feasible {
				continue
			}
			v, ok := s.truth(u.Ret)
			c.require(ok && v == want, "the walk ends at the depth", cn, w.Pos, "the walk stops=%s at the depth (%v)", u.Ret, want)
		}
	}
}

func init() {
	register(&Check{
		ID: "C17", Title: "graph: nodes are added and replaced by UID", Min: 20,
		Rules: "every path of WG.AddNode and WG.NewNode is matched against the permitted writes to the node index and the gonum graph; see DESIGN.md",
		Run: func(c *Ctx) {
			c.ownStateIn("pkg/graph/memory")
			c.useMembers()
			if r := c.graphRoles(); r != nil {
				c.addNodeCheck(r)
				c.newNodeCheck(r)
			}
		},
	})
	register(&Check{
		ID: "C18", Title: "graph: links", Min: 15,
		Rules: "every path of WG.Link, WG.Edge and WG.Unlink is matched against the permitted results and writes to the gonum graph; see DESIGN.md",
		Run: func(c *Ctx) {
			c.useMembers()
			if r := c.graphRoles(); r != nil {
				c.linkCheck(r)
			}
		},
	})
	register(&Check{
		ID: "C19", Title: "graph: subgraphs", Min: 15,
		Rules: "every path of WG.SubGraph is matched against the shape of a bounded breadth first copy; see DESIGN.md",
		Run: func(c *Ctx) {
			c.useMembers()
			if r := c.graphRoles(); r != nil {
				c.subGraphCheck(r)
			}
		},
	})
	register(&Check{
		ID: "C20", Title: "graph: removing nodes", Min: 5,
		Rules: "every path of WG.RemoveNode is matched against the permitted writes; every exported method keeps node index and gonum graph in step; see DESIGN.md",
		Run: func(c *Ctx) {
			c.completeIn("pkg/graph/memory")
			c.useMembers()
			if r := c.graphRoles(); r != nil {
				c.removeCheck(r)
				c.borrow(func(x *Ctx) { x.addNodeCheck(r) }, "upsert replaces the node", "upsert moves the edges to the new node")
			}
		},
	})
	register(&Check{
		ID: "C21", Title: "graph: queries", Min: 10,
		Rules: "every path of WG.Node, Nodes, Edges and From returns exactly the members of the graph; see DESIGN.md",
		Run: func(c *Ctx) {
			c.useMembers()
			if r := c.graphRoles(); r != nil {
				c.queryCheck(r)
			}
		},
	})
}
