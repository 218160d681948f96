package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The store hands every operation to its graph: these rules decide which
// graph operation is called with what, and what becomes of its result.

type storeRoles struct {
	typ *types.Named
}

func (c *Ctx) storeRoles() *storeRoles {
	n := c.named("pkg/store/memory", "Memory")
	if !c.require(n != nil, "anchor", "store/memory.Memory", "", "the in-memory store does not exist any more") {
		return nil
	}
	return &storeRoles{typ: n}
}

// isGraph tells whether t is the graph of the store m.
func (r *storeRoles) isGraph(t, m *Term) bool {
	b, k := fieldRead(t)
	if b == nil || k == "" || b != m && strip(b) != m {
		return false
	}
	tt := strip(t).Type
	return tt == nil || hasMethod(tt, "AddNode") || hasMethod(tt, "Node")
}

func hasMethod(t types.Type, name string) bool {
	if t == nil {
		return false
	}
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

var graphWrites = []string{"NewNode", "AddNode", "RemoveNode", "Link", "Unlink", "SetWeightedEdge", "RemoveEdge"}

// item is one operation of the store: a whole path or an iteration of a bulk operation.
type item struct {
	sc   *Scope
	evs  []*Event // the events of the operation
	m    *Term
	opts *Term
	err  *Term // what the operation reports
	res  *Term // result of get
	done bool  // an iteration of a bulk operation which goes on to the next item
	cn   string
}

// calls returns the calls which change the graph.
func (c *Ctx) storeCalls(r *storeRoles, it *item) []*Event {
	var w []*Event
	each(it.evs, func(e *Event, in []*Seg) {
		switch e.Kind {
		case EvInvoke:
			if len(e.Args) > 0 && r.isGraph(e.Args[0], it.m) && contains(graphWrites, e.Name) {
				if len(in) > 0 {
					c.fail("an operation is done once", it.cn, e.Pos, "%s is called in a loop", e.Name)
				}
				w = append(w, e)
			} else if contains(graphWrites, e.Name) {
				c.fail("the store works on its graph", it.cn, e.Pos, "%s is called on %s", e.Name, e.Args[0])
			}
		case EvStore, EvMapSet, EvMapDel, EvGWrite:
			if !e.Fresh {
				c.fail("an operation changes only the graph", it.cn, e.Pos, "%s", e)
			}
		case EvGo, EvSend, EvClose:
			c.fail("an operation changes only the graph", it.cn, e.Pos, "%s", e)
		}
	})
	return w
}

// errState tells what is known about the error e: nil, not nil, and whether it is the named error of package graph.
func (c *Ctx) graphErr(o *State, e *Term, name string) (isNil, notNil bool, is tri) {
	sp := c.pkg("pkg/graph")
	is = triUnknown
	if sp != nil {
		if g, ok := sp.Members[name].(*ssa.Global); ok {
			t := mk("gval", g.RelString(nil))
			if v, known := o.truth(o.m.errIs(o, strip(e), t)); known && v {
				is = triYes
			} else if known {
				is = triNo
			} else if v, known := o.truth(mkEq(strip(e), t)); known && v {
				is = triYes
			}
		}
	}
	return o.isNil(strip(e)), o.notNil(strip(e)), is
}

type tri int

const (
	triUnknown tri = iota
	triYes
	triNo
)

// reports: the operation reports the error e of the graph, from translated to the error to of package store.
func (c *Ctx) reports(it *item, e *Term, from, to string, rule string) {
	o := it.sc.St
	isNil, notNil, is := c.graphErr(o, e, from)
	ok := false
	if is == triYes {
		notNil = true
	}
	switch {
	case isNil:
		ok = nilErr(it.err, o)
	case is == triYes:
		ok = to != "" && c.errIsA(o, it.err, "pkg/store", to)
		if to == "" {
			ok = same(it.err, e) || c.wraps(o, it.err, e)
		}
	case same(it.err, e):
		ok = to == "" || is == triNo
	case notNil:
		ok = (is == triNo || to == "") && c.wraps(o, it.err, e)
	}
	// one translation for all operations
	for gn, sn := range map[string]string{"ErrDuplicateNode": "ErrAlreadyExists", "ErrNodeNotFound": "ErrEntityNotFound"} {
		if _, _, is := c.graphErr(o, e, gn); is == triYes && gn != from && c.errIsA(o, it.err, "pkg/store", sn) {
			ok = true
		}
	}
	if it.done && !isNil {
		ok = false
	}
	c.require(ok, rule, it.cn, it.sc.pos(), "reports %s for the error %s of the graph on the path where %s", it.err, e, o.describe())
}

// lookups: what the operation has found out about the presence of a UID by asking the graph.
func (c *Ctx) storeKnows(r *storeRoles, it *item, uid func(*Term) bool) int {
	k := unknown
	each(it.evs, func(e *Event, in []*Seg) {
		if e.Kind != EvInvoke || e.Name != "Node" || len(e.Args) < 3 || !r.isGraph(e.Args[0], it.m) || !uid(strip(e.Args[2])) || len(e.Res) != 2 {
			return
		}
		isNil, _, is := c.graphErr(it.sc.St, e.Res[1], "ErrNodeNotFound")
		if isNil {
			k = present
		} else if is == triYes {
			k = absent
		}
	})
	return k
}

func sameUID(x *Term) func(*Term) bool {
	return func(t *Term) bool { return same(t, x) || same(pureOf("String", t), pureOf("String", x)) }
}

func (c *Ctx) storeAdd(r *storeRoles, it *item, e *Term) {
	o := it.sc.St
	w := c.storeCalls(r, it)
	ups, upsKnown := it.sc.upsert(it.opts)
	if len(w) == 0 {
		ok := upsKnown && !ups && c.storeKnows(r, it, sameUID(pureOf("UID", e))) == present && c.errIsA(o, it.err, "pkg/store", "ErrAlreadyExists")
		c.require(ok && !it.done, "add stores the entity", it.cn, it.sc.pos(), "nothing is added and %s is reported on the path where %s", it.err, o.describe())
		return
	}
	n := w[0]
	if !c.require(n.Name == "NewNode" && len(n.Args) >= 3 && len(n.Res) == 2, "add makes a node for the entity", it.cn, n.Pos, "%s", n) {
		return
	}
	c.require(same(n.Args[2], e), "add makes a node for the entity", it.cn, n.Pos, "the node is made for %s", n.Args[2])
	var nopts map[string]*Term
	ok := true
	if len(n.Args) > 3 {
		nopts, ok = c.optsValue(o, n.Args[3])
	}
	c.require(ok, "the stored entity has the given attributes", it.cn, n.Pos, "the options of the node are not known: %v", n.Args[len(n.Args)-1])
	a := nopts["Attrs"]
	given := eqFact(o.flist, is(tNil), func(t *Term) bool {
		x, ini, ok := optionField(t, "Attrs")
		return ok && same(x, it.opts) && isZeroOptions(ini)
	})
	own := a != nil && same(a, pureOf("Attrs", e))
	opt := false
	if a != nil {
		x, ini, ok := optionField(a, "Attrs")
		opt = ok && same(x, it.opts) && isZeroOptions(ini)
	}
	if o.isNil(it.opts) || o.m.lenOf(o, it.opts) == intT(0) {
		given = present
	}
	c.require(given == absent && opt || given == present && own, "the stored entity has the given attributes", it.cn, n.Pos,
		"the node's attributes are %v, expected those of the options, else those of the entity, on the path where %s", a, o.describe())
	for k := range nopts {
		c.require(k == "Attrs", "the node has no other options", it.cn, n.Pos, "option %s is set", k)
	}
	if o.notNil(strip(n.Res[1])) || len(w) == 1 {
		c.require(len(w) == 1 && o.notNil(strip(n.Res[1])), "add stores the entity", it.cn, it.sc.pos(), "the node is not added on the path where %s", o.describe())
		c.reports(it, n.Res[1], "", "", "add reports errors")
		return
	}
	ad := w[1]
	if !c.require(len(w) == 2 && ad.Name == "AddNode" && len(ad.Args) >= 3 && len(ad.Res) == 1, "add stores the entity", it.cn, ad.Pos, "%s", ad) {
		return
	}
	c.require(same(ad.Args[2], n.Res[0]), "add stores the entity", it.cn, ad.Pos, "%s is added, not the node of the entity", ad.Args[2])
	var aopts map[string]*Term
	ok = true
	if len(ad.Args) > 3 {
		aopts, ok = c.optsValue(o, ad.Args[3])
	}
	set := false
	if v := aopts["Upsert"]; v != nil {
		if b, isB := o.truth(v); isB {
			set = b
		} else {
			x, ini, isF := optionField(v, "Upsert")
			ok = ok && isF && same(x, it.opts) && isZeroOptions(ini)
			set, upsKnown = ups, true
		}
	}
	for k := range aopts {
		ok = ok && k == "Upsert"
	}
	c.require(ok && upsKnown && set == ups, "an entity is replaced only on upsert", it.cn, ad.Pos, "the node is added with options %v while upsert is %v (known %v)", aopts, ups, upsKnown)
	if set && same(it.err, ad.Res[0]) && !it.done {
		return // there are no duplicates on upsert
	}
	to := "ErrAlreadyExists"
	if set {
		if _, _, is := c.graphErr(o, ad.Res[0], "ErrDuplicateNode"); is != triYes {
			to = ""
		}
	}
	c.reports(it, ad.Res[0], "ErrDuplicateNode", to, "add reports errors")
}

// one returns the only call, which must be name with the given UIDs.
func (c *Ctx) one(it *item, w []*Event, name string, rule string, args ...*Term) *Event {
	if !c.require(len(w) == 1 && w[0].Name == name && len(w[0].Args) >= 2+len(args), rule, it.cn, it.sc.pos(), "the graph is asked for %v, expected one %s on the path where %s", names(w), name, it.sc.St.describe()) {
		return nil
	}
	ok := true
	for i, a := range args {
		ok = ok && sameUID(a)(strip(w[0].Args[2+i]))
	}
	if !c.require(ok, rule, it.cn, w[0].Pos, "%s", w[0]) {
		return nil
	}
	return w[0]
}

func names(w []*Event) []string {
	var r []string
	for _, e := range w {
		r = append(r, e.Name)
	}
	return r
}

// noOpts: the call is made without options.
func (c *Ctx) noOpts(it *item, e *Event, at int) {
	if len(e.Args) <= at {
		return
	}
	v, ok := c.optsValue(it.sc.St, e.Args[at])
	c.require(ok && len(v) == 0, "no options are made up", it.cn, e.Pos, "%s is called with options %v", e.Name, e.Args[at])
}

func (c *Ctx) storeGet(r *storeRoles, it *item, uid *Term) {
	o := it.sc.St
	w := c.storeCalls(r, it)
	c.require(len(w) == 0, "get changes nothing", it.cn, it.sc.pos(), "%v", names(w))
	var n *Event
	each(it.evs, func(e *Event, in []*Seg) {
		if e.Kind == EvInvoke && e.Name == "Node" && len(e.Args) >= 3 && len(e.Res) == 2 && r.isGraph(e.Args[0], it.m) && sameUID(uid)(strip(e.Args[2])) {
			n = e
		}
	})
	if !c.require(n != nil, "get returns the stored entity", it.cn, it.sc.pos(), "the graph is not asked for the node of the UID on the path where %s", o.describe()) {
		return
	}
	if o.isNil(n.Res[1]) && c.refused(o, n.Res[0]) {
		c.require(!it.done && o.notNil(it.err) && !c.errIsA(o, it.err, "pkg/store", "ErrEntityNotFound"), "get reports errors", it.cn, it.sc.pos(), "reports %s for a node which is not an entity", it.err)
		return
	}
	c.reports(it, n.Res[1], "ErrNodeNotFound", "ErrEntityNotFound", "get reports errors")
	if nilErr(it.err, o) {
		c.require(it.res != nil && same(strip(it.res), strip(n.Res[0])), "get returns the stored entity", it.cn, it.sc.pos(), "%v is returned", it.res)
	}
}

// refused: the value is known not to have a type which the nodes of the graphs
// of this module have.
func (c *Ctx) refused(o *State, v *Term) bool {
	n := c.lookupType("pkg/graph/memory.Node")
	if n == nil {
		return false
	}
	p := types.NewPointer(n)
	for _, f := range o.flist {
		if f.V || f.T.Op != "istype" || !same(f.T.Args[0], v) {
			continue
		}
		if w, ok := f.T.Aux.(types.Type); ok {
			if wi, ok := w.Underlying().(*types.Interface); ok && types.Implements(p, wi) || types.Identical(w, p) {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) storeDelete(r *storeRoles, it *item, uid *Term) {
	w := c.storeCalls(r, it)
	if len(w) == 0 && c.storeKnows(r, it, sameUID(uid)) == absent {
		c.require(nilErr(it.err, it.sc.St), "deleting a missing entity succeeds", it.cn, it.sc.pos(), "reports %s", it.err)
		return
	}
	if e := c.one(it, w, "RemoveNode", "delete removes the entity", uid); e != nil {
		c.noOpts(it, e, 3)
		c.reports(it, e.Res[0], "", "", "delete reports errors")
	}
}

func (c *Ctx) storeLink(r *storeRoles, it *item, from, to *Term) {
	o := it.sc.St
	w := c.storeCalls(r, it)
	if len(w) == 0 && (c.storeKnows(r, it, sameUID(from)) == absent || c.storeKnows(r, it, sameUID(to)) == absent) {
		c.require(!it.done && c.errIsA(o, it.err, "pkg/store", "ErrEntityNotFound"), "link reports errors", it.cn, it.sc.pos(), "reports %s for a missing entity", it.err)
		return
	}
	e := c.one(it, w, "Link", "link joins the two entities", from, to)
	if e == nil || !c.require(len(e.Res) == 2, "link joins the two entities", it.cn, e.Pos, "%s", e) {
		return
	}
	var v map[string]*Term
	ok := true
	if len(e.Args) > 4 {
		v, ok = c.optsValue(o, e.Args[4])
	}
	a := v["Attrs"]
	given := eqFact(o.flist, is(tNil), func(t *Term) bool {
		x, _, ok := optionField(t, "Attrs")
		return ok && same(x, it.opts)
	})
	if a == nil || o.isNil(a) {
		ok = ok && (given == present || o.m.lenOf(o, it.opts) == intT(0))
	} else {
		x, ini, isF := optionField(a, "Attrs")
		ok = ok && isF && same(x, it.opts) && isZeroOptions(ini)
	}
	c.require(ok, "the link has the given attributes", it.cn, e.Pos, "the link's attributes are %v on the path where %s", a, o.describe())
	for k := range v {
		c.require(k == "Attrs", "no options are made up", it.cn, e.Pos, "option %s is set", k)
	}
	c.reports(it, e.Res[1], "ErrNodeNotFound", "ErrEntityNotFound", "link reports errors")
}

func (c *Ctx) storeUnlink(r *storeRoles, it *item, from, to *Term) {
	w := c.storeCalls(r, it)
	if len(w) == 0 && (c.storeKnows(r, it, sameUID(from)) == absent || c.storeKnows(r, it, sameUID(to)) == absent) {
		c.require(nilErr(it.err, it.sc.St), "unlinking a missing entity succeeds", it.cn, it.sc.pos(), "reports %s", it.err)
		return
	}
	if e := c.one(it, w, "Unlink", "unlink removes the link", from, to); e != nil {
		c.noOpts(it, e, 4)
		c.reports(it, e.Res[0], "", "", "unlink reports errors")
	}
}

func (c *Ctx) storeOps() {
	r := c.storeRoles()
	if r == nil {
		return
	}
	for _, op := range []struct {
		name string
		np   int
	}{{"Add", 4}, {"Get", 4}, {"Delete", 4}, {"Link", 5}, {"Unlink", 5}} {
		f := c.declared(r.typ, op.name)
		cn := "Memory." + op.name
		if !c.opParams(f, op.np, cn) {
			continue
		}
		for _, o := range c.paths(f) {
			n := 1
			if op.name == "Get" {
				n = 2
			}
			if !c.returned(o, n, cn) {
				continue
			}
			it := &item{sc: pathScope(o), evs: o.events, m: param(f, 0), opts: param(f, op.np-1), err: o.ret[n-1], cn: cn}
			if op.name == "Get" {
				it.res = o.ret[0]
				if !nilErr(it.err, o) && !same(it.res, tNil) && !nilErr(it.res, o) {
					// no entity along with an error, unless it is the graph's own pair
					c.storeGet(r, it, param(f, 2))
					continue
				}
			}
			c.storeItem(r, op.name, it, param(f, 2), param(f, 3))
		}
	}
	// the graph the store hands out is the graph it works on
	if f := c.declared(r.typ, "Graph"); c.opParams(f, 1, "Memory.Graph") {
		for _, o := range c.paths(f) {
			if c.returned(o, 2, "Memory.Graph") {
				c.require(r.isGraph(o.ret[0], param(f, 0)) && nilErr(o.ret[1], o), "Graph returns the store's graph", "Memory.Graph", pathScope(o).pos(), "returns %s, %s", o.ret[0], o.ret[1])
			}
		}
	}
}

func (c *Ctx) storeItem(r *storeRoles, op string, it *item, a, b *Term) {
	switch op {
	case "Add":
		c.storeAdd(r, it, a)
	case "Get":
		c.storeGet(r, it, a)
	case "Delete":
		c.storeDelete(r, it, a)
	case "Link":
		c.storeLink(r, it, a, b)
	case "Unlink":
		c.storeUnlink(r, it, a, b)
	}
}

func (c *Ctx) storeBulk() {
	r := c.storeRoles()
	if r == nil {
		return
	}
	for _, op := range []struct {
		name     string
		np       int
		itemsArg int
	}{{"Add", 4, 2}, {"Get", 4, 2}, {"Delete", 4, 2}, {"Link", 5, 3}, {"Unlink", 5, 3}} {
		f := c.declared(r.typ, "Bulk"+op.name)
		cn := "Memory.Bulk" + op.name
		if !c.opParams(f, op.np, cn) {
			continue
		}
		m, items, opts := param(f, 0), param(f, op.itemsArg), param(f, op.np-1)
		get := op.name == "Get"
		for _, o := range c.paths(f) {
			n := 1
			if get {
				n = 2
			}
			if !c.returned(o, n, cn) {
				continue
			}
			sc := pathScope(o)
			err := o.ret[n-1]
			if o.m.lenOf(o, items) == intT(0) || c.emptyItems(o, items) {
				c.require(nilErr(err, o), "an empty bulk succeeds", cn, sc.pos(), "returns %s", err)
				it := &item{sc: sc, evs: o.events, m: m, cn: cn}
				c.require(len(c.storeCalls(r, it)) == 0, "an empty bulk does nothing", cn, sc.pos(), "the graph is changed")
				continue
			}
			l := c.storeLoop(o, items, r, m, cn)
			if l == nil {
				continue
			}
			el := mk("elem", "", items, l.NIter)
			for _, g := range l.Segs {
				it := &item{sc: segScope(g), evs: g.Events, m: m, opts: opts, err: tNil, done: true, cn: cn}
				if get {
					it.res = c.bulkElem(sc, l, g, o.ret[0])
				}
				c.bulkItem(r, op.name, it, f, el)
			}
			part, left := partial(o.events, l)
			if !left {
				c.require(nilErr(err, o), "bulk succeeds when all items do", cn, sc.pos(), "returns %s on the path where %s", err, o.describe())
				c.require(sc.loopDone(l), "bulk visits every item once", cn, l.Pos, "the loop can end before all items are processed")
				if get {
					ps, ok := sc.parts(o.ret[0])
					c.require(ok && len(ps) == 1 && ps[0].Kind == "each" && ps[0].Loop == l && onePerSeg(ps[0]), "bulk get returns one entity per UID", cn, sc.pos(), "returns %s", o.ret[0])
				}
				continue
			}
			// the item that failed
			c.require(!nilErr(err, o), "bulk ends only with an error", cn, sc.pos(), "the loop ends early without an error on the path where %s", o.describe())
			it := &item{sc: sc, evs: part, m: m, opts: opts, err: err, cn: cn}
			c.bulkItem(r, op.name, it, f, el)
		}
	}
}

// storeLoop finds the loop over the items, outside of which the graph is left alone.
func (c *Ctx) storeLoop(o *State, items *Term, r *storeRoles, m *Term, cn string) *Loop {
	l := c.bulkLoop(o, items, cn)
	if l == nil {
		return nil
	}
	part, _ := partial(o.events, l)
	inPart := map[*Event]bool{}
	for _, e := range part {
		inPart[e] = true
	}
	for _, e := range o.events {
		if e.Kind == EvInvoke && !inPart[e] && len(e.Args) > 0 && r.isGraph(e.Args[0], m) && contains(graphWrites, e.Name) {
			c.fail("bulk changes only its items", cn, e.Pos, "%s is called outside of the loop over the items", e.Name)
		}
	}
	return l
}

// partial returns the events of the iteration of l in which the path left it early.
func partial(events []*Event, l *Loop) (evs []*Event, left bool) {
	in := false
	for _, e := range events {
		switch {
		case e.Kind == EvLoopStart && e.Loop == l:
			in = true
		case e.Kind == EvLoopEnd && e.Loop == l:
			if e.Normal {
				return nil, false
			}
			return evs, true
		case in:
			evs = append(evs, e)
		}
	}
	return evs, in
}

func onePerSeg(p Part) bool {
	if p.Down {
		return false
	}
	for _, s := range p.Segs {
		if len(s) != 1 || s[0].Kind != "one" {
			return false
		}
	}
	return len(p.Segs) > 0
}

// bulkElem is the element the iteration g adds to the result t.
func (c *Ctx) bulkElem(sc *Scope, l *Loop, g *Seg, t *Term) *Term {
	ps, ok := sc.parts(t)
	if !ok || len(ps) != 1 || ps[0].Kind != "each" || ps[0].Loop != l {
		// the result of another path, take what the iteration stores
		var v *Term
		for _, e := range g.Events {
			if e.Kind == EvStore && e.Args[0].Op == "iaddr" {
				v = e.Args[1]
			}
		}
		if v != nil {
			return v
		}
		for phi, next := range l.PhiNext {
			for i, n := range next {
				if i < len(l.Segs) && l.Segs[i] == g && strip(n).Op == "append" {
					if r, ok := segScope(g).growth(n, phi, 0); ok && len(r) == 1 && r[0].Kind == "one" {
						return r[0].Val
					}
				}
			}
		}
		return nil
	}
	for i, s := range l.Segs {
		if s == g && i < len(ps[0].Segs) && len(ps[0].Segs[i]) == 1 {
			return ps[0].Segs[i][0].Val
		}
	}
	return nil
}

func (c *Ctx) bulkItem(r *storeRoles, op string, it *item, f *ssa.Function, el *Term) {
	if op == "Link" || op == "Unlink" {
		c.storeItem(r, op, it, param(f, 2), el)
		return
	}
	c.storeItem(r, op, it, el, nil)
}

func init() {
	register(&Check{
		ID: "C15", Title: "store operations", Min: 15, Run: func(c *Ctx) { c.storeOps(); c.completeIn("pkg/store/memory") },
		Rules: "every path of Memory.Add, Get, Delete, Link, Unlink and Graph: the graph operations called, their arguments and options, and what is reported for their results",
	})
	register(&Check{
		ID: "C16", Title: "store bulk operations", Min: 20, Run: (*Ctx).storeBulk,
		Rules: "every Bulk operation of the store is one complete loop over its items whose iterations satisfy the rules of the single operation, left early only with the error of an item",
	})
}
