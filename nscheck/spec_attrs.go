package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Attributes: what is set is read, copies are complete and independent.

// mapOf returns the map behind the attributes object or map t.
func mapOf(o *State, t *Term) *Term {
	t = strip(t)
	if v, ok := o.cells[t]; ok {
		return strip(v)
	}
	if t.Op == "load" || t.Op == "makemap" {
		return t
	}
	return t
}

// resultOf returns the call on the path whose result i is t.
func resultOf(evs []*Event, t *Term, i int) *Event {
	t = strip(t)
	var r *Event
	each(evs, func(e *Event, _ []*Seg) {
		if i < len(e.Res) && strip(e.Res[i]) == t && (e.Kind == EvInvoke || e.Kind == EvCall || e.Kind == EvExt) {
			r = e
		}
	})
	return r
}

// allEvents are the events of the path with those of its loops.
func allEvents(o *State) []*Event {
	var r []*Event
	each(o.events, func(e *Event, _ []*Seg) { r = append(r, e) })
	return r
}

// keysOf tells whether seq is the list of the keys of src: attributes behind an interface or a map.
func (c *Ctx) keysOf(o *State, seq, src *Term) bool {
	seq = strip(seq)
	if e := resultOf(o.events, seq, 0); e != nil && e.Name == "Keys" && len(e.Args) > 0 && same(e.Args[0], src) {
		return o.isNil(e.Res[1])
	}
	ps, ok := pathScope(o).parts(seq)
	return ok && c.mapKeys(o, ps, src)
}

// isMap tells whether m is the map of src, a map or an attributes object.
func (c *Ctx) isMap(o *State, m, src *Term) bool {
	return m != nil && (same(m, mapOf(o, src)) || c.isMapOf(m, src))
}

// mapKeys tells whether the parts are every key of the map of src once.
func (c *Ctx) mapKeys(o *State, ps []Part, src *Term) bool {
	if len(ps) == 0 {
		return c.noKeys(o, src)
	}
	if len(ps) != 1 || ps[0].Kind != "each" || ps[0].Loop.Kind != "map" || !c.isMap(o, ps[0].Loop.Over, src) || !pathScope(o).loopDone(ps[0].Loop) {
		return false
	}
	for _, s := range ps[0].Segs {
		if len(s) != 1 || s[0].Kind != "one" || !loopKey(ps[0].Loop, s[0].Val) {
			return false
		}
	}
	return len(ps[0].Segs) > 0
}

// keyLoop tells whether the loop visits every key of src once; it returns the key of an iteration.
func (c *Ctx) keyLoop(o *State, l *Loop, src *Term) func(*Term) bool {
	switch {
	case l.Kind == "map" && c.isMap(o, l.Over, src):
		return func(k *Term) bool { return loopKey(l, k) }
	case l.Kind == "slice" && l.Over != nil && c.keysOf(o, l.Over, src):
		return func(k *Term) bool { return loopElem(l, k) }
	}
	return nil
}

// valueOf tells whether v is the value of the key accepted by key in src, read in the iteration g.
func (c *Ctx) valueOf(g *Seg, l *Loop, v, src *Term, key func(*Term) bool) bool {
	v = strip(v)
	if e := resultOf(g.Events, v, 0); e != nil && e.Name == "Get" && len(e.Args) == 3 {
		return same(e.Args[0], src) && key(e.Args[2]) && g.St.isNil(e.Res[1])
	}
	if v.Op == "lookup" {
		return c.isMap(g.St, v.Args[0], src) && key(v.Args[1])
	}
	return l.Kind == "map" && c.isMap(g.St, l.Over, src) && loopElem(l, v)
}

// collected tells whether v is the value of the key of an iteration of l in a
// list which an earlier loop over the same keys has filled with their values.
func (c *Ctx) collected(o *State, l *Loop, v, src *Term) bool {
	v = strip(v)
	if v.Op != "elem" || l.Kind != "slice" || l.Over == nil {
		return false
	}
	if down, ok := l.index(v.Args[1], l.Over); !ok || down {
		return false
	}
	sc := pathScope(o)
	ps, ok := sc.parts(v.Args[0])
	if !ok || len(ps) != 1 || ps[0].Kind != "each" || ps[0].Down {
		return false
	}
	w := ps[0].Loop
	if w == l || w.Kind != "slice" || w.Over == nil || strip(w.Over) != strip(l.Over) || !sc.loopDone(w) || len(ps[0].Segs) == 0 {
		return false
	}
	for i, s := range ps[0].Segs {
		if len(s) != 1 || s[0].Kind != "one" || i >= len(w.Segs) ||
			!c.valueOf(w.Segs[i], w, s[0].Val, src, func(k *Term) bool { return loopElem(w, k) }) {
			return false
		}
	}
	return true
}

// copyOf tells whether the map m has been filled on the path with exactly what src has.
func (c *Ctx) copyOf(o *State, m, src *Term) bool {
	m = strip(m)
	if o.isNil(m) {
		return c.noKeys(o, src)
	}
	if m.Op != "makemap" {
		return false
	}
	sc := pathScope(o)
	var loop *Loop
	bad := false
	each(o.events, func(e *Event, in []*Seg) {
		if e.Kind != EvMapSet && e.Kind != EvMapDel || strip(e.Args[0]) != m {
			return
		}
		if e.Kind == EvMapDel || len(in) != 1 {
			bad = true
			return
		}
		for _, l := range sc.loops() {
			for _, g := range l.Segs {
				if g == in[0] {
					if loop != nil && loop != l {
						bad = true
					}
					loop = l
				}
			}
		}
	})
	if bad {
		return false
	}
	if loop == nil {
		return c.noKeys(o, src)
	}
	if loop.Kind == "map" && strip(loop.Over).Op == "makemap" && strip(loop.Over) != m && !c.isMap(o, loop.Over, src) {
		// a copy of a copy
		if !c.copyOf(o, loop.Over, src) {
			return false
		}
		src = strip(loop.Over)
	}
	key := c.keyLoop(o, loop, src)
	if key == nil || !sc.loopDone(loop) {
		return false
	}
	return everySeg(loop, func(g *Seg) bool {
		n := 0
		for _, e := range g.Events {
			if e.Kind == EvMapSet && strip(e.Args[0]) == m {
				if !key(e.Args[1]) || !c.valueOf(g, loop, e.Args[2], src, key) && !c.collected(o, loop, e.Args[2], src) {
					return false
				}
				n++
			}
		}
		return n == 1
	})
}

// noKeys tells whether src is known to have nothing on the path.
func (c *Ctx) noKeys(o *State, src *Term) bool {
	src = strip(src)
	if o.isNil(src) {
		return true
	}
	m := mapOf(o, src)
	if o.m.lenOf(o, m) == intT(0) || m.Op == "makemap" && !written(o, m) {
		return true
	}
	for _, e := range allEvents(o) {
		if e.Kind == EvInvoke && e.Name == "Keys" && same(e.Args[0], src) && o.isNil(e.Res[1]) && o.m.lenOf(o, e.Res[0]) == intT(0) {
			return true
		}
	}
	v, known := o.truthEq(mk("len", "", m), intT(0))
	return known && v
}

func written(o *State, m *Term) bool {
	for _, e := range allEvents(o) {
		if e.Kind == EvMapSet && strip(e.Args[0]) == m {
			return true
		}
	}
	return false
}

// attrFailure: the path on which reading the attributes src failed; it returns the error.
func (c *Ctx) attrFailure(o *State) *Term {
	var r *Term
	for _, e := range o.events {
		if e.Kind == EvInvoke && (e.Name == "Keys" || e.Name == "Get") && len(e.Res) == 2 && o.notNil(e.Res[1]) {
			r = e.Res[1]
		}
	}
	return r
}

// copyResult checks a function which returns a copy of src and an error.
func (c *Ctx) copyResult(f *ssa.Function, src int, withErr bool, cn string, toMap func(o *State, r *Term) *Term) {
	n := 1
	if withErr {
		n = 2
	}
	if !c.opParams(f, src+1, cn) {
		return
	}
	a := param(f, src)
	for _, o := range c.paths(f) {
		if o.status == stPanic && o.isNil(a) {
			continue
		}
		if !c.returned(o, n, cn) {
			continue
		}
		sc := pathScope(o)
		c.noSideEffects(o, cn)
		each(o.events, func(e *Event, _ []*Seg) {
			if e.Kind == EvInvoke && same(e.Args[0], a) {
				c.require(o.notNil(a), "a missing source is empty", cn, e.Pos, "%s is used without testing that it is there", a)
			}
		})
		if e := c.attrFailure(o); e != nil {
			c.require(withErr && nilErr(o.ret[0], o) && (same(o.ret[1], e) || c.wraps(o, o.ret[1], e)), "a failed copy reports the error", cn, sc.pos(), "returns %v on the path where %s", o.ret, o.describe())
			continue
		}
		if withErr {
			c.require(nilErr(o.ret[1], o), "a copy succeeds when the source can be read", cn, sc.pos(), "returns %s on the path where %s", o.ret[1], o.describe())
		}
		c.require(o.notNil(o.ret[0]), "a copy is a new container", cn, sc.pos(), "returns %s on the path where %s", o.ret[0], o.describe())
		m := toMap(o, o.ret[0])
		c.require(m != nil && c.copyOf(o, m, a), "a copy has every attribute and no other", cn, sc.pos(), "%s is not an exact copy of %s on the path where %s", o.ret[0], a, o.describe())
	}
}

// dotList checks that the list ret holds one encoding.Attribute for each key of src.
func (c *Ctx) dotList(o *State, ret, src *Term) bool {
	ps, ok := pathScope(o).parts(ret)
	if !ok {
		return false
	}
	if len(ps) == 0 {
		return c.noKeys(o, src) || o.m.lenOf(o, ret) == intT(0) && c.attrFailure(o) != nil
	}
	if len(ps) != 1 || ps[0].Kind != "each" {
		return false
	}
	l := ps[0].Loop
	key := c.keyLoop(o, l, src)
	if key == nil || !pathScope(o).loopDone(l) || len(ps[0].Segs) != len(l.Segs) {
		return false
	}
	for i, s := range ps[0].Segs {
		if len(s) != 1 || s[0].Kind != "one" {
			return false
		}
		v := strip(s[0].Val)
		k, w := structField(v, "Key"), structField(v, "Value")
		if k == nil || w == nil || !key(k) || !c.valueOf(l.Segs[i], l, w, src, key) {
			return false
		}
	}
	return len(l.Segs) > 0
}

// structField returns a field of the struct value t.
func structField(t *Term, name string) *Term {
	if t.Op != "struct" {
		return nil
	}
	tt, ok := t.Aux.(types.Type)
	if !ok {
		tt = t.Type
	}
	if tt == nil {
		return nil
	}
	st, ok := tt.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields() && i < len(t.Args); i++ {
		if st.Field(i).Name() == name {
			return t.Args[i]
		}
	}
	return nil
}

func (c *Ctx) attrsCheck() {
	n := c.named("pkg/attrs/memory", "Attrs")
	if !c.require(n != nil, "anchor", "attrs/memory.Attrs", "", "the in-memory attributes do not exist any more") {
		return
	}
	const rel = "pkg/attrs/memory"
	deref := func(o *State, r *Term) *Term { return mapOf(o, r) }
	// Set, Get and Keys of attributes of any content
	set, get, keys := c.method(n, "Set"), c.method(n, "Get"), c.method(n, "Keys")
	cn := "attrs/memory.Attrs.Set"
	if c.opParams(set, 4, cn) {
		a := param(set, 0)
		for _, o := range c.paths(set) {
			if !c.returned(o, 1, cn) {
				continue
			}
			sc := pathScope(o)
			hits := 0
			for _, e := range changes(o.events) {
				ok := e.Kind == EvMapSet && same(e.Args[1], param(set, 2)) && same(e.Args[2], param(set, 3))
				if ok {
					hits++
					b := strip(e.Args[0])
					ok = b == mapOf(o, a) || b.Op == "load" && b.Args[0] == a || b.Op == "makemap" && mapOf(o, a) == b
				}
				if !ok && e.Kind == EvStore && e.Args[0] == a && strip(e.Args[1]).Op == "makemap" {
					ok = c.nilBefore(o, a)
				}
				c.require(ok, "Set changes only the attribute it is given", cn, e.Pos, "%s", e)
			}
			if m := mapOf(o, a); m.Op == "makemap" && hits == 0 && written(o, m) {
				hits = 1
			}
			c.require(hits == 1 && nilErr(o.ret[0], o), "Set stores the value under the key", cn, sc.pos(), "returns %s after %d writes on the path where %s", o.ret[0], hits, o.describe())
		}
	}
	cn = "attrs/memory.Attrs.Get"
	if c.opParams(get, 3, cn) {
		for _, o := range c.paths(get) {
			if !c.returned(o, 2, cn) {
				continue
			}
			sc := pathScope(o)
			c.noSideEffects(o, cn)
			v := strip(o.ret[0])
			ok := v.Op == "lookup" && c.isMapOf(v.Args[0], param(get, 0)) && same(v.Args[1], param(get, 2))
			if s, lit := strLit(v); lit && s == "" {
				ok = c.knownAbsent(o, param(get, 0), param(get, 2))
			}
			c.require(ok && nilErr(o.ret[1], o), "Get returns the value of the key, or an empty one", cn, sc.pos(), "returns %s, %s on the path where %s", o.ret[0], o.ret[1], o.describe())
		}
	}
	cn = "attrs/memory.Attrs.Keys"
	if c.opParams(keys, 2, cn) {
		for _, o := range c.paths(keys) {
			if !c.returned(o, 2, cn) {
				continue
			}
			sc := pathScope(o)
			c.noSideEffects(o, cn)
			ps, ok := sc.parts(o.ret[0])
			c.require(ok && c.mapKeys(o, ps, param(keys, 0)) && nilErr(o.ret[1], o), "Keys lists every key once", cn, sc.pos(), "returns %s, %s on the path where %s", o.ret[0], o.ret[1], o.describe())
		}
	}
	// copies
	cn = "attrs/memory.New"
	if f := c.fn(rel, "New"); c.opParams(f, 0, cn) {
		for _, o := range c.paths(f) {
			if c.returned(o, 1, cn) {
				m := mapOf(o, o.ret[0])
				c.require(m.Op == "makemap" && !written(o, m), "new attributes are empty", cn, fnPos(f), "returns %s", o.ret[0])
			}
		}
	}
	c.copyResult(c.fn(rel, "NewCopyFrom"), 1, true, "attrs/memory.NewCopyFrom", deref)
	c.copyResult(c.fn(rel, "NewFromMap"), 0, false, "attrs/memory.NewFromMap", deref)
	c.copyResult(c.fn("pkg/attrs", "ToMap"), 1, true, "attrs.ToMap", func(o *State, r *Term) *Term { return strip(r) })
	// DOT attributes
	dot := c.dotAll
	if f := c.fn(rel, "DOTAttrs"); c.need(f, "attrs/memory.DOTAttrs") {
		dot(f, "attrs/memory.DOTAttrs", func(*State) *Term { return param(f, 0) })
	}
	if f := c.method(n, "Attributes"); c.need(f, "attrs/memory.Attrs.Attributes") {
		dot(f, "attrs/memory.Attrs.Attributes", func(o *State) *Term { return param(f, 0) })
	}
	c.dotMembers()
}

// dotMembers: nodes and edges show all of their attributes.
func (c *Ctx) dotMembers() {
	dot := c.dotAll
	for _, tn := range []string{"Node", "Edge"} {
		tn := tn
		t := c.named("pkg/graph/memory", tn)
		if !c.require(t != nil, "anchor", "graph/memory."+tn, "", "the type does not exist any more") {
			continue
		}
		f := c.method(t, "Attributes")
		if c.need(f, "graph/memory."+tn+".Attributes") {
			dot(f, "graph/memory."+tn+".Attributes", func(o *State) *Term { return c.access(o, t, param(f, 0), "Attrs") })
		}
	}
}

// dotAll: f returns the attributes src as DOT attributes.
func (c *Ctx) dotAll(f *ssa.Function, cn string, src func(o *State) *Term) {
	if !c.opParams(f, 1, cn) {
		return
	}
	for _, o := range c.paths(f) {
		if !c.returned(o, 1, cn) {
			continue
		}
		c.noSideEffects(o, cn)
		s := src(o)
		if !c.require(s != nil, "anchor", cn+" attributes", fnPos(f), "the attributes are not known") {
			continue
		}
		c.require(c.dotList(o, o.ret[0], s), "DOT attributes are the attributes", cn, pathScope(o).pos(), "%s is not one pair for each key of %s on the path where %s", o.ret[0], s, o.describe())
	}
}

// isMapOf tells whether m is the map of the receiver a of an attributes method.
func (c *Ctx) isMapOf(m, a *Term) bool {
	m, a = strip(m), strip(a)
	return m == a || m.Op == "load" && strip(m.Args[0]) == a
}

// nilBefore: the path knows that the map behind a was nil.
func (c *Ctx) nilBefore(o *State, a *Term) bool {
	for _, f := range o.flist {
		if f.V && f.T.Op == "eq" {
			for j := 0; j < 2; j++ {
				if x := strip(f.T.Args[j]); f.T.Args[1-j] == tNil && x.Op == "load" && x.Args[0] == a {
					return true
				}
			}
		}
	}
	return false
}

// knownAbsent: the path knows that the map of a has no such key.
func (c *Ctx) knownAbsent(o *State, a, key *Term) bool {
	for _, f := range o.flist {
		if !f.V && f.T.Op == "in" && c.isMapOf(f.T.Args[0], a) && same(f.T.Args[1], key) {
			return true
		}
		if f.V && f.T.Op == "eq" {
			for j := 0; j < 2; j++ {
				x := strip(f.T.Args[j])
				if f.T.Args[1-j] == tNil && c.isMapOf(x, a) {
					return true
				}
			}
		}
	}
	return false
}

func init() {
	register(&Check{
		ID: "C28", Title: "attributes are stored, listed and copied completely",
		Rules: "each path of Set, Get, Keys, the copying functions and the DOT views is matched with a loop over all keys of the source and one write per key",
		Min:   20,
		Run:   func(c *Ctx) { c.attrsCheck() },
	})
}
