package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// nested is a field which is a map of maps: an index.
type idxWrite struct {
	e     *Event
	idx   string // field key
	outer *Term
	inner *Term // nil: the whole inner map
	val   *Term // nil: deleted
	in    []*Seg
}

// isIndexType tells whether t is map[K]map[K]V.
func isIndexType(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	_, ok = m.Elem().Underlying().(*types.Map)
	return ok
}

// idxOf resolves the map term m to an index and the key of the inner map.
func (sc *Scope) idxOf(m *Term, isIdx func(string) bool) (idx string, outer *Term) {
	m = strip(m)
	if _, k := fieldRead(m); k != "" && isIdx(k) {
		return k, nil
	}
	switch m.Op {
	case "lookup":
		if _, k := fieldRead(m.Args[0]); k != "" && isIdx(k) {
			return k, m.Args[1]
		}
	case "rval":
		if _, k := fieldRead(m.Args[0].Args[0]); k != "" && isIdx(k) {
			return k, mk("rkey", m.Str, m.Args...)
		}
	case "makemap":
		// put into an index on the path
		for _, e := range sc.St.events {
			if e.Kind == EvMapSet && strip(e.Args[2]) == m {
				if _, k := fieldRead(e.Args[0]); k != "" && isIdx(k) {
					return k, e.Args[1]
				}
			}
		}
		var rk string
		var ro *Term
		each(sc.St.events, func(e *Event, _ []*Seg) {
			if e.Kind == EvMapSet && strip(e.Args[2]) == m {
				if _, k := fieldRead(e.Args[0]); k != "" && isIdx(k) {
					rk, ro = k, e.Args[1]
				}
			}
		})
		return rk, ro
	}
	return "", nil
}

// idxWrites lists the writes of the scope to the indexes, including those in
// nested loops; ok is false when a write can not be attributed.
func (sc *Scope) idxWrites(isIdx func(string) bool) (ws []idxWrite, fieldStores []*Event) {
	each(sc.Events, func(e *Event, in []*Seg) {
		switch e.Kind {
		case EvMapSet, EvMapDel:
			s := sc
			if len(in) > 0 {
				s = segScope(in[len(in)-1])
			}
			idx, outer := s.idxOf(e.Args[0], isIdx)
			if idx == "" {
				return
			}
			w := idxWrite{e: e, idx: idx, in: in}
			if e.Kind == EvMapSet {
				w.val = strip(e.Args[2])
			}
			if outer == nil {
				w.outer = e.Args[1]
			} else {
				w.outer, w.inner = outer, e.Args[1]
			}
			ws = append(ws, w)
		case EvStore:
			if e.Args[0].Op == "faddr" && isIdx(e.Args[0].Str) {
				fieldStores = append(fieldStores, e)
			}
		}
	})
	return
}

const (
	unknown = iota
	present
	absent
)

// knows tells what the path knows about the entry [outer][inner] of an index
// (inner nil: about the inner map).
func (sc *Scope) knows(isIdx func(string) bool, idx string, outer, inner *Term) int {
	there := false
	for _, f := range sc.facts() {
		t := f.T
		switch {
		case t.Op == "in":
			i, o := sc.idxOf(t.Args[0], isIdx)
			if i != idx {
				continue
			}
			if o == nil && same(t.Args[1], outer) {
				if !f.V {
					return absent
				}
				if inner == nil {
					there = true // but it may be nil
				}
			}
			if o != nil && inner != nil && same(o, outer) && same(t.Args[1], inner) {
				if f.V {
					return present
				}
				return absent
			}
		case t.Op == "eq":
			for j := 0; j < 2; j++ {
				x, y := t.Args[j], t.Args[1-j]
				if y != tNil && y != intT(0) {
					continue
				}
				if y == intT(0) {
					if x.Op != "len" {
						continue
					}
					if i, o := sc.idxOf(x.Args[0], isIdx); i == idx && o != nil && same(o, outer) && f.V {
						return absent
					}
					continue
				}
				if x.Op != "lookup" {
					continue
				}
				i, o := sc.idxOf(x.Args[0], isIdx)
				if i != idx {
					continue
				}
				if o == nil && same(x.Args[1], outer) {
					if f.V {
						return absent
					}
					if inner == nil {
						return present
					}
				}
				if o != nil && inner != nil && same(o, outer) && same(x.Args[1], inner) {
					if f.V {
						return absent
					}
					return present
				}
			}
		}
	}
	if there {
		return present
	}
	return unknown
}

// cacheRoles are the two indexes of the links cache.
type cacheRoles struct {
	typ      *types.Named
	from, to string
	is       func(string) bool
}

func (c *Ctx) cacheRoles() *cacheRoles {
	n := c.named("pkg/cache/memory", "Links")
	if !c.require(n != nil, "anchor", "cache/memory.Links", "", "the links cache type does not exist") {
		return nil
	}
	st, ok := n.Underlying().(*types.Struct)
	if !c.require(ok, "anchor", "cache/memory.Links struct", "", "not a struct") {
		return nil
	}
	r := &cacheRoles{typ: n}
	var idx []string
	for i := 0; i < st.NumFields(); i++ {
		if isIndexType(st.Field(i).Type()) {
			idx = append(idx, fieldKey(n, i))
		}
	}
	r.is = func(k string) bool { return contains(idx, k) }
	reads := func(name string) string {
		f := c.declared(n, name)
		if f == nil {
			return ""
		}
		for _, o := range c.paths(f) {
			for _, e := range o.events {
				if e.Kind == EvMapRead {
					if _, k := fieldRead(e.Args[0]); r.is(k) {
						return k
					}
				}
			}
		}
		return ""
	}
	r.from, r.to = reads("GetFrom"), reads("GetTo")
	if !c.require(r.from != "" && r.to != "" && r.from != r.to, "indexes", "links cache indexes", fnPos(c.declared(n, "GetFrom")),
		"GetFrom reads index %q and GetTo reads index %q: they must be two different maps keyed by UID string", r.from, r.to) {
		return nil
	}
	return r
}

// putSpec: the scope stores link in both indexes unless it is there and upsert is off.
func (c *Ctx) putSpec(sc *Scope, r *cacheRoles, link, opts *Term, construct string) {
	F, T := pureOf("String", pureOf("From", link)), pureOf("String", pureOf("To", link))
	ws, fs := sc.idxWrites(r.is)
	c.require(len(fs) == 0, "put changes only its entry", construct, sc.pos(), "an index is replaced as a whole")
	ups, upsKnown := sc.upsert(opts)
	// the indexes mirror each other: paths on which they do not are no executions
	if a, b := sc.knows(r.is, r.from, F, T), sc.knows(r.is, r.to, T, F); a != unknown && b != unknown && a != b {
		return
	}
	made := map[*Term]*Event{}
	for _, w := range ws {
		if w.inner == nil && w.val != nil {
			v := strip(w.val)
			c.require(made[v] == nil, "put keeps other links", construct, w.e.Pos, "%s holds the links of two UIDs", v)
			made[v] = w.e
		}
	}
	for _, x := range []struct {
		idx          string
		outer, inner *Term
		oidx         string
	}{{r.from, F, T, r.to}, {r.to, T, F, r.from}} {
		name := construct + " index " + x.idx[strings.LastIndex(x.idx, ".")+1:]
		k := sc.knows(r.is, x.idx, x.outer, x.inner)
		if k == unknown {
			// the indexes mirror each other
			k = sc.knows(r.is, x.oidx, x.inner, x.outer)
		}
		set := false
		for _, w := range ws {
			if w.idx != x.idx {
				continue
			}
			switch {
			case len(w.in) > 0:
				c.fail("put changes only its entry", name, w.e.Pos, "entries are changed in a loop")
			case w.val == nil:
				c.fail("put changes only its entry", name, w.e.Pos, "Put deletes entries of the index")
			case w.inner == nil:
				ok := same(w.outer, x.outer) && sc.knows(r.is, x.idx, x.outer, nil) == absent
				c.require(ok && w.val.Op == "makemap", "put keeps other links", name, w.e.Pos, "the links of %s are replaced without knowing that there are none", w.outer)
			default:
				ok := same(w.outer, x.outer) && same(w.inner, x.inner)
				c.require(ok, "put changes only its entry", name, w.e.Pos, "entry [%s][%s] is written, expected [%s][%s]", w.outer, w.inner, x.outer, x.inner)
				c.require(same(w.val, link), "put stores the link", name, w.e.Pos, "stores %s instead of the link", w.val)
				if ok && same(w.val, link) {
					set = true
				}
			}
		}
		switch {
		case upsKnown && ups:
			c.require(set, "upsert replaces in both views", name, sc.pos(), "with upsert the link is not stored on the path where %s", sc.St.describe())
		case k == absent:
			c.require(set, "put inserts into both views", name, sc.pos(), "an absent link is not stored on the path where %s", sc.St.describe())
		case k == present && upsKnown:
			c.require(!set, "put without upsert keeps the link", name, sc.pos(), "a present link is replaced on the path where %s", sc.St.describe())
		default:
			c.fail("put decides on presence and upsert", name, sc.pos(), "the link is written=%v without testing the upsert option and the presence of the link on the path where %s", set, sc.St.describe())
		}
	}
}

// distinctViews: the two views of the cache obj are different maps at the end of the path.
func (c *Ctx) distinctViews(o *State, r *cacheRoles, obj *Term, construct string) (from, to *Term) {
	st := structOf(r.typ)
	load := func(k string) *Term {
		for i := len(o.events) - 1; i >= 0; i-- {
			if e := o.events[i]; e.Kind == EvStore && e.Args[0].Op == "faddr" && e.Args[0].Str == k && e.Args[0].Args[0] == obj {
				return strip(e.Args[1])
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			if fieldKey(r.typ, i) == k {
				return strip(o.clone().load(mk("faddr", k, obj), st.Field(i).Type(), nil))
			}
		}
		return nil
	}
	from, to = load(r.from), load(r.to)
	c.require(from != nil && to != nil && (from != to || from == tNil), "the two views are different maps", construct, pathScope(o).pos(), "both views are %v on the path where %s", from, o.describe())
	return from, to
}

// upsert evaluates the Upsert option built from opts on the path.
func (sc *Scope) upsert(opts *Term) (val, known bool) {
	for _, f := range sc.facts() {
		if o, ini, ok := optionField(f.T, "Upsert"); ok && same(o, opts) && isZeroOptions(ini) {
			return f.V, true
		}
	}
	if sc.St.isNil(opts) || sc.St.m.lenOf(sc.St, opts) == intT(0) {
		return false, true
	}
	return false, false
}

func isZeroOptions(t *Term) bool {
	t = strip(t)
	if t.Type == nil {
		return false
	}
	return t == zeroTerm(t.Type)
}

// deleteSpec: the scope removes all links from and to id and no others.
func (c *Ctx) deleteSpec(sc *Scope, r *cacheRoles, id *Term, construct string) {
	ws, fs := sc.idxWrites(r.is)
	c.require(len(fs) == 0, "delete removes only links of the UID", construct, sc.pos(), "an index is replaced as a whole")
	for _, x := range []struct{ idx, oidx string }{{r.from, r.to}, {r.to, r.from}} {
		name := construct + " index " + x.idx[strings.LastIndex(x.idx, ".")+1:]
		gone := sc.knows(r.is, x.idx, id, nil) == absent
		outer := gone
		mirror := gone
		for _, w := range ws {
			if w.idx == x.idx && w.inner == nil && w.val == nil && len(w.in) == 0 && same(w.outer, id) {
				outer = true
			}
			// the mirror entries: oidx[k][id] for every k in idx[id]
			if w.idx == x.oidx && w.inner != nil && w.val == nil && same(w.inner, id) && len(w.in) == 1 {
				l := loopWith(sc, w.in[0])
				if l == nil || !sc.loopDone(l) || l.Kind != "map" {
					continue
				}
				oi, oo := sc.idxOf(l.Over, r.is)
				all := oi == x.idx && oo != nil && same(oo, id) && loopKey(l, w.outer) ||
					oi == x.oidx && oo == nil && loopKey(l, w.outer)
				if all && everySeg(l, func(g *Seg) bool {
					gs := segScope(g)
					gw, _ := gs.idxWrites(r.is)
					for _, v := range gw {
						if v.idx == x.oidx && v.val == nil && v.inner != nil && same(v.inner, id) && loopKey(l, v.outer) {
							return true
						}
					}
					k := gs.knows(r.is, x.oidx, mk("rkey", w.outer.Str, w.outer.Args...), nil)
					k2 := gs.knows(r.is, x.oidx, mk("rkey", w.outer.Str, w.outer.Args...), id)
					return k == absent || k2 == absent
				}) {
					mirror = true
				}
			}
		}
		c.require(outer, "delete removes the links of the UID", name, sc.pos(), "the links of the UID stay in the index on the path where %s", sc.St.describe())
		c.require(mirror, "delete removes the links from the other view", name, sc.pos(), "the links in %s[uid] are not all removed from %s", x.idx, x.oidx)
	}
	for _, w := range ws {
		ok := w.val == nil && (w.inner == nil && same(w.outer, id) || w.inner != nil && same(w.inner, id))
		if w.val == nil && w.inner == nil && !ok {
			// an inner map without entries may go
			s := sc
			if len(w.in) > 0 {
				s = segScope(w.in[len(w.in)-1])
			}
			ok = s.knowsEmpty(r.is, w.idx, w.outer)
		}
		c.require(ok, "delete removes only links of the UID", construct, w.e.Pos, "%s affects other links", w.e)
	}
}

func (sc *Scope) knowsEmpty(is func(string) bool, idx string, outer *Term) bool {
	for _, f := range sc.facts() {
		if f.T.Op == "eq" && f.V {
			for j := 0; j < 2; j++ {
				if f.T.Args[1-j] == intT(0) && f.T.Args[j].Op == "len" {
					if i, o := sc.idxOf(f.T.Args[j].Args[0], is); i == idx && o != nil && same(o, outer) {
						return true
					}
				}
			}
		}
	}
	return false
}

func loopWith(sc *Scope, g *Seg) *Loop {
	for _, l := range allLoops(sc.St.events) {
		for _, s := range l.Segs {
			if s == g {
				return l
			}
		}
	}
	return nil
}

func everySeg(l *Loop, f func(*Seg) bool) bool {
	for _, g := range l.Segs {
		if !f(g) {
			return false
		}
	}
	return len(l.Segs) > 0
}

// getSpec: t holds exactly the links in idx[id].
func (c *Ctx) getSpec(sc *Scope, r *cacheRoles, idx string, id, t *Term, construct string) {
	if sc.knows(r.is, idx, id, nil) == absent {
		ps, ok := sc.parts(t)
		c.require(ok && len(ps) == 0, "get returns the links of the UID", construct, sc.pos(), "returns %s for a UID without links", t)
		return
	}
	ps, ok := sc.parts(t)
	good := false
	if ok && len(ps) == 1 {
		var src *Term
		if ps[0].Kind == "each" {
			src = ps[0].Loop.Over
		} else {
			src = ps[0].Val
		}
		if src != nil {
			i, o := sc.idxOf(src, r.is)
			good = i == idx && o != nil && same(o, id) && elementsOf(ps, src)
		}
	}
	c.require(good, "get returns the links of the UID", construct, sc.pos(), "%s is not exactly the links in %s of the UID", t, idx)
}

// noWrites: the scope leaves the indexes alone.
func (c *Ctx) noIdxWrites(sc *Scope, r *cacheRoles, construct string) {
	ws, fs := sc.idxWrites(r.is)
	pos := ""
	if len(ws) > 0 {
		pos = ws[0].e.Pos
	} else if len(fs) > 0 {
		pos = fs[0].Pos
	}
	c.require(len(ws)+len(fs) == 0, "queries change nothing", construct, pos, "a query writes to the index")
}

// returned checks that a path returns normally and returns its results.
func (c *Ctx) returned(o *State, n int, construct string) bool {
	return c.require(o.status == stRet && len(o.ret) == n, "returns", construct, pathScope(o).pos(), "the path where %s does not return", o.describe())
}

// bulkLoop finds the loop over the items of a bulk operation.
func (c *Ctx) bulkLoop(o *State, items *Term, construct string) *Loop {
	sc := pathScope(o)
	var hit *Loop
	for _, l := range sc.loops() {
		if l.Kind == "slice" && strip(l.Over) == items {
			if hit != nil {
				// items may be visited more than once, only one loop may do the work
				if len(workEvents(l)) == 0 {
					continue
				}
				if len(workEvents(hit)) != 0 {
					c.fail("bulk visits every item once", construct, l.Pos, "the items are processed twice")
					return nil
				}
			}
			hit = l
		}
	}
	if !c.require(hit != nil, "bulk visits every item once", construct, sc.pos(), "there is no loop over all items on the path where %s", o.describe()) {
		return nil
	}
	return hit
}

func workEvents(l *Loop) []*Event {
	var r []*Event
	for _, g := range l.Segs {
		each(g.Events, func(e *Event, _ []*Seg) {
			switch e.Kind {
			case EvMapSet, EvMapDel, EvStore, EvCall, EvInvoke, EvGWrite:
				r = append(r, e)
			}
		})
	}
	return r
}

// nilErr tells whether t is nil at the end of the path.
func nilErr(t *Term, o *State) bool {
	t = strip(t)
	if o.isNil(t) {
		return true
	}
	if t.Op != "loopphi" {
		return false
	}
	// nil before the loop and after every iteration
	l := pathScope(o).loopOf(t)
	if l == nil || !nilErr(l.PhiTerm[t], o) || len(l.PhiNext[t]) != len(l.Segs) {
		return false
	}
	for i, n := range l.PhiNext[t] {
		if strip(n) != t && !nilErr(n, l.Segs[i].St) {
			return false
		}
	}
	return true
}

func (c *Ctx) opParams(fn *ssa.Function, n int, construct string) bool {
	return c.require(fn != nil && len(fn.Params) >= n, "anchor", construct, "", "the operation is missing or has another signature")
}

func init() {
	register(&Check{
		ID: "C11", Title: "links cache: Put stores a link in both views",
		Rules: "every path of Links.Put (and every iteration of BulkPut) is matched against the required and permitted index writes; see DESIGN.md",
		Min:   8,
		Run: func(c *Ctx) {
			c.completeIn("pkg/cache/memory")
			r := c.cacheRoles()
			if r == nil {
				return
			}
			if f := c.fn("pkg/cache/memory", "NewLinks"); c.need(f, "cache/memory.NewLinks") {
				for _, o := range c.paths(f) {
					if !c.returned(o, 2, "cache/memory.NewLinks") {
						continue
					}
					if !c.require(nilErr(o.ret[1], o) && strip(o.ret[0]).Op == "alloc", "a new cache is empty", "cache/memory.NewLinks", fnPos(f), "returns %s, %s", o.ret[0], o.ret[1]) {
						continue
					}
					a, b := c.distinctViews(o, r, strip(o.ret[0]), "cache/memory.NewLinks")
					for _, m := range []*Term{a, b} {
						c.require(m != nil && (m == tNil || m.Op == "makemap" && !written(o, m)), "a new cache is empty", "cache/memory.NewLinks", fnPos(f), "a view is %v", m)
					}
				}
			}
			put := c.declared(r.typ, "Put")
			if !c.opParams(put, 4, "Links.Put") {
				return
			}
			for _, o := range c.paths(put) {
				if !c.returned(o, 1, "Links.Put") {
					continue
				}
				c.require(nilErr(o.ret[0], o), "put reports success", "Links.Put", pathScope(o).pos(), "returns %s", o.ret[0])
				c.putSpec(pathScope(o), r, param(put, 2), param(put, 3), "Links.Put")
			}
			for _, name := range []string{"GetFrom", "GetTo"} {
				idx := r.from
				if name == "GetTo" {
					idx = r.to
				}
				f := c.declared(r.typ, name)
				if !c.opParams(f, 3, "Links."+name) {
					continue
				}
				for _, o := range c.paths(f) {
					if !c.returned(o, 2, "Links."+name) {
						continue
					}
					c.noIdxWrites(pathScope(o), r, "Links."+name)
					c.require(nilErr(o.ret[1], o), "get reports success", "Links."+name, pathScope(o).pos(), "returns %s", o.ret[1])
					c.getSpec(pathScope(o), r, idx, pureOf("String", param(f, 2)), o.ret[0], "Links."+name)
				}
			}
		},
	})
	register(&Check{
		ID: "C12", Title: "links cache: Delete and Clear are exact",
		Rules: "every path of Links.Delete and Links.Clear is matched against the required and permitted index writes; see DESIGN.md",
		Min:   6,
		Run: func(c *Ctx) {
			c.completeIn("pkg/cache/memory")
			r := c.cacheRoles()
			if r == nil {
				return
			}
			del := c.declared(r.typ, "Delete")
			if c.opParams(del, 3, "Links.Delete") {
				for _, o := range c.paths(del) {
					if !c.returned(o, 1, "Links.Delete") {
						continue
					}
					c.require(nilErr(o.ret[0], o), "delete reports success", "Links.Delete", pathScope(o).pos(), "returns %s", o.ret[0])
					c.deleteSpec(pathScope(o), r, pureOf("String", param(del, 2)), "Links.Delete")
				}
			}
			cl := c.declared(r.typ, "Clear")
			if c.opParams(cl, 2, "Links.Clear") {
				for _, o := range c.paths(cl) {
					if !c.returned(o, 1, "Links.Clear") {
						continue
					}
					sc := pathScope(o)
					c.require(nilErr(o.ret[0], o), "clear reports success", "Links.Clear", sc.pos(), "returns %s", o.ret[0])
					for _, idx := range []string{r.from, r.to} {
						c.distinctViews(o, r, param(cl, 0), "Links.Clear")
						c.require(c.cleared(sc, r, idx), "clear empties both views", "Links.Clear index "+idx[strings.LastIndex(idx, ".")+1:], sc.pos(), "the index keeps links")
					}
				}
			}
		},
	})
	register(&Check{
		ID: "C14", Title: "links cache: bulk operations equal their items",
		Rules: "every bulk operation has one complete loop over its items whose iterations satisfy the rule of the single operation; see DESIGN.md",
		Min:   10,
		Run: func(c *Ctx) {
			r := c.cacheRoles()
			if r == nil {
				return
			}
			for _, name := range []string{"BulkPut", "BulkDelete"} {
				f := c.declared(r.typ, name)
				if !c.opParams(f, 4, "Links."+name) {
					continue
				}
				items := param(f, 2)
				for _, o := range c.paths(f) {
					if !c.returned(o, 1, "Links."+name) {
						continue
					}
					sc := pathScope(o)
					c.require(nilErr(o.ret[0], o), "bulk reports success", "Links."+name, sc.pos(), "returns %s", o.ret[0])
					if o.m.lenOf(o, items) == intT(0) || c.emptyItems(o, items) {
						continue
					}
					l := c.bulkLoop(o, items, "Links."+name)
					if l == nil {
						continue
					}
					c.require(sc.loopDone(l), "bulk visits every item once", "Links."+name, l.Pos, "the loop can end before all items are processed")
					c.outsideLoop(sc, r, l, "Links."+name)
					for _, g := range l.Segs {
						if name == "BulkPut" {
							// of two links with the same ends the later one counts
							el := mk("elem", "", items, l.NIter)
							c.putSpec(segScope(g), r, el, param(f, 3), "Links."+name)
						} else {
							c.deleteSpec(segScope(g), r, pureOf("String", l.elem(g, items)), "Links."+name)
						}
					}
				}
			}
			for _, name := range []string{"BulkGetFrom", "BulkGetTo"} {
				idx := r.from
				if name == "BulkGetTo" {
					idx = r.to
				}
				f := c.declared(r.typ, name)
				if !c.opParams(f, 4, "Links."+name) {
					continue
				}
				c.bulkGetLinks(f, r, idx, "Links."+name)
				c.ownBuffers(f, "bulk result has its own links for every UID", "Links."+name)
			}
		},
	})
}

func (c *Ctx) emptyItems(o *State, items *Term) bool {
	for _, f := range o.flist {
		if f.V && f.T.Op == "eq" {
			for j := 0; j < 2; j++ {
				if f.T.Args[1-j] == intT(0) && f.T.Args[j].Op == "len" && strip(f.T.Args[j].Args[0]) == items {
					return true
				}
			}
		}
	}
	return false
}

// outsideLoop: nothing is written outside of the loop over the items.
func (c *Ctx) outsideLoop(sc *Scope, r *cacheRoles, l *Loop, construct string) {
	ws, fs := sc.idxWrites(r.is)
	for _, w := range ws {
		if len(w.in) > 0 && loopWith(sc, w.in[0]) == l {
			continue
		}
		c.fail("bulk changes only its items", construct, w.e.Pos, "%s is not part of processing an item", w.e)
	}
	for _, e := range fs {
		c.fail("bulk changes only its items", construct, e.Pos, "an index is replaced as a whole")
	}
}

// bulkGetLinks: the result maps every UID with links to its links.
func (c *Ctx) bulkGetLinks(f *ssa.Function, r *cacheRoles, idx, construct string) {
	items := param(f, 2)
	for _, o := range c.paths(f) {
		if !c.returned(o, 2, construct) {
			continue
		}
		sc := pathScope(o)
		c.noIdxWrites(sc, r, construct)
		c.require(nilErr(o.ret[1], o), "bulk reports success", construct, sc.pos(), "returns %s", o.ret[1])
		if c.emptyItems(o, items) {
			continue
		}
		res := strip(o.ret[0])
		var hit *Loop
		for _, l := range sc.loops() {
			if l.Kind == "slice" && strip(l.Over) == items {
				hit = l
			}
		}
		if !c.require(hit != nil && res.Op == "makemap", "bulk visits every item once", construct, sc.pos(), "the result is not built by a loop over the UIDs") {
			continue
		}
		c.require(sc.loopDone(hit), "bulk visits every item once", construct, hit.Pos, "the loop can end before all UIDs are looked up")
		for _, g := range hit.Segs {
			gs := segScope(g)
			el := hit.elem(g, items)
			id := pureOf("String", el)
			var set *Event
			for _, e := range g.Events {
				if (e.Kind == EvMapSet || e.Kind == EvMapDel) && strip(e.Args[0]) == res {
					ok := e.Kind == EvMapSet && same(e.Args[1], el) && set == nil
					c.require(ok, "bulk result is keyed by the given UID", construct, e.Pos, "%s", e)
					set = e
				}
			}
			if set == nil {
				c.require(gs.knows(r.is, idx, id, nil) == absent, "bulk returns the links of every UID", construct, gs.pos(), "a UID is skipped on the path where %s", g.St.describe())
				continue
			}
			c.getSpec(gs, r, idx, id, set.Args[2], construct)
		}
	}
}

// cleared tells whether the index has no entries at the end of the scope.
func (c *Ctx) cleared(sc *Scope, r *cacheRoles, idx string) bool {
	for i := len(sc.Events) - 1; i >= 0; i-- {
		e := sc.Events[i]
		if e.Kind == EvStore && e.Args[0].Op == "faddr" && e.Args[0].Str == idx {
			v := strip(e.Args[1])
			if v == tNil {
				return true
			}
			if v.Op != "makemap" {
				return false
			}
			for _, x := range sc.Events {
				if x.Kind == EvMapSet && strip(x.Args[0]) == v {
					return false
				}
			}
			return true
		}
		if e.Kind == EvLoopEnd && e.Loop.Kind == "map" && sc.loopDone(e.Loop) {
			if _, k := fieldRead(e.Loop.Over); k == idx && everySeg(e.Loop, func(g *Seg) bool {
				for _, x := range g.Events {
					if x.Kind == EvMapDel && loopKey(e.Loop, x.Args[1]) {
						if _, k := fieldRead(x.Args[0]); k == idx {
							return true
						}
					}
				}
				return false
			}) {
				return true
			}
		}
	}
	return false
}
