package main

import (
	"go/types"
	"strings"
)

// crashRoles collects what is put into the containers of the module: the
// dynamic types of the values of maps and of the members of gonum graphs.
type crashRoles struct {
	maps    map[string]map[string]bool // field of a guarded object -> types of its values
	members map[string]map[string]bool // "node", "edge" -> types
}

func typeName(t types.Type) string { return types.TypeString(t, nil) }

// dynType returns the dynamic type a value is known to have.
func dynType(s *State, v *Term) types.Type {
	if v.Op == "iface" {
		if t, ok := v.Aux.(types.Type); ok {
			return t
		}
	}
	x := strip(v)
	if x.Type != nil && !types.IsInterface(x.Type) {
		return x.Type
	}
	for _, f := range s.flist {
		if f.V && f.T.Op == "istype" && strip(f.T.Args[0]) == x {
			if t, ok := f.T.Aux.(types.Type); ok && !types.IsInterface(t) {
				return t
			}
		}
	}
	return nil
}

func stateOf(a activity, in []*Seg) *State {
	if len(in) > 0 {
		return in[len(in)-1].St
	}
	return a.st
}

// containers finds out what the containers of the module hold.
func (c *Ctx) containers(acts []activity) *crashRoles {
	r := &crashRoles{maps: map[string]map[string]bool{}, members: map[string]map[string]bool{"node": {}, "edge": {}}}
	put := func(m map[string]bool, s *State, v *Term) {
		n := "a value of an unknown type"
		if t := dynType(s, v); t != nil {
			n = typeName(t)
		}
		m[n] = true
	}
	for _, a := range acts {
		each(a.st.events, func(e *Event, in []*Seg) {
			st := stateOf(a, in)
			switch {
			case e.Kind == EvMapSet:
				if _, k := fieldRead(e.Args[0]); k != "" {
					if r.maps[k] == nil {
						r.maps[k] = map[string]bool{}
					}
					put(r.maps[k], st, e.Args[2])
				}
			case e.Kind == EvGWrite && e.Name == "AddNode" && len(e.Args) > 1:
				put(r.members["node"], st, e.Args[1])
			case e.Kind == EvGWrite && (e.Name == "SetWeightedEdge" || e.Name == "SetEdge") && len(e.Args) > 1:
				put(r.members["edge"], st, e.Args[1])
			}
		})
	}
	return r
}

// useMembers lets the analysis rely on what the containers of the module hold.
func (c *Ctx) useMembers() {
	sub := newCtx(c.Program, c.check)
	r := sub.containers(sub.activities())
	c.m.members = func(s *State, v *Term, want types.Type) bool {
		if types.IsInterface(want) {
			return false
		}
		ok, _ := r.assured(s, s.flist, s.events, v, want, 0)
		return ok
	}
}

// complete: a map or pointer in a field of a monitored object is only used where
// it is known to be there, or when every object is made with one and none is
// ever taken away.
func (c *Ctx) complete(acts []activity) {
	missing := map[*types.Var]string{}
	lack := func(v *types.Var, why string) {
		if missing[v] == "" {
			missing[v] = why
		}
	}
	for _, fn := range c.roots() {
		for _, o := range c.rootPaths(fn) {
			if o.status != stRet {
				continue
			}
			for _, x := range c.madeObjects(o) {
				for f, v := range x.fields {
					if w := strip(v); w == tNil || w.Op == "zero" {
						lack(f, shortFn(fn)+" makes one without on the path where "+o.describe())
					}
				}
			}
		}
	}
	for _, a := range acts {
		each(a.st.events, func(e *Event, in []*Seg) {
			if e.Kind == EvStore && !e.Fresh {
				if o, v := c.m.monitoredAddr(e.Args[0]); o != nil && v != nil {
					if w := strip(e.Args[1]); w == tNil || w.Op == "zero" || stateOf(a, in).isNil(w) {
						lack(v, a.name+" takes it away at "+e.Pos)
					}
				}
			}
		})
	}
	// flagged: a flag of the object o, known to be set, is only set together with v
	flagged := func(v *types.Var, o *Term, st *State, e *Event) bool {
		pre := st.flist
		if e.NFacts < len(pre) {
			pre = pre[:e.NFacts]
		}
		for _, f := range pre {
			b, k := fieldRead(f.T)
			if !f.V || b != o || k == "" {
				continue
			}
			if c.setTogether(acts, k, v) {
				return true
			}
		}
		return false
	}
	for _, a := range acts {
		each(a.st.events, func(e *Event, in []*Seg) {
			switch e.Kind {
			case EvMapSet, EvGRead, EvGWrite, EvRead, EvStore:
			default:
				return
			}
			t := strip(e.Args[0])
			if e.Fresh || t.Op != "load" {
				return
			}
			o, v := c.m.monitoredAddr(t.Args[0])
			if o == nil || v == nil {
				return
			}
			st := stateOf(a, in)
			why := missing[v]
			if why != "" && (knownNotNil(st, e, t) || flagged(v, o, st, e)) {
				why = ""
			}
			c.require(why == "", "what an operation uses is there", a.name+" uses "+c.accessName(e), e.Pos, "%s: %s", t, why)
		})
	}
}

// completeIn: the objects of the package are complete when they are used.
func (c *Ctx) completeIn(rel string) {
	var acts []activity
	for _, a := range c.activities() {
		fn := a.fn
		if fn.Pkg != nil && fn.Pkg.Pkg.Path() == modPath+"/"+rel {
			acts = append(acts, a)
		}
	}
	c.complete(acts)
	c.ownStateIn(rel)
}

// setTogether: an object whose flag k is set has its field v.
func (c *Ctx) setTogether(acts []activity, k string, v *types.Var) bool {
	there := func(w *Term) bool { w = strip(w); return w.Op == "makemap" || w.Op == "alloc" || w.Op == "makechan" }
	for _, fn := range c.roots() {
		for _, o := range c.rootPaths(fn) {
			for _, x := range c.madeObjects(o) {
				if o.status != stRet || x.fields[v] == nil || there(x.fields[v]) {
					continue
				}
				for f, w := range x.fields {
					if n := c.m.ownerOf(f); n != nil && strings.HasSuffix(k, "."+f.Name()) && strip(w) != boolT(false) && strip(w).Op != "zero" {
						return false
					}
				}
			}
		}
	}
	n := 0
	for _, a := range acts {
		sets, clears, gives, takes := 0, 0, 0, 0
		ok := true
		each(a.st.events, func(e *Event, in []*Seg) {
			if e.Kind != EvStore || e.Args[0].Op != "faddr" || e.Fresh {
				return
			}
			switch _, x := c.m.monitoredAddr(e.Args[0]); {
			case x == v && there(e.Args[1]):
				ok = ok && len(in) == 0
				gives++
			case x == v:
				takes++
			case e.Args[0].Str == k && strip(e.Args[1]) == boolT(false):
				ok = ok && len(in) == 0
				clears++
			case e.Args[0].Str == k:
				ok = ok && len(in) == 0
				sets++
			}
		})
		if !ok || sets > 0 && (gives == 0 || takes > 0) || takes > 0 && clears == 0 {
			return false
		}
		n += sets
	}
	return n > 0
}

// knownNotNil tells whether the path knows, when e happens, that t is not nil.
func knownNotNil(st *State, e *Event, t *Term) bool {
	pre := st.flist
	if e.NFacts < len(pre) {
		pre = pre[:e.NFacts]
	}
	for _, f := range pre {
		switch {
		case f.T.Op == "eq" && !f.V && (f.T.Args[0] == tNil && strip(f.T.Args[1]) == t || f.T.Args[1] == tNil && strip(f.T.Args[0]) == t):
			return true
		case f.T.Op == "in" && f.V && termHas(f.T, func(x *Term) bool { return x == t }):
			return true
		}
	}
	return false
}

func (c *Ctx) crashCheck() {
	acts := c.activities()
	c.complete(acts)
	r := c.containers(acts)
	for _, a := range acts {
		if a.st.status == stPanic && len(a.st.events) > 0 {
			e := a.st.events[len(a.st.events)-1]
			if e.Kind != EvAssert {
				c.fail("an operation does not panic", a.name+" "+e.Name, e.Pos, "%s on the path where %s", e.Name, a.st.describe())
			}
		} else {
			c.require(true, "an operation does not panic", a.name, fnPos(a.fn), "")
		}
		each(a.st.events, func(e *Event, in []*Seg) {
			if e.Kind == EvMaybeNil {
				c.fail("a map element is used only when it is there", a.name, e.Pos, "%s is used without knowing that it is there on the path where %s", e.Args[0], a.st.describe())
			}
			if (e.Kind == EvInvoke || e.Kind == EvDyn) && len(e.Args) > 0 {
				if v := strip(e.Args[0]); v.Op == "field" && v.Args[0].Op == "fold" {
					st := stateOf(a, in)
					c.require(knownNotNil(st, e, v) || st.notNil(v) || a.st.notNil(v), "an option is used only when it is there", a.name+" "+e.Name, e.Pos, "%s may be nil on the path where %s", v, a.st.describe())
				}
			}
			if e.Kind != EvAssert {
				return
			}
			want := e.Aux.(types.Type)
			st := stateOf(a, in)
			pre := st.flist
			if e.NFacts < len(pre) {
				pre = pre[:e.NFacts]
			}
			ok, why := r.assured(st, pre, a.st.events, e.Args[0], want, 0)
			c.require(ok, "a value has the type it is taken to have", a.name+" "+shortName(e.Name), e.Pos, "%s is taken to be a %s: %s; on the path where %s", e.Args[0], shortName(e.Name), why, a.st.describe())
		})
	}
}

// container returns what v is an element of.
func container(v *Term) *Term {
	switch v.Op {
	case "elem", "cur", "index":
		c := strip(v.Args[0])
		if c.Op == "ext" && len(c.Args) == 1 {
			c = strip(c.Args[0])
		}
		return c
	case "visited":
		return v
	}
	return nil
}

func isSet(m map[string]bool, want types.Type) (bool, string) {
	for k := range m {
		if k != typeName(want) {
			return false, "it may be " + shortName(k)
		}
	}
	return len(m) > 0, "nothing of this type is ever put there"
}

// assured tells whether v has the type want.
func (r *crashRoles) assured(s *State, pre []Fact, events []*Event, v *Term, want types.Type, d int) (bool, string) {
	x := strip(v)
	if wi, ok := want.Underlying().(*types.Interface); ok {
		if x.Type != nil && types.IsInterface(x.Type) && types.Implements(x.Type, wi) {
			return true, ""
		}
		return false, "it may have another type"
	}
	if v.Op == "iface" {
		if t, ok := v.Aux.(types.Type); ok && types.Identical(t, want) {
			return true, ""
		}
	}
	for _, f := range pre {
		if t, ok := f.T.Aux.(types.Type); ok && f.V && f.T.Op == "istype" && strip(f.T.Args[0]) == x && types.Identical(t, want) {
			return true, ""
		}
	}
	present := false
	for _, f := range pre {
		if f.T.Op == "eq" && !f.V && (f.T.Args[0] == tNil && strip(f.T.Args[1]) == x || f.T.Args[1] == tNil && strip(f.T.Args[0]) == x) {
			present = true
		}
	}
	if d > 4 {
		return false, "it is not known where it comes from"
	}
	switch x.Op {
	case "lookup", "rval":
		m := strip(x.Args[0])
		if x.Op == "rval" {
			m = strip(m.Args[0])
		} else {
			in := present
			for _, f := range pre {
				in = in || f.V && f.T.Op == "in" && strip(f.T.Args[0]) == m && same(f.T.Args[1], x.Args[1])
			}
			if k := x.Args[1]; k.Op == "rkey" && strip(k.Args[0].Args[0]) == m {
				in = true
			}
			if !in {
				return false, "it may be missing in " + m.String()
			}
		}
		if _, k := fieldRead(m); k != "" {
			if m.Op != "makemap" {
				ok, why := isSet(r.maps[k], want)
				return ok, why
			}
		}
		if m.Op == "makemap" {
			types_ := map[string]bool{}
			why := ""
			each(events, func(e *Event, in []*Seg) {
				if e.Kind == EvMapSet && strip(e.Args[0]) == m {
					st := s
					if len(in) > 0 {
						st = in[len(in)-1].St
					}
					if t := dynType(st, e.Args[2]); t != nil {
						types_[typeName(t)] = true
					} else if ok, w := r.assured(st, st.flist, events, e.Args[2], want, d+1); ok {
						types_[typeName(want)] = true
					} else {
						why = w
						types_["a value of an unknown type"] = true
					}
				}
			})
			ok, w := isSet(types_, want)
			if why != "" {
				w = why
			}
			return ok, w
		}
		return false, "it is not known where it comes from"
	case "gread":
		kind := ""
		switch gname(x) {
		case "Node":
			kind = "node"
		case "Edge", "WeightedEdge", "EdgeBetween", "WeightedEdgeBetween":
			kind = "edge"
		}
		if kind == "" {
			return false, "it comes from " + gname(x)
		}
		if !present && !r.neighbours(x, events) {
			return false, "it may be missing"
		}
		ok, why := isSet(r.members[kind], want)
		return ok, why
	case "visited":
		ok, why := isSet(r.members["node"], want)
		return ok, why
	case "pure":
		if x.Str == "From" || x.Str == "To" {
			// the ends of an edge of the module
			for _, k := range []string{"node"} {
				if ok, _ := isSet(r.members[k], want); ok && (isElem(container(strip(x.Args[0])), "Edges") || strip(x.Args[0]).Op == "gread") {
					return true, ""
				}
			}
		}
	}
	if c := container(x); c != nil {
		switch {
		case isElem(c, "Edges"):
			ok, why := isSet(r.members["edge"], want)
			return ok, why
		case c.Op == "gread" && (gname(c) == "Nodes" || gname(c) == "From" || gname(c) == "To"):
			ok, why := isSet(r.members["node"], want)
			return ok, why
		}
	}
	return false, "it is not known where it comes from"
}

func isElem(c *Term, suffix string) bool {
	return c != nil && c.Op == "gread" && strings.HasSuffix(gname(c), suffix)
}

// keyOfElem returns k for m[k].ID() where the local map m has every value under its ID.
func keyOfElem(t *Term, events []*Event) *Term {
	p, ok := isPure(t, "ID")
	if !ok {
		return t
	}
	p = strip(p)
	if p.Op != "lookup" || strip(p.Args[0]).Op != "makemap" {
		return t
	}
	m, all := strip(p.Args[0]), true
	each(events, func(e *Event, _ []*Seg) {
		if e.Kind == EvMapSet && strip(e.Args[0]) == m {
			all = all && same(e.Args[1], pureOf("ID", e.Args[2]))
		}
	})
	if !all {
		return t
	}
	return p.Args[1]
}

// neighbours: the edge asked for joins a node with one of its neighbours.
func (r *crashRoles) neighbours(x *Term, events []*Event) bool {
	if len(x.Args) != 3 {
		return false
	}
	p, ok := isPure(keyOfElem(x.Args[2], events), "ID")
	if !ok {
		return false
	}
	c := container(strip(p))
	return c != nil && c.Op == "gread" && (gname(c) == "From" || gname(c) == "To") && same(c.Args[1], x.Args[1]) && strip(c.Args[0]) == strip(x.Args[0])
}

func init() {
	register(&Check{
		ID: "C32", Title: "foreign and missing values do not crash an operation",
		Rules: "no path of an exported operation ends in a panic, a call through a nil interface or a nil dereference, and an unchecked type assertion is only made on a value which is present and was put where it comes from with this type",
		Min:   20,
		Run:   func(c *Ctx) { c.crashCheck() },
	})
}
