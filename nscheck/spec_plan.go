package main

import (
	"go/types"
)

// The plan: a map of resources by the text of their UID.

func (c *Ctx) planCheck() {
	n := c.named("pkg/plan/simple", "Simple")
	if !c.require(n != nil, "anchor", "plan/simple.Simple", "", "the plan does not exist any more") {
		return
	}
	idx := ""
	if st, ok := n.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if m, ok := st.Field(i).Type().Underlying().(*types.Map); ok {
				if b, ok := m.Key().Underlying().(*types.Basic); ok && b.Kind() == types.String && hasMethod(m.Elem(), "Kind") {
					idx = fieldKey(n, i)
				}
			}
		}
	}
	if !c.require(idx != "", "anchor", "plan/simple.Simple index", "", "the plan has no map of resources by UID text any more") {
		return
	}
	isIdx := func(p *Term) func(*Term) bool {
		return func(t *Term) bool {
			b, k := fieldRead(strip(t))
			return b != nil && k == idx && (b == p || strip(b) == p)
		}
	}
	// what is known about the entry key of the index
	has := func(o *State, p, key *Term) int {
		for _, f := range o.flist {
			if f.T.Op == "in" && isIdx(p)(f.T.Args[0]) && same(f.T.Args[1], key) {
				if f.V {
					return present
				}
				return absent
			}
			if f.T.Op == "eq" && f.V {
				for j := 0; j < 2; j++ {
					x, z := strip(f.T.Args[j]), f.T.Args[1-j]
					if x.Op == "len" && z == intT(0) && isIdx(p)(x.Args[0]) {
						return absent
					}
					if x.Op == "lookup" && z == tNil && isIdx(p)(x.Args[0]) && same(x.Args[1], key) {
						return absent
					}
				}
			}
			if f.T.Op == "eq" && !f.V {
				for j := 0; j < 2; j++ {
					x, z := strip(f.T.Args[j]), f.T.Args[1-j]
					if x.Op == "lookup" && z == tNil && isIdx(p)(x.Args[0]) && same(x.Args[1], key) {
						return present
					}
				}
			}
		}
		return unknown
	}
	noChange := func(o *State, cn string) {
		for _, e := range changes(o.events) {
			c.fail("reading the plan changes nothing", cn, e.Pos, "%s", e)
		}
		c.require(true, "reading the plan changes nothing", cn, "", "")
	}
	const pre = "plan/simple.Simple."
	cn := pre + "Add"
	if f := c.method(n, "Add"); c.opParams(f, 3, cn) {
		p, r := param(f, 0), param(f, 2)
		for _, o := range c.paths(f) {
			if !c.returned(o, 1, cn) {
				continue
			}
			sc := pathScope(o)
			hits := 0
			for _, e := range changes(o.events) {
				ok := e.Kind == EvMapSet && isIdx(p)(e.Args[0]) && sameStr(e.Args[1], uidStr(r)) && same(e.Args[2], r)
				if ok {
					hits++
				}
				c.require(ok, "adding stores the resource under its UID and changes nothing else", cn, e.Pos, "%s", e)
			}
			c.require(hits == 1 && nilErr(o.ret[0], o), "an added resource is in the plan", cn, sc.pos(), "returns %s after %d writes on the path where %s", o.ret[0], hits, o.describe())
		}
	}
	cn = pre + "Get"
	if f := c.method(n, "Get"); c.opParams(f, 3, cn) {
		p, key := param(f, 0), pureOf("String", param(f, 2))
		for _, o := range c.paths(f) {
			if !c.returned(o, 2, cn) {
				continue
			}
			sc := pathScope(o)
			noChange(o, cn)
			switch has(o, p, key) {
			case present:
				v := strip(o.ret[0])
				c.require(v.Op == "lookup" && isIdx(p)(v.Args[0]) && same(v.Args[1], key) && nilErr(o.ret[1], o), "Get returns the resource with the UID", cn, sc.pos(), "returns %s, %s", o.ret[0], o.ret[1])
			case absent:
				c.require(nilErr(o.ret[0], o) && c.errIsA(o, o.ret[1], "pkg/plan", "ErrResourceNotFound"), "a missing resource is an error", cn, sc.pos(), "returns %s, %s", o.ret[0], o.ret[1])
			default:
				c.fail("Get looks the UID up", cn, sc.pos(), "it is not known whether the resource is in the plan on the path where %s", o.describe())
			}
		}
	}
	cn = pre + "GetAll"
	if f := c.method(n, "GetAll"); c.opParams(f, 2, cn) {
		p := param(f, 0)
		for _, o := range c.paths(f) {
			if !c.returned(o, 2, cn) {
				continue
			}
			sc := pathScope(o)
			noChange(o, cn)
			ps, ok := sc.parts(o.ret[0])
			good := ok && len(ps) == 1 && ps[0].Kind == "each" && ps[0].Loop.Over != nil && isIdx(p)(ps[0].Loop.Over) && elementsOf(ps, ps[0].Loop.Over) && sc.loopDone(ps[0].Loop)
			if ok && len(ps) == 0 {
				for _, f := range o.flist {
					if f.V && f.T.Op == "eq" {
						for j := 0; j < 2; j++ {
							if x := strip(f.T.Args[j]); x.Op == "len" && f.T.Args[1-j] == intT(0) && isIdx(p)(x.Args[0]) {
								good = true
							}
						}
					}
				}
			}
			c.require(good && nilErr(o.ret[1], o), "GetAll returns every resource once", cn, sc.pos(), "returns %s, %s on the path where %s", o.ret[0], o.ret[1], o.describe())
		}
	}
	cn = pre + "Delete"
	if f := c.method(n, "Delete"); c.opParams(f, 3, cn) {
		p, key := param(f, 0), pureOf("String", param(f, 2))
		for _, o := range c.paths(f) {
			if !c.returned(o, 1, cn) {
				continue
			}
			sc := pathScope(o)
			hits := 0
			for _, e := range changes(o.events) {
				ok := e.Kind == EvMapDel && isIdx(p)(e.Args[0]) && same(e.Args[1], key)
				if ok {
					hits++
				}
				c.require(ok, "deleting removes the resource and changes nothing else", cn, e.Pos, "%s", e)
			}
			c.require(nilErr(o.ret[0], o) && (hits > 0 || has(o, p, key) == absent), "a deleted resource is not in the plan", cn, sc.pos(), "returns %s after %d removals on the path where %s", o.ret[0], hits, o.describe())
		}
	}
	cn = "plan/simple.NewSimple"
	if f := c.fn("pkg/plan/simple", "NewSimple"); c.opParams(f, 0, cn) {
		for _, o := range c.paths(f) {
			if !c.returned(o, 2, cn) {
				continue
			}
			obj := strip(o.ret[0])
			v := o.cells[mk("faddr", idx, obj)]
			c.require(nilErr(o.ret[1], o) && obj.Op == "alloc" && (v == nil || o.isNil(v) || strip(v).Op == "makemap" && !written(o, strip(v))), "a new plan is empty", cn, fnPos(f), "returns %s, %s", o.ret[0], o.ret[1])
		}
	}
	// only these operations touch the index
	for _, f := range c.exportedMethods(n) {
		switch f.Name() {
		case "Add", "Get", "GetAll", "Delete":
			continue
		}
		cn := pre + f.Name()
		for _, o := range c.paths(f) {
			for _, e := range changes(o.events) {
				bad := (e.Kind == EvMapSet || e.Kind == EvMapDel) && isIdx(param(f, 0))(e.Args[0]) || e.Kind == EvStore && e.Args[0].Op == "faddr" && e.Args[0].Str == idx
				c.require(!bad, "other operations leave the plan alone", cn, e.Pos, "%s", e)
			}
		}
	}
}

func init() {
	register(&Check{
		ID: "C31", Title: "the plan is the set of the added and not deleted resources",
		Rules: "each path of every operation is matched with the read or write of the index entry of the UID it may do",
		Min:   9,
		Run:   func(c *Ctx) { c.planCheck(); c.completeIn("pkg/plan/simple") },
	})
}
