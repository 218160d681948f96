package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What an operation is given belongs to its caller.

// given returns the parameter of fn, other than the receiver, the object at or
// behind t is reached from.
func given(fn *ssa.Function, t *Term) *ssa.Parameter {
	for d := 0; t != nil && d < 40; d++ {
		t = strip(t)
		switch t.Op {
		case "param":
			for i, p := range fn.Params {
				if t == paramTerm(fn, i) && (i > 0 || fn.Signature.Recv() == nil) {
					return p
				}
			}
			return nil
		case "faddr", "iaddr", "load", "field", "elem", "lookup", "slice", "pure", "rval", "rkey", "range", "assert", "conv":
			if len(t.Args) == 0 {
				return nil
			}
			t = t.Args[0]
		default:
			return nil
		}
	}
	return nil
}

// existing tells whether t is read from something which was there before.
func existing(t *Term) bool {
	switch t = strip(t); t.Op {
	case "load", "field", "elem", "lookup", "rval", "pure", "param":
		return true
	}
	return false
}

// target tells whether a parameter is there to be written to: a value of any type
// (what Unmarshal fills in), or a pointer to options.
func target(p *ssa.Parameter) bool {
	if i, ok := p.Type().Underlying().(*types.Interface); ok && i.NumMethods() == 0 {
		return true
	}
	if _, ok := p.Type().Underlying().(*types.Pointer); ok {
		if n := namedOf(p.Type()); n != nil && strings.HasSuffix(n.Obj().Name(), "Options") {
			return true
		}
	}
	return false
}

// isAttrs tells whether t is a set of attributes.
func (c *Ctx) isAttrs(t types.Type) bool {
	n := c.named("pkg/attrs", "Attrs")
	if n == nil || t == nil {
		return false
	}
	i, ok := n.Underlying().(*types.Interface)
	return ok && (types.Implements(t, i) || types.Implements(types.NewPointer(t), i))
}

// argsKept: no path of an exported function changes what it was given.
func (c *Ctx) argsKept() {
	for _, fn := range c.roots() {
		if fn.Synthetic != "" || fn.Object() == nil || !fn.Object().Exported() || strings.Contains(fn.String(), modPath+"/pkg/internal") {
			continue
		}
		if len(fn.Params) > 0 {
			c.argsKeptBy(fn)
		}
	}
}

// argsKeptBy: no path of fn changes what fn is given.
func (c *Ctx) argsKeptBy(fn *ssa.Function) {
	c.inPlace(fn)
	for _, o := range c.rootPaths(fn) {
		bad := false
		each(o.events, func(e *Event, _ []*Seg) {
			if bad || len(e.Args) == 0 {
				return
			}
			var p *ssa.Parameter
			switch e.Kind {
			case EvStore, EvMapSet, EvMapDel, EvCopy, EvInit:
				if e.Kind == EvStore && rootOf(e.Args[0]) == e.Args[0] && e.Args[0].Op != "param" {
					return
				}
				p = given(fn, e.Args[0])
			case EvInvoke:
				if e.Name != "Set" || !c.isAttrs(strip(e.Args[0]).Type) {
					return
				}
				if p = given(fn, e.Args[0]); p == nil && existing(e.Args[0]) {
					bad = true
					c.fail("attributes are set by their own Set only", shortFn(fn), e.Pos, "it sets an attribute of what was there before: %s", e)
					return
				}
			case EvExt:
				if strings.HasPrefix(e.Name, "sort.") {
					p = given(fn, e.Args[0])
				}
			}
			if p == nil || target(p) && e.Kind == EvStore {
				return
			}
			bad = true
			c.fail("what an operation is given stays as it is", shortFn(fn), e.Pos, "it changes %s: %s", p.Name(), e)
		})
		if !bad {
			c.require(true, "what an operation is given stays as it is", shortFn(fn), fnPos(fn), "")
		}
	}
}

// inPlace: no slice of a parameter is appended to, which would write over its elements.
func (c *Ctx) inPlace(fn *ssa.Function) {
	var from func(v ssa.Value, seen map[ssa.Value]bool) *ssa.Parameter
	from = func(v ssa.Value, seen map[ssa.Value]bool) *ssa.Parameter {
		if seen[v] {
			return nil
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				if p := from(e, seen); p != nil {
					return p
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return from(x.Call.Args[0], seen)
			}
		case *ssa.Slice:
			if x.High != nil && x.Max == nil {
				if p, ok := x.X.(*ssa.Parameter); ok {
					return p
				}
			}
			if x.Max == nil {
				return from(x.X, seen)
			}
		}
		return nil
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			x, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" {
				continue
			}
			if p := from(x.Call.Args[0], map[ssa.Value]bool{}); p != nil {
				c.fail("what an operation is given stays as it is", shortFn(fn), c.at(x.Pos()), "it writes over the elements of %s", p.Name())
			}
		}
	}
}

func init() {
	register(&Check{
		ID: "C41", Title: "Operations leave what they are given as it is",
		Rules: "no path of an exported function or method stores to memory, sets or deletes map elements, copies into or sorts a slice, appends to a part of a slice, or sets an attribute of what it reaches from an argument; no operation but Attrs.Set sets an attribute of an existing object",
		Min:   60,
		Run:   func(c *Ctx) { c.argsKept() },
	})
}
