package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// swallowCheck: an operation one of whose parts has failed does not succeed.
func (c *Ctx) swallowCheck() {
	c.swallowPaths()
	// once more, with the exported operations of the module as the parts
	c.m.opaque = func(fn *ssa.Function) bool {
		if fn.Object() == nil || !fn.Object().Exported() || fn.Parent() != nil {
			return false
		}
		r := fn.Signature.Results()
		return r.Len() > 0 && isErrorType(r.At(r.Len()-1).Type())
	}
	defer func() { c.m.opaque = nil }()
	c.cache = map[string][]*State{}
	c.swallowPaths()
}

// mayFail tells whether the called function may return an error.
func (c *Ctx) mayFail(e *Event, memo map[*ssa.Function]bool) bool {
	f, ok := e.Aux.(*ssa.Function)
	return !ok || c.canFail(f, memo)
}

// canFail tells whether a function of the module may return an error.
func (c *Ctx) canFail(fn *ssa.Function, memo map[*ssa.Function]bool) bool {
	if r, ok := memo[fn]; ok {
		return r
	}
	memo[fn] = true // recursion
	outs := c.rootPaths(fn)
	r := len(outs) == 0
	for _, o := range outs {
		if o.status != stRet || len(o.ret) == 0 || o.isNil(o.ret[len(o.ret)-1]) {
			continue
		}
		feasible := true
		for _, e := range o.events {
			if f, ok := e.Aux.(*ssa.Function); ok && e.Kind == EvCall && len(e.Res) > 0 && !c.canFail(f, memo) {
				if x := e.Res[len(e.Res)-1]; o.notNil(x) || same(x, o.ret[len(o.ret)-1]) {
					feasible = false
				}
			}
		}
		r = r || feasible
	}
	memo[fn] = r
	return r
}

func (c *Ctx) swallowPaths() {
	memo := map[*ssa.Function]bool{}
	for _, a := range c.activities() {
		sig := a.fn.Signature.Results()
		if a.st.status != stRet || a.gor || sig.Len() == 0 || !isErrorType(sig.At(sig.Len()-1).Type()) {
			continue
		}
		ret := a.st.ret[sig.Len()-1]
		each(a.st.events, func(e *Event, in []*Seg) {
			st := a.st
			if len(in) > 0 {
				st = in[len(in)-1].St
			}
			for i, x := range e.Res {
				if x == nil || i < len(e.Res)-1 || !isErrorType(x.Type) && !isErrorType(strip(x).Type) && e.Kind != EvDropped {
					continue
				}
				if ext := e.Kind == EvExt && strings.HasPrefix(e.Name, "errors.") || e.Name == "fmt.Errorf" || c.asksContext(e); ext {
					continue
				}
				ok, why := true, ""
				switch {
				case st.isNil(x):
				case e.Kind == EvCall && !c.mayFail(e, memo):
				case len(in) == 0:
					ok = a.st.notNil(ret) || termHas(strip(ret), func(t *Term) bool { return strip(t) == strip(x) }) || tolerated(a.st, x)
					why = "the operation can succeed although it has failed"
				default:
					ok = tolerated(st, x) || a.st.notNil(ret) && e.Kind == EvDropped
					why = "the loop goes on although it has failed"
					if !ok && kept(in[len(in)-1], x) {
						ok = len(in) > 1 || handedOn(a.st, in[0], x, ret)
						why = "the operation can succeed although it has failed in a loop"
					}
				}
				c.require(ok, "a failure is not swallowed", a.name+" "+e.Kind+" "+shortName(e.Name), e.Pos, "the error %s of %s is lost: %s; on the path where %s", x, e.Name, why, st.describe())
			}
		})
	}
}

// asksContext: the error of a context is a state and not a failure.
func (c *Ctx) asksContext(e *Event) bool {
	return e.Kind == EvInvoke && e.Name == "Err" || strings.HasPrefix(e.Name, "context.")
}

// tolerated: the error is known to be one of the errors of the module which
// tell that something is missing.
func tolerated(s *State, x *Term) bool {
	for _, f := range s.flist {
		if f.V && f.T.Op == "errIs" && same(f.T.Args[0], x) {
			return true
		}
	}
	return false
}

// kept: the iteration hands the error on to the code after the loop.
func kept(g *Seg, x *Term) bool {
	x = strip(x)
	has := func(v *Term) bool { return v != nil && termHas(strip(v), func(t *Term) bool { return strip(t) == x }) }
	for _, v := range g.Phi {
		if has(v) {
			return true
		}
	}
	for a, v := range g.St.cells {
		if has(v) {
			return true
		}
		// an earlier failure is reported instead
		if v != nil && errorCell(a) && strip(v).Op == "loopvar" && g.St.notNil(v) {
			return true
		}
	}
	return false
}

// handedOn tells whether the operation fails when the loop of the iteration g,
// which has run to its end, has left the error x in a variable.
func handedOn(st *State, g *Seg, x, ret *Term) bool {
	if st.notNil(ret) {
		return true
	}
	x = strip(x)
	has := func(v *Term) bool { return v != nil && termHas(strip(v), func(t *Term) bool { return strip(t) == x }) }
	for _, e := range st.events {
		if e.Kind != EvLoopEnd || !e.Normal || e.Loop == nil || !hasSeg(e.Loop.Segs, g) {
			continue
		}
		l := e.Loop
		for phi, next := range l.PhiNext {
			for i, n := range next {
				if i < len(l.Segs) && l.Segs[i] == g && has(n) && phi.Type != nil && isErrorType(phi.Type) && !st.isNil(phi) &&
					!tolerated(st, phi) && !termHas(strip(ret), func(t *Term) bool { return t == phi }) {
					return false
				}
			}
		}
		for a, v := range g.St.cells {
			if !has(v) || !errorCell(a) || rootOf(a) != a {
				continue
			}
			// the variable as some loop has left it
			left := func(t *Term) bool { return t.Op == "loopvar" && len(t.Args) > 0 && t.Args[0] == a }
			if strip(ret) != nil && termHas(strip(ret), left) {
				continue
			}
			cur := mkT(derefType(a.Type), "loopvar", l.ID, a)
			done := st.isNil(cur) || tolerated(st, cur)
			for _, f := range st.flist {
				if f.V && f.T.Op == "eq" && (left(strip(f.T.Args[0])) || left(strip(f.T.Args[1]))) {
					done = true
				}
			}
			if !done {
				return false
			}
		}
	}
	return true
}

func hasSeg(gs []*Seg, g *Seg) bool {
	for _, x := range gs {
		if x == g {
			return true
		}
	}
	return false
}

// errorCell tells whether the cell a holds an error.
func errorCell(a *Term) bool { return a.Type != nil && isErrorType(derefType(a.Type)) }

func init() {
	register(&Check{
		ID: "C30", Title: "no failure is swallowed",
		Rules: "on every path of every exported operation which returns an error: when a call of a supplied implementation or of a library has failed (or has not been looked at), the operation fails too, unless the error is known to be a tolerated one",
		Min:   20,
		Run:   func(c *Ctx) { c.swallowCheck() },
	})
}
