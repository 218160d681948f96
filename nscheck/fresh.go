package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Which fields change after their object has been made known to others.

// mutableFields finds the fields which are stored to in objects others may know.
func (p *Program) mutableFields() {
	fr := &freshness{p: p, callers: map[*ssa.Function][]ssa.CallInstruction{}, taken: map[*ssa.Function]bool{}}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var static ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					if f := c.Common().StaticCallee(); f != nil {
						fr.callers[f] = append(fr.callers[f], c)
						static = c.Common().Value
					}
				}
				for _, o := range in.Operands(nil) {
					if f, ok := (*o).(*ssa.Function); ok && *o != static {
						fr.taken[f] = true
					}
				}
			}
		}
	}
	all := func(t types.Type) {
		var rec func(t types.Type)
		rec = func(t types.Type) {
			if s := structOf(t); s != nil {
				for i := 0; i < s.NumFields(); i++ {
					p.mutable[s.Field(i)] = true
					if _, ok := s.Field(i).Type().Underlying().(*types.Struct); ok {
						rec(s.Field(i).Type())
					}
				}
			}
		}
		rec(t)
	}
	// written marks the field at addr, and the structs it is in, as written by in.
	written := func(addr ssa.Value, in ssa.Instruction) {
		var chain []*types.Var
		for {
			fa, ok := addr.(*ssa.FieldAddr)
			if !ok {
				break
			}
			chain = append(chain, structOf(fa.X.Type()).Field(fa.Field))
			addr = fa.X
		}
		if fr.fresh(addr, in, 0) {
			return
		}
		for _, v := range chain {
			p.mutable[v] = true
		}
		if len(chain) > 0 {
			if _, ok := chain[0].Type().Underlying().(*types.Struct); ok {
				all(chain[0].Type())
			}
		}
	}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if _, ok := in.Addr.(*ssa.FieldAddr); ok {
						written(in.Addr, in)
						continue
					}
					// storing a whole struct through a pointer writes all its fields
					if structOf(in.Addr.Type()) != nil && !fr.fresh(in.Addr, in, 0) {
						all(in.Addr.Type())
					}
				case ssa.CallInstruction:
					// who is given the address of a field can write it
					if f := in.Common().StaticCallee(); f != nil && f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), "sync") {
						continue
					}
					for _, a := range in.Common().Args {
						if fa, ok := a.(*ssa.FieldAddr); ok && !syncType(derefType(fa.Type())) {
							written(fa, in)
						}
					}
				}
			}
		}
	}
}

// syncType tells whether t is a type of the sync packages.
func syncType(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "sync")
}

// freshness tells which objects are known to nobody but the function which makes them.
type freshness struct {
	p       *Program
	callers map[*ssa.Function][]ssa.CallInstruction
	taken   map[*ssa.Function]bool // used as a value
}

// fresh tells whether v is an object which no one else knows before at is executed.
func (f *freshness) fresh(v ssa.Value, at ssa.Instruction, d int) bool {
	if d > 5 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		return !f.leaks(v, at, d)
	case *ssa.Call:
		fn := x.Call.StaticCallee()
		return fn != nil && f.freshResult(fn, 0, d) && !f.leaks(v, at, d)
	case *ssa.Extract:
		c, ok := x.Tuple.(*ssa.Call)
		if !ok {
			return false
		}
		fn := c.Call.StaticCallee()
		return fn != nil && f.freshResult(fn, x.Index, d) && !f.leaks(v, at, d)
	case *ssa.Parameter:
		fn := x.Parent()
		if f.taken[fn] || len(f.callers[fn]) == 0 || exportedFunc(fn) || f.leaks(v, at, d) {
			return false
		}
		for i, p := range fn.Params {
			if p != x {
				continue
			}
			for _, c := range f.callers[fn] {
				if _, ok := c.(*ssa.Call); !ok || !f.fresh(c.Common().Args[i], c, d+1) {
					return false
				}
			}
			return true
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if _, ok := e.(*ssa.Phi); ok || !f.fresh(e, at, d+1) {
				return false
			}
		}
		return !f.leaks(v, at, d)
	}
	return false
}

func exportedFunc(fn *ssa.Function) bool {
	o := fn.Object()
	return o != nil && o.Exported()
}

// freshResult tells whether every value fn returns at index i is a fresh object.
func (f *freshness) freshResult(fn *ssa.Function, i, d int) bool {
	if fn.Blocks == nil || !inModule(fn) {
		return false
	}
	n := 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			r, ok := in.(*ssa.Return)
			if !ok || i >= len(r.Results) {
				continue
			}
			if c, ok := r.Results[i].(*ssa.Const); ok && c.IsNil() {
				continue
			}
			if !f.fresh(r.Results[i], r, d+1) {
				return false
			}
			n++
		}
	}
	return n > 0
}

// leaks tells whether v becomes known to others before at.
func (f *freshness) leaks(v ssa.Value, at ssa.Instruction, d int) bool {
	if v.Referrers() == nil {
		return true
	}
	for _, r := range *v.Referrers() {
		if r != at && !before(r, at, v) {
			continue
		}
		switch x := r.(type) {
		case *ssa.FieldAddr, *ssa.UnOp, *ssa.DebugRef, *ssa.BinOp, *ssa.Return, *ssa.Phi, *ssa.If, *ssa.IndexAddr:
			if p, ok := r.(*ssa.Phi); ok && d < 5 && f.leaks(p, at, d+1) {
				return true
			}
		case *ssa.Store:
			if x.Val == v {
				return true
			}
		case *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.ChangeType:
			if d >= 5 || f.leaks(r.(ssa.Value), at, d+1) {
				return true
			}
		case *ssa.Call:
			if r == at {
				continue
			}
			fn := x.Call.StaticCallee()
			if fn == nil || !inModule(fn) || fn.Blocks == nil || d >= 5 {
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() != "append" {
					continue
				}
				if f.option(x, v) {
					continue
				}
				return true
			}
			for i, a := range x.Call.Args {
				if a == v && (i >= len(fn.Params) || f.leaks(fn.Params[i], nil, d+1)) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

// option tells whether the call passes v to a function value: options set fields.
func (f *freshness) option(c *ssa.Call, v ssa.Value) bool {
	return !c.Call.IsInvoke() && c.Call.StaticCallee() == nil && c.Call.Signature().Results().Len() == 0
}

// before tells whether a can be executed before b, with v not made anew in between; everything is before nil.
func before(a, b ssa.Instruction, v ssa.Value) bool {
	var def *ssa.BasicBlock
	if in, ok := v.(ssa.Instruction); ok {
		def = in.Block()
	}
	if b == nil || a.Parent() != b.Parent() {
		return true
	}
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var reach func(x *ssa.BasicBlock) bool
	reach = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == def {
				continue
			}
			if s == b.Block() {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if reach(s) {
					return true
				}
			}
		}
		return false
	}
	return reach(a.Block())
}
