package main

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A slice which is stored once per iteration of a loop has to have a backing
// array of its own: one which is made before the loop, or which the previous
// iteration stored as well, is overwritten by the next iteration.

// sharedBuffer is a slice stored in a loop whose array outlives the iteration.
type sharedBuffer struct {
	at  ssa.Instruction
	why string
}

type sliceSink struct {
	at  ssa.Instruction
	val ssa.Value
	dst ssa.Value // what tells the destinations of two iterations apart
}

// sharedBuffers lists such stores in fn and the functions it calls.
func (p *Program) sharedBuffers(fn *ssa.Function) []sharedBuffer {
	var r []sharedBuffer
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 || !inModule(f) {
			return
		}
		seen[f] = true
		forest := buildForest(f)
		for _, s := range sliceSinks(f, 0) {
			for _, l := range forest.byHeader {
				if !l.blocks[s.at.Block()] || !definedIn(l, s.dst) {
					continue
				}
				if why := outlives(s.val, s.at, l); why != "" {
					r = append(r, sharedBuffer{s.at, why})
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					visit(c.Common().StaticCallee())
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					visit(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	visit(fn)
	return r
}

func definedIn(l *natLoop, v ssa.Value) bool {
	if v == nil {
		return true
	}
	if in, ok := v.(ssa.Instruction); ok && in.Block() != nil {
		return l.blocks[in.Block()]
	}
	return false
}

// sliceSinks lists where f stores slices, by itself or in a function it calls.
func sliceSinks(f *ssa.Function, d int) []sliceSink {
	if d > 3 {
		return nil
	}
	var r []sliceSink
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if isSliceType(x.Value.Type()) {
					r = append(r, sliceSink{x, x.Value, x.Key})
				}
			case *ssa.Send:
				if isSliceType(x.X.Type()) {
					r = append(r, sliceSink{x, x.X, nil})
				}
			case *ssa.Store:
				if !isSliceType(x.Val.Type()) {
					continue
				}
				switch a := x.Addr.(type) {
				case *ssa.IndexAddr:
					var dst ssa.Value = a.Index
					if al, ok := a.X.(*ssa.Alloc); ok {
						dst = al // the arguments of append
					}
					r = append(r, sliceSink{x, x.Val, dst})
				case *ssa.FieldAddr:
					r = append(r, sliceSink{x, x.Val, a.X})
				}
			case ssa.CallInstruction:
				g := x.Common().StaticCallee()
				if g == nil || !inModule(g) || len(g.Blocks) == 0 {
					continue
				}
				for _, s := range sliceSinks(g, d+1) {
					for i, p := range g.Params {
						if i >= len(x.Common().Args) || !sameBuffer(s.val, p) {
							continue
						}
						dst := s.dst
						for j, q := range g.Params {
							if s.dst == ssa.Value(q) {
								dst = x.Common().Args[j]
							}
						}
						if dst == s.dst && dst != nil && dst.Parent() != f {
							dst = nil
						}
						r = append(r, sliceSink{in, x.Common().Args[i], dst})
					}
				}
			}
		}
	}
	return r
}

// buffers lists where the array of the slice v may come from.
func buffers(v ssa.Value, seen map[ssa.Value]bool, f func(v ssa.Value, full bool), direct bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Slice:
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			buffers(x.X, seen, f, false)
			return
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			buffers(e, seen, f, direct)
		}
		f(x, direct)
		return
	case *ssa.ChangeType:
		buffers(x.X, seen, f, direct)
		return
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			buffers(x.Call.Args[0], seen, f, direct)
			return
		}
		if g := x.Call.StaticCallee(); g != nil && inModule(g) && len(g.Blocks) > 0 && g.Signature.Results().Len() == 1 {
			inner := map[ssa.Value]bool{}
			for _, b := range g.Blocks {
				rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok {
					continue
				}
				buffers(rt.Results[0], inner, func(v ssa.Value, direct bool) {
					if p, ok := v.(*ssa.Parameter); ok {
						for i, q := range g.Params {
							if q == p {
								buffers(x.Call.Args[i], seen, f, direct)
							}
						}
					}
				}, direct)
			}
			return
		}
	}
	f(v, direct)
}

// sameBuffer tells whether the array of v may be the one of p.
func sameBuffer(v, p ssa.Value) bool {
	hit := false
	buffers(v, map[ssa.Value]bool{}, func(o ssa.Value, _ bool) { hit = hit || o == p }, true)
	return hit
}

// outlives tells why the array of v, stored at at in the loop l, is not made
// in the same iteration.
func outlives(v ssa.Value, at ssa.Instruction, l *natLoop) string {
	why := ""
	var check func(v ssa.Value)
	check = func(v ssa.Value) {
		buffers(v, map[ssa.Value]bool{}, func(o ssa.Value, direct bool) {
			switch x := o.(type) {
			case *ssa.Phi:
				if x.Block() != l.header {
					return
				}
				for i, e := range x.Edges {
					if !l.blocks[x.Block().Preds[i]] {
						continue
					}
					// the value of the previous iteration
					buffers(e, map[ssa.Value]bool{}, func(q ssa.Value, _ bool) {
						if q == ssa.Value(x) && (e != ssa.Value(x) || v != ssa.Value(x)) {
							why = "the previous iteration stored a slice of the same array"
						}
					}, true)
				}
			case *ssa.MakeSlice:
				if !l.blocks[x.Block()] && v != o && !zeroConst(x.Cap) {
					why = "the array is made once for all iterations"
				}
			case *ssa.Slice:
				// an array: a literal or a make of constant size
				if al, ok := x.X.(*ssa.Alloc); ok && !l.blocks[al.Block()] && v != o && !zeroArray(al.Type()) {
					why = "the array is made once for all iterations"
				}
			case *ssa.UnOp:
				al, ok := x.X.(*ssa.Alloc)
				if !ok || l.blocks[al.Block()] {
					return
				}
				grown, reset := false, false
				for _, ref := range *al.Referrers() {
					st, ok := ref.(*ssa.Store)
					if !ok || !l.blocks[st.Block()] {
						continue
					}
					own := false
					buffers(st.Val, map[ssa.Value]bool{}, func(q ssa.Value, _ bool) {
						if u, ok := q.(*ssa.UnOp); ok && u.X == ssa.Value(al) {
							own = true
						}
					}, true)
					if own {
						grown = true
					} else if st.Block().Dominates(at.Block()) {
						reset = true
					}
				}
				if grown && !reset {
					why = "the previous iteration stored a slice of the same array"
				}
			}
		}, true)
	}
	check(v)
	return why
}

func zeroConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return false
	}
	n, ok := constant.Int64Val(constant.ToInt(c.Value))
	return ok && n == 0
}

func zeroArray(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	a, ok := p.Elem().Underlying().(*types.Array)
	return ok && a.Len() == 0
}

// ownBuffers requires that the slices fn stores in loops do not share arrays.
func (c *Ctx) ownBuffers(fn *ssa.Function, rule, construct string) {
	sb := c.sharedBuffers(fn)
	for _, s := range sb {
		c.fail(rule, construct, posOf(s.at), "%s", s.why)
	}
	if len(sb) == 0 {
		c.require(true, rule, construct, fnPos(fn), "")
	}
}
