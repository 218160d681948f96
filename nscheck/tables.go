package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// table is a package-level map whose content is known: it is filled with
// constants where it is declared and only read afterwards.
type table map[*Term]*Term

// tablesOf returns the tables of the module by the name of the variable.
func tablesOf(p *Program) map[string]table {
	out := map[string]table{}
	bad := map[*ssa.Global]bool{}
	made := map[*ssa.Global]*ssa.MakeMap{}
	for _, f := range p.funcs {
		scanTables(f, bad, made)
	}
	for _, sp := range p.byPth {
		if f := sp.Func("init"); f != nil {
			scanTables(f, bad, made)
		}
	}
	for g, mm := range made {
		if bad[g] || token.IsExported(g.Name()) {
			continue
		}
		if t := tableOf(mm); t != nil {
			out[g.RelString(nil)] = t
		}
	}
	return out
}

func scanTables(f *ssa.Function, bad map[*ssa.Global]bool, made map[*ssa.Global]*ssa.MakeMap) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				g, ok := (*op).(*ssa.Global)
				if !ok {
					continue
				}
				if _, ok := derefType(g.Type()).Underlying().(*types.Map); !ok {
					continue
				}
				switch x := in.(type) {
				case *ssa.Store:
					mm, ok := x.Val.(*ssa.MakeMap)
					if !ok || x.Addr != g || made[g] != nil && made[g] != mm || f.Name() != "init" {
						bad[g] = true
						continue
					}
					made[g] = mm
				case *ssa.UnOp:
					for _, u := range *x.Referrers() {
						switch y := u.(type) {
						case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
						case *ssa.Call:
							if b, ok := y.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
								bad[g] = true
							}
						default:
							bad[g] = true
						}
					}
				case *ssa.DebugRef:
				default:
					bad[g] = true
				}
			}
		}
	}
}

func tableOf(mm *ssa.MakeMap) table {
	t := table{}
	stores := 0
	for _, u := range *mm.Referrers() {
		switch x := u.(type) {
		case *ssa.MapUpdate:
			k, ok := x.Key.(*ssa.Const)
			v, vok := x.Value.(*ssa.Const)
			if !ok || !vok || x.Map != mm || x.Block() != mm.Block() {
				return nil
			}
			t[constTerm(k.Value, k.Type())] = constTerm(v.Value, v.Type())
		case *ssa.Store:
			if stores++; stores > 1 {
				return nil
			}
		case *ssa.DebugRef:
		default:
			return nil
		}
	}
	return t
}

// find returns the element of key k; known is false when it depends on more
// than the table.
func (t table) find(k *Term, vt types.Type) (v, in *Term, known bool) {
	if !isConst(k) {
		return nil, nil, false
	}
	if v := t[k]; v != nil {
		return v, tTrue, true
	}
	return zeroTerm(vt), tFalse, true
}
