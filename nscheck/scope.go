package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Scope is a piece of a path a rule is applied to: a whole path or an
// iteration of a loop on it.
type Scope struct {
	St     *State
	Events []*Event
}

func pathScope(o *State) *Scope { return &Scope{St: o, Events: o.events} }

func segScope(g *Seg) *Scope { return &Scope{St: g.St, Events: g.Events} }

// each visits the events of the scope and of the loops within; in tells the
// loops the event is nested in.
func each(events []*Event, f func(e *Event, in []*Seg)) {
	var rec func(ev []*Event, in []*Seg)
	rec = func(ev []*Event, in []*Seg) {
		for _, e := range ev {
			f(e, in)
			if e.Kind == EvLoopStart && e.Loop != nil {
				for _, g := range e.Loop.Segs {
					rec(g.Events, append(append([]*Seg(nil), in...), g))
				}
			}
		}
	}
	rec(events, nil)
}

// flatFacts returns the facts which hold in the scope.
func (sc *Scope) facts() []Fact { return sc.St.flist }

// pos returns a position within the scope for reports.
func (sc *Scope) pos() string {
	for i := len(sc.Events) - 1; i >= 0; i-- {
		if p := sc.Events[i].Pos; p != "" && !strings.HasPrefix(p, ":") {
			return p
		}
	}
	return ""
}

// loops returns the loops of the scope, outermost first.
func (sc *Scope) loops() []*Loop {
	var r []*Loop
	seen := map[*Loop]bool{}
	for _, e := range sc.Events {
		if e.Kind == EvLoopStart && e.Loop != nil && !seen[e.Loop] {
			seen[e.Loop] = true
			r = append(r, e.Loop)
		}
	}
	return r
}

// loopDone tells whether the loop has been left through its normal exit on the path.
func (sc *Scope) loopDone(l *Loop) bool {
	for _, e := range sc.Events {
		if e.Kind == EvLoopEnd && e.Loop == l {
			return e.Normal && l.Full
		}
	}
	return false
}

// fieldRead returns the base object and the key of the field t is a read of.
func fieldRead(t *Term) (*Term, string) {
	t = strip(t)
	switch t.Op {
	case "load", "loopvar":
		if a := t.Args[0]; a.Op == "faddr" {
			b := a.Args[0]
			for b.Op == "faddr" {
				b = b.Args[0] // a struct inside of the object
			}
			return b, a.Str
		}
	case "field":
		return t.Args[0], t.Str
	}
	return nil, ""
}

// ownerAddr returns the object the field at the address a belongs to, directly or by structs inside of it.
func ownerAddr(a *Term) *Term {
	if a.Op != "faddr" {
		return nil
	}
	for a.Op == "faddr" {
		a = a.Args[0]
	}
	return a
}

// isOptionFold tells whether t is a field of the options built from the given
// option functions and an initial value; it returns the initial value.
func optionField(t *Term, name string) (opts, init *Term, ok bool) {
	t = strip(t)
	if t.Op != "field" || !strings.HasSuffix(t.Str, "."+name) || t.Args[0].Op != "fold" {
		return nil, nil, false
	}
	return t.Args[0].Args[0], t.Args[0].Args[1], true
}

// noOptions tells whether the path knows that no options are given.
func noOptions(o *State, opts *Term) bool {
	return o.isNil(opts) || o.m.lenOf(o, opts) == intT(0)
}

// ---- sequences

// Part is a piece of the content of a slice.
type Part struct {
	Kind string // one: Val, all: the elements of Val, each: Loop yields Segs
	Val  *Term  // element or sequence
	Loop *Loop  // each
	Segs [][]Part
	St   []*State
	Down bool // the content is built from the last element to the first
}

// parts describes the content of the slice t at the end of the scope. ok is
// false when the content can not be determined.
func (sc *Scope) parts(t *Term) ([]Part, bool) { return sc.partsN(t, 0) }

func (sc *Scope) partsN(t *Term, d int) ([]Part, bool) {
	ps, ok := sc.partsOf(t, d)
	if ok {
		for i := range ps {
			ps[i] = sc.throughKeys(ps[i], d)
		}
	}
	return ps, ok
}

// throughKeys turns the values of a map, looked up in a loop over the list of
// its keys, into the values of a loop over the map.
func (sc *Scope) throughKeys(p Part, d int) Part {
	l := p.Loop
	if p.Kind != "each" || l == nil || l.Kind != "slice" || l.Over == nil || !l.Full || len(p.Segs) != len(p.St) {
		return p
	}
	var m *Term
	var segs [][]Part
	var sts []*State
	for _, s := range p.Segs {
		if len(s) == 1 && s[0].Kind == "one" && strip(s[0].Val).Op == "lookup" {
			m = strip(strip(s[0].Val).Args[0])
		}
	}
	for i, s := range p.Segs {
		if len(s) == 0 && m != nil {
			gone := false
			for _, f := range p.St[i].flist {
				gone = gone || !f.V && f.T.Op == "in" && strip(f.T.Args[0]) == m && loopElem(l, f.T.Args[1])
			}
			if gone {
				continue // every key is in the map
			}
		}
		if len(s) != 1 || s[0].Kind != "one" {
			return p
		}
		v := strip(s[0].Val)
		if v.Op != "lookup" || !loopElem(l, v.Args[1]) || m != strip(v.Args[0]) {
			return p
		}
		segs = append(segs, s)
		sts = append(sts, p.St[i])
	}
	if m == nil {
		return p
	}
	ks, ok := sc.partsN(l.Over, d+1)
	if !ok || len(ks) != 1 || ks[0].Kind != "each" || ks[0].Loop.Kind != "map" || !ks[0].Loop.Full || strip(ks[0].Loop.Over) != m || len(ks[0].Segs) == 0 {
		return p
	}
	for _, s := range ks[0].Segs {
		if len(s) != 1 || s[0].Kind != "one" || !loopKey(ks[0].Loop, s[0].Val) {
			return p
		}
	}
	r := Part{Kind: "each", Loop: ks[0].Loop}
	for i := range segs {
		r.Segs = append(r.Segs, []Part{{Kind: "one", Val: mk("rval", "", ks[0].Loop.Iter)}})
		r.St = append(r.St, sts[i])
	}
	return r
}

func (sc *Scope) partsOf(t *Term, d int) ([]Part, bool) {
	if d > 12 {
		return nil, false
	}
	t = strip(t)
	if t == tNil || sc.St.isNil(t) {
		return nil, true
	}
	switch t.Op {
	case "zero":
		return nil, true
	case "seq":
		var r []Part
		for i, a := range t.Args {
			if c, ok := sc.St.cells[mk("iaddr", "", t, intT(int64(i)))]; ok {
				a = c
			}
			r = append(r, Part{Kind: "one", Val: a})
		}
		return r, true
	case "append":
		a, ok1 := sc.partsN(t.Args[0], d+1)
		b, ok2 := sc.partsN(t.Args[1], d+1)
		return append(append([]Part(nil), a...), b...), ok1 && ok2
	case "slice":
		// x[:0]
		if h, ok := intConst(t.Args[2]); ok && h == 0 {
			return nil, true
		}
		return nil, false
	case "makeslice":
		return sc.filled(t, d)
	case "loopphi":
		l := sc.loopOf(t)
		if l == nil {
			return nil, false
		}
		init, ok := sc.partsN(l.PhiTerm[t], d+1)
		if !ok {
			return nil, false
		}
		p := Part{Kind: "each", Loop: l}
		next := l.PhiNext[t]
		if len(next) != len(l.Segs) {
			return nil, false
		}
		for i, n := range next {
			g := segScope(l.Segs[i])
			rest, ok := g.growth(n, t, d+1)
			if !ok {
				return nil, false
			}
			p.Segs = append(p.Segs, rest)
			p.St = append(p.St, l.Segs[i].St)
		}
		if !sc.loopDone(l) && !l.Full {
			return nil, false
		}
		return append(init, p), true
	case "loopvar":
		l := sc.loopByID(t.Str)
		if l == nil {
			return nil, false
		}
		ini := foldInit[t]
		if ini == nil {
			return nil, false
		}
		init, ok := sc.partsN(ini, d+1)
		if !ok {
			return nil, false
		}
		p := Part{Kind: "each", Loop: l}
		for _, g := range l.Segs {
			n := g.St.cells[t.Args[0]]
			if n == nil {
				return nil, false
			}
			rest, ok := segScope(g).growth(n, t, d+1)
			if !ok {
				return nil, false
			}
			p.Segs = append(p.Segs, rest)
			p.St = append(p.St, g.St)
		}
		return append(init, p), true
	}
	return []Part{{Kind: "all", Val: t}}, true
}

// growth returns what has been appended to base in t.
func (sc *Scope) growth(t, base *Term, d int) ([]Part, bool) {
	t = strip(t)
	if t == base {
		return nil, true
	}
	if d > 12 {
		return nil, false
	}
	if t.Op == "append" {
		a, ok := sc.growth(t.Args[0], base, d+1)
		if !ok {
			return nil, false
		}
		b, ok := sc.partsN(t.Args[1], d+1)
		return append(append([]Part(nil), a...), b...), ok
	}
	if t.Op == "loopphi" {
		l := sc.loopOf(t)
		if l == nil {
			return nil, false
		}
		init, ok := sc.growth(l.PhiTerm[t], base, d+1)
		if !ok {
			return nil, false
		}
		p := Part{Kind: "each", Loop: l}
		for i, n := range l.PhiNext[t] {
			if i >= len(l.Segs) {
				return nil, false
			}
			rest, ok := segScope(l.Segs[i]).growth(n, t, d+1)
			if !ok {
				return nil, false
			}
			p.Segs = append(p.Segs, rest)
			p.St = append(p.St, l.Segs[i].St)
		}
		return append(init, p), true
	}
	return nil, false
}

func (sc *Scope) loopOf(phi *Term) *Loop {
	i := strings.LastIndex(phi.Str, ".")
	return sc.loopByID(phi.Str[:i])
}

func (sc *Scope) loopByID(id string) *Loop {
	var r *Loop
	each(sc.St.events, func(e *Event, _ []*Seg) {
		if e.Kind == EvLoopStart && e.Loop != nil && e.Loop.ID == id {
			r = e.Loop
		}
	})
	return r
}

// filled describes a slice made with a length and filled by index.
func (sc *Scope) filled(t *Term, d int) ([]Part, bool) {
	n := t.Args[0]
	if n == intT(0) {
		return nil, true
	}
	if src, ok := sc.St.cells[mk("content", "", t)]; ok {
		if src.Op == "loopvar" || n != sc.St.m.lenOf(sc.St, src) {
			return nil, false
		}
		return sc.partsN(src, d+1)
	}
	var res []Part
	found := 0
	bad := false
	each(sc.St.events, func(e *Event, in []*Seg) {
		if e.Kind != EvStore {
			return
		}
		a := e.Args[0]
		if a.Op == "faddr" {
			a = a.Args[0]
		}
		if a.Op != "iaddr" || a.Args[0] != t {
			return
		}
		if len(in) == 0 {
			bad = true
			return
		}
	})
	if bad {
		return nil, false
	}
	for _, l := range allLoops(sc.St.events) {
		hits, rev := 0, false
		var segs [][]Part
		var sts []*State
		for _, g := range l.Segs {
			var ps []Part
			for _, e := range g.Events {
				if e.Kind == EvStore && e.Args[0].Op == "faddr" && e.Args[0].Args[0].Op == "iaddr" && e.Args[0].Args[0].Args[0] == t {
					// a field of a struct element
					at := e.Args[0].Args[0]
					down, ok := l.index(at.Args[1], t)
					rev = rev || down
					if !ok {
						bad = true
					}
					if st := sliceElem(t); st != nil {
						v := g.St.clone().load(at, st, nil)
						if n := len(ps); n == 0 || ps[n-1].Val != v {
							hits++
							ps = append(ps, Part{Kind: "one", Val: v})
						}
						continue
					}
					bad = true
				}
				if e.Kind == EvStore && e.Args[0].Op == "iaddr" && e.Args[0].Args[0] == t {
					down, ok := l.index(e.Args[0].Args[1], t)
					rev = rev || down
					if !ok {
						bad = true
					}
					hits++
					ps = append(ps, Part{Kind: "one", Val: e.Args[1]})
				}
			}
			segs = append(segs, ps)
			sts = append(sts, g.St)
		}
		if hits == 0 {
			continue
		}
		found++
		// every iteration stores once and the slice has room for exactly that
		if !l.Full || l.Over == nil {
			bad = true
			continue
		}
		want := sc.St.m.lenOf(sc.St, l.Over)
		if l.Kind == "count" {
			want = l.Over
		}
		if !sameLen(n, want, l.Over) {
			bad = true
		}
		for _, s := range segs {
			if len(s) != 1 {
				bad = true
			}
		}
		res = append(res, Part{Kind: "each", Loop: l, Segs: segs, St: sts, Down: rev})
	}
	if bad || found != 1 {
		return nil, false
	}
	return res, true
}

// sliceElem is the type of the elements of the slice t.
func sliceElem(t *Term) types.Type {
	if t.Type == nil {
		return nil
	}
	if s, ok := t.Type.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

// sameLen tells whether n is the length of x.
func sameLen(n, want, x *Term) bool {
	if n == want {
		return true
	}
	return n.Op == "len" && len(n.Args) == 1 && strip(n.Args[0]) == strip(x)
}

func allLoops(events []*Event) []*Loop {
	var r []*Loop
	seen := map[*Loop]bool{}
	each(events, func(e *Event, _ []*Seg) {
		if e.Kind == EvLoopStart && e.Loop != nil && !seen[e.Loop] {
			seen[e.Loop] = true
			r = append(r, e.Loop)
		}
	})
	return r
}

// loopElem returns the terms which name the element of an iteration.
func loopElem(l *Loop, t *Term) bool {
	t = strip(t)
	switch l.Kind {
	case "slice":
		if t.Op != "elem" || strip(t.Args[0]) != strip(l.Over) {
			return false
		}
		_, ok := l.index(t.Args[1], l.Over)
		return ok
	case "map":
		if t.Op == "rval" && t.Args[0] == l.Iter {
			return true
		}
		return t.Op == "lookup" && strip(t.Args[0]) == strip(l.Over) && t.Args[1].Op == "rkey" && t.Args[1].Args[0] == l.Iter
	case "iter":
		return t.Op == "cur" && t.Str == l.Iter.Str && t.Args[0] == strip(l.Over)
	}
	return false
}

// index tells whether idx is the position of the element of an iteration of l in
// the slice over, and whether the loop starts with the last one.
func (l *Loop) index(idx, over *Term) (down, ok bool) {
	if idx == l.NIter {
		return false, true
	}
	last, k := splitAdd(idx)
	if k != -1 || last == nil || last.Op != "sub" || last.Args[1] != l.NIter {
		return false, false
	}
	n := last.Args[0]
	over = strip(over)
	return true, over.Op == "makeslice" && n == over.Args[0] || n.Op == "len" && strip(n.Args[0]) == over
}

// elem is the element of items the iteration g of l is about.
func (l *Loop) elem(g *Seg, items *Term) *Term {
	el := mk("elem", "", items, l.NIter)
	if down := mk("elem", "", items, mkAdd(mk("sub", "", g.St.m.lenOf(g.St, items), l.NIter), intT(-1))); segReads(g, down) && !segReads(g, el) {
		return down
	}
	return el
}

// segReads tells whether the iteration uses the term t.
func segReads(g *Seg, t *Term) bool {
	has := func(x *Term) bool { return termHas(x, func(y *Term) bool { return y == t }) }
	for _, f := range g.Facts {
		if has(f.T) {
			return true
		}
	}
	for _, e := range g.Events {
		for _, a := range e.Args {
			if a != nil && has(a) {
				return true
			}
		}
	}
	return false
}

func loopKey(l *Loop, t *Term) bool {
	t = strip(t)
	return l.Kind == "map" && t.Op == "rkey" && t.Args[0] == l.Iter
}

// elementsOf tells whether the parts are exactly the elements of the sequence
// or the values of the map src.
func elementsOf(ps []Part, src *Term) bool {
	src = strip(src)
	if len(ps) != 1 {
		return false
	}
	p := ps[0]
	switch p.Kind {
	case "all":
		return strip(p.Val) == src
	case "each":
		if p.Loop.Over == nil || strip(p.Loop.Over) != src || !p.Loop.Full || p.Loop.Early > 0 && false {
			return false
		}
		for _, s := range p.Segs {
			if len(s) != 1 || s[0].Kind != "one" || !loopElem(p.Loop, s[0].Val) {
				return false
			}
		}
		return len(p.Segs) > 0
	}
	return false
}

// pureOf returns accessor name of t.
func pureOf(name string, t *Term) *Term { return mk("pure", name, strip(t)) }

func isPure(t *Term, name string) (*Term, bool) {
	t = strip(t)
	if t.Op == "pure" && t.Str == name {
		return t.Args[0], true
	}
	return nil, false
}

// uidStr is the string of the UID of x: x.UID().String().
func uidStr(x *Term) *Term { return pureOf("String", pureOf("UID", x)) }

// globalErr tells whether t is the error variable pkg.name of the module.
func globalErr(t *Term, rel, name string) bool {
	t = strip(t)
	return t != nil && t.Op == "gval" && t.Str == strings.TrimSuffix(modPath+"/"+rel, "/")+"."+name
}

// exportedMethods returns the declared exported methods of the named type.
func (p *Program) exportedMethods(n *types.Named) []*ssa.Function {
	var r []*ssa.Function
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Exported() {
			if f := p.ssa.FuncValue(n.Method(i)); f != nil && f.Blocks != nil {
				r = append(r, f)
			}
		}
	}
	return r
}

// param returns the n-th parameter of fn (the receiver is parameter 0).
func param(fn *ssa.Function, i int) *Term { return paramTerm(fn, i) }
