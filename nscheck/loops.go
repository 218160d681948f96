package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type natLoop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type loopForest struct {
	byHeader map[*ssa.BasicBlock]*natLoop
}

func (m *Machine) loopAt(fn *ssa.Function, b *ssa.BasicBlock) *natLoop {
	f, ok := m.forest[fn]
	if !ok {
		f = buildForest(fn)
		m.forest[fn] = f
	}
	return f.byHeader[b]
}

func buildForest(fn *ssa.Function) *loopForest {
	f := &loopForest{byHeader: map[*ssa.BasicBlock]*natLoop{}}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := f.byHeader[h]
			if l == nil {
				l = &natLoop{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				f.byHeader[h] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	return f
}

// rotated returns the block an iteration of the loop starts with when its
// condition, which is known to lead to next when the loop is entered, is
// evaluated at the end of an iteration.
func (l *natLoop) rotated(next *ssa.BasicBlock) *ssa.BasicBlock {
	if next == nil || !l.blocks[next] {
		return nil
	}
	for _, x := range l.header.Succs {
		if x != next && l.blocks[x] {
			return nil
		}
	}
	return next
}

// unrollable returns the block the loop continues with when its condition is a constant at this entry.
func (m *Machine) unrollable(s *State, l *natLoop, from *ssa.BasicBlock) *ssa.BasicBlock {
	h := l.header
	if from == nil {
		return nil
	}
	last, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	c := s.clone()
	m.phis(c, from, h)
	c.top().block = h
	env := c.top().env
	for _, in := range h.Instrs[c.top().pc:] {
		switch x := in.(type) {
		case *ssa.BinOp:
			env[x] = m.binop(c, x)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				env[x] = m.lenOf(c, c.val(x.Call.Args[0]))
				continue
			}
			return nil
		case *ssa.If:
			if x != last {
				return nil
			}
			t := c.val(x.Cond)
			switch t {
			case tTrue:
				return h.Succs[0]
			case tFalse:
				return h.Succs[1]
			}
			return nil
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if x.Op.String() == "!" {
				env[x] = mkNot(c.val(x.X))
				continue
			}
			return nil
		default:
			return nil
		}
	}
	return nil
}

// stands tells whether the iteration g leaves everything but the loop
// variables as it was: the state s before the loop, c at the start of the
// iteration.
func stands(l *natLoop, s, c *State, g *Seg) bool {
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Next); ok {
				return false
			}
		}
	}
	for _, e := range g.Events {
		switch e.Kind {
		case EvRead, EvMapRead, EvGRead, EvAssert, EvMaybeNil, EvDropped:
		default:
			return false
		}
	}
	for a, v := range g.St.cells {
		root := rootOf(a)
		if root.Op == "alloc" || root.Op == "makeslice" || root.Op == "makemap" {
			if !existed(s, c, root) {
				continue
			}
		}
		cur, ok := c.cells[a]
		if !ok {
			if v.Op == "load" && v.Args[0] == a {
				continue
			}
			if root.Op == "alloc" && a.Type != nil {
				cur = zeroTerm(derefType(a.Type))
			}
		}
		if cur != v {
			return false
		}
	}
	return true
}

type loopMod struct {
	cells map[*Term]string // cell -> mode: var, ind, fold
	maps  map[string]bool  // map classes written
	dirty map[*Term]bool   // slices written at loop indexes
	gver  map[*Term]bool
	fver  map[string]bool
}

// summarize analyses the loop l entered from block from: it finds what an
// iteration changes, forgets that, and explores one arbitrary iteration. It
// returns the states which leave the loop.
func (m *Machine) summarize(s *State, l *natLoop, from, body *ssa.BasicBlock) []*State {
	fr := s.top()
	var phis []*ssa.Phi
	for _, in := range l.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	id := m.blockSite(l.header) + fr.ctx
	id = "L" + id + "#" + s.occ("loop"+id)
	init := map[*ssa.Phi]*Term{}
	for _, p := range phis {
		for i, pr := range l.header.Preds {
			if pr == from {
				init[p] = s.val(p.Edges[i])
			}
		}
		if init[p] == nil {
			m.giveUp("loop entry edge not found in %s", fr.fn)
		}
	}
	guards := l.guards(phis, init)
	for g := range guards {
		if body != nil && guards[g].at == l.header {
			body = nil
		}
	}
	mode := map[*ssa.Phi]string{}
	for p := range guards {
		mode[p] = "inv" // every iteration starts with the value it goes on with
	}
	mod := newLoopMod()
	iter := mkT(types.Typ[types.Int], "iter", id)
	var res []*State
	var loop *Loop
	for round := 0; ; round++ {
		if round > 12 {
			m.giveUp("loop in %s at %s does not stabilise", fr.fn, posOf(l.header.Instrs[0]))
		}
		loop = &Loop{ID: id, Fn: fr.fn, NIter: iter, PhiTerm: map[*Term]*Term{}, PhiNext: map[*Term][]*Term{}}
		loop.Pos = blockPos(l)
		c := s.clone()
		c.event(&Event{Kind: EvLoopStart, Loop: loop, Pos: loop.Pos, Fn: fr.fn}, nil)
		env := c.top().env
		for _, p := range phis {
			switch mode[p] {
			case "inv":
				env[p] = init[p]
			case "ind":
				env[p] = mkAdd(init[p], iter)
			case "dec":
				env[p] = mkSub(init[p], iter)
			case "tail":
				env[p] = mkTail(init[p], iter)
			default:
				t := mkT(p.Type(), "loopphi", id+"."+p.Name())
				env[p] = t
				loop.PhiTerm[t] = init[p]
			}
		}
		start := m.applyMod(c, mod, id, iter, s)
		c.top().prev, c.top().block, c.top().pc = from, l.header, len(phis)
		c.status = stRun
		nEv, nF := len(c.events), len(c.flist)
		old := m.ctx
		m.ctx = &loopCtx{base: old.base, depth: len(c.frames), loop: l, body: body}
		c.top().rot = nil
		if body != nil {
			c.top().rot = l
		}
		outs := m.explore([]*State{c.clone()})
		if body == nil && len(guards) > 0 {
			outs = m.latchExits(l, guards, phis, outs)
		}
		m.ctx = old
		changed := false
		next := map[*ssa.Phi][]*Term{}
		res = nil
		var backs []*State
		for _, o := range outs {
			if o.status != stBack {
				res = append(res, o)
				continue
			}
			backs = append(backs, o)
			for _, p := range phis {
				if body != nil {
					next[p] = append(next[p], o.val(p))
					continue
				}
				for i, pr := range l.header.Preds {
					if pr == o.top().prev {
						v := o.val(p.Edges[i])
						if g, ok := guards[p]; ok && g.holds(o, v) {
							v = init[p]
						}
						next[p] = append(next[p], v)
					}
				}
			}
			seg := &Seg{St: o, Events: o.events[nEv:], Facts: o.flist[nF:], Phi: map[string]*Term{}}
			loop.Segs = append(loop.Segs, seg)
			still := stands(l, s, c, seg)
			for _, p := range phis {
				still = still && len(next[p]) == len(backs) && next[p][len(backs)-1] == env[p]
			}
			if still {
				loop.Stands = append(loop.Stands, seg)
			}
		}
		for _, p := range phis {
			cur := env[p]
			// how the value changes from one iteration to the next
			steps := func(how string) bool {
				for _, v := range next[p] {
					switch {
					case how == "inv" && v == cur:
					case how == "ind" && isInt(p.Type()) && v == mkAdd(cur, intT(1)):
					case how == "dec" && isInt(p.Type()) && v == mkAdd(cur, intT(-1)):
					case how == "tail" && isSliceType(p.Type()) && v == mkTail(cur, intT(1)):
					default:
						return false
					}
				}
				return true
			}
			switch mode[p] {
			case "":
				for _, how := range []string{"inv", "ind", "dec", "tail"} {
					if steps(how) {
						mode[p] = how
						changed = true
						break
					}
				}
			case "var":
			default:
				// validate under the new assumptions
				if !steps(mode[p]) {
					mode[p] = "var"
					changed = true
				}
			}
			loop.PhiNext[cur] = next[p]
		}
		if m.updateMod(s, c, start, backs, mod) {
			changed = true
		}
		if !changed {
			if body == nil {
				m.classify(loop, l, res, nF, nEv, s)
			} else {
				loop.Kind = "other"
			}
			whole := true // the loop is never left early
			for _, o := range res {
				if o.status == stExit && !o.latched && o.top().prev != l.header && o.top().prev != loop.exit {
					whole = false
				}
			}
			if whole && m.foldable(loop, start, backs, mod, iter) {
				continue
			}
			break
		}
	}
	for _, o := range res {
		if o.status == stExit {
			normal := body == nil && (o.top().prev == l.header || o.top().prev == loop.exit) && !o.latched
			o.latched = false
			if !normal {
				loop.Early++
			}
			o.event(&Event{Kind: EvLoopEnd, Loop: loop, Normal: normal, Pos: loop.Pos, Fn: fr.fn}, nil)
		} else {
			loop.Early++
		}
	}
	return res
}

// A guard is a condition on a value carried around a loop which ends the loop.
type guard struct {
	at   *ssa.BasicBlock
	test *ssa.If
	nilv bool // the loop goes on while the value is nil, else while it is the constant val
	val  *Term
}

// holds tells whether the loop goes on with v.
func (g guard) holds(s *State, v *Term) bool {
	if g.nilv {
		return s.isNil(v)
	}
	k, ok := s.truth(v)
	return ok && k == (g.val == tTrue)
}

// guards finds the phis whose value at the end of an iteration decides whether
// there is another one: for err == nil { }, for i < n && ok { }.
func (l *natLoop) guards(phis []*ssa.Phi, init map[*ssa.Phi]*Term) map[*ssa.Phi]guard {
	r := map[*ssa.Phi]guard{}
	for _, p := range phis {
		for b := range l.blocks {
			br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || l.blocks[b.Succs[0]] == l.blocks[b.Succs[1]] {
				continue
			}
			stay := l.blocks[b.Succs[0]] // the loop goes on when the condition is true
			switch c := br.Cond.(type) {
			case *ssa.Phi:
				if c == p && init[p] == mkBool(stay) {
					r[p] = guard{at: b, test: br, val: init[p]}
				}
			case *ssa.UnOp:
				if c.X == p && c.Op.String() == "!" && init[p] == mkBool(!stay) {
					r[p] = guard{at: b, test: br, val: init[p]}
				}
			case *ssa.BinOp:
				var other ssa.Value
				switch {
				case c.X == p:
					other = c.Y
				case c.Y == p:
					other = c.X
				default:
					continue
				}
				k, ok := other.(*ssa.Const)
				if ok && k.IsNil() && init[p] == tNil && (c.Op.String() == "==") == stay && (c.Op.String() == "==" || c.Op.String() == "!=") {
					r[p] = guard{at: b, test: br, nilv: true}
				}
			}
		}
	}
	return r
}

func mkBool(v bool) *Term {
	if v {
		return tTrue
	}
	return tFalse
}

// latchExits turns the iterations after which the loop ends because of a guard
// into exits.
func (m *Machine) latchExits(l *natLoop, guards map[*ssa.Phi]guard, phis []*ssa.Phi, outs []*State) []*State {
	var r []*State
	for _, o := range outs {
		if o.status != stBack {
			r = append(r, o)
			continue
		}
		work := []*State{o}
		for _, p := range phis {
			g, ok := guards[p]
			if !ok {
				continue
			}
			var on []*State
			for _, s := range work {
				var v *Term
				for i, pr := range l.header.Preds {
					if pr == s.top().prev {
						v = s.val(p.Edges[i])
					}
				}
				if v == nil || g.holds(s, v) {
					on = append(on, s)
					continue
				}
				cond, val := v, g.val == tTrue
				if g.nilv {
					cond, val = mkEq(v, tNil), true
				}
				stop := s.clone()
				if stop.assume(cond, !val, posOf(g.test)) {
					exits, ok := m.runOut(l, stop)
					if !ok {
						on = append(on, s)
						continue
					}
					r = append(r, exits...)
				}
				if s.assume(cond, val, posOf(g.test)) {
					on = append(on, s)
				}
			}
			work = on
		}
		r = append(r, work...)
	}
	return r
}

// runOut runs s on from the end of an iteration, it fails when that does not
// lead out of the loop without doing anything.
func (m *Machine) runOut(l *natLoop, s *State) ([]*State, bool) {
	from := s.top().prev
	n := len(s.events)
	s.status = stRun
	m.phis(s, from, l.header)
	s.top().prev, s.top().block = from, l.header
	outs := m.explore([]*State{s})
	for _, o := range outs {
		if o.status != stExit || len(o.events) != n {
			return nil, false
		}
		o.latched = true
	}
	return outs, true
}

func newLoopMod() *loopMod {
	return &loopMod{cells: map[*Term]string{}, maps: map[string]bool{}, dirty: map[*Term]bool{}, gver: map[*Term]bool{}, fver: map[string]bool{}}
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func blockPos(l *natLoop) string {
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			return posOf(in)
		}
	}
	var bs []*ssa.BasicBlock
	for b := range l.blocks {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
	for _, b := range bs {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return posOf(in)
			}
		}
	}
	return "?"
}

func (m *Machine) blockSite(b *ssa.BasicBlock) string { return m.site(b.Instrs[len(b.Instrs)-1]) }

// applyMod forgets in c what an iteration changes, it returns the terms used
// for the changed cells.
func (m *Machine) applyMod(c *State, mod *loopMod, id string, iter *Term, before *State) map[*Term]*Term {
	start := map[*Term]*Term{}
	var cells []*Term
	for a := range mod.cells {
		cells = append(cells, a)
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].ID < cells[j].ID })
	for _, a := range cells {
		md := mod.cells[a]
		var typ types.Type
		if a.Type != nil {
			typ = derefType(a.Type)
		}
		var t *Term
		switch {
		case md == "ind":
			t = mkAdd(m.cellAt(before, a, typ), iter)
		case strings.HasPrefix(md, "fold"):
			t = mod.foldTerm(a)
		default:
			t = mkT(typ, "loopvar", id, a)
			if a.Op != "content" && before.local(a) {
				foldInit[t] = m.cellAt(before, a, typ)
			}
		}
		c.cells[a] = t
		start[a] = t
	}
	for cl := range mod.maps {
		c.mapBarrier(cl, "b"+id)
	}
	for d := range mod.dirty {
		c.dirty[d] = "b" + id
		for a := range c.cells {
			if a.Op == "iaddr" && a.Args[0] == d {
				delete(c.cells, a)
			}
		}
	}
	for g := range mod.gver {
		c.gver[g] += 1000
	}
	for f := range mod.fver {
		c.fver[f] += 1000
		for a := range c.cells {
			if a.Op == "faddr" && a.Str == f && !c.local(a) {
				if _, ok := mod.cells[a]; !ok {
					delete(c.cells, a)
				}
			}
		}
	}
	return start
}

func (m *Machine) cellAt(s *State, a *Term, typ types.Type) *Term {
	if v, ok := s.cells[a]; ok {
		return v
	}
	return s.clone().load(a, typ, nil)
}

func (mod *loopMod) foldTerm(a *Term) *Term {
	k := mod.cells[a]
	i := strings.Index(k, ":")
	n, _ := strconv.Atoi(k[i+1:])
	return termByID(n)
}

func termByID(id int) *Term { return termIDs[id] }

// updateMod finds what the back edge states changed, it returns true when mod grew.
func (m *Machine) updateMod(before, start *State, startVals map[*Term]*Term, backs []*State, mod *loopMod) bool {
	changed := false
	for _, o := range backs {
		for a, v := range o.cells {
			root := rootOf(a)
			if root.Op == "alloc" || root.Op == "makeslice" || root.Op == "makemap" {
				if !existed(before, start, root) {
					continue // object of this iteration
				}
			}
			if a.Op == "content" {
				if o.cells[a] != start.cells[a] {
					if _, ok := mod.cells[a]; !ok {
						mod.cells[a] = "var"
						changed = true
					}
				}
				continue
			}
			if a.Op == "iaddr" && !isConst(a.Args[1]) {
				if !mod.dirty[root] {
					mod.dirty[root] = true
					changed = true
				}
				continue
			}
			cur, ok := start.cells[a]
			if !ok {
				if _, sh := o.sharedAddr(a); sh {
					// read within a critical section of the iteration
					if v.Op == "load" && v.Args[0] == a {
						continue
					}
				}
				if v.Op == "load" && v.Args[0] == a {
					continue
				}
				if root.Op == "alloc" {
					cur = zeroTerm(derefType(a.Type))
				}
			}
			if cur == v {
				continue
			}
			md, known := mod.cells[a]
			if known {
				if md == "ind" && v != mkAdd(cur, intT(1)) {
					mod.cells[a] = "var"
					changed = true
				}
				continue
			}
			mod.cells[a] = "var"
			changed = true
		}
		for a := range start.cells {
			if _, ok := o.cells[a]; !ok {
				if _, known := mod.cells[a]; !known {
					if _, sh := start.sharedAddr(a); sh {
						continue
					}
					if a.Op == "iaddr" {
						continue
					}
				}
			}
		}
		for i := len(start.mapw); i < len(o.mapw); i++ {
			e := o.mapw[i]
			if e.m != nil && e.m.Op == "makemap" && !existed(before, start, e.m) {
				continue
			}
			if !mod.maps[e.class] {
				mod.maps[e.class] = true
				changed = true
			}
		}
		for g, n := range o.gver {
			if start.gver[g] != n && !mod.gver[g] {
				if g.Op == "extnew" && !existedTerm(before, g) {
					continue
				}
				mod.gver[g] = true
				changed = true
			}
		}
		for f, n := range o.fver {
			if start.fver[f] != n && !mod.fver[f] {
				mod.fver[f] = true
				changed = true
			}
		}
		for d := range o.dirty {
			if start.dirty[d] == "" && existed(before, start, d) && !mod.dirty[d] {
				mod.dirty[d] = true
				changed = true
			}
		}
	}
	// counters: cells incremented by every iteration
	for a, md := range mod.cells {
		if md != "var" || len(backs) == 0 || changed {
			continue
		}
		cur := start.cells[a]
		if cur == nil || cur.Op != "loopvar" || a.Type == nil || !isInt(derefType(a.Type)) {
			continue
		}
		all := true
		for _, o := range backs {
			if o.cells[a] != mkAdd(cur, intT(1)) {
				all = false
			}
		}
		if all {
			mod.cells[a] = "ind"
			changed = true
		}
	}
	return changed
}

// existed tells whether the object was created before the loop.
func existed(before, start *State, obj *Term) bool {
	if obj.Op != "alloc" && obj.Op != "makeslice" && obj.Op != "makemap" && obj.Op != "makechan" {
		return true
	}
	// the occurrence number of its site had been reached before the loop
	i := strings.LastIndex(obj.Str, "#")
	n, _ := strconv.Atoi(obj.Str[i+1:])
	return before.count[obj.Str[:i]] >= n
}

func existedTerm(before *State, t *Term) bool {
	i := strings.LastIndex(t.Str, "#")
	if i < 0 {
		return true
	}
	n, _ := strconv.Atoi(t.Str[i+1:])
	k := t.Str[:i]
	if j := strings.Index(k, "@"); j >= 0 {
		k = k[j+1:]
	}
	return before.count[k] >= n
}

// classify finds out what a loop ranges over.
func (m *Machine) classify(loop *Loop, l *natLoop, exits []*State, nF, nEv int, before *State) {
	loop.Kind = "other"
	for _, e := range exits {
		// a guard may come before the condition
		head := e.top().prev == l.header || len(e.events) == nEv && len(e.flist) == nF+1
		if e.status != stExit || e.latched || !head || len(e.flist) <= nF {
			continue
		}
		f := e.flist[nF]
		if f.V && f.T.Op == "eq" {
			// i != len(x)
			for i, n := range f.T.Args {
				if b := f.T.Args[1-i]; n == loop.NIter && b.Op == "len" && b.Args[0].Type != nil && isSliceType(b.Args[0].Type) {
					loop.exit = e.top().prev
					loop.Kind, loop.Over, loop.Full = "slice", b.Args[0], len(e.flist) == nF+1
				}
			}
		}
		if f.V {
			continue
		}
		loop.exit = e.top().prev
		switch f.T.Op {
		case "nextok":
			loop.Kind, loop.Over, loop.Iter, loop.Full = "map", f.T.Args[0].Args[0], f.T.Args[0], len(e.flist) == nF+1
		case "gnext":
			loop.Kind, loop.Over, loop.Iter, loop.Full = "iter", f.T.Args[0], f.T, len(e.flist) == nF+1
		case "lt":
			a, b := f.T.Args[0], f.T.Args[1]
			if a == loop.NIter {
				loop.Kind, loop.Over = "count", b
				if b.Op == "len" {
					loop.Kind, loop.Over = "slice", b.Args[0]
					if t := b.Args[0].Type; t == nil || !isSliceType(t) {
						// a slice made with the length of something else
						if x := rangedSlice(l, e); x != nil && m.lenOf(e, x) == b {
							loop.Over = strip(x)
						}
					}
				}
				loop.Full = len(e.flist) == nF+1
			}
		}
	}
	// an element of the previous iteration's iterator position must be the one advanced in the header
	if loop.Kind == "slice" {
		return
	}
}

func isSliceType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// rangedSlice returns the slice whose length bounds the loop.
func rangedSlice(l *natLoop, s *State) *Term {
	br, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	lens := []ssa.Value{cmp.Y, cmp.X}
	for _, in := range l.header.Instrs {
		// i := len(x)-1; i >= 0
		if p, ok := in.(*ssa.Phi); ok {
			for _, v := range p.Edges {
				if b, ok := v.(*ssa.BinOp); ok && !l.blocks[b.Block()] {
					lens = append(lens, b.X)
				}
				lens = append(lens, v)
			}
		}
	}
	for _, v := range lens {
		if call, ok := v.(*ssa.Call); ok {
			if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && len(call.Call.Args) == 1 && isSliceType(call.Call.Args[0].Type()) {
				if t, ok := s.top().env[call.Call.Args[0]]; ok {
					if tailOf(t) {
						t = t.Args[0]
					}
					return t
				}
			}
		}
	}
	return nil
}

// foldable recognises loops which apply every element of a slice of functions
// to one local struct and nothing else: `for _, o := range opts { o(&x) }`.
// The fields of the struct become fields of fold(opts, x).
func (m *Machine) foldable(loop *Loop, start map[*Term]*Term, backs []*State, mod *loopMod, iter *Term) bool {
	if loop.Kind != "slice" || !loop.Full || len(backs) != 1 || loop.Early > 0 || len(mod.cells) == 0 {
		return false
	}
	var app *Term
	for a := range mod.cells {
		if mod.cells[a] != "var" {
			return false
		}
		v := backs[0].cells[a]
		if a.Op == "alloc" && loopElem(loop, v) {
			continue // the variable of the loop itself, captured by its body
		}
		for v.Op == "field" {
			v = v.Args[0]
		}
		if v.Op != "app" || app != nil && app != v {
			return false
		}
		app = v
	}
	if app == nil || app.Args[0].Op != "elem" || app.Args[0].Args[0] != loop.Over || app.Args[0].Args[1] != iter {
		return false
	}
	// the previous content of the struct is made of the loop variables only
	prev := app.Args[1]
	ini := m.initOf(prev, start, backs)
	if ini == nil {
		return false
	}
	fold := mkT(app.Type, "fold", "", loop.Over, ini)
	for a := range mod.cells {
		if a.Op == "alloc" && loopElem(loop, backs[0].cells[a]) {
			continue
		}
		v := substRoot(backs[0].cells[a], app, fold)
		if f := rootField(v); f != nil && f.Args[0] == fold {
			v = substRoot(v, fold, mkT(app.Type, "fold", "", loop.Over, onlyField(ini, f.Str)))
		}
		mod.cells[a] = "fold:" + strconv.Itoa(v.ID)
	}
	return true
}

// rootField returns the field of the root value in t, a field of a field of ... of it.
func rootField(t *Term) *Term {
	for t.Op == "field" && t.Args[0].Op == "field" {
		t = t.Args[0]
	}
	if t.Op != "field" {
		return nil
	}
	return t
}

// onlyField returns the struct ini with all the fields but key cleared: the functions
// which are folded are options, which set a field whatever the others are.
func onlyField(ini *Term, key string) *Term {
	st, ok := ini.Type.Underlying().(*types.Struct)
	if !ok || ini.Op != "struct" || len(ini.Args) != st.NumFields() {
		return ini
	}
	args := make([]*Term, len(ini.Args))
	for i, a := range ini.Args {
		if args[i] = a; fieldKey(ini.Type, i) != key {
			args[i] = zeroTerm(st.Field(i).Type())
		}
	}
	return mkStruct(ini.Type, args)
}

func (m *Machine) initOf(prev *Term, start map[*Term]*Term, backs []*State) *Term {
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		switch t.Op {
		case "loopvar":
			v, ok := foldInit[t]
			if !ok {
				return nil
			}
			return v
		case "struct":
			args := make([]*Term, len(t.Args))
			for i, a := range t.Args {
				if args[i] = rec(a); args[i] == nil {
					return nil
				}
			}
			return mkStruct(t.Type, args)
		}
		return nil
	}
	return rec(prev)
}

func substRoot(t, from, to *Term) *Term {
	if t == from {
		return to
	}
	if t.Op == "field" {
		return mkT(t.Type, "field", t.Str, substRoot(t.Args[0], from, to))
	}
	return t
}

// foldInit maps loop variables of cells to their value before the loop.
var foldInit = map[*Term]*Term{}

var termIDs = map[int]*Term{}

// pseudoLoop explores a function called an unknown number of times by a
// function outside of the module.
func (m *Machine) pseudoLoop(s *State, in ssa.Instruction, kind string, fn *Term, args func(i int) []*Term, loop *Loop) []*State {
	mod := newLoopMod()
	iter := mkT(types.Typ[types.Int], "iter", loop.ID)
	loop.NIter = iter
	loop.Kind = kind
	f, ok := fn.Aux.(*ssa.Function)
	if !ok || fn.Op != "func" && fn.Op != "closure" {
		m.giveUp("unknown callback at %s", posOf(in))
	}
	var free []*Term
	if fn.Op == "closure" {
		free = fn.Args
	}
	for round := 0; ; round++ {
		if round > 12 {
			m.giveUp("callback at %s does not stabilise", posOf(in))
		}
		loop.Segs = nil
		c := s.clone()
		c.event(&Event{Kind: EvLoopStart, Loop: loop}, in)
		start := m.applyMod(c, mod, loop.ID, iter, s)
		nEv, nF := len(c.events), len(c.flist)
		old := m.ctx
		b := c.clone()
		m.ctx = &loopCtx{base: len(b.frames)}
		m.pushFrame(b, f, args(round), free, nil, m.site(in)+"cb")
		outs := m.explore(m.enter(b))
		m.ctx = old
		var backs []*State
		for _, o := range outs {
			if o.status != stRet {
				continue
			}
			backs = append(backs, o)
			loop.Segs = append(loop.Segs, &Seg{St: o, Events: o.events[nEv:], Facts: o.flist[nF:], Phi: map[string]*Term{"ret": retOf(o)}})
		}
		if !m.updateMod(s, c, start, backs, mod) {
			c.event(&Event{Kind: EvLoopEnd, Loop: loop, Normal: true}, in)
			return []*State{c}
		}
	}
}

func retOf(s *State) *Term {
	if len(s.ret) > 0 {
		return s.ret[0]
	}
	return nil
}

// graphWalk models traverse.BreadthFirst.Walk and traverse.DepthFirst.Walk.
func (m *Machine) graphWalk(s *State, in ssa.Instruction, f *ssa.Function, args []*Term, res ssa.Value) []*State {
	recv := args[0]
	st := structOf(f.Signature.Recv().Type())
	tv := derefType(f.Signature.Recv().Type())
	var visit, trav *Term = tNil, tNil
	for i := 0; i < st.NumFields(); i++ {
		v := s.load(m.faddr(recv, tv, i), st.Field(i).Type(), nil)
		switch st.Field(i).Name() {
		case "Visit":
			visit = v
		case "Traverse":
			trav = v
		}
	}
	g := strip(args[1])
	owner, _ := m.owner(g)
	sh := owner != nil && !s.fresh(owner)
	e := s.event(&Event{Kind: EvGRead, Name: "Walk", Args: []*Term{g, strip(args[2]), trav}, Root: owner, Fresh: !sh}, in)
	key := s.key(in)
	loop := &Loop{ID: "W" + key, Fn: in.Parent(), Pos: posOf(in), Over: g, Full: true}
	if n := namedOf(f.Signature.Recv().Type()); n != nil && n.Obj().Name() == "DepthFirst" {
		loop.Kind = "dfs"
	} else {
		loop.Kind = "bfs"
	}
	kind := loop.Kind
	e.Loop = loop
	node := mk("visited", key, g)
	loop.Iter = node
	states := []*State{s}
	if visit != tNil {
		states = m.pseudoLoop(s, in, kind, visit, func(int) []*Term { return []*Term{node} }, loop)
	} else {
		loop.Kind = kind
	}
	until := args[3]
	for _, c := range states {
		if until != tNil {
			uf, ok := until.Aux.(*ssa.Function)
			if !ok {
				m.giveUp("unknown until function at %s", posOf(in))
			}
			var free []*Term
			if until.Op == "closure" {
				free = until.Args
			}
			un := mk("untilnode", key, g)
			ud := mkT(types.Typ[types.Int], "depth", key)
			uargs := []*Term{un}
			if len(uf.Params) > 1 {
				uargs = append(uargs, ud)
			}
			b := c.clone()
			nF := len(b.flist)
			old := m.ctx
			m.ctx = &loopCtx{base: len(b.frames)}
			m.pushFrame(b, uf, uargs, free, nil, m.site(in)+"until")
			for _, o := range m.explore(m.enter(b)) {
				if o.status == stRet {
					loop.Until = append(loop.Until, UntilRes{Ret: retOf(o), Facts: o.flist[nF:], Node: un, Depth: ud})
				}
			}
			m.ctx = old
		}
		setRes(c, res, mkT(f.Signature.Results().At(0).Type(), "res", "0", mk("call", "Walk@"+key)))
	}
	return states
}
