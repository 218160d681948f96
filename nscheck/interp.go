package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Machine propagates abstract states along the paths of a function.
type Machine struct {
	p          *Program
	fvars      map[string]*types.Var
	fieldOwner map[*types.Var]*types.Named
	opaque     func(*ssa.Function) bool
	members    func(s *State, v *Term, want types.Type) bool // known contents of containers
	forest     map[*ssa.Function]*loopForest
	jsonVals   map[*Term]jsonVal        // what encodings encode
	noUnroll   map[*ssa.BasicBlock]bool // loops with a constant condition which need a summary
	sites      map[ssa.Instruction]string
	steps      int
	maxSteps   int
	paths      int
	ctx        *loopCtx
	builderN   int
	funcsSeen  map[*ssa.Function]bool
}

// globalSites names instructions the same way for all machines.
var globalSites = map[ssa.Instruction]string{}

type undecided struct{ msg string }

func (m *Machine) giveUp(format string, args ...interface{}) {
	panic(undecided{fmt.Sprintf(format, args...)})
}

func newMachine(p *Program) *Machine {
	m := &Machine{
		p:          p,
		fvars:      map[string]*types.Var{},
		fieldOwner: map[*types.Var]*types.Named{},
		forest:     map[*ssa.Function]*loopForest{},
		noUnroll:   map[*ssa.BasicBlock]bool{},
		sites:      globalSites,
		maxSteps:   3000000,
		funcsSeen:  map[*ssa.Function]bool{},
	}
	for n := range p.monitored {
		st := n.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			m.fieldOwner[st.Field(i)] = n
		}
	}
	return m
}

type loopCtx struct {
	base  int // explore until a frame below base returns
	depth int // frame depth of the summarised loop, 0 when none
	loop  *natLoop
	body  *ssa.BasicBlock // where the iterations of a rotated loop start, else nil
}

// retryLoop is the panic for a loop which turned out to need a summary.
type retryLoop struct{ b *ssa.BasicBlock }

// Param returns the term of parameter i of a root function.
func paramTerm(fn *ssa.Function, i int) *Term {
	p := fn.Params[i]
	return mkT(p.Type(), "param", p.Name()+"@"+strconv.Itoa(i))
}

// Run explores all paths of fn from state st and returns the final states.
func (m *Machine) Run(fn *ssa.Function, args []*Term, free []*Term, st *State) []*State {
	if fn == nil || fn.Blocks == nil {
		m.giveUp("function without body")
	}
	old := m.ctx
	defer func() { m.ctx = old }()
	for {
		m.ctx = &loopCtx{base: len(st.frames)}
		s := st.clone()
		s.status = stRun
		m.pushFrame(s, fn, args, free, nil, "")
		if outs, ok := m.tryRun(s); ok {
			m.paths += len(outs)
			return outs
		}
	}
}

// tryRun runs s, it fails when a loop can not be unrolled.
func (m *Machine) tryRun(s *State) (outs []*State, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			l, is := r.(retryLoop)
			if !is || m.noUnroll[l.b] {
				panic(r)
			}
			m.noUnroll[l.b] = true
			outs, ok = nil, false
		}
	}()
	return m.explore(m.enter(s)), true
}

// enter positions the top frame at its entry block.
func (m *Machine) enter(s *State) []*State {
	f := s.top()
	return m.enterBlock(s, nil, f.fn.Blocks[0])
}

func (m *Machine) explore(work []*State) []*State {
	var out []*State
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for s.status == stRun {
			next := m.step(s)
			if len(next) == 0 {
				s = nil
				break
			}
			for _, n := range next[1:] {
				work = append(work, n)
			}
			s = next[0]
		}
		if s != nil {
			out = append(out, s)
		}
	}
	return out
}

func (m *Machine) pushFrame(s *State, fn *ssa.Function, args, free []*Term, ret ssa.Value, site string) {
	ctx := ""
	if len(s.frames) > 0 {
		ctx = s.top().ctx + "/" + site
	}
	f := &Frame{fn: fn, env: map[ssa.Value]*Term{}, ret: ret, ctx: ctx}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		} else {
			f.env[p] = mkT(p.Type(), "unknown", fn.String()+"."+p.Name())
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(free) {
			f.env[v] = free[i]
		} else {
			f.env[v] = mkT(v.Type(), "freevar", fn.String()+"."+v.Name())
		}
	}
	m.funcsSeen[fn] = true
	s.frames = append(s.frames, f)
}

func (m *Machine) site(in ssa.Instruction) string {
	if k, ok := m.sites[in]; ok {
		return k
	}
	k := "s" + strconv.Itoa(len(m.sites))
	m.sites[in] = k
	return k
}

// key names the n-th execution of instruction in on the path.
func (s *State) key(in ssa.Instruction) string {
	k := s.m.site(in) + s.top().ctx
	return k + "#" + s.occ(k)
}

// val returns the term of v in the top frame.
func (s *State) val(v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x.Value, x.Type())
	case *ssa.Global:
		t := mkT(x.Type(), "gaddr", x.RelString(nil))
		if t.Aux == nil {
			t.Aux = x
		}
		return t
	case *ssa.Function:
		t := mkT(x.Type(), "func", x.String())
		if t.Aux == nil {
			t.Aux = x
		}
		return t
	case *ssa.Builtin:
		return mk("builtin", x.Name())
	}
	if t, ok := s.top().env[v]; ok {
		return t
	}
	s.m.giveUp("value %s of %s has no term", v.Name(), s.top().fn)
	return nil
}

func (s *State) set(v ssa.Value, t *Term) {
	if t.Type == nil && t.Op != "const" && t.Op != "nil" {
		t.Type = v.Type()
	}
	s.top().env[v] = t
}

// enterBlock moves the top frame of s along the edge from->to.
func (m *Machine) enterBlock(s *State, from, to *ssa.BasicBlock) []*State {
	f := s.top()
	if c := m.ctx; c != nil && c.loop != nil && len(s.frames) == c.depth && from != nil {
		if c.body != nil {
			// the condition is evaluated at the end of the iteration
			if from == c.loop.header && f.rot == c.loop {
				if to != c.body {
					return nil // the condition holds when an iteration starts
				}
				f.rot = nil
			} else if from == c.loop.header && to == c.body {
				f.prev, f.block, f.pc = from, to, 0
				s.status = stBack
				return []*State{s}
			}
		} else if to == c.loop.header {
			f.prev, f.block, f.pc = from, to, 0
			s.status = stBack
			return []*State{s}
		}
		if !c.loop.blocks[to] {
			f.prev, f.block, f.pc = from, to, 0
			s.status = stExit
			return []*State{s}
		}
	}
	if l := m.loopAt(f.fn, to); l != nil && (from == nil || !l.blocks[from]) {
		next := m.unrollable(s, l, from)
		if next != nil && (!m.noUnroll[to] || !l.blocks[next]) {
			if f.unroll == nil {
				f.unroll = map[*ssa.BasicBlock]int{}
			}
			f.unroll[to] = 1
		} else {
			if f.unroll != nil {
				delete(f.unroll, to)
			}
			var out []*State
			for _, e := range m.summarize(s, l, from, l.rotated(next)) {
				if e.status == stExit {
					e.status = stRun
					ef := e.top()
					out = append(out, m.enterBlock(e, ef.prev, ef.block)...)
				} else {
					out = append(out, e)
				}
			}
			return out
		}
	} else if l != nil && f.unroll != nil && f.unroll[to] > 0 {
		f.unroll[to]++
		if f.unroll[to] > 40 {
			panic(retryLoop{to})
		}
		if m.unrollable(s, l, from) == nil {
			panic(retryLoop{to})
		}
	}
	m.phis(s, from, to)
	f.prev, f.block = from, to
	return []*State{s}
}

// phis evaluates the phi instructions of block to and sets pc behind them.
func (m *Machine) phis(s *State, from, to *ssa.BasicBlock) {
	f := s.top()
	var vals []*Term
	var regs []ssa.Value
	pc := 0
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		pc++
		for i, p := range to.Preds {
			if p == from {
				vals = append(vals, s.val(phi.Edges[i]))
				regs = append(regs, phi)
				break
			}
		}
	}
	for i, r := range regs {
		f.env[r] = vals[i]
	}
	f.pc = pc
}

// step executes instructions of the top frame until the path forks or ends.
func (m *Machine) step(s *State) []*State {
	for {
		m.steps++
		if m.steps > m.maxSteps {
			m.giveUp("analysis budget exceeded")
		}
		f := s.top()
		if f.pc >= len(f.block.Instrs) {
			m.giveUp("fell off block in %s", f.fn)
		}
		in := f.block.Instrs[f.pc]
		switch x := in.(type) {
		case *ssa.DebugRef:
			f.pc++
		case *ssa.Phi:
			f.pc++ // handled on entry
		case *ssa.Alloc:
			t := mkT(x.Type(), "alloc", s.key(in))
			s.set(x, t)
			f.pc++
		case *ssa.FieldAddr:
			s.set(x, m.faddr(s.val(x.X), derefType(x.X.Type()), x.Field))
			f.pc++
		case *ssa.Field:
			s.set(x, mkField(s.val(x.X), x.X.Type(), x.Field))
			m.fvars[fieldKey(x.X.Type(), x.Field)] = structOf(x.X.Type()).Field(x.Field)
			f.pc++
		case *ssa.IndexAddr:
			base, idx := s.val(x.X), s.val(x.Index)
			if tailOf(base) {
				base, idx = base.Args[0], mkAdd(base.Args[1], idx)
			}
			if i, ok := intConst(idx); ok {
				idx = intT(i)
			}
			s.set(x, mkT(x.Type(), "iaddr", "", base, idx))
			f.pc++
		case *ssa.Index:
			s.set(x, elemOf(s.val(x.X), s.val(x.Index), x.Type()))
			f.pc++
		case *ssa.UnOp:
			switch x.Op {
			case token.MUL:
				a := s.val(x.X)
				if a == tNil {
					s.event(&Event{Kind: EvPanic, Name: "nil dereference"}, in)
					s.status = stPanic
					return []*State{s}
				}
				s.mayBeAbsent(a, in)
				s.set(x, s.load(a, x.Type(), in))
			case token.NOT:
				s.set(x, mkNot(s.val(x.X)))
			case token.SUB:
				v := s.val(x.X)
				if i, ok := intConst(v); ok {
					s.set(x, intT(-i))
				} else {
					s.set(x, mkT(x.Type(), "neg", "", v))
				}
			case token.ARROW:
				ch := s.val(x.X)
				r := mkT(x.X.Type().Underlying().(*types.Chan).Elem(), "recv", s.key(in), ch)
				s.event(&Event{Kind: EvRecv, Args: []*Term{ch}, Res: []*Term{r}, Block: true}, in)
				m.afterRecv(s, ch, posOf(in))
				if x.CommaOk {
					s.set(x, mk("tuple", "", r, mk("recvok", r.Str, ch)))
				} else {
					s.set(x, r)
				}
			default:
				s.set(x, mkT(x.Type(), "unop"+x.Op.String(), "", s.val(x.X)))
			}
			f.pc++
		case *ssa.BinOp:
			s.set(x, m.binop(s, x))
			f.pc++
		case *ssa.ChangeType:
			s.set(x, s.val(x.X))
			f.pc++
		case *ssa.ChangeInterface:
			s.set(x, s.val(x.X))
			f.pc++
		case *ssa.Convert:
			s.set(x, m.convert(s, x))
			f.pc++
		case *ssa.MultiConvert, *ssa.SliceToArrayPointer:
			v := in.(ssa.Value)
			s.set(v, mkT(v.Type(), "unknown", s.key(in)))
			f.pc++
		case *ssa.MakeInterface:
			v := s.val(x.X)
			t := mkT(x.Type(), "iface", types.TypeString(x.X.Type(), nil), v)
			if t.Aux == nil {
				t.Aux = x.X.Type()
			}
			s.set(x, t)
			f.pc++
		case *ssa.MakeClosure:
			fn := x.Fn.(*ssa.Function)
			var b []*Term
			for _, v := range x.Bindings {
				b = append(b, s.val(v))
			}
			t := mkT(x.Type(), "closure", fn.String()+"@"+s.key(in), b...)
			if t.Aux == nil {
				t.Aux = fn
			}
			s.set(x, t)
			f.pc++
		case *ssa.MakeMap:
			s.set(x, mkT(x.Type(), "makemap", s.key(in)))
			f.pc++
		case *ssa.MakeChan:
			s.set(x, mkT(x.Type(), "makechan", s.key(in), s.val(x.Size)))
			f.pc++
		case *ssa.MakeSlice:
			s.set(x, mkT(x.Type(), "makeslice", s.key(in), s.val(x.Len), s.val(x.Cap)))
			f.pc++
		case *ssa.Slice:
			s.set(x, m.slice(s, x))
			f.pc++
		case *ssa.Extract:
			t := s.val(x.Tuple)
			if t.Op == "tuple" {
				s.set(x, t.Args[x.Index])
			} else {
				s.set(x, mkT(x.Type(), "res", strconv.Itoa(x.Index), t))
			}
			f.pc++
		case *ssa.Store:
			a, v := s.val(x.Addr), s.val(x.Val)
			s.store(a, v, x.Val.Type(), in)
			f.pc++
		case *ssa.MapUpdate:
			mp, k, v := strip(s.val(x.Map)), s.val(x.Key), s.val(x.Value)
			owner, shared := s.sharedMap(mp)
			s.event(&Event{Kind: EvMapSet, Args: []*Term{mp, k, v}, Root: owner, Fresh: !shared && s.fresh(mp)}, in)
			s.mapWrite(mp, k, v)
			f.pc++
		case *ssa.Lookup:
			f.pc++
			return m.lookupInstr(s, x)
		case *ssa.Range:
			mp := s.val(x.X)
			t := mk("range", s.key(in), strip(mp))
			s.set(x, t)
			f.pc++
		case *ssa.Next:
			f.pc++
			return m.next(s, x)
		case *ssa.TypeAssert:
			f.pc++
			return m.typeAssert(s, x)
		case *ssa.Send:
			ch, v := s.val(x.Chan), s.val(x.X)
			s.event(&Event{Kind: EvSend, Args: []*Term{ch, v}, Block: true}, in)
			s.escape(v)
			f.pc++
		case *ssa.Select:
			f.pc++
			return m.selectInstr(s, x)
		case *ssa.Jump:
			return m.enterBlock(s, f.block, f.block.Succs[0])
		case *ssa.If:
			return m.branch(s, x)
		case *ssa.Return:
			return m.doReturn(s, x)
		case *ssa.Panic:
			s.event(&Event{Kind: EvPanic, Name: "panic", Args: []*Term{s.val(x.X)}}, in)
			s.status = stPanic
			return []*State{s}
		case *ssa.Defer:
			fn, args := m.callee(s, &x.Call)
			f.defers = append(f.defers, deferred{x, fn, args})
			f.pc++
		case *ssa.RunDefers:
			if len(f.defers) == 0 {
				f.pc++
				continue
			}
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			return m.call(s, in, &d.instr.Call, d.fn, d.args, nil)
		case *ssa.Go:
			fn, args := m.callee(s, &x.Call)
			m.goStmt(s, x, fn, args)
			f.pc++
		case *ssa.Call:
			f.pc++
			fn, args := m.callee(s, &x.Call)
			out := m.call(s, in, &x.Call, fn, args, x)
			if len(out) != 1 || out[0] != s || s.status != stRun {
				return out
			}
		default:
			if v, ok := in.(ssa.Value); ok {
				s.set(v, mkT(v.Type(), "unknown", s.key(in)))
			}
			f.pc++
		}
	}
}

func (m *Machine) binop(s *State, x *ssa.BinOp) *Term {
	a, b := s.val(x.X), s.val(x.Y)
	switch x.Op {
	case token.EQL:
		return mkEq(a, b)
	case token.NEQ:
		return mkNot(mkEq(a, b))
	case token.LSS:
		return mkLt(a, b)
	case token.GTR:
		return mkLt(b, a)
	case token.LEQ:
		return mkNot(mkLt(b, a))
	case token.GEQ:
		return mkNot(mkLt(a, b))
	case token.ADD:
		if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
			return mkAdd(a, b)
		}
	case token.SUB:
		if i, ok := intConst(b); ok {
			if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
				return mkAdd(a, intT(-i))
			}
		}
	}
	if isConst(a) && isConst(b) {
		if v := foldConst(x.Op, a, b); v != nil {
			return v
		}
	}
	return mkT(x.Type(), "bin"+x.Op.String(), "", a, b)
}

func foldConst(op token.Token, a, b *Term) *Term {
	if strings.HasPrefix(a.Str, "int:") && strings.HasPrefix(b.Str, "int:") {
		va := constant.MakeFromLiteral(strings.TrimPrefix(a.Str, "int:"), token.INT, 0)
		vb := constant.MakeFromLiteral(strings.TrimPrefix(b.Str, "int:"), token.INT, 0)
		if va.Kind() == constant.Int && vb.Kind() == constant.Int && op == token.MUL {
			return mk("const", "int:"+constant.BinaryOp(va, op, vb).ExactString())
		}
	}
	return nil
}

func (m *Machine) convert(s *State, x *ssa.Convert) *Term {
	v := s.val(x.X)
	fb, ok1 := x.X.Type().Underlying().(*types.Basic)
	tb, ok2 := x.Type().Underlying().(*types.Basic)
	if ok1 && ok2 {
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 || fb.Kind() == tb.Kind() {
			return v
		}
	}
	return mkT(x.Type(), "conv", types.TypeString(x.Type(), nil), v)
}

func (m *Machine) slice(s *State, x *ssa.Slice) *Term {
	base := s.val(x.X)
	if x.Low == nil && x.High == nil && x.Max == nil {
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if at, ok := p.Elem().Underlying().(*types.Array); ok && base.Op == "alloc" && at.Len() <= 64 {
				var el []*Term
				for i := int64(0); i < at.Len(); i++ {
					el = append(el, s.load(mkT(types.NewPointer(at.Elem()), "iaddr", "", base, intT(i)), at.Elem(), nil))
				}
				return mkT(x.Type(), "seq", types.TypeString(at.Elem(), nil), el...)
			}
		}
		return base
	}
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return mk("none", "")
		}
		return s.val(v)
	}
	lo, hi, mx := opt(x.Low), opt(x.High), opt(x.Max)
	if x.Low == nil {
		lo = intT(0)
	}
	if mx.Op == "none" && lo == intT(0) && (hi.Op == "none" || hi == m.lenOf(s, base)) {
		return base
	}
	if _, ok := x.X.Type().Underlying().(*types.Pointer); ok && base.Op == "alloc" {
		// make([]T, n) with constant n
		if h, ok := intConst(hi); ok && lo == intT(0) {
			return mkT(x.Type(), "makeslice", base.Str, intT(h), intT(h))
		}
	}
	if l, ok := intConst(lo); ok && base.Op == "seq" && mx.Op == "none" && !s.written(base) {
		h := int64(len(base.Args))
		if hi.Op != "none" {
			if h, ok = intConst(hi); !ok {
				h = -1
			}
		}
		if 0 <= l && l <= h && h <= int64(len(base.Args)) {
			return mkT(x.Type(), "seq", base.Str, base.Args[l:h]...)
		}
	}
	// x[:0]
	return mkSlice(x.Type(), base, lo, hi, mx)
}

// written tells whether the path has written to elements of the slice t.
func (s *State) written(t *Term) bool {
	if _, ok := s.dirty[t]; ok {
		return true
	}
	for a := range s.cells {
		if rootOf(a) == t {
			return true
		}
	}
	return false
}

func mkSlice(typ types.Type, base, lo, hi, mx *Term) *Term {
	if tailOf(base) && hi.Op == "none" && mx.Op == "none" {
		base, lo = base.Args[0], mkAdd(base.Args[1], lo)
	}
	return mkT(typ, "slice", "", base, lo, hi, mx)
}

// mkTail returns the slice t without its first n elements.
func mkTail(t, n *Term) *Term {
	none := mk("none", "")
	return mkSlice(t.Type, t, n, none, none)
}

// tailOf tells whether t is what a loop which takes elements from the front of a slice has left of it.
func tailOf(t *Term) bool {
	return t.Op == "slice" && hasIter(t.Args[1]) && t.Args[2].Op == "none" && t.Args[3].Op == "none"
}

// lenOf returns the length term of t.
func (m *Machine) lenOf(s *State, t *Term) *Term {
	t = strip(t)
	switch t.Op {
	case "nil":
		return intT(0)
	case "seq":
		return intT(int64(len(t.Args)))
	case "makeslice":
		return t.Args[0]
	case "const":
		if strings.HasPrefix(t.Str, "string:") {
			if u, err := strconv.Unquote(t.Str[7:]); err == nil {
				return intT(int64(len(u)))
			}
		}
	case "slice":
		if tailOf(t) {
			return mkSub(m.lenOf(s, t.Args[0]), t.Args[1])
		}
		if h, ok := intConst(t.Args[2]); ok {
			if l, ok := intConst(t.Args[1]); ok {
				return intT(h - l)
			}
		}
	case "append":
		if src := s.copyOf(t); src != nil {
			return m.lenOf(s, src)
		}
		if t.Args[1].Op == "seq" {
			return mkAdd(m.lenOf(s, t.Args[0]), intT(int64(len(t.Args[1].Args))))
		}
	case "makemap":
		// entries written on the path
		n := 0
		for _, e := range s.mapw {
			if e.m == t || e.class == s.mapClass(t) {
				n++
			}
		}
		if n == 0 {
			return intT(0)
		}
		return mk("len", "w"+strconv.Itoa(len(s.mapw)), t)
	}
	if s.isNil(t) {
		return intT(0)
	}
	ver := ""
	if isMapish(t.Type) {
		if o, sh := s.sharedMap(t); sh {
			ver = s.version(o)
		}
		cl := s.mapClass(t)
		for i := len(s.mapw) - 1; i >= 0; i-- {
			if s.mapw[i].m == t || s.mapw[i].class == cl {
				ver += "w" + strconv.Itoa(i)
				break
			}
		}
	}
	n := mk("len", ver, t)
	if v, known := s.truthEq(n, intT(0)); known && v {
		return intT(0)
	}
	return n
}

func (m *Machine) lookupInstr(s *State, x *ssa.Lookup) []*State {
	mp, k := s.val(x.X), s.val(x.Index)
	if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
		s.set(x, mkT(x.Type(), "elem", "", mp, k))
		return []*State{s}
	}
	owner, shared := s.sharedMap(strip(mp))
	if mp != tNil {
		s.event(&Event{Kind: EvMapRead, Args: []*Term{strip(mp), k}, Root: owner, Fresh: !shared}, x)
	}
	vt := x.X.Type().Underlying().(*types.Map).Elem()
	val, in := s.lookup(mp, k, vt)
	if !x.CommaOk {
		s.set(x, val)
		return []*State{s}
	}
	return m.fork(s, in, posOf(x), func(s *State, ok bool) {
		v := val
		if !ok {
			v = zeroTerm(vt)
		}
		s.set(x, mk("tuple", "", v, boolT(ok)))
	})
}

// fork splits the path on the truth of cond.
func (m *Machine) fork(s *State, cond *Term, pos string, then func(*State, bool)) []*State {
	if v, ok := s.truth(cond); ok {
		s.assume(cond, v, pos)
		then(s, v)
		return []*State{s}
	}
	f := s.clone()
	var out []*State
	if s.assume(cond, true, pos) {
		then(s, true)
		out = append(out, s)
	}
	if f.assume(cond, false, pos) {
		then(f, false)
		out = append(out, f)
	}
	return out
}

func (m *Machine) branch(s *State, x *ssa.If) []*State {
	cond := s.val(x.Cond)
	f := s.top()
	blk := f.block
	if v, ok := s.truth(cond); ok {
		s.assume(cond, v, posOf(x))
		to := blk.Succs[1]
		if v {
			to = blk.Succs[0]
		}
		return m.enterBlock(s, blk, to)
	}
	n := s.clone()
	var out []*State
	if s.assume(cond, true, condPos(x)) {
		out = append(out, m.enterBlock(s, blk, blk.Succs[0])...)
	}
	if n.assume(cond, false, condPos(x)) {
		out = append(out, m.enterBlock(n, blk, blk.Succs[1])...)
	}
	return out
}

func condPos(x *ssa.If) string {
	if in, ok := x.Cond.(ssa.Instruction); ok {
		return posOf(in)
	}
	return posOf(x)
}

func (m *Machine) next(s *State, x *ssa.Next) []*State {
	it := s.val(x.Iter)
	if x.IsString || it.Op != "range" {
		s.set(x, mkT(x.Type(), "unknown", s.key(x)))
		return []*State{s}
	}
	mp := it.Args[0]
	tup := x.Type().(*types.Tuple)
	if mp == tNil || s.isNil(mp) || mp.Op == "zero" || (mp.Op == "makemap" && m.lenOf(s, mp) == intT(0) && s.dirty[mp] == "") {
		s.set(x, mk("tuple", "", tFalse, zeroTerm2(tup.At(1).Type()), zeroTerm2(tup.At(2).Type())))
		return []*State{s}
	}
	owner, shared := s.sharedMap(mp)
	s.event(&Event{Kind: EvMapRead, Args: []*Term{mp, it}, Root: owner, Fresh: !shared}, x)
	key := s.key(x)
	cond := mk("nextok", key, it)
	mt := mp.Type
	var kt, vt types.Type = tup.At(1).Type(), tup.At(2).Type()
	if mt != nil {
		if u, ok := mt.Underlying().(*types.Map); ok {
			kt, vt = u.Key(), u.Elem()
		}
	}
	return m.fork(s, cond, posOf(x), func(s *State, ok bool) {
		if ok {
			s.set(x, mk("tuple", "", tTrue, mkT(kt, "rkey", key, it), m.rval(s, mp, mkT(kt, "rkey", key, it), vt, key, it)))
		} else {
			s.set(x, mk("tuple", "", tFalse, zeroTerm2(kt), zeroTerm2(vt)))
		}
	})
}

func (m *Machine) rval(s *State, mp, k *Term, vt types.Type, key string, it *Term) *Term {
	return mkT(vt, "rval", key, it)
}

func zeroTerm2(t types.Type) *Term {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return tNil
	}
	return zeroTerm(t)
}

func (m *Machine) typeAssert(s *State, x *ssa.TypeAssert) []*State {
	v := s.val(x.X)
	want := x.AssertedType
	st := strip(v)
	result := st
	if types.IsInterface(want) {
		result = v
	}
	var cond *Term
	if v.Op == "iface" {
		have := v.Aux.(types.Type)
		if wi, ok := want.Underlying().(*types.Interface); ok {
			cond = boolT(types.Implements(have, wi))
		} else {
			cond = boolT(types.Identical(have, want))
		}
	} else if v == tNil || s.isNil(v) {
		cond = tFalse
	} else {
		if wi, ok := want.Underlying().(*types.Interface); ok && types.Implements(x.X.Type(), wi) {
			cond = mkNot(mkEq(v, tNil))
		} else {
			cond = mk("istype", types.TypeString(want, nil), st)
			if cond.Aux == nil {
				cond.Aux = want
			}
		}
	}
	if !x.CommaOk {
		if k, ok := s.truth(cond); !ok || !k {
			s.event(&Event{Kind: EvAssert, Name: types.TypeString(want, nil), Args: []*Term{v}, Aux: want}, x)
			if ok && !k {
				s.status = stPanic
				return []*State{s}
			}
			s.assume(cond, true, posOf(x))
		}
		if result.Type == nil || types.IsInterface(result.Type) && !types.IsInterface(want) {
			result.Type = want
		}
		s.set(x, result)
		return []*State{s}
	}
	if m.members != nil && m.members(s, v, want) {
		s.assume(cond, true, posOf(x))
		cond = tTrue
	}
	return m.fork(s, cond, posOf(x), func(s *State, ok bool) {
		r := result
		if !ok {
			r = zeroTerm(want)
		}
		s.set(x, mk("tuple", "", r, boolT(ok)))
	})
}

func (m *Machine) selectInstr(s *State, x *ssa.Select) []*State {
	var cases []SelCase
	for _, c := range x.States {
		sc := SelCase{Send: c.Dir == types.SendOnly, Chan: s.val(c.Chan)}
		if sc.Send {
			sc.Val = s.val(c.Send)
		}
		cases = append(cases, sc)
	}
	key := s.key(x)
	tup := x.Type().(*types.Tuple)
	n := len(cases)
	if !x.Blocking {
		n++
	}
	var out []*State
	for i := 0; i < n; i++ {
		c := s
		if i < n-1 {
			c = s.clone()
		}
		idx := i
		if i == len(cases) {
			idx = -1
		}
		e := &Event{Kind: EvSelect, Cases: cases, Chosen: idx, Block: x.Blocking}
		args := []*Term{intT(int64(idx)), mk("recvok", key)}
		r := 2
		for j, cs := range x.States {
			if cs.Dir == types.SendOnly {
				continue
			}
			t := zeroTerm(tup.At(r).Type())
			if j == idx {
				t = mkT(tup.At(r).Type(), "recv", key, cases[j].Chan)
				e.Res = []*Term{t}
			}
			args = append(args, t)
			r++
		}
		c.event(e, x)
		if idx >= 0 && cases[idx].Send {
			c.escape(cases[idx].Val)
		}
		c.set(x, mk("tuple", "", args...))
		if idx >= 0 && !cases[idx].Send {
			m.afterRecv(c, cases[idx].Chan, posOf(x))
		}
		out = append(out, c)
	}
	return out
}

// afterRecv: once the Done channel of a context is closed its Err is not nil.
func (m *Machine) afterRecv(s *State, ch *Term, pos string) {
	if ch.Op == "pure" && ch.Str == "Done" {
		s.assume(mkEq(m.ctxErr(s, ch.Args[0], nil), tNil), false, pos)
	}
}

func (m *Machine) doReturn(s *State, x *ssa.Return) []*State {
	f := s.top()
	var res []*Term
	for _, r := range x.Results {
		res = append(res, s.val(r))
	}
	s.frames = s.frames[:len(s.frames)-1]
	if len(s.frames) == m.ctx.base {
		s.ret = res
		s.status = stRet
		return []*State{s}
	}
	if f.ret != nil {
		if k := len(res) - 1; k >= 0 && isErrorType(x.Results[k].Type()) && !s.isNil(res[k]) && unused(f.ret) {
			s.event(&Event{Kind: EvDropped, Name: f.fn.String(), Res: res[k:]}, f.ret.(ssa.Instruction))
		}
		switch len(res) {
		case 0:
		case 1:
			s.top().env[f.ret] = res[0]
		default:
			s.top().env[f.ret] = mk("tuple", "", res...)
		}
	}
	return []*State{s}
}

// unused tells whether no result of the call is used.
func unused(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		x, ok := r.(*ssa.Extract)
		if !ok || len(*x.Referrers()) > 0 {
			if _, dbg := r.(*ssa.DebugRef); !dbg {
				return false
			}
		}
	}
	return true
}

func (m *Machine) goStmt(s *State, x *ssa.Go, fn *Term, args []*Term) {
	e := &Event{Kind: EvGo, Args: append([]*Term{fn}, args...)}
	if fn.Op == "func" || fn.Op == "closure" {
		e.Name = fn.Aux.(*ssa.Function).String()
	}
	s.event(e, x)
	for _, a := range args {
		s.escape(a)
	}
	s.escape(fn)
	snap := s.clone()
	snap.frames = nil
	snap.locks = nil
	snap.events = nil
	snap.status = stRun
	e.Snap = snap
}

// RunGo explores the goroutine started by event e.
func (m *Machine) RunGo(e *Event) []*State {
	fn := e.Args[0]
	f, ok := fn.Aux.(*ssa.Function)
	if !ok || (fn.Op != "func" && fn.Op != "closure") {
		m.giveUp("goroutine at %s runs an unknown function", e.Pos)
	}
	st := e.Snap.clone()
	// the goroutine runs later: nothing is known about shared content any more
	st.epoch += 1000
	for a := range st.cells {
		if _, sh := st.sharedAddr(a); sh {
			delete(st.cells, a)
		}
	}
	var w []mapEntry
	for _, x := range st.mapw {
		if !x.shared {
			w = append(w, x)
		}
	}
	st.mapw = w
	st.flist = append([]Fact(nil), st.flist...)
	for i := range st.flist {
		st.flist[i].Ev = 0
	}
	var free []*Term
	if fn.Op == "closure" {
		free = fn.Args
	}
	return m.Run(f, e.Args[1:], free, st)
}
