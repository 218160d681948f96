package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pureNames are the accessor methods of the repository's interfaces: they
// return the same value whenever they are called on the same object.
var pureNames = map[string]bool{
	"UID": true, "String": true, "ID": true, "From": true, "To": true, "Attrs": true,
	"Weight": true, "Type": true, "Name": true, "Namespace": true, "Group": true,
	"Version": true, "Kind": true, "Namespaced": true, "Resource": true, "DOTID": true,
	"Done": true, "Err": true, "Error": true,
}

var gonumWrite = map[string]bool{
	"AddNode": true, "RemoveNode": true, "SetWeightedEdge": true, "RemoveEdge": true, "SetEdge": true,
}

// gonumRead maps the reading methods of a gonum graph to their argument count.
var gonumRead = map[string]int{
	"Node": 1, "Nodes": 0, "From": 1, "To": 1, "Edge": 2, "WeightedEdge": 2, "WeightedEdges": 0,
	"HasEdgeBetween": 2, "HasEdgeFromTo": 2, "WeightedEdgeBetween": 2, "EdgeBetween": 2,
	"Weight": 2, "NewNode": 0, "Edges": 0, "Next": 0,
}

func isGonum(p *types.Package) bool {
	return p != nil && strings.HasPrefix(p.Path(), "gonum.org/v1/gonum/graph")
}

// gonumIface tells whether mt is a method of an interface of the module which
// is declared for a gonum graph: its results are gonum iterators.
func (m *Machine) gonumIface(mt *types.Func) bool {
	sig := mt.Type().(*types.Signature)
	if n, ok := gonumRead[mt.Name()]; !ok || n != sig.Params().Len() || sig.Results().Len() != 1 {
		return false
	}
	n := namedOf(sig.Results().At(0).Type())
	return n != nil && isGonum(n.Obj().Pkg())
}

// callee resolves the function term and the arguments of a call.
func (m *Machine) callee(s *State, cc *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	if cc.IsInvoke() {
		t := mk("method", cc.Method.FullName())
		if t.Aux == nil {
			t.Aux = cc.Method
		}
		args = append(args, s.val(cc.Value))
		for _, a := range cc.Args {
			args = append(args, s.val(a))
		}
		return t, args
	}
	for _, a := range cc.Args {
		args = append(args, s.val(a))
	}
	return s.val(cc.Value), args
}

func setRes(s *State, res ssa.Value, vals ...*Term) {
	if res == nil {
		return
	}
	switch len(vals) {
	case 0:
	case 1:
		s.set(res, vals[0])
	default:
		s.set(res, mk("tuple", "", vals...))
	}
}

func (m *Machine) call(s *State, in ssa.Instruction, cc *ssa.CallCommon, fn *Term, args []*Term, res ssa.Value) []*State {
	switch fn.Op {
	case "builtin":
		return m.builtin(s, in, fn.Str, args, res)
	case "method":
		mt := fn.Aux.(*types.Func)
		recv := args[0]
		if recv.Op == "iface" {
			have := recv.Aux.(types.Type)
			sel := m.p.ssa.MethodSets.MethodSet(have).Lookup(mt.Pkg(), mt.Name())
			if sel != nil {
				f := m.p.ssa.MethodValue(sel)
				if f != nil && inModule(f) && f.Blocks != nil {
					a := append([]*Term{recv.Args[0]}, args[1:]...)
					return m.static(s, in, f, nil, a, res)
				}
			}
		}
		if recv == tNil || s.isNil(recv) {
			s.event(&Event{Kind: EvPanic, Name: "method call on nil interface"}, in)
			s.status = stPanic
			return []*State{s}
		}
		return m.invoke(s, in, mt, args, res)
	case "func":
		return m.static(s, in, fn.Aux.(*ssa.Function), nil, args, res)
	case "closure":
		return m.static(s, in, fn.Aux.(*ssa.Function), fn.Args, args, res)
	}
	if fn == tNil || s.isNil(fn) {
		s.event(&Event{Kind: EvPanic, Name: "call of nil function"}, in)
		s.status = stPanic
		return []*State{s}
	}
	return m.dynCall(s, in, cc.Signature(), fn, args, res)
}

func sigResults(s *State, sig *types.Signature, call *Term) []*Term {
	var r []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		r = append(r, mkT(sig.Results().At(i).Type(), "res", strconv.Itoa(i), call))
	}
	return r
}

func (m *Machine) static(s *State, in ssa.Instruction, f *ssa.Function, free, args []*Term, res ssa.Value) []*State {
	name := f.String()
	if strings.HasPrefix(name, "(*sync.") {
		if out, ok := m.syncCall(s, in, name, args, res); ok {
			return out
		}
	}
	if inModule(f) && f.Blocks != nil {
		if m.opaque != nil && m.opaque(f) {
			call := mk("call", name+"@"+s.key(in), args...)
			e := &Event{Kind: EvCall, Name: name, Args: args, Res: sigResults(s, f.Signature, call), Aux: f}
			s.event(e, in)
			setRes(s, res, e.Res...)
			return []*State{s}
		}
		n := 0
		for _, fr := range s.frames {
			if fr.fn == f {
				n++
			}
		}
		if n < 3 && len(s.frames) < 40 {
			m.pushFrame(s, f, args, free, res, m.site(in))
			return m.enter(s)
		}
		m.giveUp("recursion through %s", f)
	}
	return m.external(s, in, f, args, res)
}

// syncCall models the mutexes.
func (m *Machine) syncCall(s *State, in ssa.Instruction, name string, args []*Term, res ssa.Value) ([]*State, bool) {
	var lock, write, un bool
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		lock, write = true, true
	case "(*sync.RWMutex).RLock":
		lock = true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		un, write = true, true
	case "(*sync.RWMutex).RUnlock":
		un = true
	default:
		return nil, false
	}
	l := args[0]
	if lock {
		s.event(&Event{Kind: EvLock, Args: []*Term{l}, Write: write, Fresh: s.fresh(l)}, in)
		s.newEpoch(l)
		s.locks = append(append([]Lock(nil), s.locks...), Lock{T: l, Write: write, Epoch: s.epoch, Pos: posOf(in)})
		s.events[len(s.events)-1].Epoch = s.epoch
	}
	if un {
		e := s.event(&Event{Kind: EvUnlock, Args: []*Term{l}, Write: write}, in)
		found := false
		for i := len(s.locks) - 1; i >= 0; i-- {
			if s.locks[i].T == l && s.locks[i].Write == write {
				s.locks = append(append([]Lock(nil), s.locks[:i]...), s.locks[i+1:]...)
				found = true
				break
			}
		}
		e.Normal = found
		s.newEpoch(l)
	}
	setRes(s, res)
	return []*State{s}, true
}

// onceDone names the flag of a sync.Once.
const onceDone = "sync.Once.done"

// once models sync.Once.Do: the function runs unless the flag is set, which
// no other call can test in between.
func (m *Machine) once(s *State, in ssa.Instruction, o, fn *Term) []*State {
	f, ok := fn.Aux.(*ssa.Function)
	if !ok || fn.Op != "func" && fn.Op != "closure" || f.Blocks == nil {
		m.giveUp("sync.Once is called with an unknown function (%s)", posOf(in))
	}
	var free []*Term
	if fn.Op == "closure" {
		free = fn.Args
	}
	boolT := types.Typ[types.Bool]
	a := mkT(types.NewPointer(boolT), "faddr", onceDone, o)
	if a.Aux == nil {
		a.Aux = types.NewField(token.NoPos, nil, "done", boolT, false)
	}
	m.fvars[onceDone] = a.Aux.(*types.Var)
	site := m.site(in)
	return m.fork(s, s.load(a, boolT, in), posOf(in), func(st *State, done bool) {
		if !done {
			st.store(a, tTrue, boolT, in)
			m.pushFrame(st, f, nil, free, nil, site+"once")
			m.enter(st)
		}
	})
}

// pure returns the term of accessor name on recv.
func (m *Machine) pure(name string, recv *Term, typ types.Type) *Term {
	recv = strip(recv)
	if recv.Op == "load" && recv.Str == "" && recv.Args[0].Op == "faddr" {
		if v, ok := recv.Args[0].Aux.(*types.Var); ok && v.Embedded() {
			if p, ok := m.p.embeds[v]; ok {
				if sel := types.NewMethodSet(types.NewPointer(p.named)).Lookup(nil, name); sel != nil {
					if len(sel.Index()) > 1 && sel.Index()[0] == p.index {
						return m.pure(name, recv.Args[0].Args[0], typ)
					}
				}
			}
		}
	}
	return mkT(typ, "pure", name, recv)
}

// ctxErr returns the current error of the context ctx. A context which had
// not ended when it was asked may have ended since.
func (m *Machine) ctxErr(s *State, ctx *Term, typ types.Type) *Term {
	t := m.pure("Err", ctx, typ)
	for i := 1; t.Op == "pure" && t.Str == "Err" && s.isNil(t); i++ {
		t = mkT(typ, "pure", "Err", t.Args[0], intT(int64(i)))
	}
	return t
}

// isCtxErr tells whether t is an error of the context ctx.
func isCtxErr(t, ctx *Term) bool {
	x, ok := isPure(t, "Err")
	return ok && same(x, ctx)
}

// invoke models a method call on an interface of unknown dynamic type.
func (m *Machine) invoke(s *State, in ssa.Instruction, mt *types.Func, args []*Term, res ssa.Value) []*State {
	sig := mt.Type().(*types.Signature)
	name := mt.Name()
	recv := args[0]
	s.mayBeAbsent(recv, in)
	if isGonum(mt.Pkg()) || m.gonumIface(mt) {
		if n, ok := gonumRead[name]; ok && n == len(args)-1 || gonumWrite[name] {
			iter := false
			if n == 0 && ok {
				switch name {
				case "Node", "WeightedEdge", "Edge", "Next":
					iter = true
				}
			}
			_ = iter
			return m.gonumCall(s, in, name, sig, args, res)
		}
		if name == "Node" || name == "WeightedEdge" || name == "Edge" {
			// current element of an iterator
			t := mkT(sig.Results().At(0).Type(), "cur", "", strip(recv))
			if l := m.iterLoop(s, recv); l != "" {
				t = mkT(sig.Results().At(0).Type(), "cur", l, strip(recv))
			}
			setRes(s, res, t)
			return []*State{s}
		}
		if name == "Len" || name == "Reset" {
			setRes(s, res, mk("len", "it", strip(recv)))
			return []*State{s}
		}
	}
	if name == "Err" && sig.Params().Len() == 0 && sig.Results().Len() == 1 {
		setRes(s, res, m.ctxErr(s, recv, sig.Results().At(0).Type()))
		return []*State{s}
	}
	if pureNames[name] && sig.Params().Len() == 0 && sig.Results().Len() == 1 {
		setRes(s, res, m.pure(name, recv, sig.Results().At(0).Type()))
		return []*State{s}
	}
	call := mk("call", mt.FullName()+"@"+s.key(in), args...)
	e := &Event{Kind: EvInvoke, Name: name, Args: args, Res: sigResults(s, sig, call), Aux: mt}
	s.event(e, in)
	setRes(s, res, e.Res...)
	return []*State{s}
}

// iterLoop names the last advance of the iterator on the path.
func (m *Machine) iterLoop(s *State, it *Term) string {
	for i := len(s.flist) - 1; i >= 0; i-- {
		f := s.flist[i]
		if f.T.Op == "gnext" && f.T.Args[0] == strip(it) {
			return f.T.Str
		}
	}
	return ""
}

func (m *Machine) gonumCall(s *State, in ssa.Instruction, name string, sig *types.Signature, args []*Term, res ssa.Value) []*State {
	recv := strip(args[0])
	root := recv
	if recv.Op == "gread" {
		root = recv.Args[0]
	}
	owner, _ := m.owner(root)
	sh := owner != nil && !s.fresh(owner)
	if name == "Next" {
		s.event(&Event{Kind: EvGRead, Name: name, Args: args, Root: owner, Fresh: !sh}, in)
		t := mk("gnext", s.key(in), recv)
		setRes(s, res, t)
		return []*State{s}
	}
	if gonumWrite[name] {
		s.event(&Event{Kind: EvGWrite, Name: name, Args: args, Root: owner, Fresh: !sh}, in)
		s.gver[root]++
		for _, a := range args[1:] {
			if !s.fresh(root) {
				s.escape(a)
			}
		}
		setRes(s, res)
		return []*State{s}
	}
	ver := "g" + strconv.Itoa(s.gver[root])
	if sh {
		ver += s.version(owner)
	}
	t := mkT(sig.Results().At(0).Type(), "gread", name+"@"+ver, append([]*Term{recv}, args[1:]...)...)
	s.event(&Event{Kind: EvGRead, Name: name, Args: args, Root: owner, Fresh: !sh, Res: []*Term{t}}, in)
	if name == "Weight" {
		setRes(s, res, t, mk("res", "1", t))
		return []*State{s}
	}
	setRes(s, res, t)
	return []*State{s}
}

func gname(t *Term) string {
	if t.Op != "gread" {
		return ""
	}
	return t.Str[:strings.Index(t.Str, "@")]
}

// dynCall models the call of an unknown function value.
func (m *Machine) dynCall(s *State, in ssa.Instruction, sig *types.Signature, fn *Term, args []*Term, res ssa.Value) []*State {
	call := mk("call", "func@"+s.key(in), append([]*Term{fn}, args...)...)
	e := &Event{Kind: EvDyn, Args: append([]*Term{fn}, args...), Res: sigResults(s, sig, call)}
	s.event(e, in)
	for i, a := range args {
		if a.Op != "alloc" && a.Op != "faddr" || !s.local(a) {
			continue
		}
		et := derefType(sig.Params().At(min(i, sig.Params().Len()-1)).Type())
		if _, ok := et.Underlying().(*types.Struct); !ok || !expandable(et) {
			continue
		}
		prev := s.load(a, et, nil)
		app := mkT(et, "app", "", fn, prev)
		s.store(a, app, et, nil)
	}
	setRes(s, res, e.Res...)
	return []*State{s}
}

var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "path": true, "unicode": true, "math": true, "reflect": true,
	"bytes": true, "unicode/utf8": true, "path/filepath": true,
}

// readOnly functions do not change what their arguments point to.
var readOnly = map[string]bool{
	"encoding/json.Marshal": true, "encoding/json.MarshalIndent": true,
	"gonum.org/v1/gonum/graph/encoding/dot.Marshal": true, "gonum.org/v1/gonum/graph/encoding/dot.MarshalMulti": true,
}

func (m *Machine) external(s *State, in ssa.Instruction, f *ssa.Function, args []*Term, res ssa.Value) []*State {
	name := f.String()
	sig := f.Signature
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if o := f.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	switch name {
	case "errors.New":
		setRes(s, res, mkT(sig.Results().At(0).Type(), "errorf", s.key(in), args...))
		return []*State{s}
	case "fmt.Errorf":
		setRes(s, res, mkT(sig.Results().At(0).Type(), "errorf", s.key(in), args...))
		return []*State{s}
	case "errors.Is":
		err, target := strip(args[0]), strip(args[1])
		if res == nil {
			return []*State{s}
		}
		setRes(s, res, m.errIs(s, err, target))
		return []*State{s}
	case "github.com/google/uuid.Must":
		// returns the value or panics, as uuid.New does
		if len(args) == 2 && s.assume(mkEq(tNil, strip(args[1])), true, s.key(in)) {
			setRes(s, res, args[0])
			return []*State{s}
		}
	case "time.After":
		setRes(s, res, mkT(sig.Results().At(0).Type(), "after", "", args[0]))
		return []*State{s}
	case "context.Background", "context.TODO":
		setRes(s, res, mkT(sig.Results().At(0).Type(), "extnew", name))
		return []*State{s}
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		if t := sprintOne(name, args); t != nil {
			setRes(s, res, t)
			return []*State{s}
		}
		setRes(s, res, mkT(sig.Results().At(0).Type(), "ext", name, args...))
		return []*State{s}
	case "gonum.org/v1/gonum/graph.NodesOf", "gonum.org/v1/gonum/graph.WeightedEdgesOf", "gonum.org/v1/gonum/graph.EdgesOf":
		a := strip(args[0])
		root := a
		if a.Op == "gread" {
			root = a.Args[0]
		}
		owner, _ := m.owner(root)
		sh := owner != nil && !s.fresh(owner)
		s.event(&Event{Kind: EvGRead, Name: "iterate", Args: args, Root: owner, Fresh: !sh}, in)
		setRes(s, res, mkT(sig.Results().At(0).Type(), "ext", name, args...))
		return []*State{s}
	case "(*gonum.org/v1/gonum/graph/traverse.BreadthFirst).Walk", "(*gonum.org/v1/gonum/graph/traverse.DepthFirst).Walk":
		return m.graphWalk(s, in, f, args, res)
	case "(*sync.Once).Do":
		return m.once(s, in, args[0], args[1])
	}
	if f.Signature.Recv() != nil && isGonumPkgPath(pkg) {
		if n, ok := gonumRead[f.Name()]; ok && n == len(args)-1 || gonumWrite[f.Name()] {
			return m.gonumCall(s, in, f.Name(), sig, args, res)
		}
	}
	if t, ok := s.buffer(name, sig, args); ok {
		setRes(s, res, t...)
		return []*State{s}
	}
	if purePkgs[pkg] && !changesRecv(f) {
		var rs []*Term
		base := mkT(nil, "ext", name, args...)
		if sig.Results().Len() == 1 {
			if base.Type == nil {
				base.Type = sig.Results().At(0).Type()
			}
			rs = []*Term{base}
		} else {
			rs = sigResults(s, sig, base)
		}
		setRes(s, res, rs...)
		return []*State{s}
	}
	key := s.key(in)
	call := mk("call", name+"@"+key, args...)
	e := &Event{Kind: EvExt, Name: name, Args: args, Aux: f}
	if sig.Results().Len() == 1 && strings.HasPrefix(f.Name(), "New") {
		e.Res = []*Term{mkT(sig.Results().At(0).Type(), "extnew", name+"@"+key, args...)}
	} else {
		e.Res = sigResults(s, sig, call)
	}
	s.event(e, in)
	for _, a := range args {
		m.graphsIn(s, in, a)
	}
	if readOnly[name] {
		setRes(s, res, e.Res...)
		return []*State{s}
	}
	for i, a := range args {
		x := strip(a)
		if x.Op != "alloc" && x.Op != "faddr" || !s.local(x) {
			continue
		}
		if x.Type == nil {
			continue
		}
		et := derefType(x.Type)
		if a.Op == "iface" {
			et = derefType(a.Aux.(types.Type))
		}
		out := mkT(et, "out", strconv.Itoa(i), call)
		if v, ok := m.jsonVals[strip(args[0])]; ok && i == 1 && name == "encoding/json.Unmarshal" && s.load(x, et, nil) == zeroTerm(et) { // others are merged
			if t := jsonDecode(v, et); t != nil {
				out = t
			}
		}
		s.store(x, out, et, nil)
	}
	setRes(s, res, e.Res...)
	return []*State{s}
}

// graphsIn records that a function outside of the module reads the graphs a
// leads to.
func (m *Machine) graphsIn(s *State, in ssa.Instruction, a *Term) {
	seen := map[*Term]bool{}
	var rec func(t *Term, d int)
	rec = func(t *Term, d int) {
		t.walk(func(x *Term) bool {
			if seen[x] {
				return false
			}
			seen[x] = true
			if x.Op == "len" || x.Op == "cap" || x.Op == "ext" && x.Type != nil && isSliceType(x.Type) {
				return false // a number, or a list of members which does not change with the graph
			}
			if x.Op == "alloc" && d < 3 {
				for k, v := range s.cells {
					if k.Op == "faddr" && k.Args[0] == x {
						rec(v, d+1)
					}
				}
			}
			if x.Type == nil {
				return true
			}
			it, ok := x.Type.Underlying().(*types.Interface)
			if !ok {
				return true
			}
			for i := 0; i < it.NumMethods(); i++ {
				if it.Method(i).Name() != "Nodes" {
					continue
				}
				if o, _ := m.owner(strip(x)); o != nil {
					s.event(&Event{Kind: EvGRead, Name: "read", Args: []*Term{strip(x)}, Root: o, Fresh: s.fresh(o)}, in)
				}
			}
			return true
		})
	}
	rec(a, 0)
}

// changesRecv tells whether f is a method which changes, or consumes, its receiver.
func changesRecv(f *ssa.Function) bool {
	if f.Signature.Recv() == nil {
		return false
	}
	if _, ok := f.Signature.Recv().Type().(*types.Pointer); !ok {
		return false
	}
	for _, p := range []string{"Write", "Read", "Unread", "Reset", "Truncate", "Next", "Seek", "Grow"} {
		if strings.HasPrefix(f.Name(), p) {
			return true
		}
	}
	return false
}

// buffer models the writers which collect text: what a local strings.Builder or
// bytes.Buffer holds is the concatenation of what has been written to it.
func (s *State) buffer(name string, sig *types.Signature, args []*Term) ([]*Term, bool) {
	if len(args) == 0 {
		return nil, false
	}
	method := ""
	b := strip(args[0])
	switch {
	case strings.HasPrefix(name, "(*strings.Builder)."):
		method = strings.TrimPrefix(name, "(*strings.Builder).")
	case strings.HasPrefix(name, "(*bytes.Buffer)."):
		method = strings.TrimPrefix(name, "(*bytes.Buffer).")
	case (name == "fmt.Fprintf" || name == "fmt.Fprint") && isBuffer(b.Type):
		method = name
	}
	if method == "" || b.Op != "alloc" && b.Op != "faddr" || !s.fresh(b) {
		return nil, false
	}
	str := types.Typ[types.String]
	cell := mk("faddr", "text", b)
	cur, ok := s.cells[cell]
	if !ok {
		cur = strT("")
	}
	write := func(t *Term) ([]*Term, bool) {
		n := mkT(str, "bin+", "", cur, t)
		if cur == strT("") {
			n = t
		}
		s.cells[cell] = n
		switch sig.Results().Len() {
		case 1:
			return []*Term{tNil}, true
		case 2:
			return []*Term{mk("len", "", t), tNil}, true
		}
		return nil, true
	}
	switch method {
	case "WriteString":
		return write(args[1])
	case "Write":
		return write(mkT(str, "conv", "", args[1]))
	case "WriteByte", "WriteRune":
		if n, ok := intConst(args[1]); ok {
			if method == "WriteByte" {
				return write(strT(string([]byte{byte(n)})))
			}
			return write(strT(string(rune(n))))
		}
		return write(mkT(str, "conv", "", args[1]))
	case "fmt.Fprintf":
		return write(mkT(str, "ext", "fmt.Sprintf", args[1:]...))
	case "fmt.Fprint":
		return write(mkT(str, "ext", "fmt.Sprint", args[1:]...))
	case "String":
		return []*Term{cur}, true
	case "Bytes":
		return []*Term{mkT(sig.Results().At(0).Type(), "conv", "", cur)}, true
	case "Len":
		return []*Term{mk("len", "", cur)}, true
	case "Reset":
		s.cells[cell] = strT("")
		return nil, true
	case "Grow":
		return nil, true
	}
	return nil, false
}

func isBuffer(t types.Type) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	q := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	return q == "strings.Builder" || q == "bytes.Buffer"
}

func isGonumPkgPath(p string) bool { return strings.HasPrefix(p, "gonum.org/v1/gonum/graph") }

// errIs evaluates errors.Is.
func (m *Machine) errIs(s *State, err, target *Term) *Term {
	n := s.norm(err)
	if n == tNil {
		return boolT(target == tNil)
	}
	if n == target {
		return tTrue
	}
	if n.Op == "gval" && target.Op == "gval" {
		return tFalse
	}
	if n.Op == "errorf" {
		// a wrapped error
		for _, a := range n.Args {
			if a.Op == "seq" {
				for i, w := range a.Args {
					w = strip(w)
					if isErrorType(w.Type) && w.Op != "const" && wrapsArg(n.Args[0], i) {
						return m.errIs(s, w, target)
					}
				}
			}
		}
		return tFalse
	}
	return mk("errIs", "", err, target)
}

// wrapsArg tells whether the verb of the i-th argument of the format is %w.
func wrapsArg(format *Term, i int) bool {
	f, ok := strLit(strip(format))
	if !ok {
		return true
	}
	n := 0
	for j := 0; j < len(f); j++ {
		if f[j] != '%' {
			continue
		}
		for j++; j < len(f) && strings.ContainsRune("+-# 0123456789.", rune(f[j])); j++ {
		}
		if j < len(f) && f[j] == '%' {
			continue
		}
		if n == i {
			return j < len(f) && f[j] == 'w'
		}
		n++
	}
	return false
}

func (m *Machine) builtin(s *State, in ssa.Instruction, name string, args []*Term, res ssa.Value) []*State {
	switch name {
	case "len":
		if isMapish(args[0].Type) {
			if o, sh := s.sharedMap(strip(args[0])); sh {
				s.event(&Event{Kind: EvMapRead, Args: []*Term{strip(args[0]), mk("none", "")}, Root: o}, in)
			}
		}
		setRes(s, res, m.lenOf(s, args[0]))
	case "cap":
		t := strip(args[0])
		if t.Op == "makeslice" {
			setRes(s, res, t.Args[1])
		} else if t.Op == "makechan" {
			setRes(s, res, t.Args[0])
		} else {
			setRes(s, res, mk("cap", "", t))
		}
	case "append":
		setRes(s, res, mkAppend(args, res))
	case "delete":
		mp, k := strip(args[0]), args[1]
		owner, sh := s.sharedMap(mp)
		s.event(&Event{Kind: EvMapDel, Args: []*Term{mp, k}, Root: owner, Fresh: !sh && s.fresh(mp)}, in)
		s.mapWrite(mp, k, nil)
	case "close":
		s.event(&Event{Kind: EvClose, Args: args}, in)
	case "copy":
		s.event(&Event{Kind: EvCopy, Args: args}, in)
		s.cells[mk("content", "", strip(args[0]))] = strip(args[1])
		setRes(s, res, mk("copied", s.key(in)))
	case "ssa:wrapnilchk":
		setRes(s, res, args[0])
	case "print", "println":
	default:
		setRes(s, res, mk("builtinres", name+s.key(in), args...))
	}
	return []*State{s}
}

func mkAppend(args []*Term, res ssa.Value) *Term {
	if len(args) == 1 {
		return args[0]
	}
	a, b := strip(args[0]), strip(args[1])
	var typ types.Type
	if res != nil {
		typ = res.Type()
	}
	if b == tNil || b.Op == "seq" && len(b.Args) == 0 {
		return a
	}
	if b.Op == "seq" {
		if a == tNil {
			return mkT(typ, "seq", b.Str, b.Args...)
		}
		if a.Op == "seq" {
			return mkT(typ, "seq", b.Str, append(append([]*Term(nil), a.Args...), b.Args...)...)
		}
		if a.Op == "makeslice" && a.Args[0] == intT(0) {
			return mkT(typ, "seq", b.Str, b.Args...)
		}
	}
	return mkT(typ, "append", "", a, b)
}

// sprintOne returns the string which fmt.Sprint(x), fmt.Sprintf("%s", x) or
// fmt.Sprintf("%v", x) makes of one string.
func sprintOne(name string, args []*Term) *Term {
	if name == "fmt.Sprintln" || len(args) == 0 {
		return nil
	}
	if name == "fmt.Sprintf" {
		if f, ok := strLit(args[0]); !ok || f != "%s" && f != "%v" {
			return nil
		}
	}
	l := strip(args[len(args)-1])
	if l.Op != "seq" || len(l.Args) != 1 {
		return nil
	}
	x := strip(l.Args[0])
	if b, ok := x.Type.(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return x
	}
	return nil
}
