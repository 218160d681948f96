package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Kinds of events recorded along a path.
const (
	EvStore     = "store"
	EvRead      = "read"
	EvMapSet    = "mapset"
	EvMapDel    = "mapdel"
	EvMapRead   = "mapread"
	EvCall      = "call"   // opaque module function
	EvExt       = "ext"    // function outside of the module
	EvInvoke    = "invoke" // interface method of unknown dynamic type
	EvDyn       = "dyn"    // unknown function value
	EvGRead     = "gread"  // read of the gonum graph
	EvGWrite    = "gwrite" // write of the gonum graph
	EvSend      = "send"
	EvRecv      = "recv"
	EvClose     = "close"
	EvSelect    = "select"
	EvLock      = "lock"
	EvUnlock    = "unlock"
	EvGo        = "go"
	EvLoopStart = "loopstart"
	EvLoopEnd   = "loopend"
	EvAssert    = "assert"
	EvCopy      = "copy"
	EvPanic     = "panic"
	EvInit      = "init"     // a nil map is replaced by an empty one
	EvMaybeNil  = "maybenil" // use of a map element which may be absent
	EvDropped   = "dropped"  // failure of a module function whose results are not used
)

// SelCase is one case of a select statement.
type SelCase struct {
	Send bool
	Chan *Term
	Val  *Term
}

// Event is an effect on a path.
type Event struct {
	Kind   string
	Name   string // callee or method name
	Args   []*Term
	Res    []*Term
	Fn     *ssa.Function
	Pos    string
	Write  bool // lock mode
	Locks  []Lock
	Epoch  int
	NFacts int
	Cases  []SelCase
	Chosen int // chosen select case, -1 default
	Block  bool
	Loop   *Loop
	Normal bool // normal loop exit
	Fresh  bool // access to an object which has not escaped
	Snap   *State
	Aux    interface{}
	Instr  ssa.Instruction
	Depth  int
	Root   *Term
}

func (e *Event) String() string {
	var a []string
	for _, x := range e.Args {
		a = append(a, x.String())
	}
	s := e.Kind
	if e.Name != "" {
		s += " " + e.Name
	}
	if len(a) > 0 {
		s += "(" + strings.Join(a, ", ") + ")"
	}
	if e.Kind == EvSelect {
		s += fmt.Sprintf(" case %d of %d", e.Chosen, len(e.Cases))
	}
	return s + " @" + e.Pos
}

// Seg is one iteration of a summarised loop.
type Seg struct {
	St     *State
	Events []*Event
	Facts  []Fact
	Phi    map[string]*Term // next values of loop variables
}

// Loop is a summarised loop.
type Loop struct {
	ID      string
	Kind    string // map, slice, iter, bfs, other
	Over    *Term  // what is iterated
	Segs    []*Seg
	Stands  []*Seg // iterations which change nothing
	Fn      *ssa.Function
	Pos     string
	Full    bool            // the normal exit is reached only when Over is exhausted
	exit    *ssa.BasicBlock // the block the loop ends in when its condition does not hold
	Early   int             // exits other than the normal one
	NIter   *Term
	PhiTerm map[*Term]*Term   // loop variable -> initial value
	PhiNext map[*Term][]*Term // loop variable -> values at the back edges
	Iter    *Term
	Until   []UntilRes
}

// UntilRes is a result of the until function of a graph walk.
type UntilRes struct {
	Ret   *Term
	Facts []Fact
	Node  *Term
	Depth *Term
}

// Fact is a branch condition assumed on the path.
type Fact struct {
	T   *Term
	V   bool
	Ev  int
	Pos string
}

func (f Fact) String() string {
	if f.V {
		return f.T.String()
	}
	return "!(" + f.T.String() + ")"
}

// Lock is a held lock.
type Lock struct {
	T     *Term
	Write bool
	Epoch int
	Pos   string
}

type mapEntry struct {
	class   string
	m, k, v *Term // v nil: deleted
	barrier string
	epoch   int
	shared  bool
}

type deferred struct {
	instr *ssa.Defer
	fn    *Term
	args  []*Term
}

// Frame is an activation of a function on the path.
type Frame struct {
	fn     *ssa.Function
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	env    map[ssa.Value]*Term
	defers []deferred
	ret    ssa.Value // register of the caller
	ctx    string
	unroll map[*ssa.BasicBlock]int
	rot    *natLoop // rotated loop whose condition holds at the start
	isDef  bool
}

const (
	stRun = iota
	stRet
	stPanic
	stBack
	stExit
)

// State is an abstract state on a path.
type State struct {
	latched bool // left a loop whose condition is tested at the end of an iteration
	m       *Machine
	frames  []*Frame
	cells   map[*Term]*Term
	mapw    []mapEntry
	facts   map[*Term]bool
	flist   []Fact
	events  []*Event
	locks   []Lock
	count   map[string]int
	epoch   int
	escaped map[*Term]bool
	dirty   map[*Term]string
	fver    map[string]int
	gver    map[*Term]int
	status  int
	ret     []*Term
}

func newState(m *Machine) *State {
	return &State{
		m:       m,
		cells:   map[*Term]*Term{},
		facts:   map[*Term]bool{},
		count:   map[string]int{},
		escaped: map[*Term]bool{},
		dirty:   map[*Term]string{},
		fver:    map[string]int{},
		gver:    map[*Term]int{},
		epoch:   1,
	}
}

func (f *Frame) clone() *Frame {
	g := *f
	g.env = make(map[ssa.Value]*Term, len(f.env)+4)
	for k, v := range f.env {
		g.env[k] = v
	}
	g.defers = append([]deferred(nil), f.defers...)
	if f.unroll != nil {
		g.unroll = map[*ssa.BasicBlock]int{}
		for k, v := range f.unroll {
			g.unroll[k] = v
		}
	}
	return &g
}

func (s *State) clone() *State {
	n := &State{m: s.m, epoch: s.epoch, status: s.status}
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		n.frames[i] = f.clone()
	}
	n.cells = make(map[*Term]*Term, len(s.cells)+4)
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.mapw = append([]mapEntry(nil), s.mapw...)
	n.facts = make(map[*Term]bool, len(s.facts)+4)
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.flist = append([]Fact(nil), s.flist...)
	n.events = append([]*Event(nil), s.events...)
	n.locks = append([]Lock(nil), s.locks...)
	n.count = make(map[string]int, len(s.count)+4)
	for k, v := range s.count {
		n.count[k] = v
	}
	n.escaped = make(map[*Term]bool, len(s.escaped))
	for k, v := range s.escaped {
		n.escaped[k] = v
	}
	n.dirty = make(map[*Term]string, len(s.dirty))
	for k, v := range s.dirty {
		n.dirty[k] = v
	}
	n.fver = make(map[string]int, len(s.fver))
	for k, v := range s.fver {
		n.fver[k] = v
	}
	n.gver = make(map[*Term]int, len(s.gver))
	for k, v := range s.gver {
		n.gver[k] = v
	}
	n.ret = append([]*Term(nil), s.ret...)
	return n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) occ(key string) string {
	s.count[key]++
	return strconv.Itoa(s.count[key])
}

// event records an event at instruction in.
func (s *State) event(e *Event, in ssa.Instruction) *Event {
	if in != nil {
		e.Pos = posOf(in)
		e.Fn = in.Parent()
		e.Instr = in
	}
	e.Locks = append([]Lock(nil), s.locks...)
	e.Epoch = s.epoch
	e.NFacts = len(s.flist)
	e.Depth = len(s.frames)
	s.events = append(s.events, e)
	return e
}

// ---- facts

// truth evaluates a boolean term under the facts of the path.
func (s *State) truth(t *Term) (bool, bool) {
	switch {
	case t == tTrue:
		return true, true
	case t == tFalse:
		return false, true
	case t.Op == "not":
		v, ok := s.truth(t.Args[0])
		return !v, ok
	}
	if v, ok := s.facts[t]; ok {
		return v, true
	}
	switch t.Op {
	case "eq":
		a, b := t.Args[0], t.Args[1]
		if a == tNil || b == tNil {
			x := a
			if a == tNil {
				x = b
			}
			if nonNil(x) {
				return false, true
			}
			if x.Op == "lookup" {
				in := mk("in", x.Str, x.Args...)
				if v, ok := s.facts[in]; ok && !v {
					return true, true
				}
			}
		}
		// a is known to equal something else
		for _, f := range s.flist {
			if !f.V || f.T.Op != "eq" {
				continue
			}
			for i := 0; i < 2; i++ {
				x, y := f.T.Args[i], f.T.Args[1-i]
				for j := 0; j < 2; j++ {
					if t.Args[j] == x {
						o := t.Args[1-j]
						if o == y {
							return true, true
						}
						if distinct(o, y) || (y == tNil && nonNil(o)) || (o == tNil && nonNil(y)) {
							return false, true
						}
						if n := mkEq(y, o); n == tTrue || n == tFalse {
							return n == tTrue, true
						} else if v, ok := s.facts[n]; ok {
							return v, true
						}
					}
				}
			}
		}
		if v, ok := s.facts[mk("lt", "", a, b)]; ok && v {
			return false, true
		}
		if v, ok := s.facts[mk("lt", "", b, a)]; ok && v {
			return false, true
		}
	case "lt":
		a, b := t.Args[0], t.Args[1]
		if v, ok := s.facts[mk("lt", "", b, a)]; ok && v {
			return false, true
		}
		if v, ok := s.truthEq(a, b); ok && v {
			return false, true
		}
		// substitute constants
		if ca, cb := s.norm(a), s.norm(b); ca != a || cb != b {
			if n := mkLt(ca, cb); n == tTrue || n == tFalse {
				return n == tTrue, true
			}
		}
	case "in":
		lk := mk("lookup", t.Str, t.Args...)
		if v, ok := s.facts[mk("eq", "", orderEq(lk, tNil)...)]; ok && !v {
			return true, true
		}
		if v, ok := s.facts[lk]; ok && v {
			return true, true
		}
	case "lookup": // boolean valued map
		in := mk("in", t.Str, t.Args...)
		if v, ok := s.facts[in]; ok && !v {
			return false, true
		}
	case "errIs":
		if v, ok := s.truthEq(t.Args[0], tNil); ok && v {
			return false, true
		}
		if v, ok := s.truthEq(t.Args[0], t.Args[1]); ok && v {
			return true, true
		}
		// the error is known to be another sentinel
		if n := s.norm(t.Args[0]); n != t.Args[0] && n.Op == "gval" && n != t.Args[1] {
			return false, true
		}
	case "istype":
		x := t.Args[0]
		if v, ok := s.truthEq(x, tNil); ok && v {
			return false, true
		}
		want, _ := t.Aux.(types.Type)
		if want != nil {
			for _, f := range s.flist {
				if f.T.Op != "istype" || f.T.Args[0] != x {
					continue
				}
				have, _ := f.T.Aux.(types.Type)
				if have == nil {
					continue
				}
				if f.V {
					if wi, ok := want.Underlying().(*types.Interface); ok {
						if types.Implements(have, wi) {
							return true, true
						}
						if !types.IsInterface(have) {
							return false, true
						}
					} else if !types.IsInterface(have) && !types.Identical(have, want) {
						return false, true
					}
					if hi, ok := have.Underlying().(*types.Interface); ok && !types.IsInterface(want) && !types.Implements(want, hi) {
						return false, true
					}
				} else if hi, ok := have.Underlying().(*types.Interface); ok {
					// not a hi: nothing that implements hi either
					if types.Implements(want, hi) {
						return false, true
					}
				}
			}
		}
	}
	return false, false
}

func orderEq(a, b *Term) []*Term {
	if a.ID > b.ID {
		a, b = b, a
	}
	return []*Term{a, b}
}

func (s *State) truthEq(a, b *Term) (bool, bool) { return s.truth(mkEq(a, b)) }

// isNil and notNil evaluate nil-ness under the facts of the path.
func (s *State) isNil(t *Term) bool {
	if t == tNil {
		return true
	}
	v, ok := s.truthEq(t, tNil)
	return ok && v
}

func (s *State) notNil(t *Term) bool {
	v, ok := s.truthEq(t, tNil)
	return ok && !v
}

// norm replaces t by the constant, nil or sentinel it is known to equal.
func (s *State) norm(t *Term) *Term {
	if isConst(t) || t == tNil {
		return t
	}
	if t.Type != nil && isBool(t.Type) || t.Op == "eq" || t.Op == "lt" || t.Op == "not" || t.Op == "in" {
		if v, ok := s.truth(t); ok {
			return boolT(v)
		}
	}
	x := strip(t)
	for _, f := range s.flist {
		if f.V && f.T.Op == "eq" {
			for i := 0; i < 2; i++ {
				if f.T.Args[i] == x || f.T.Args[i] == t {
					o := f.T.Args[1-i]
					if isConst(o) || o == tNil || o.Op == "gval" {
						return o
					}
				}
			}
		}
	}
	return t
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// assume adds a fact, it returns false when it contradicts the path.
func (s *State) assume(t *Term, v bool, pos string) bool {
	for t.Op == "not" {
		t, v = t.Args[0], !v
	}
	if k, ok := s.truth(t); ok {
		if k == v {
			// keep the fact: specs look at the conditions tested
			if t.Op != "const" {
				if _, dup := s.facts[t]; !dup {
					s.facts[t] = v
					s.flist = append(s.flist, Fact{t, v, len(s.events), pos})
				}
			}
			return true
		}
		return false
	}
	s.facts[t] = v
	s.flist = append(s.flist, Fact{t, v, len(s.events), pos})
	switch t.Op {
	case "errIs":
		if v {
			return s.assume(mkEq(t.Args[0], tNil), false, pos)
		}
	case "istype":
		if v {
			return s.assume(mkEq(t.Args[0], tNil), false, pos)
		}
	}
	return true
}

// ---- memory

// rootOf returns the object an address belongs to.
func rootOf(a *Term) *Term {
	for a.Op == "faddr" || a.Op == "iaddr" {
		a = a.Args[0]
	}
	return a
}

// fresh tells whether t is an object created on the path which no one else can reach.
func (s *State) fresh(t *Term) bool {
	t = strip(rootOf(t))
	switch t.Op {
	case "alloc", "makemap", "makechan", "makeslice":
		return !s.escaped[t]
	case "seq":
		return true
	}
	return false
}

// local tells whether t is an object created on the path.
func (s *State) local(t *Term) bool {
	t = strip(rootOf(t))
	switch t.Op {
	case "alloc", "makemap", "makechan", "makeslice", "seq":
		return true
	}
	return false
}

// escape marks the objects reachable from t as shared.
func (s *State) escape(t *Term) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case "alloc", "makemap", "makechan", "makeslice":
			if !s.escaped[t] {
				s.escaped[t] = true
			}
			for a, v := range s.cells {
				if rootOf(a) == t {
					rec(v)
				}
			}
			for _, w := range s.mapw {
				if w.m == t {
					rec(w.v)
				}
			}
			return
		case "pure", "load", "lookup", "elem", "res", "call", "recv", "ext", "gread", "in":
			return
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
}

// monitoredAddr returns the object and the field of an address inside of an
// object which owns a mutex.
func (m *Machine) monitoredAddr(a *Term) (*Term, *types.Var) {
	for x := a; ; {
		if x.Op == "faddr" {
			if v, ok := x.Aux.(*types.Var); ok {
				if m.ownerOf(v) != nil {
					return x.Args[0], v
				}
			}
			x = x.Args[0]
			continue
		}
		if x.Op == "iaddr" {
			x = x.Args[0]
			continue
		}
		return nil, nil
	}
}

// owner returns the monitored object t's content belongs to: t has been
// read from a field of it (maps, pointers to scalars).
func (m *Machine) owner(t *Term) (*Term, *types.Var) {
	for {
		switch t.Op {
		case "load":
			a := t.Args[0]
			if o, v := m.monitoredAddr(a); o != nil {
				return o, v
			}
			return nil, nil
		case "field":
			if v := m.fieldVar(t.Str); v != nil && m.ownerOf(v) != nil {
				return t.Args[0], v
			}
			return nil, nil
		case "lookup", "rval":
			if !isMapish(t.Type) {
				return nil, nil
			}
			t = t.Args[0]
		case "range":
			t = t.Args[0]
		case "loopvar":
			if o, v := m.monitoredAddr(t.Args[0]); o != nil {
				return o, v
			}
			return nil, nil
		default:
			return nil, nil
		}
	}
}

func isMapish(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// shared tells whether the content at address a can be changed by others unless
// the lock of its object is held.
func (s *State) sharedAddr(a *Term) (*Term, bool) {
	if o, v := s.m.monitoredAddr(a); o != nil {
		if s.fresh(o) || !s.m.p.mutable[v] {
			return nil, false
		}
		return o, true
	}
	if v, ok := a.Aux.(*types.Var); ok && a.Op == "faddr" && !s.m.p.mutable[v] {
		// never changes once the object has been made
		return nil, false
	}
	r := rootOf(a)
	if r != a || r.Op == "load" || r.Op == "field" {
		if o, _ := s.m.owner(r); o != nil && !s.fresh(o) {
			return o, true
		}
	}
	return nil, false
}

func (s *State) sharedMap(m *Term) (*Term, bool) {
	if o, _ := s.m.owner(m); o != nil && !s.fresh(o) {
		return o, true
	}
	return nil, false
}

// held returns the lock of the object o when it is held.
func (s *State) held(o *Term) *Lock {
	for i := range s.locks {
		if s.m.lockBelongs(s.locks[i].T, o) {
			return &s.locks[i]
		}
	}
	return nil
}

// lockBelongs tells whether the lock term names the mutex of the object o.
func (m *Machine) lockBelongs(l, o *Term) bool {
	switch l.Op {
	case "faddr":
		return l.Args[0] == o
	case "load":
		if l.Args[0].Op == "faddr" {
			return l.Args[0].Args[0] == o
		}
	case "field":
		return l.Args[0] == o
	}
	return false
}

// version names the state of shared content owned by o.
func (s *State) version(o *Term) string {
	if l := s.held(o); l != nil {
		return "e" + strconv.Itoa(l.Epoch)
	}
	return "u" + s.occ("unlocked")
}

// load reads the cell at address a of type typ.
func (s *State) load(a *Term, typ types.Type, in ssa.Instruction) *Term {
	if a.Op == "gaddr" {
		t := mkT(typ, "gval", a.Str)
		if t.Aux == nil {
			t.Aux = a.Aux
		}
		return t
	}
	if st, ok := typ.Underlying().(*types.Struct); ok && expandable(typ) {
		if c, ok := s.cells[a]; ok {
			return c
		}
		args := make([]*Term, st.NumFields())
		for i := range args {
			f := st.Field(i)
			args[i] = s.load(s.m.faddr(a, typ, i), f.Type(), in)
		}
		return mkStruct(typ, args)
	}
	if at, ok := typ.Underlying().(*types.Array); ok && s.cells[a] == nil && s.local(rootOf(a)) && at.Len() <= maxArray {
		args := make([]*Term, at.Len())
		for i := range args {
			args[i] = s.load(mkT(types.NewPointer(at.Elem()), "iaddr", "", a, intT(int64(i))), at.Elem(), in)
		}
		return mkT(typ, "array", "", args...)
	}
	o, v := s.m.monitoredAddr(a)
	if o != nil && isMutexType(v.Type()) {
		o = nil
	}
	owner, shared := s.sharedAddr(a)
	if in != nil && (o != nil && s.m.p.mutable[v] || shared) {
		root := owner
		if root == nil {
			root = o
		}
		s.event(&Event{Kind: EvRead, Args: []*Term{a}, Root: root, Fresh: !shared}, in)
	}
	if c, ok := s.cells[a]; ok {
		return c
	}
	root := rootOf(a)
	if a.Op == "iaddr" && a.Args[0] == root {
		if src := s.copyOf(root); src != nil {
			return s.load(mkT(a.Type, "iaddr", "", src, a.Args[1]), typ, in)
		}
	}
	if s.local(root) && !shared {
		if d, ok := s.dirty[root]; ok {
			return s.initial(a, typ, d)
		}
		if root.Op == "seq" {
			if a.Op == "iaddr" {
				if i, ok := intConst(a.Args[1]); ok && int(i) < len(root.Args) && i >= 0 {
					return root.Args[i]
				}
				return mkT(typ, "elem", "", root, a.Args[1])
			}
		}
		if root.Op == "makeslice" && a.Op == "iaddr" {
			if _, ok := intConst(a.Args[1]); !ok {
				return mkT(typ, "elem", "", root, a.Args[1])
			}
		}
		if a.Op == "iaddr" && s.cells[a.Args[0]] != nil {
			return elemOf(s.cells[a.Args[0]], a.Args[1], typ)
		}
		if a.Op == "iaddr" && s.mayBeStored(a) {
			return s.initial(a, typ, "l"+strconv.Itoa(len(s.events)))
		}
		return zeroTerm(typ)
	}
	ver := ""
	if shared {
		ver = s.version(owner)
	} else if a.Op == "faddr" {
		if n := s.fver[a.Str]; n > 0 {
			ver = "w" + strconv.Itoa(n)
		}
	}
	t := s.initial(a, typ, ver)
	if shared && s.held(owner) != nil {
		s.cells[a] = t
	}
	return t
}

// copyOf returns the slice which t is a copy of, of which neither was written.
func (s *State) copyOf(t *Term) *Term {
	var src *Term
	switch t = strip(t); t.Op {
	case "append":
		if a := strip(t.Args[0]); a == tNil || a.Op == "seq" && len(a.Args) == 0 {
			src = strip(t.Args[1])
		}
	case "makeslice":
		if x := s.cells[mk("content", "", t)]; x != nil && s.m.lenOf(s, x) == t.Args[0] {
			src = x
		}
	}
	if src == nil || s.local(src) || src.Type == nil || !isSliceType(src.Type) {
		return nil
	}
	for _, x := range []*Term{t, src} {
		if _, ok := s.dirty[x]; ok {
			return nil
		}
	}
	for c := range s.cells {
		if r := rootOf(c); c.Op != "content" && (r == t || r == src) && c != r {
			return nil
		}
	}
	return src
}

// maxArray is the length up to which the elements of an array are told apart.
const maxArray = 32

// elemOf is the element of an array at an index.
func elemOf(arr, i *Term, typ types.Type) *Term {
	if n, ok := intConst(i); ok && arr.Op == "array" && n >= 0 && int(n) < len(arr.Args) {
		return arr.Args[n]
	}
	return mkT(typ, "elem", "", arr, i)
}

// mayBeStored tells whether the path wrote an element which may be the one at a.
func (s *State) mayBeStored(a *Term) bool {
	for c := range s.cells {
		if c != a && c.Op == "iaddr" && c.Args[0] == a.Args[0] && !distinct(c.Args[1], a.Args[1]) {
			return true
		}
	}
	return false
}

// initial returns the term of the content of a cell the path has not written.
func (s *State) initial(a *Term, typ types.Type, ver string) *Term {
	switch a.Op {
	case "iaddr":
		return mkT(typ, "elem", ver, a.Args[0], a.Args[1])
	case "faddr":
		if v, ok := a.Aux.(*types.Var); ok && ver == "" && s.m.ownerOf(v) == nil {
			if acc := s.m.p.accessors[v]; acc != "" {
				return mkT(typ, "pure", acc, strip(a.Args[0]))
			}
		}
	}
	return mkT(typ, "load", ver, a)
}

// store writes v to the cell at address a.
func (s *State) store(a, v *Term, typ types.Type, in ssa.Instruction) {
	if st, ok := typ.Underlying().(*types.Struct); ok && expandable(typ) {
		for i := 0; i < st.NumFields(); i++ {
			s.store(s.m.faddr(a, typ, i), mkField(v, typ, i), st.Field(i).Type(), in)
		}
		return
	}
	if _, ok := typ.Underlying().(*types.Array); ok {
		for c := range s.cells {
			if c.Op == "iaddr" && c.Args[0] == a {
				delete(s.cells, c)
			}
		}
	}
	root := rootOf(a)
	owner, shared := s.sharedAddr(a)
	o, _ := s.m.monitoredAddr(a)
	if o != nil && in != nil && s.lazyMap(a, v, typ) {
		s.event(&Event{Kind: EvInit, Args: []*Term{a, v}, Root: o}, in)
		return
	}
	if in != nil {
		e := &Event{Kind: EvStore, Args: []*Term{a, v}, Fresh: !shared && s.fresh(root)}
		if owner != nil {
			e.Root = owner
		} else {
			e.Root = o
			if o == nil {
				e.Root = root
			}
		}
		s.event(e, in)
	}
	if !s.fresh(root) {
		s.escape(v)
		if a.Op == "faddr" && !s.local(root) {
			// other objects of the type may be the same object
			for c := range s.cells {
				if c != a && c.Op == "faddr" && c.Str == a.Str && !s.local(c) && !distinct(c.Args[0], a.Args[0]) {
					delete(s.cells, c)
				}
			}
			s.fver[a.Str]++
		}
	}
	if a.Op == "iaddr" {
		if _, ok := intConst(a.Args[1]); !ok {
			for c := range s.cells {
				if c != a && c.Op == "iaddr" && c.Args[0] == a.Args[0] {
					delete(s.cells, c)
				}
			}
			s.dirty[root] = "d" + strconv.Itoa(len(s.events))
		} else {
			for c := range s.cells {
				if c != a && c.Op == "iaddr" && c.Args[0] == a.Args[0] && !distinct(c.Args[1], a.Args[1]) {
					delete(s.cells, c)
				}
			}
		}
	}
	s.cells[a] = v
}

// lazyMap tells whether storing v at a replaces a nil map by an empty one, which
// changes nothing but that it can be written to: the path goes on as if the map
// had been there.
func (s *State) lazyMap(a, v *Term, typ types.Type) bool {
	v = strip(v)
	if _, ok := typ.Underlying().(*types.Map); !ok || v.Op != "makemap" || s.fresh(rootOf(a)) || s.m.lenOf(s, v) != intT(0) {
		return false
	}
	if s.held(rootOf(a)) == nil {
		return false
	}
	old := strip(s.load(a, typ, nil))
	if old.Op != "load" {
		return false
	}
	for i, f := range s.flist {
		if f.T.Op == "eq" && f.V && (f.T.Args[0] == tNil && f.T.Args[1] == old || f.T.Args[1] == tNil && f.T.Args[0] == old) {
			l := append([]Fact(nil), s.flist...)
			l[i].V = false
			s.flist = l
			s.facts[f.T] = false
			return true
		}
	}
	return false
}

func (m *Machine) faddr(base *Term, styp types.Type, i int) *Term {
	st := derefType(styp).Underlying().(*types.Struct)
	f := st.Field(i)
	t := mkT(types.NewPointer(f.Type()), "faddr", fieldKey(styp, i), base)
	if t.Aux == nil {
		t.Aux = f
	}
	m.fvars[t.Str] = f
	return t
}

func (m *Machine) fieldVar(key string) *types.Var { return m.fvars[key] }

// ownerOf returns the monitored type the field belongs to.
func (m *Machine) ownerOf(v *types.Var) *types.Named { return m.fieldOwner[v] }

// ---- maps

func (s *State) mapClass(m *Term) string {
	switch m.Op {
	case "makemap", "makeslice", "alloc":
		return "#" + strconv.Itoa(m.ID)
	case "load":
		if m.Args[0].Op == "faddr" {
			return m.Args[0].Str
		}
		return "*" + strconv.Itoa(m.Args[0].ID)
	case "field":
		return m.Str
	case "pure":
		return "pure." + m.Str
	case "lookup", "rval":
		return s.mapClass(strip(m.Args[0])) + "[]"
	case "range":
		return s.mapClass(m.Args[0])
	case "loopvar":
		if m.Args[0].Op == "faddr" {
			return m.Args[0].Str
		}
	}
	return "?" + strconv.Itoa(m.ID)
}

// lookup returns m[k] and the presence term.
// mayBeAbsent records the use of v when it is an element of a map which is not
// known to be there.
func (s *State) mayBeAbsent(v *Term, in ssa.Instruction) {
	x := strip(v)
	if x.Op == "faddr" {
		x = strip(x.Args[0])
	}
	if x.Op != "lookup" || x.Type == nil || s.notNil(x) {
		return
	}
	switch x.Type.Underlying().(type) {
	case *types.Interface, *types.Pointer:
	default:
		return
	}
	k := x.Args[1]
	if v, ok := s.truth(mk("in", "", x.Args[0], k)); ok && v || k.Op == "rkey" && strip(k.Args[0].Args[0]) == strip(x.Args[0]) {
		return
	}
	for _, f := range s.flist {
		if f.V && f.T.Op == "in" && strip(f.T.Args[0]) == strip(x.Args[0]) && same(f.T.Args[1], k) {
			return
		}
	}
	s.event(&Event{Kind: EvMaybeNil, Args: []*Term{x}}, in)
}

func (s *State) lookup(m, k *Term, vt types.Type) (*Term, *Term) {
	m = strip(m)
	if m == tNil || s.isNil(m) || m.Op == "zero" {
		return zeroTerm(vt), tFalse
	}
	if m.Op == "gval" {
		if t := s.m.p.tables[m.Str]; t != nil {
			if v, in, ok := t.find(strip(k), vt); ok {
				return v, in
			}
		}
	}
	class := s.mapClass(m)
	owner, shared := s.sharedMap(m)
	ver := ""
	heldEpoch := 0
	if shared {
		ver = s.version(owner)
		if l := s.held(owner); l != nil {
			heldEpoch = l.Epoch
		}
	}
	unknown := false
scan:
	for i := len(s.mapw) - 1; i >= 0; i-- {
		e := s.mapw[i]
		if e.shared && e.epoch != heldEpoch {
			continue
		}
		if e.barrier != "" {
			if e.class == class {
				ver += e.barrier
				unknown = true
				break scan
			}
			continue
		}
		if e.m == m || e.class == class && !distinct(e.m, m) {
			eqk := mkEq(e.k, k)
			if v, ok := s.truth(eqk); ok {
				if !v {
					continue
				}
				if e.m == m {
					if e.v == nil {
						return zeroTerm(vt), tFalse
					}
					return e.v, tTrue
				}
			}
			// distinct keys of the outer map: different inner maps
			if e.m != m && e.m.Op == "lookup" && m.Op == "lookup" && e.m.Args[0] == m.Args[0] {
				if v, ok := s.truth(mkEq(e.m.Args[1], m.Args[1])); ok && !v {
					continue
				}
			}
			ver += "w" + strconv.Itoa(i+1)
			unknown = true
			break scan
		}
	}
	if !unknown {
		if m.Op == "makemap" {
			return zeroTerm(vt), tFalse
		}
		if k.Op == "rkey" && k.Args[0].Args[0] == m {
			return mkT(vt, "rval", k.Str, k.Args...), tTrue
		}
	}
	in := mk("in", ver, m, k)
	val := mkT(vt, "lookup", ver, m, k)
	if v, ok := s.truth(in); ok && !v {
		return zeroTerm(vt), tFalse
	}
	return val, in
}

func (s *State) mapWrite(m, k, v *Term) {
	m = strip(m)
	owner, shared := s.sharedMap(m)
	if v != nil && !s.fresh(m) {
		s.escape(v)
	}
	ep := 0
	if shared {
		if l := s.held(owner); l != nil {
			ep = l.Epoch
		}
	}
	s.mapw = append(s.mapw, mapEntry{class: s.mapClass(m), m: m, k: k, v: v, epoch: ep, shared: shared})
}

func (s *State) mapBarrier(class, id string) {
	s.mapw = append(s.mapw, mapEntry{class: class, barrier: id})
}

// newEpoch forgets what is known about the content the lock protects.
func (s *State) newEpoch(lock *Term) {
	s.epoch++
	for a := range s.cells {
		if o, shared := s.sharedAddr(a); shared && s.m.lockBelongs(lock, o) {
			delete(s.cells, a)
		}
	}
}

// describe prints the conditions of the path.
func (s *State) describe() string {
	var p []string
	for _, f := range s.flist {
		p = append(p, f.String())
	}
	return strings.Join(p, " && ")
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
