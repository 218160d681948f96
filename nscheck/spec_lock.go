package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// roots are the functions users can call: exported functions and exported
// methods declared in the module, without the test support package.
func (c *Ctx) roots() []*ssa.Function {
	var r []*ssa.Function
	for _, fn := range c.funcs {
		if fn.Synthetic != "" || fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		if pk := fn.Object().Pkg(); pk == nil || strings.HasSuffix(pk.Path(), "/internal") {
			continue
		}
		if rv := fn.Signature.Recv(); rv != nil {
			if n := namedOf(rv.Type()); n == nil {
				continue
			}
		}
		r = append(r, fn)
	}
	return r
}

// activity is a path of a root function or of a goroutine it starts.
type activity struct {
	name string
	fn   *ssa.Function
	st   *State
	gor  bool
	skip int // facts inherited from the function which started the goroutine
}

// rootPaths returns the paths of fn. That they can not be decided does not
// matter when fn has nothing to do with the monitored types.
func (c *Ctx) rootPaths(fn *ssa.Function) (outs []*State) {
	if _, ok := c.cache[fn.String()]; ok || c.touchesMonitored(fn, map[*ssa.Function]bool{}) {
		return c.paths(fn)
	}
	n := len(c.obs)
	if outs = c.paths(fn); len(c.obs) > n {
		for _, o := range c.obs[n:] {
			delete(c.seen, o.Rule+"|"+o.Construct)
		}
		c.obs = c.obs[:n]
		delete(c.cache, fn.String())
		return nil
	}
	return outs
}

// touchesMonitored tells whether fn or a function it calls uses a monitored type.
func (c *Ctx) touchesMonitored(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] || fn.Blocks == nil {
		return false
	}
	seen[fn] = true
	is := func(t types.Type) bool {
		n := namedOf(derefType(t))
		return n != nil && c.isMonitored(n)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok && is(v.Type()) {
				return true
			}
			for _, op := range in.Operands(nil) {
				if *op == nil {
					continue
				}
				if is((*op).Type()) {
					return true
				}
				if f, ok := (*op).(*ssa.Function); ok && c.touchesMonitored(f, seen) {
					return true
				}
			}
		}
	}
	return false
}

// activities returns the paths of all roots and of all goroutines they start.
func (c *Ctx) activities() []activity {
	var r []activity
	gos := map[ssa.Instruction]bool{}
	for _, fn := range c.roots() {
		for _, o := range c.rootPaths(fn) {
			r = append(r, activity{shortFn(fn), fn, o, false, 0})
			each(o.events, func(e *Event, _ []*Seg) {
				if e.Kind != EvGo || gos[e.Instr] {
					return
				}
				gos[e.Instr] = true
				name := "goroutine " + shortName(e.Name) + " of " + shortFn(fn)
				c.guard(name, func() {
					for _, g := range c.m.RunGo(e) {
						r = append(r, activity{name, fn, g, true, len(e.Snap.flist)})
					}
				})
			})
		}
	}
	return r
}

func (c *Ctx) accessName(e *Event) string {
	_, v := c.m.owner(strip(e.Args[0]))
	if v == nil && (e.Kind == EvRead || e.Kind == EvStore || e.Kind == EvInit) {
		_, v = c.m.monitoredAddr(e.Args[0])
	}
	if v == nil {
		return "shared content"
	}
	n := c.m.ownerOf(v)
	if n == nil {
		return v.Name()
	}
	return n.Obj().Name() + "." + v.Name()
}

func isAccess(e *Event) (acc, write bool) {
	switch e.Kind {
	case EvRead, EvMapRead, EvGRead:
		return true, false
	case EvStore, EvMapSet, EvMapDel, EvGWrite, EvInit:
		return true, true
	}
	return false, false
}

// partCall tells whether e calls a part of a monitored object, which is content
// of the object as much as its fields are, and whether the call changes it.
func (c *Ctx) partCall(o *State, e *Event) (root *Term, write bool) {
	if e.Kind != EvInvoke || len(e.Args) == 0 {
		return nil, false
	}
	r, v := c.m.owner(strip(e.Args[0]))
	if r == nil || v == nil || o.fresh(r) {
		return nil, false
	}
	if n := namedOf(r.Type); n == nil || !c.isMonitored(n) {
		return nil, false
	}
	switch e.Name {
	case "Node", "Nodes", "Edge", "Edges", "From", "To", "SubGraph", "Get", "GetAll", "DOT", "UID":
		return r, false
	}
	return r, true
}

// handedOut: an operation of a monitored object, or a goroutine, does not change a
// value which others may be reading.
func (c *Ctx) handedOut(a activity, e *Event) {
	if e.Kind != EvStore && e.Kind != EvMapSet && e.Kind != EvMapDel || e.Fresh || len(e.Args) == 0 {
		return
	}
	if rv := a.fn.Signature.Recv(); !a.gor && (rv == nil || namedOf(rv.Type()) == nil || !c.isMonitored(namedOf(rv.Type()))) {
		return
	}
	base := e.Args[0]
	for base.Op == "faddr" || base.Op == "iaddr" || base.Op == "load" || base.Op == "field" {
		base = strip(base.Args[0])
	}
	if base == e.Args[0] && e.Kind == EvStore || a.st.fresh(base) {
		return
	}
	if (base.Op == "alloc" || strings.HasPrefix(base.Op, "make")) && len(e.Locks) > 0 {
		return // made by this operation, which still holds the lock under which it was shared
	}
	n := namedOf(derefType(base.Type))
	if n == nil || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) || c.isMonitored(n) {
		return
	}
	if e.Root != nil {
		if m := namedOf(e.Root.Type); m != nil && c.isMonitored(m) {
			return // guarded by its lock
		}
	}
	c.fail("values which others may read are not changed", a.name+" writes "+shortName(n.String()), e.Pos, "%s", e)
}

// packageState: package level variables are only written when the program starts, or under a package level lock.
func (c *Ctx) packageState() {
	global := func(v ssa.Value) *ssa.Global {
		for {
			switch x := v.(type) {
			case *ssa.Global:
				return x
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.IndexAddr:
				v = x.X
			case *ssa.UnOp:
				v = x.X
			default:
				return nil
			}
		}
	}
	for _, f := range c.funcs {
		root := f
		for root.Parent() != nil {
			root = root.Parent()
		}
		if root.Name() == "init" || strings.HasPrefix(root.Name(), "init#") {
			continue
		}
		locked := false
		var writes []ssa.Instruction
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if global(x.Addr) != nil {
						writes = append(writes, in)
					}
				case *ssa.MapUpdate:
					if global(x.Map) != nil {
						writes = append(writes, in)
					}
				case *ssa.Call:
					cm := x.Common()
					if bi, ok := cm.Value.(*ssa.Builtin); ok && bi.Name() == "delete" && global(cm.Args[0]) != nil {
						writes = append(writes, in)
					}
					if g := cm.StaticCallee(); g != nil && g.Name() == "Lock" && len(cm.Args) > 0 && global(cm.Args[0]) != nil {
						locked = true
					}
				}
			}
		}
		bad := ""
		if len(writes) > 0 && !locked {
			bad = posOf(writes[0])
		}
		if len(writes) > 0 {
			c.require(bad == "", "package level state is not changed without a lock", shortFn(f), bad, "%s", writes[0])
		}
	}
}

// copiedTypes returns the monitored types with an exported method which has a value
// receiver: calling it copies the object, without its lock.
func (c *Ctx) copiedTypes() map[*types.Named]string {
	r := map[*types.Named]string{}
	for n := range c.monitored {
		for i := 0; i < n.NumMethods(); i++ {
			m := n.Method(i)
			if _, ptr := m.Type().(*types.Signature).Recv().Type().(*types.Pointer); !ptr && m.Exported() {
				r[n] = n.Obj().Name() + "." + m.Name()
			}
		}
	}
	return r
}

func (c *Ctx) raceCheck() {
	c.packageState()
	c.ownState()
	copied := c.copiedTypes()
	for _, a := range c.activities() {
		each(a.st.events, func(e *Event, _ []*Seg) {
			c.handedOut(a, e)
			if e.Kind == EvStore && !e.Fresh {
				if o, v := c.m.monitoredAddr(e.Args[0]); o != nil && v != nil {
					m := copied[c.m.ownerOf(v)]
					c.require(m == "", "fields which are written are not read by copying the object", a.name+" writes "+v.Name(), e.Pos, "%s, which is not called with the lock held, has a value receiver and so copies every field, %s as well", m, v.Name())
				}
			}
			acc, write := isAccess(e)
			if r, w := c.partCall(a.st, e); r != nil {
				e = &Event{Kind: EvGRead, Name: e.Name, Args: e.Args, Root: r, Locks: e.Locks, Pos: e.Pos}
				acc, write = true, w
			}
			if !acc || e.Fresh || e.Root == nil {
				return
			}
			if e.Kind == EvRead || e.Kind == EvStore {
				if o, v := c.m.monitoredAddr(e.Args[0]); o == nil || isMutexType(v.Type()) {
					if _, sh := a.st.sharedAddr(e.Args[0]); !sh {
						return
					}
				}
			}
			n := namedOf(e.Root.Type)
			if n == nil || !c.isMonitored(n) {
				return
			}
			held, mode := false, false
			for _, l := range e.Locks {
				if c.m.lockBelongs(l.T, e.Root) {
					held = true
					mode = mode || l.Write
				}
			}
			what := c.accessName(e)
			verb := "read"
			if write {
				verb = "written"
			}
			ok := held && (!write || mode)
			why := "without holding the lock of its object"
			if held {
				why = "holding the lock for reading only"
			}
			c.require(ok, "shared state is accessed under its lock", a.name+" "+verb+" "+what, e.Pos, "%s is %s %s (%s)", what, verb, why, e)
		})
		for i, t := range a.st.ret {
			x := strip(t)
			if !isMapish(x.Type) {
				continue
			}
			if o, _ := c.m.owner(x); o != nil && !a.st.fresh(o) {
				c.fail("protected state is not handed out", a.name+" result "+strconv.Itoa(i), fnPos(a.fn), "the caller gets %s itself, which is guarded by a lock", x)
			}
		}
	}
}

// madeObject is a monitored object made on a path, with the values of its fields.
type madeObject struct {
	obj    *Term
	typ    *types.Named
	fields map[*types.Var]*Term
}

// madeObjects lists the monitored objects made on a path which the caller gets.
func (c *Ctx) madeObjects(o *State) []madeObject {
	var r []madeObject
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if t = strip(t); t.Op != "alloc" || seen[t] || t.Type == nil {
			return
		}
		seen[t] = true
		typ := derefType(t.Type)
		st := structOf(typ)
		if st == nil {
			return
		}
		x := madeObject{t, namedOf(typ), map[*types.Var]*Term{}}
		s := o.clone()
		for i := 0; i < st.NumFields(); i++ {
			v := s.load(o.m.faddr(t, typ, i), st.Field(i).Type(), nil)
			x.fields[st.Field(i)] = v
			visit(v)
		}
		if x.typ != nil && c.isMonitored(x.typ) {
			r = append(r, x)
		}
	}
	for _, t := range o.ret {
		visit(t)
	}
	return r
}

// ofPackage tells whether t is a package level variable, what it holds or its address.
func ofPackage(t *Term) bool {
	t = strip(t)
	return t.Op == "gaddr" || t.Op == "gval" || t.Op == "gread" || (t.Op == "load" || t.Op == "faddr" || t.Op == "field") && len(t.Args) > 0 && ofPackage(t.Args[0])
}

// ownState: the objects a constructor makes share no unguarded state with each other.
func (c *Ctx) ownState() { c.ownStateOf(func(*types.Named) bool { return true }, false) }

// ownStateIn: the objects of the package have a state of their own.
func (c *Ctx) ownStateIn(rel string) {
	c.ownStateOf(func(n *types.Named) bool { return n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/"+rel }, true)
}

// ownStateOf: the objects of the types share no state with each other; whole
// tells whether they share no guarded objects either.
func (c *Ctx) ownStateOf(of func(*types.Named) bool, whole bool) {
	for _, fn := range c.roots() {
		for _, o := range c.rootPaths(fn) {
			if o.status != stRet {
				continue
			}
			for _, x := range c.madeObjects(o) {
				if !of(x.typ) {
					continue
				}
				for f, v := range x.fields {
					switch t := f.Type().Underlying().(type) {
					case *types.Map, *types.Chan, *types.Slice:
					case *types.Interface:
						if !whole || !strings.HasSuffix(f.Type().String(), "Graph") && !strings.HasSuffix(f.Type().String(), "Builder") {
							continue
						}
					case *types.Pointer:
						if n := namedOf(t.Elem()); isMutexType(f.Type()) || n != nil && c.isMonitored(n) && !whole {
							continue
						}
					default:
						continue
					}
					c.require(!ofPackage(v), "objects share no state", shortFn(fn)+" sets "+x.typ.Obj().Name()+"."+f.Name(), pathScope(o).pos(), "every object gets %s, which the lock of one does not guard against another", v)
				}
			}
		}
	}
}

func (c *Ctx) isMonitored(n *types.Named) bool {
	_, ok := c.monitored[n]
	return ok
}

// blocking operations which must not happen while a lock is held.
var blockingExt = map[string]bool{
	"time.Sleep": true, "(*sync.WaitGroup).Wait": true, "(*sync.Cond).Wait": true,
}

var blockingIface = map[string]bool{"Pub": true, "Sub": true, "Receive": true, "Scrape": true, "BulkPub": true}

func (c *Ctx) lockCheck() {
	order := map[string]map[string]string{}
	own := map[*types.Named]*Term{} // the lock which all objects of a type share
	for _, fn := range c.roots() {
		for _, o := range c.rootPaths(fn) {
			if o.status != stRet {
				continue
			}
			for _, x := range c.madeObjects(o) {
				for f, v := range x.fields {
					if !isMutexType(f.Type()) || derefType(f.Type()) == f.Type() {
						continue
					}
					v = strip(v)
					if c.require(v != tNil && v.Op != "zero", "objects have a lock", shortFn(fn)+" sets "+x.typ.Obj().Name()+"."+f.Name(), pathScope(o).pos(), "the lock is %s on the path where %s", v, o.describe()) && v.Op != "alloc" {
						own[x.typ] = v
					}
				}
			}
		}
	}
	for _, a := range c.activities() {
		name := a.name
		if len(a.st.events) == 0 {
			continue
		}
		used := false
		each(a.st.events, func(e *Event, in []*Seg) {
			switch e.Kind {
			case EvLoopStart:
				if l := e.Loop; l != nil && l.Kind != "map" && l.Kind != "iter" && l.Kind != "bfs" {
					why := ""
					for _, g := range l.Stands {
						why = g.St.describe()
					}
					c.require(why == "", "no loop goes round forever", name, l.Pos, "the loop goes round without changing anything on the path where %s", why)
				}
			case EvLock:
				used = true
				for _, l := range e.Locks {
					if l.T == e.Args[0] && !(l.Pos == e.Pos && l.Epoch == e.Epoch) {
						c.fail("no lock is taken twice", name, e.Pos, "%s is locked while it is held since %s", e.Args[0], l.Pos)
					}
					shared := func(t *Term) *Term {
						if n := c.lockOwner(t); n != nil && own[n] != nil {
							return own[n]
						}
						return strip(t)
					}
					if a := shared(l.T); l.T != e.Args[0] && a == shared(e.Args[0]) {
						c.fail("no lock is taken twice", name, e.Pos, "%s is locked while %s is held, but they are the same lock %s", e.Args[0], l.T, a)
					}
					if l.T != e.Args[0] && !e.Fresh { // nobody else can hold the lock of a fresh object
						x, y := c.lockClass(l.T), c.lockClass(e.Args[0])
						if order[x] == nil {
							order[x] = map[string]string{}
						}
						order[x][y] = e.Pos
					}
				}
			case EvUnlock:
				used = true
				c.require(e.Normal, "unlock releases a held lock", name+" "+c.lockClass(e.Args[0]), e.Pos, "%s is unlocked but it is not held in this mode", e.Args[0])
			}
			if len(e.Locks) == 0 {
				return
			}
			bad := ""
			switch e.Kind {
			case EvSend, EvRecv:
				bad = "a channel operation"
			case EvSelect:
				if e.Block {
					bad = "a select"
				}
			case EvExt:
				if blockingExt[e.Name] {
					bad = e.Name
				}
			case EvInvoke:
				if blockingIface[e.Name] {
					bad = "a call of " + e.Name
				}
			case EvDyn:
				if !isOptionFunc(e.Args[0]) {
					bad = "a call of a function of the user"
				}
			}
			if bad != "" {
				c.fail("nothing blocks while a lock is held", name, e.Pos, "%s happens while %s is held", bad, e.Locks[0].T)
			}
		})
		// loops must not change which locks are held
		for _, l := range allLoops(a.st.events) {
			for _, g := range l.Segs {
				var start []Lock
				each(a.st.events, func(e *Event, _ []*Seg) {
					if e.Kind == EvLoopStart && e.Loop == l {
						start = e.Locks
					}
				})
				c.require(sameLocks(start, g.St.locks), "locks are released on every path", name+" loop", l.Pos, "an iteration of the loop changes the locks held")
			}
		}
		if a.st.status == stRet {
			if len(a.st.locks) > 0 {
				c.fail("locks are released on every path", name, a.st.locks[0].Pos, "%s is still held on return on the path where %s", a.st.locks[0].T, a.st.describe())
			} else if used {
				c.require(true, "locks are released on every path", name, fnPos(a.fn), "")
			}
		}
	}
	// lock order: no cycles
	var keys []string
	for k := range order {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		seen := map[string]bool{}
		var path []string
		var rec func(x string) bool
		rec = func(x string) bool {
			if x == k && len(path) > 0 {
				return true
			}
			if seen[x] {
				return false
			}
			seen[x] = true
			var ys []string
			for y := range order[x] {
				ys = append(ys, y)
			}
			sort.Strings(ys)
			for _, y := range ys {
				path = append(path, fmt.Sprintf("%s then %s at %s", x, y, order[x][y]))
				if rec(y) {
					return true
				}
				path = path[:len(path)-1]
			}
			return false
		}
		c.require(!rec(k), "locks are taken in one order", k, "", "the lock order has a cycle: %s", strings.Join(path, "; "))
	}
}

func sameLocks(a, b []Lock) bool {
	if len(a) != len(b) {
		return false
	}
	n := map[string]int{}
	for _, l := range a {
		n[strconv.Itoa(l.T.ID)+fmt.Sprint(l.Write)]++
	}
	for _, l := range b {
		n[strconv.Itoa(l.T.ID)+fmt.Sprint(l.Write)]--
	}
	for _, v := range n {
		if v != 0 {
			return false
		}
	}
	return true
}

// lockOwner is the type of the object the lock l belongs to.
func (c *Ctx) lockOwner(l *Term) *types.Named {
	l = strip(l)
	for l.Op == "load" {
		l = strip(l.Args[0])
	}
	if (l.Op == "faddr" || l.Op == "field") && l.Args[0].Type != nil {
		return namedOf(derefType(l.Args[0].Type))
	}
	return nil
}

func (c *Ctx) lockClass(l *Term) string {
	t := l
	if t.Op == "load" {
		t = t.Args[0]
	}
	if t.Op == "faddr" || t.Op == "field" {
		return shortName(t.Str)
	}
	return l.String()
}

// isOptionFunc tells whether the function value is a functional option: it
// only gets a pointer to an options struct.
func isOptionFunc(t *Term) bool {
	if t.Type == nil {
		return false
	}
	sig, ok := t.Type.Underlying().(*types.Signature)
	if !ok || sig.Params().Len() != 1 || sig.Results().Len() != 0 {
		return false
	}
	p, ok := sig.Params().At(0).Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Struct)
	return ok
}

var epochRe = regexp.MustCompile(`(?:^|@g\d+)e(\d+)`)
var unlockedRe = regexp.MustCompile(`(?:^|@g\d+)u\d+`)

// termEpochs lists the critical sections the shared content in t was read in;
// 0 stands for content read without a lock.
func termEpochs(t *Term) map[int]*Term {
	r := map[int]*Term{}
	t.walk(func(x *Term) bool {
		switch x.Op {
		case "load", "lookup", "in", "gread", "len", "elem":
			if m := epochRe.FindStringSubmatch(x.Str); m != nil {
				n, _ := strconv.Atoi(m[1])
				r[n] = x
			} else if unlockedRe.MatchString(x.Str) {
				r[0] = x
			}
		}
		return true
	})
	return r
}

// ageless renders t without versions.
func ageless(t *Term) string {
	var b strings.Builder
	var rec func(t *Term)
	rec = func(t *Term) {
		t = strip(t)
		b.WriteString(t.Op)
		b.WriteByte(':')
		switch t.Op {
		case "load", "lookup", "in", "len", "elem":
		case "gread":
			b.WriteString(gname(t))
		default:
			b.WriteString(t.Str)
		}
		b.WriteByte('(')
		for _, a := range t.Args {
			rec(a)
			b.WriteByte(',')
		}
		b.WriteByte(')')
	}
	rec(t)
	return b.String()
}

func (c *Ctx) atomicCheck() {
	for _, a := range c.activities() {
		c.oneSection(a)
		c.oneInstant(a)
		reads := c.partReads(a.st)
		visit := func(sc *Scope, e *Event) {
			c.partDecision(a, sc, e, reads)
			acc, write := isAccess(e)
			if !acc || !write || e.Fresh || e.Root == nil {
				return
			}
			if n := namedOf(e.Root.Type); n == nil || !c.isMonitored(n) {
				return
			}
			cur := map[int]bool{}
			for _, l := range e.Locks {
				cur[l.Epoch] = true
			}
			// decisions
			fresh := map[string]bool{}
			facts := sc.St.flist
			if e.NFacts < len(facts) {
				facts = facts[:e.NFacts]
			}
			if a.skip < len(facts) {
				facts = facts[a.skip:]
			} else {
				facts = nil
			}
			for _, f := range facts {
				stale := false
				for n := range termEpochs(f.T) {
					if !cur[n] {
						stale = true
					}
				}
				if !stale {
					fresh[ageless(f.T)+strconv.FormatBool(f.V)] = true
				}
			}
			bad := ""
			for _, f := range facts {
				for n, x := range termEpochs(f.T) {
					if cur[n] || !c.ownedBy(x, e.Root) {
						continue
					}
					if !fresh[ageless(f.T)+strconv.FormatBool(f.V)] {
						bad = fmt.Sprintf("it depends on %s, which was tested at %s in another critical section", f, f.Pos)
					}
				}
			}
			for _, v := range e.Args {
				for n, x := range termEpochs(v) {
					if !cur[n] && c.ownedBy(x, e.Root) {
						bad = fmt.Sprintf("it uses %s, which was read in another critical section", x)
					}
				}
			}
			c.require(bad == "", "decision and change share a critical section", a.name+" writes "+c.accessName(e), e.Pos, "%s: %s", e, bad)
		}
		var rec func(sc *Scope)
		rec = func(sc *Scope) {
			for _, e := range sc.Events {
				visit(sc, e)
				if e.Kind == EvLoopStart && e.Loop != nil {
					for _, g := range e.Loop.Segs {
						rec(segScope(g))
					}
				}
			}
		}
		rec(pathScope(a.st))
	}
}

// partReads lists the calls which read a part of a monitored object.
func (c *Ctx) partReads(o *State) []*Event {
	var r []*Event
	each(o.events, func(e *Event, _ []*Seg) {
		if root, w := c.partCall(o, e); root != nil && !w {
			r = append(r, e)
		}
	})
	return r
}

// partDecision: a call which changes a part of a monitored object does not depend
// on what a part of it was found to be in another critical section.
func (c *Ctx) partDecision(a activity, sc *Scope, e *Event, reads []*Event) {
	root, w := c.partCall(a.st, e)
	if root == nil || !w {
		return
	}
	cur := map[int]bool{}
	for _, l := range e.Locks {
		if c.m.lockBelongs(l.T, root) {
			cur[l.Epoch] = true
		}
	}
	current := func(x *Event) bool {
		for _, l := range x.Locks {
			if cur[l.Epoch] {
				return true
			}
		}
		return false
	}
	again := map[string]bool{}
	stale := map[*Term]*Event{}
	for _, x := range reads {
		if xr, _ := c.partCall(a.st, x); xr != root {
			continue
		}
		if current(x) {
			again[x.Name] = true
			continue
		}
		for _, v := range x.Res {
			stale[strip(v)] = x
		}
	}
	facts := sc.St.flist
	if e.NFacts < len(facts) {
		facts = facts[:e.NFacts]
	}
	bad := ""
	from := func(t *Term) *Event {
		var r *Event
		t.walk(func(y *Term) bool {
			if x := stale[strip(y)]; x != nil && !again[x.Name] {
				r = x
			}
			return r == nil
		})
		return r
	}
	for _, f := range facts {
		if x := from(f.T); x != nil {
			bad = fmt.Sprintf("it depends on %s, which was found at %s in another critical section", f, x.Pos)
		}
	}
	c.require(bad == "", "decision and change share a critical section", a.name+" calls "+e.Name, e.Pos, "%s: %s", e, bad)
}

// oneSection: all changes of one activity to one object happen in one critical
// section, so that nobody sees some of them only.
func (c *Ctx) oneSection(a activity) {
	type first struct {
		e     *Event
		epoch int
	}
	type key struct {
		obj *Term
		seg *Seg // the request of others which is handled
	}
	seen := map[key]first{}
	lps := loopsOf(a.st.events)
	each(a.st.events, func(e *Event, in []*Seg) {
		acc, write := isAccess(e)
		if r, w := c.partCall(a.st, e); r != nil && w {
			e = &Event{Kind: EvGWrite, Name: e.Name, Args: e.Args, Root: r, Locks: e.Locks, Pos: e.Pos}
			acc, write = true, true
		}
		if !acc || !write || e.Fresh || e.Root == nil {
			return
		}
		if n := namedOf(e.Root.Type); n == nil || !c.isMonitored(n) {
			return
		}
		for _, l := range e.Locks {
			if !c.m.lockBelongs(l.T, e.Root) {
				continue
			}
			k := key{obj: e.Root}
			for _, g := range in {
				if len(chanOps(g.Events)) > 0 {
					k.seg = g
				}
			}
			f, ok := seen[k]
			if !ok {
				seen[k] = first{e, l.Epoch}
				f = seen[k]
			}
			c.require(f.epoch == l.Epoch, "all changes of a call share a critical section", a.name+" writes "+c.accessName(e), e.Pos, "%s happens in another critical section than %s at %s", e, f.e, f.e.Pos)
			// taken anew in every iteration
			each(a.st.events, func(x *Event, xin []*Seg) {
				if x.Kind == EvLock && x.Args[0] == l.T && !a.gor && !c.servesIn(xin) && lps.encloses(xin, in) {
					c.fail("all changes of a call share a critical section", a.name+" writes "+c.accessName(e), e.Pos, "the lock is taken anew for every iteration of a loop")
				}
			})
		}
	})
}

// segLoops tells which loop a segment is an iteration of.
type segLoops map[*Seg]*Loop

func loopsOf(evs []*Event) segLoops {
	r := segLoops{}
	each(evs, func(e *Event, in []*Seg) {
		if e.Kind == EvLoopStart && e.Loop != nil {
			for _, g := range e.Loop.Segs {
				r[g] = e.Loop
			}
		}
	})
	return r
}

// encloses tells whether what is in the segments in happens in the loop whose
// iteration xin is, maybe in another iteration.
func (r segLoops) encloses(xin, in []*Seg) bool {
	if len(xin) == 0 || len(in) < len(xin) {
		return false
	}
	for i := range xin {
		if i < len(xin)-1 && xin[i] != in[i] || r[xin[i]] == nil || r[xin[i]] != r[in[i]] {
			return false
		}
	}
	return true
}

// oneInstant: what a query reads of an object it reads in one critical
// section, so that its answer is the state at one instant. Looking again in a
// later section at all that was read in an earlier one makes up for it.
func (c *Ctx) oneInstant(a activity) {
	if a.gor || a.fn.Signature.Recv() == nil || len(chanOps(a.st.events)) > 0 {
		return
	}
	type read struct {
		e     *Event
		epoch int
		what  string
	}
	reads := map[*Term][]read{}
	written := map[*Term]bool{}
	loops := map[*Term]*Event{}
	lps := loopsOf(a.st.events)
	each(a.st.events, func(e *Event, in []*Seg) {
		acc, write := isAccess(e)
		if !acc || e.Fresh || e.Root == nil {
			return
		}
		if n := namedOf(e.Root.Type); n == nil || !c.isMonitored(n) || !c.ownedBy(e.Root, param(a.fn, 0)) {
			return
		}
		if write {
			written[e.Root] = true
			return
		}
		own, outer := -1, false
		for _, l := range e.Locks {
			if c.m.lockBelongs(l.T, e.Root) {
				own = l.Epoch
			} else {
				outer = true
			}
		}
		if own < 0 || outer {
			return
		}
		w := e.Kind + " " + e.Name
		for _, x := range e.Args {
			w += "|" + ageless(x)
		}
		reads[e.Root] = append(reads[e.Root], read{e, own, w})
		each(a.st.events, func(x *Event, xin []*Seg) {
			if x.Kind == EvLock && lps.encloses(xin, in) && c.m.lockBelongs(x.Args[0], e.Root) {
				loops[e.Root] = e
			}
		})
	})
	for root, rs := range reads {
		if written[root] {
			continue
		}
		last := rs[len(rs)-1]
		if l := loops[root]; l != nil {
			c.fail("a query answers from one instant", a.name+" reads "+c.accessName(l), l.Pos, "the lock is taken anew for every iteration of a loop")
			continue
		}
		again := map[string]bool{}
		for _, r := range rs {
			if r.epoch == last.epoch {
				again[r.what] = true
			}
		}
		for _, r := range rs {
			c.require(r.epoch == last.epoch || again[r.what], "a query answers from one instant", a.name+" reads "+c.accessName(r.e), r.e.Pos, "%s at %s and %s at %s happen in different critical sections", r.e, r.e.Pos, last.e, last.e.Pos)
		}
	}
}

// servesIn tells whether the iterations handle requests of others.
func (c *Ctx) servesIn(in []*Seg) bool {
	for _, g := range in {
		if len(chanOps(g.Events)) > 0 {
			return true
		}
	}
	return false
}

// ownedBy tells whether t is content of the object o.
func (c *Ctx) ownedBy(t, o *Term) bool {
	found := false
	t.walk(func(x *Term) bool {
		if x == o {
			found = true
		}
		return !found
	})
	return found
}

func init() {
	register(&Check{ID: "C01", Title: "no data races on broker, cache, plan, graph and store state", Min: 60,
		Rules: "lockset analysis: on every path of every exported function and of every goroutine, an access to mutable state of an object which owns a mutex happens with that object's mutex held, for writing when it writes", Run: (*Ctx).raceCheck})
	register(&Check{ID: "C02", Title: "locks are always released, never deadlock and never held while blocking", Min: 40,
		Rules: "lock typestate on every path of every exported function and goroutine: released on return, never taken twice, never released unheld, acyclic order, no blocking operation or user callback while held", Run: (*Ctx).lockCheck})
	register(&Check{ID: "C03", Title: "check and act are one critical section", Min: 30,
		Rules: "value numbering with one version of shared content per critical section: a write to a guarded object may not depend on a condition or value read from that object in an earlier critical section unless the condition is tested again", Run: (*Ctx).atomicCheck})
}
