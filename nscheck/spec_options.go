package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Functional options: every option sets its own field.

// optionType tells whether t is a function type func(*S) with a struct S.
func optionType(t types.Type) *types.Named {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return nil
	}
	sig, ok := n.Underlying().(*types.Signature)
	if !ok || sig.Params().Len() != 1 || sig.Results().Len() != 0 {
		return nil
	}
	p, ok := sig.Params().At(0).Type().(*types.Pointer)
	if !ok {
		return nil
	}
	s := namedOf(p.Elem())
	if s == nil {
		return nil
	}
	if _, ok := s.Underlying().(*types.Struct); !ok {
		return nil
	}
	return s
}

// optionSetters lists the exported functions which make an option, with the options struct.
func (c *Ctx) optionSetters() (fs []*ssa.Function, ss []*types.Named) {
	for _, f := range c.funcs {
		if f.Parent() != nil || f.Signature.Recv() != nil || f.Object() == nil || !f.Object().Exported() || f.Signature.Results().Len() != 1 {
			continue
		}
		if s := optionType(f.Signature.Results().At(0).Type()); s != nil {
			fs, ss = append(fs, f), append(ss, s)
		}
	}
	return
}

// optionNames are the options which are not named after their field.
var optionNames = map[string]string{
	"broker.WithSubTimeout":         "RecvTimeout",
	"broker/digester.WithMarshaler": "Unmarshaler",
}

func (c *Ctx) optionsCheck() {
	fs, ss := c.optionSetters()
	for i, f := range fs {
		s := ss[i]
		cn := shortFn(f)
		st := s.Underlying().(*types.Struct)
		want := optionNames[cn]
		for j := 0; j < st.NumFields() && want == ""; j++ {
			if strings.EqualFold(st.Field(j).Name(), strings.TrimPrefix(f.Name(), "With")) {
				want = st.Field(j).Name()
			}
		}
		for _, o := range c.paths(f) {
			if !c.returned(o, 1, cn) {
				continue
			}
			c.noSideEffects(o, cn)
			fn, free := funcOf(o.ret[0])
			if !c.require(fn != nil, "an option is a function", cn, fnPos(f), "returns %s", o.ret[0]) {
				continue
			}
			p := paramTerm(fn, 0)
			before := map[string]*Term{}
			init := newState(c.m)
			for j := 0; j < st.NumFields(); j++ {
				before[st.Field(j).Name()] = init.load(mk("faddr", fieldKey(s, j), p), st.Field(j).Type(), nil)
			}
			n := o.clone()
			n.status, n.frames, n.events = stRun, nil, nil
			var outs []*State
			c.guard(cn, func() { outs = c.m.Run(fn, []*Term{p}, free, n) })
			for _, x := range outs {
				if !c.require(x.status == stRet, "an option can be applied", cn, fnPos(f), "it does not return") {
					continue
				}
				var set []string
				for j := 0; j < st.NumFields(); j++ {
					name := st.Field(j).Name()
					v := x.load(mk("faddr", fieldKey(s, j), p), st.Field(j).Type(), nil)
					if v == before[name] {
						continue
					}
					set = append(set, name)
					ok := false
					if len(f.Params) == 1 {
						ok = same(v, param(f, 0))
					} else if len(f.Params) == 0 {
						ok = v == tTrue
					}
					c.require(ok, "an option has the value it was given", cn+" "+name, fnPos(f), "%s becomes %s", name, v)
				}
				c.optionAgain(x, fn, free, s, set, cn, fnPos(f))
				for _, e := range x.events {
					if b, _ := fieldAddrBase(e, p); (e.Kind == EvStore || e.Kind == EvMapSet || e.Kind == EvMapDel || e.Kind == EvGWrite) && !e.Fresh && !b {
						c.fail("an option sets nothing but its field", cn, e.Pos, "%s", e)
					}
				}
				if want != "" {
					c.require(len(set) == 1 && set[0] == want, "an option sets its field only", cn, fnPos(f), "it sets %v and not %s", set, want)
				} else {
					c.require(len(set) == 1, "an option sets its field only", cn, fnPos(f), "it sets %v", set)
				}
			}
		}
	}
}

// optionAgain: an option which was applied sets the same when it is applied to other options.
func (c *Ctx) optionAgain(x *State, fn *ssa.Function, free []*Term, s *types.Named, set []string, cn, pos string) {
	st := s.Underlying().(*types.Struct)
	p, q := paramTerm(fn, 0), mkT(fn.Params[0].Type(), "param", "others@0")
	n := x.clone()
	n.status, n.frames, n.events, n.ret = stRun, nil, nil, nil
	var outs []*State
	c.guard(cn, func() { outs = c.m.Run(fn, []*Term{q}, free, n) })
	for _, y := range outs {
		if y.status != stRet {
			continue
		}
		for j := 0; j < st.NumFields(); j++ {
			f := st.Field(j)
			if !contains(set, f.Name()) {
				continue
			}
			one := x.load(mk("faddr", fieldKey(s, j), p), f.Type(), nil)
			two := y.load(mk("faddr", fieldKey(s, j), q), f.Type(), nil)
			c.require(same(one, two), "an option sets the same each time it is applied", cn+" "+f.Name(), pos, "%s becomes %s, then %s", f.Name(), one, two)
		}
	}
}

// fieldAddrBase tells whether the event writes a field of the struct p points to.
func fieldAddrBase(e *Event, p *Term) (bool, string) {
	if e.Kind != EvStore {
		return false, ""
	}
	a := e.Args[0]
	for a.Op == "faddr" {
		a = a.Args[0]
	}
	return a == p, ""
}

// funcOf returns the function and the free variables of the function value t.
func funcOf(t *Term) (*ssa.Function, []*Term) {
	t = strip(t)
	f, ok := t.Aux.(*ssa.Function)
	if !ok {
		return nil, nil
	}
	if t.Op == "closure" {
		return f, t.Args
	}
	return f, nil
}

// usedBy lists the settings which the operations that take them have to use.
var usedBy = map[string][]string{
	".NewRunner":                    {"Store", "Broker", "Marshaler"},
	".Run":                          {"Store", "Broker", "Marshaler"},
	"broker/digester/simple.Digest": {"Handler"}, "broker/digester/simple.NewDigester": {"Handler"},
	"broker/ingester/simple.Ingest": {"Marshaler"}, "broker/ingester/simple.NewIngester": {"Marshaler"},
	"broker/memory.New": {"Cap", "PubTimeout", "RecvTimeout"},
	"broker/memory.Pub": {"PubTimeout"}, "broker/memory.Sub": {"RecvTimeout"}, "broker/memory.Receive": {"RecvTimeout"},
	"cache/memory.Put": {"Upsert"}, "cache/memory.BulkPut": {"Upsert"},
	"graph/memory.AddNode": {"Upsert"}, "graph/memory.Link": {"UID", "DOTID", "Attrs", "Weight"},
	"graph/memory.NewEdge": {"UID", "DOTID", "Attrs", "Weight"}, "graph/memory.NewNode": {"DOTID", "Attrs"},
	"graph/memory.SubGraph": {"UID", "DOTID", "DOTOptions"},
	"graph/memory.NewWG":    {"UID", "DOTID", "DOTOptions"},
	"graph/memory.NewWDG":   {"UID", "DOTID", "Weight", "DOTOptions"},
	"graph/memory.NewWUG":   {"UID", "DOTID", "Weight", "DOTOptions"},
	"store/memory.Add":      {"Attrs", "Upsert"}, "store/memory.BulkAdd": {"Attrs", "Upsert"},
	"store/memory.Link": {"Attrs"}, "store/memory.BulkLink": {"Attrs"}, "store/memory.NewStore": {"UID", "Graph"},
	"space/entity.New": {"UID", "Attrs", "DOTID"}, "space/entity.NewObject": {"UID", "Attrs", "DOTID"},
	"space/entity.NewResource": {"UID", "Attrs", "DOTID"}, "space/link.New": {"UID", "Attrs"},
}

// livenessCheck: every field an option sets is read by something.
func (c *Ctx) livenessCheck() {
	fs, ss := c.optionSetters()
	reads := map[*types.Var][]string{}
	// handing on all options hands on each
	whole := func(t types.Type, f *ssa.Function) {
		if st := structOf(t); st != nil {
			for i := 0; i < st.NumFields(); i++ {
				reads[st.Field(i)] = append(reads[st.Field(i)], shortFn(f))
			}
		}
	}
	for _, f := range c.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var v *types.Var
				switch x := in.(type) {
				case *ssa.FieldAddr:
					v = structOf(x.X.Type()).Field(x.Field)
					used := false
					for _, r := range *x.Referrers() {
						switch r := r.(type) {
						case *ssa.Store:
							used = used || r.Addr != x
						case *ssa.DebugRef:
						default:
							used = true
						}
					}
					if !used {
						continue
					}
				case *ssa.Field:
					v = structOf(x.X.Type()).Field(x.Field)
				case *ssa.Store:
					if _, ok := x.Addr.(*ssa.Parameter); ok {
						whole(x.Val.Type(), f)
					}
					continue
				case ssa.CallInstruction:
					if x.Common().IsInvoke() {
						for _, a := range x.Common().Args {
							if structOf(a.Type()) != nil {
								whole(a.Type(), f)
							}
						}
					}
					continue
				default:
					continue
				}
				reads[v] = append(reads[v], shortFn(f))
			}
		}
	}
	for _, f := range c.funcs {
		sig := f.Signature
		if f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || !sig.Variadic() {
			continue
		}
		s := optionType(sig.Params().At(sig.Params().Len() - 1).Type().(*types.Slice).Elem())
		if s == nil {
			continue
		}
		if f.Pkg == nil {
			continue
		}
		path := strings.TrimPrefix(strings.TrimPrefix(strings.TrimPrefix(f.Pkg.Pkg.Path(), modPath), "/"), "pkg/")
		want := usedBy[path+"."+f.Name()]
		if len(want) == 0 {
			continue
		}
		uses := c.optionUses(f)
		for _, name := range want {
			c.require(uses[name] || uses["*"], "an option has an effect on what it is given to", shortFn(f), fnPos(f), "%s does not depend on %s of the options it is given", f.Name(), name)
		}
	}
	for i, f := range fs {
		cn := shortFn(f)
		fld := c.fieldSetBy(f, ss[i])
		if fld == nil {
			continue
		}
		var by []string
		for _, r := range reads[fld] {
			if !strings.HasPrefix(r, cn) {
				by = append(by, r)
			}
		}
		sort.Strings(by)
		c.require(len(by) > 0, "an option is read by what it is given to", cn, fnPos(f), "no function reads %s of %s", fld.Name(), ss[i])
	}
}

// fieldSetBy returns the field the option f sets.
func (c *Ctx) fieldSetBy(f *ssa.Function, s *types.Named) *types.Var {
	st := s.Underlying().(*types.Struct)
	want := optionNames[shortFn(f)]
	for j := 0; j < st.NumFields(); j++ {
		if st.Field(j).Name() == want || want == "" && strings.EqualFold(st.Field(j).Name(), strings.TrimPrefix(f.Name(), "With")) {
			return st.Field(j)
		}
	}
	return nil
}

func init() {
	register(&Check{
		ID: "C22", Title: "every option sets its own setting and no other",
		Rules: "every exported function which returns an option is analysed, and the function it returns is applied to options of any content; the fields which differ afterwards are compared with the field of the option",
		Min:   40,
		Run:   func(c *Ctx) { c.optionsCheck() },
	})
	register(&Check{
		ID: "C35", Title: "every option has an effect",
		Rules: "for every exported function which returns an option, the functions of the module which read the field it sets are listed; for every operation which takes options, the settings its effects, results and decisions depend on are compared with those it documents",
		Min:   20,
		Run: func(c *Ctx) {
			c.livenessCheck()
			// an option which the default, or nothing, replaces is ignored
			c.borrow((*Ctx).boundedCheck, "the timeout of the call takes precedence, then the default", "timeouts have a default")
			c.borrow((*Ctx).topicCheck, "the capacity of the options is kept")
			c.borrow((*Ctx).defaultsCheck, "the options of the call, else of the constructor are used")
			c.borrow((*Ctx).storeOps, "the stored entity has the given attributes", "the link has the given attributes", "an entity is replaced only on upsert")
			c.borrow((*Ctx).ctorCheck, "a value returns what it was made with")
			c.useMembers()
			if r := c.graphRoles(); r != nil {
				c.borrow(func(x *Ctx) { x.linkCheck(r) }, "the edge has the given weight", "the edge has the given attributes", "the edge has the given UID and DOT ID")
				c.borrow(func(x *Ctx) { x.newNodeCheck(r) }, "NewNode returns a node made with the options")
			}
		},
	})
}

// optionUses lists the settings which the operation f uses of the options it is given.
func (c *Ctx) optionUses(f *ssa.Function) map[string]bool {
	uses := map[string]bool{}
	set := optionType(f.Signature.Params().At(f.Signature.Params().Len() - 1).Type().(*types.Slice).Elem())
	if len(f.Params) == 0 {
		return uses
	}
	var own *Term
	seen := map[*Term]bool{}
	var look func(t *Term)
	look = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "field" {
			b := t
			for b.Op == "field" {
				b = strip(b.Args[0])
			}
			if b.Op == "fold" && termHas(b.Args[0], func(x *Term) bool { return x == own }) {
				uses[t.Str[strings.LastIndex(t.Str, ".")+1:]] = true
			}
		}
		if t.Op == "closure" {
			if g, _ := funcOf(t); g != nil {
				for _, v := range fieldsRead(g, set) {
					uses[v] = true
				}
			}
		}
		for _, a := range t.Args {
			look(a)
		}
	}
	for _, o := range c.paths(f) {
		own = param(f, len(f.Params)-1)
		all := func(st *State) {
			for _, x := range st.flist {
				look(x.T)
			}
			for _, x := range st.ret {
				look(x)
			}
			for k, x := range st.cells {
				// the options themselves
				if a := ownerAddr(k); a != nil {
					k = a
				}
				if n := namedOf(k.Type); n != nil && n == set {
					continue
				}
				look(x)
				if strip(x) == own {
					uses["*"] = true // kept for later
				}
			}
		}
		all(o)
		each(o.events, func(e *Event, in []*Seg) {
			for _, x := range e.Args {
				look(x)
				if e.Kind == EvInvoke && hasOutsideFold(x, own) {
					uses["*"] = true // others get all of them
				}
			}
			for _, x := range e.Res {
				look(x)
			}
			for _, g := range in {
				all(g.St)
			}
		})
	}
	return uses
}

// hasOutsideFold tells whether t contains x other than as the options which are applied.
func hasOutsideFold(t, x *Term) bool {
	if t == x {
		return true
	}
	for i, a := range t.Args {
		if !(t.Op == "fold" && i == 0) && hasOutsideFold(a, x) {
			return true
		}
	}
	return false
}

// fieldsRead lists the fields of the struct s which the body of f reads.
func fieldsRead(f *ssa.Function, s *types.Named) (names []string) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && namedOf(u.Type()) == s && structOf(u.Type()) != nil {
				names = append(names, "*")
			}
			a, ok := in.(*ssa.FieldAddr)
			if !ok || namedOf(a.X.Type()) != s {
				continue
			}
			for _, r := range *a.Referrers() {
				if u, ok := r.(*ssa.UnOp); ok && u.X == a {
					names = append(names, structOf(a.X.Type()).Field(a.Field).Name())
				}
			}
		}
	}
	return
}
