package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The values of the repository (entities, links, nodes, edges, graphs, UIDs)
// are judged by what their accessors return on what their constructors made.

// callOn runs fn in the state a path ended in.
func (c *Ctx) callOn(o *State, fn *ssa.Function, args ...*Term) (outs []*State) {
	if fn == nil {
		return nil
	}
	s := o.clone()
	s.status, s.frames, s.ret = stRun, nil, nil
	s.flist = append([]Fact(nil), o.flist...)
	s.events = append([]*Event(nil), o.events...)
	c.guard(shortFn(fn), func() { outs = c.m.Run(fn, args, nil, s) })
	return outs
}

// access returns what the method name returns on obj; nil when it depends on more.
func (c *Ctx) access(o *State, n *types.Named, obj *Term, name string, args ...*Term) *Term {
	f := c.method(n, name)
	if f == nil {
		return nil
	}
	as := []*Term{obj}
	for i := 1; i < len(f.Params); i++ {
		if i-1 < len(args) {
			as = append(as, args[i-1])
		} else {
			as = append(as, paramTerm(f, i))
		}
	}
	var r *Term
	for _, x := range c.callOn(o, f, as...) {
		if x.status != stRet || len(x.ret) == 0 {
			return nil
		}
		if r != nil && r != x.ret[0] {
			return nil
		}
		r = x.ret[0]
	}
	return r
}

// strs splits a string into its parts: constants and other terms.
func strs(t *Term) []*Term {
	var r []*Term
	var add func(t *Term, d int)
	lit := func(s string) {
		if s == "" {
			return
		}
		if n := len(r); n > 0 {
			if p, ok := strLit(r[n-1]); ok {
				r[n-1] = strT(p + s)
				return
			}
		}
		r = append(r, strT(s))
	}
	add = func(t *Term, d int) {
		t = strip(t)
		if s, ok := strLit(t); ok {
			lit(s)
			return
		}
		if d < 20 {
			switch {
			case t.Op == "bin+" && len(t.Args) == 2:
				add(t.Args[0], d+1)
				add(t.Args[1], d+1)
				return
			case t.Op == "ext" && t.Str == "strings.Join" && len(t.Args) == 2 && strip(t.Args[0]).Op == "seq":
				sep, ok := strLit(t.Args[1])
				if ok {
					for i, a := range strip(t.Args[0]).Args {
						if i > 0 {
							lit(sep)
						}
						add(a, d+1)
					}
					return
				}
			case t.Op == "ext" && (t.Str == "fmt.Sprintf") && len(t.Args) == 2 && strip(t.Args[1]).Op == "seq":
				format, ok := strLit(t.Args[0])
				args := strip(t.Args[1]).Args
				ps := strings.Split(strings.NewReplacer("%s", "\x00", "%v", "\x00").Replace(format), "\x00")
				if ok && len(ps) == len(args)+1 && !strings.Contains(strings.Join(ps, ""), "%") {
					for i, p := range ps {
						if i > 0 {
							add(args[i-1], d+1)
						}
						lit(p)
					}
					return
				}
			}
		}
		r = append(r, t)
	}
	add(t, 0)
	return r
}

func strLit(t *Term) (string, bool) {
	t = strip(t)
	if t.Op == "const" && strings.HasPrefix(t.Str, "string:") {
		var s string
		if n, err := unquote(t.Str[len("string:"):]); err == nil {
			s = n
			return s, true
		}
	}
	return "", false
}

func sameStr(a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	x, y := strs(a), strs(b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if !same(x[i], y[i]) {
			return false
		}
	}
	return true
}

// preset returns what the option name has before the options are applied, nil when that is zero.
func preset(ini *Term, name string) *Term {
	ini = strip(ini)
	if isZeroOptions(ini) {
		return nil
	}
	if st := structOf(ini.Type); st != nil && ini.Op == "struct" {
		for i := 0; i < st.NumFields() && i < len(ini.Args); i++ {
			if st.Field(i).Name() == name {
				if ini.Args[i] == zeroTerm(st.Field(i).Type()) {
					return nil
				}
				return ini.Args[i]
			}
		}
	}
	return ini
}

// presetOK: the option name starts as zero or as its default, wherever the path uses it.
func presetOK(c *Ctx, o *State, opts, got *Term, name string, def func(c *Ctx, o *State, got *Term) bool) bool {
	ok := true
	chk := func(t *Term) {
		termHas(t, func(x *Term) bool {
			if p, ini, is := optionField(x, name); is && same(p, opts) {
				if v := preset(ini, name); v != nil && !def(c, o, v) {
					ok = false
				}
			}
			return false
		})
	}
	for _, f := range o.flist {
		chk(f.T)
	}
	chk(got)
	return ok
}

func noDefault(*Ctx, *State, *Term) bool { return false }

// optGiven tells whether the path knows that the option name of opts is set.
func optGiven(o *State, opts *Term, name string) int {
	for _, f := range o.flist {
		t := f.T
		v := f.V
		switch t.Op {
		case "eq":
			for j := 0; j < 2; j++ {
				z := t.Args[1-j]
				x := t.Args[j]
				if z == intT(0) && x.Op == "len" {
					x = x.Args[0]
				} else if z != tNil && z != strT("") && !zeroLit(z) {
					continue
				}
				if p, _, ok := optionField(x, name); ok && same(p, opts) {
					if v {
						return absent
					}
					return present
				}
			}
		case "lt":
			if t.Args[0] == intT(0) && t.Args[1].Op == "len" {
				if p, _, ok := optionField(t.Args[1].Args[0], name); ok && same(p, opts) {
					if v {
						return present
					}
					return absent
				}
			}
		}
	}
	if o.isNil(opts) || o.m.lenOf(o, opts) == intT(0) {
		return absent
	}
	return unknown
}

func zeroLit(t *Term) bool {
	return t.Op == "const" && (t.Str == "int:0" || t.Str == "float:0")
}

// isOpt tells whether t is the option name of opts.
func isOpt(t, opts *Term, name string) bool {
	p, _, ok := optionField(t, name)
	return ok && same(p, opts)
}

// want is what an accessor has to return.
type want struct {
	name string
	ok   func(c *Ctx, o *State, got *Term) bool
	desc string
}

// ctor is a constructor with the accessors of its result.
type ctor struct {
	rel, fn string
	nargs   int // parameters before the options
	opts    int // index of the options, -1: none
	wants   func(p args) []want
}

// args are the arguments a value is made with.
type args func(i int) *Term

func argsOf(f *ssa.Function) args { return func(i int) *Term { return param(f, i) } }

// wantsOf are what the accessors of a value made by the constructor with the arguments p return.
func (c *Ctx) wantsOf(rel, fn string, p args) []want {
	for _, k := range c.ctors() {
		if k.rel == rel && k.fn == fn {
			return k.wants(p)
		}
	}
	return nil
}

// givenOr: the option when it is set, else what def accepts.
func givenOr(opts *Term, name string, def func(c *Ctx, o *State, got *Term) bool) func(*Ctx, *State, *Term) bool {
	return func(c *Ctx, o *State, got *Term) bool {
		if !presetOK(c, o, opts, got, name, def) {
			return false
		}
		switch optGiven(o, opts, name) {
		case present:
			return isOpt(got, opts, name)
		case absent:
			return def(c, o, got)
		}
		return false
	}
}

// freshID: a UID object made on the path with a new unique text.
func freshID(c *Ctx, o *State, got *Term) bool {
	s := c.uidText(o, got)
	return s != nil && freshUID(s) && termWhole(s)
}

// termWhole: the text is the unique ID itself, not a part of it.
func termWhole(t *Term) bool {
	t = strip(t)
	return t.Op != "slice" && t.Op != "bin+" && t.Op != "index"
}

// uidText is the text of the UID u.
func (c *Ctx) uidText(o *State, u *Term) *Term {
	u = strip(u)
	if u.Op == "alloc" {
		if n := namedOf(derefType(u.Type)); n != nil {
			return c.access(o, n, u, "String")
		}
	}
	return pureOf("String", u)
}

func emptyAttrs(c *Ctx, o *State, got *Term) bool { return c.newAttrs(o, got) }

func (c *Ctx) ctors() []ctor {
	uid := func(opts *Term) want {
		return want{"UID", givenOr(opts, "UID", freshID), "the UID option, else a new unique one"}
	}
	at := func(opts *Term) want {
		return want{"Attrs", givenOr(opts, "Attrs", emptyAttrs), "the attributes option, else new empty ones"}
	}
	par := func(p args, name string, i int) want {
		return want{name, func(_ *Ctx, _ *State, got *Term) bool { return same(got, p(i)) }, "the argument"}
	}
	dotid := func(opts *Term, desc string, def func(c *Ctx, o *State, got *Term) bool) want {
		return want{"DOTID", givenOr(opts, "DOTID", def), "the DOTID option, else " + desc}
	}
	join := func(ts ...*Term) *Term {
		r := ts[0]
		for _, t := range ts[1:] {
			r = mk("bin+", "", mk("bin+", "", r, strT("/")), t)
		}
		return r
	}
	ownUID := func(c *Ctx, o *State, got *Term) bool {
		obj := strip(o.ret[0])
		n := namedOf(derefType(obj.Type))
		if n == nil {
			return false
		}
		u := c.access(o, n, obj, "UID")
		return u != nil && sameStr(c.uidText(o, u), got)
	}
	return []ctor{
		{"pkg/space/entity", "New", 1, 1, func(p args) []want {
			op := p(1)
			return []want{uid(op), at(op), par(p, "Type", 0), dotid(op, "the UID", ownUID)}
		}},
		{"pkg/space/entity", "NewResource", 6, 6, func(p args) []want {
			op := p(6)
			return []want{uid(op), at(op), par(p, "Type", 0), par(p, "Name", 1), par(p, "Group", 2), par(p, "Version", 3), par(p, "Kind", 4),
				par(p, "Namespaced", 5), dotid(op, "group/version/kind", func(c *Ctx, o *State, got *Term) bool {
					return sameStr(got, join(p(2), p(3), p(4)))
				})}
		}},
		{"pkg/space/entity", "NewObject", 4, 4, func(p args) []want {
			op := p(4)
			return []want{uid(op), at(op), par(p, "Type", 0), par(p, "Name", 1), par(p, "Namespace", 2), par(p, "Resource", 3),
				dotid(op, "group/version/kind/namespace/name of its resource, else the UID", func(c *Ctx, o *State, got *Term) bool {
					res := p(3)
					if o.isNil(res) {
						return ownUID(c, o, got)
					}
					return o.notNil(res) && sameStr(got, join(pureOf("Group", res), pureOf("Version", res), pureOf("Kind", res), p(2), p(1)))
				})}
		}},
		{"pkg/space/link", "New", 2, 2, func(p args) []want {
			op := p(2)
			return []want{uid(op), at(op), par(p, "From", 0), par(p, "To", 1)}
		}},
		{"pkg/graph/memory", "NewNode", 2, 2, func(p args) []want {
			op, e := p(2), p(1)
			return []want{at(op), par(p, "ID", 0),
				{"UID", func(c *Ctx, o *State, got *Term) bool { return same(got, pureOf("UID", e)) }, "the UID of the entity"},
				{"Type", func(c *Ctx, o *State, got *Term) bool { return same(got, pureOf("Type", e)) }, "the type of the entity"},
				dotid(op, "the DOT ID of the entity, else its UID", func(c *Ctx, o *State, got *Term) bool {
					dot := unknown
					for _, fa := range o.flist {
						if fa.T.Op == "istype" && same(fa.T.Args[0], e) && strings.Contains(fa.T.Str, "DOT") {
							if fa.V {
								dot = present
							} else if dot == unknown {
								dot = absent
							}
						}
					}
					return dot == present && sameStr(got, pureOf("DOTID", e)) || dot == absent && sameStr(got, uidStr(e))
				})}
		}},
		{"pkg/graph/memory", "NewEdge", 2, 2, func(p args) []want {
			op := p(2)
			return []want{
				{"UID", func(c *Ctx, o *State, got *Term) bool {
					if !presetOK(c, o, op, got, "DOTID", noDefault) {
						return false
					}
					switch optGiven(o, op, "DOTID") {
					case present:
						s := c.uidText(o, got)
						return s != nil && isOpt(s, op, "DOTID")
					case absent:
						return givenOr(op, "UID", freshID)(c, o, got)
					}
					return false
				}, "the DOTID option, else the UID option, else a new unique one"},
				at(op), par(p, "From", 0), par(p, "To", 1), par(p, "FromNode", 0), par(p, "ToNode", 1),
				{"Weight", func(c *Ctx, o *State, got *Term) bool {
					if zeroLit(strip(got)) && noOptions(o, op) {
						return true
					}
					return isOpt(got, op, "Weight") && presetOK(c, o, op, got, "Weight", noDefault)
				}, "the weight option"},
				dotid(op, "the UID", ownUID)}
		}},
		{"pkg/graph/memory", "NewWG", 1, 1, func(p args) []want {
			op := p(1)
			return []want{uid(op), dotid(op, "the UID", ownUID)}
		}},
		{"pkg/graph/memory", "NewWUG", 0, 0, func(p args) []want {
			op := p(0)
			return []want{uid(op), dotid(op, "the UID", ownUID)}
		}},
		{"pkg/graph/memory", "NewWDG", 0, 0, func(p args) []want {
			op := p(0)
			return []want{uid(op), dotid(op, "the UID", ownUID)}
		}},
		{"pkg/store/memory", "NewStore", 0, 0, func(p args) []want {
			op := p(0)
			return []want{uid(op), {"Graph", givenOr(op, "Graph", func(c *Ctx, o *State, got *Term) bool {
				x := strip(got)
				return x.Op == "alloc" && namedOf(derefType(x.Type)) == c.named("pkg/graph/memory", "WUG")
			}), "the graph option, else a new undirected graph"}}
		}},
	}
}

func (c *Ctx) ctorCheck() {
	for _, k := range c.ctors() {
		f := c.fn(k.rel, k.fn)
		cn := strings.TrimPrefix(k.rel, "pkg/") + "." + k.fn
		if !c.opParams(f, k.nargs, cn) || k.opts >= 0 && !c.require(len(f.Params) > k.opts, "anchor", cn+" options", fnPos(f), "the constructor takes no options any more") {
			continue
		}
		n := namedOf(derefType(f.Signature.Results().At(0).Type()))
		if !c.require(n != nil, "anchor", cn+" result", fnPos(f), "the result is no named type") {
			continue
		}
		ws := k.wants(argsOf(f))
		for _, o := range c.paths(f) {
			sc := pathScope(o)
			if !c.returned(o, 2, cn) {
				continue
			}
			if !c.require(nilErr(o.ret[1], o), "constructing succeeds", cn, sc.pos(), "returns %s on the path where %s", o.ret[1], o.describe()) {
				continue
			}
			obj := strip(o.ret[0])
			if !c.require(obj.Op == "alloc" && o.fresh(obj), "a constructor makes a new value", cn, sc.pos(), "returns %s", obj) {
				continue
			}
			for _, w := range ws {
				name := cn + " " + w.name
				got := c.access(o, n, obj, w.name)
				if !c.require(got != nil, "an accessor has one result", name, fnPos(c.method(n, w.name)), "what %s returns depends on more than the value", w.name) {
					continue
				}
				c.require(w.ok(c, o, got), "a value returns what it was made with", name, fnPos(c.method(n, w.name)), "%s returns %s and not %s, when made on the path where %s", w.name, got, w.desc, o.describe())
			}
			c.noSideEffects(o, cn)
			c.readingKeeps(o, n, obj, ws, cn)
		}
	}
	c.reversedEdge()
	c.setters()
	c.uids()
}

// readingKeeps: after an accessor was used all of them return what they would have returned without.
func (c *Ctx) readingKeeps(o *State, n *types.Named, obj *Term, ws []want, cn string) {
	was := map[string]*Term{}
	for _, w := range ws {
		was[w.name] = c.access(o, n, obj, w.name)
	}
	names := []string{"Attributes"}
	for _, w := range ws {
		names = append(names, w.name)
	}
	for _, a := range names {
		f := c.method(n, a)
		if f == nil || len(f.Params) != 1 {
			continue
		}
		for _, x := range c.callOn(o, f, obj) {
			if x.status != stRet || len(x.events) == len(o.events) {
				continue // it does nothing but read
			}
			for _, w := range ws {
				got := c.access(x, n, obj, w.name)
				if got == nil || was[w.name] == nil || got == was[w.name] {
					continue
				}
				v, known := x.truthEq(got, was[w.name])
				c.require(known && v, "reading a value leaves it as it is", cn+" "+a, fnPos(f), "after %s, %s returns %s and not %s", a, w.name, got, was[w.name])
			}
		}
	}
}

// noSideEffects: the path changes nothing that existed before.
func (c *Ctx) noSideEffects(o *State, cn string) {
	for _, e := range changes(o.events) {
		c.fail("making or reading a value changes nothing else", cn, e.Pos, "%s", e)
	}
}

// reversedEdge: ReversedEdge swaps the ends and keeps the rest.
func (c *Ctx) reversedEdge() {
	f := c.fn("pkg/graph/memory", "NewEdge")
	n := c.named("pkg/graph/memory", "Edge")
	const cn = "graph/memory.Edge.ReversedEdge"
	if f == nil || n == nil {
		return
	}
	rev := c.method(n, "ReversedEdge")
	if !c.need(rev, cn) {
		return
	}
	for _, o := range c.paths(f) {
		if o.status != stRet || len(o.ret) != 2 || !nilErr(o.ret[1], o) {
			continue
		}
		obj := strip(o.ret[0])
		for _, x := range c.callOn(o, rev, obj) {
			if !c.returned(x, 1, cn) {
				continue
			}
			r := strip(x.ret[0])
			if !c.require(r.Op == "alloc" && r != obj && namedOf(derefType(r.Type)) == n, "a reversed edge is a new edge", cn, fnPos(rev), "returns %s", r) {
				continue
			}
			for a, b := range map[string]string{"From": "To", "To": "From", "FromNode": "ToNode", "ToNode": "FromNode", "UID": "UID", "Weight": "Weight", "Attrs": "Attrs", "DOTID": "DOTID"} {
				g, w := c.access(x, n, r, a), c.access(x, n, obj, b)
				c.require(g != nil && w != nil && same(g, w), "a reversed edge swaps only its ends", cn+" "+a, fnPos(rev), "%s is %v, expected %v", a, g, w)
			}
			for _, a := range []string{"From", "To"} {
				was, now := c.access(o, n, obj, a), c.access(x, n, obj, a)
				c.require(was == now, "reversing leaves the edge alone", cn+" original "+a, fnPos(rev), "%s was %v and is %v", a, was, now)
			}
		}
	}
}

// setters: SetX changes what X returns and nothing else.
func (c *Ctx) setters() {
	for _, k := range c.ctors() {
		f := c.fn(k.rel, k.fn)
		if f == nil || k.fn == "NewWUG" || k.fn == "NewWDG" {
			continue
		}
		n := namedOf(derefType(f.Signature.Results().At(0).Type()))
		if n == nil {
			continue
		}
		set := c.method(n, "SetDOTID")
		if set == nil || len(set.Params) != 2 {
			continue
		}
		cn := strings.TrimPrefix(k.rel, "pkg/") + "." + n.Obj().Name() + ".SetDOTID"
		for _, o := range c.paths(f) {
			if o.status != stRet || len(o.ret) != 2 || !nilErr(o.ret[1], o) {
				continue
			}
			obj := strip(o.ret[0])
			for _, x := range c.callOn(o, set, obj, paramTerm(set, 1)) {
				if !c.returned(x, 0, cn) {
					continue
				}
				for _, w := range k.wants(argsOf(f)) {
					got := c.access(x, n, obj, w.name)
					if w.name == "DOTID" {
						c.require(got != nil && same(got, paramTerm(set, 1)), "a set DOT ID is returned", cn, fnPos(set), "DOTID returns %v", got)
						continue
					}
					was := c.access(o, n, obj, w.name)
					c.require(got != nil && got == was, "setting the DOT ID changes nothing else", cn+" "+w.name, fnPos(set), "%s was %v and is %v", w.name, was, got)
				}
			}
		}
	}
}

// uids: a UID made from a string has this text, a new one a unique text.
func (c *Ctx) uids() {
	n := c.named("pkg/uuid/memory", "UID")
	from, fresh := c.fn("pkg/uuid/memory", "NewFromString"), c.fn("pkg/uuid/memory", "New")
	if !c.require(n != nil && from != nil && fresh != nil, "anchor", "uuid/memory", "", "UID, New or NewFromString does not exist any more") {
		return
	}
	for _, o := range c.paths(from) {
		if c.returned(o, 1, "uuid/memory.NewFromString") {
			got := c.access(o, n, strip(o.ret[0]), "String")
			c.require(got != nil && same(got, param(from, 0)), "a UID has the text it was made from", "uuid/memory.NewFromString", fnPos(from), "String returns %v", got)
		}
	}
	for _, o := range c.paths(fresh) {
		if c.returned(o, 1, "uuid/memory.New") {
			got := c.access(o, n, strip(o.ret[0]), "String")
			c.require(got != nil && freshUID(got) && termWhole(got), "a new UID is unique", "uuid/memory.New", fnPos(fresh), "String returns %v", got)
		}
	}
}

func init() {
	register(&Check{
		ID: "C23", Title: "values return what they were made with",
		Rules: "every accessor is analysed on the result of every path of the constructor of its type",
		Min:   40,
		Run:   func(c *Ctx) { c.ctorCheck() },
	})
}

func unquote(s string) (string, error) { return strconv.Unquote(s) }
