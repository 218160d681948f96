package main

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Marshaling: what is marshaled and unmarshaled again is what it was.

// spaceKind is an interface of the space with the accessors which have to survive.
type spaceKind struct {
	name  string
	texts []string // accessors of basic type
	uids  []string // accessors of UIDs
}

var spaceKinds = []spaceKind{
	{"Resource", []string{"Type", "Name", "Group", "Version", "Kind", "Namespaced"}, []string{"UID"}},
	{"Object", []string{"Type", "Name", "Namespace"}, []string{"UID"}},
	{"Entity", []string{"Type"}, []string{"UID"}},
	{"Link", nil, []string{"UID", "From", "To"}},
}

// sameSpace checks that the value got is a copy of the kind k of the value src.
func (c *Ctx) sameSpace(o *State, k spaceKind, got, src *Term, cn, pos string) {
	got = strip(got)
	const rule = "a value survives marshaling"
	var n *types.Named
	if got.Op == "alloc" {
		n = namedOf(derefType(got.Type))
	}
	if !c.require(n != nil, rule, cn, pos, "%s is returned", got) {
		return
	}
	for _, a := range k.uids {
		u := c.access(o, n, got, a)
		ok := false
		var t *Term
		if u != nil {
			t = c.uidText(o, u)
			ok = t != nil && sameStr(t, pureOf("String", pureOf(a, src)))
		}
		c.require(ok, rule, cn+" "+a, pos, "%s has the text %v, it was that of %s", a, t, pureOf(a, src))
	}
	for _, a := range k.texts {
		t := c.access(o, n, got, a)
		c.require(t != nil && (same(t, pureOf(a, src)) || sameStr(t, pureOf(a, src)) || sameBool(o, t, pureOf(a, src))), rule, cn+" "+a, pos, "%s is %v, it was %s", a, t, pureOf(a, src))
	}
	at := c.access(o, n, got, "Attrs")
	asrc := pureOf("Attrs", src)
	c.require(at != nil && strip(at).Op == "alloc" && c.copyOf(o, mapOf(o, at), asrc), rule, cn+" Attrs", pos, "the attributes are %v, not a copy of %s on the path where %s", at, asrc, o.describe())
	if k.name == "Object" {
		r := c.access(o, n, got, "Resource")
		rsrc := pureOf("Resource", src)
		switch {
		case o.isNil(rsrc):
			c.require(r != nil && nilErr(r, o), rule, cn+" Resource", pos, "Resource is %v, there was none", r)
		case !o.notNil(rsrc):
			c.fail(rule, cn+" Resource", pos, "it is not known whether there is a resource on the path where %s", o.describe())
		case r == nil:
			c.fail(rule, cn+" Resource", pos, "Resource can not be determined")
		default:
			c.sameSpace(o, spaceKinds[0], r, rsrc, cn+" Resource", pos)
		}
	}
}

func sameBool(o *State, a, b *Term) bool {
	x, xok := o.truth(strip(a))
	y, yok := o.truth(strip(b))
	return xok && yok && x == y && isConst(strip(a))
}

// valueAt is the value behind the pointer t, or t.
func (c *Ctx) valueAt(o *State, t *Term) (*Term, types.Type) {
	var typ types.Type
	if t.Op == "iface" {
		typ, _ = t.Aux.(types.Type)
	}
	t = strip(t)
	if typ == nil {
		typ = t.Type
	}
	if typ == nil {
		return nil, nil
	}
	if p, ok := typ.Underlying().(*types.Pointer); ok {
		return o.clone().load(t, p.Elem(), nil), p.Elem()
	}
	return t, typ
}

// jsonVal is a value which has been marshaled.
type jsonVal struct {
	val *Term
	typ types.Type
}

type jsonField struct {
	name string
	path []int
	typ  types.Type
	tag  bool
}

// jsonFields lists the fields encoding/json reads and writes; bad tells what is lost.
func jsonFields(t types.Type) (fs []jsonField, bad string) {
	type level struct {
		typ  types.Type
		path []int
	}
	cur := []level{{t, nil}}
	taken := map[string]bool{}
	for len(cur) > 0 {
		var next []level
		byName := map[string][]jsonField{}
		var names []string
		for _, l := range cur {
			st, ok := derefType(l.typ).Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				tag := reflect.StructTag(st.Tag(i)).Get("json")
				p := append(append([]int(nil), l.path...), i)
				if tag == "-" {
					return nil, "the field " + f.Name() + " is left out"
				}
				name := strings.Split(tag, ",")[0]
				if strings.Contains(tag, ",string") {
					return nil, "the field " + f.Name() + " is marshaled as a string"
				}
				if f.Embedded() && name == "" {
					if s, ok := derefType(f.Type()).Underlying().(*types.Struct); ok && s != nil {
						if _, ptr := f.Type().(*types.Pointer); ptr && !f.Exported() {
							return nil, "the embedded pointer " + f.Name() + " can not be set"
						}
						next = append(next, level{f.Type(), p})
						continue
					}
				}
				if !f.Exported() {
					return nil, "the field " + f.Name() + " is not exported"
				}
				tagged := name != ""
				if name == "" {
					name = f.Name()
				}
				if byName[name] == nil {
					names = append(names, name)
				}
				byName[name] = append(byName[name], jsonField{name, p, f.Type(), tagged})
			}
		}
		for _, n := range names {
			c := byName[n]
			if taken[n] {
				return nil, "a field named " + n + " is hidden by another one"
			}
			taken[n] = true
			if len(c) > 1 {
				return nil, "two fields are named " + n
			}
			for m := range taken {
				if m != n && strings.EqualFold(m, n) {
					return nil, "the names " + m + " and " + n + " differ in their case only"
				}
			}
			fs = append(fs, c[0])
		}
		cur = next
	}
	return fs, ""
}

// jsonLoss tells what of a value of type t does not survive encoding/json, "" when everything does.
func jsonLoss(t types.Type, seen map[types.Type]bool) string {
	if seen[t] {
		return ""
	}
	seen[t] = true
	for _, m := range []string{"MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText"} {
		if o, _, _ := types.LookupFieldOrMethod(t, true, nil, m); o != nil {
			if _, ok := o.(*types.Func); ok {
				return types.TypeString(t, nil) + " has its own " + m
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&(types.IsBoolean|types.IsString|types.IsInteger|types.IsFloat) == 0 {
			return "values of type " + u.String() + " can not be marshaled"
		}
	case *types.Pointer:
		return jsonLoss(u.Elem(), seen)
	case *types.Slice:
		return jsonLoss(u.Elem(), seen)
	case *types.Map:
		if b, ok := u.Key().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
			return "keys of type " + u.Key().String() + " are not strings"
		}
		return jsonLoss(u.Elem(), seen)
	case *types.Struct:
		fs, bad := jsonFields(t)
		if bad != "" {
			return bad + " in " + types.TypeString(t, nil)
		}
		for _, f := range fs {
			if l := jsonLoss(f.typ, seen); l != "" {
				return l
			}
		}
	default:
		return "values of type " + t.String() + " do not survive"
	}
	return ""
}

// jsonDecode is what a zero value of type dst is after decoding the marshaled v; nil when that is not known.
func jsonDecode(v jsonVal, dst types.Type) *Term {
	if types.Identical(v.typ, dst) {
		return v.val
	}
	if _, ok := dst.Underlying().(*types.Struct); !ok || !expandable(dst) {
		return nil
	}
	if _, ok := v.typ.Underlying().(*types.Struct); !ok {
		return nil
	}
	from, b1 := jsonFields(v.typ)
	to, b2 := jsonFields(dst)
	if b1 != "" || b2 != "" {
		return nil
	}
	vals := map[string]*Term{}
	for _, f := range to {
		key := pathKey(f.path)
		vals[key] = zeroTerm(f.typ)
		for _, g := range from {
			if g.name != f.name {
				continue
			}
			x, t := v.val, v.typ
			for _, i := range g.path {
				if _, ptr := t.Underlying().(*types.Pointer); ptr {
					return nil
				}
				x, t = mkField(x, t, i), t.Underlying().(*types.Struct).Field(i).Type()
			}
			if !types.Identical(g.typ, f.typ) {
				return nil
			}
			vals[key] = x
		}
	}
	return jsonBuild(dst, nil, vals)
}

func pathKey(p []int) string {
	s := ""
	for _, i := range p {
		s += "." + string(rune('a'+i))
	}
	return s
}

func jsonBuild(t types.Type, path []int, vals map[string]*Term) *Term {
	if v, ok := vals[pathKey(path)]; ok {
		return v
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return zeroTerm(t)
	}
	var args []*Term
	for i := 0; i < st.NumFields(); i++ {
		args = append(args, jsonBuild(st.Field(i).Type(), append(append([]int(nil), path...), i), vals))
	}
	return mkStruct(t, args)
}

// istype is the condition that x has the type t.
func istype(t types.Type, x *Term) *Term {
	r := mk("istype", types.TypeString(t, nil), strip(x))
	if r.Aux == nil {
		r.Aux = t
	}
	return r
}

// kindsOf tells which kinds x is known to be, and not to be.
func (c *Ctx) kindsOf(o *State, x *Term) (is, not map[string]bool) {
	is, not = map[string]bool{}, map[string]bool{}
	for _, k := range spaceKinds {
		n := c.named("pkg/space", k.name)
		if n == nil {
			continue
		}
		if v, ok := o.truth(istype(n, x)); ok {
			is[k.name], not[k.name] = v, !v
		}
	}
	return
}

// wireCheck: what the FromSpace functions make is made the same value again by the ToSpace functions.
func (c *Ctx) wireCheck() {
	const rel = "pkg/space/marshal"
	for _, k := range spaceKinds {
		from, to := c.fn(rel, k.name+"FromSpace"), c.fn(rel, k.name+"ToSpace")
		cn := "space/marshal." + k.name
		if !c.opParams(from, 1, cn+"FromSpace") || !c.opParams(to, 1, cn+"ToSpace") {
			continue
		}
		wt := derefType(from.Signature.Results().At(0).Type())
		l := jsonLoss(wt, map[types.Type]bool{})
		c.require(l == "", "the JSON form has every field", cn, fnPos(from), "%s", l)
		_, ptr := to.Params[0].Type().Underlying().(*types.Pointer)
		if !c.require(types.Identical(derefType(to.Params[0].Type()), wt), "anchor", cn, fnPos(to), "%sToSpace does not take what %sFromSpace makes", k.name, k.name) {
			continue
		}
		for _, o := range c.paths(from) {
			if o.status == stPanic {
				continue
			}
			if !c.returned(o, 2, cn+"FromSpace") {
				continue
			}
			c.noSideEffects(o, cn+"FromSpace")
			if c.failedRead(o, o.ret[0], o.ret[1], cn+"FromSpace") {
				continue
			}
			v := strip(o.ret[0])
			if !ptr {
				v, _ = c.valueAt(o, o.ret[0])
			}
			if v == nil {
				continue
			}
			for _, x := range c.callOn(o, to, v) {
				if !c.returned(x, 2, cn+"ToSpace") {
					continue
				}
				if c.require(nilErr(x.ret[1], x), "what was made from a value makes a value", cn+"ToSpace", fnPos(to), "returns %s on the path where %s", x.ret[1], x.describe()) {
					c.sameSpace(x, k, x.ret[0], param(from, 0), cn, fnPos(to))
				}
			}
		}
		// what is made depends on nothing but the parameter
		for _, o := range c.paths(to) {
			c.noSideEffects(o, cn+"ToSpace")
		}
	}
}

// failedRead tells whether the path ends with an error, which is only allowed when reading the attributes failed.
func (c *Ctx) failedRead(o *State, val, err *Term, cn string) bool {
	e := c.attrFailure(o)
	if e == nil {
		c.require(nilErr(err, o), "a value which can be read is converted", cn, pathScope(o).pos(), "returns %s on the path where %s", err, o.describe())
		return !nilErr(err, o)
	}
	c.require(same(err, e) || c.wraps(o, err, e) || o.notNil(strip(err)), "a failure to read a value is reported", cn, pathScope(o).pos(), "returns %s on the path where %s", err, o.describe())
	return true
}

func (c *Ctx) jsonCheck() {
	n := c.named("pkg/space/marshal/json", "Marshaler")
	if !c.require(n != nil, "anchor", "space/marshal/json.Marshaler", "", "the marshaler does not exist any more") {
		return
	}
	mar, unm := c.method(n, "Marshal"), c.method(n, "Unmarshal")
	const cn, un = "space/marshal/json.Marshaler.Marshal", "space/marshal/json.Marshaler.Unmarshal"
	if !c.opParams(mar, 2, cn) || !c.opParams(unm, 3, un) {
		return
	}
	x := param(mar, 1)
	done := map[string]bool{}
	for _, o := range c.paths(mar) {
		if !c.returned(o, 2, cn) {
			continue
		}
		pos := pathScope(o).pos()
		c.noSideEffects(o, cn)
		is, not := c.kindsOf(o, x)
		js, loop := eventsOf(o.events, "encoding/json.Marshal", "encoding/json.MarshalIndent")
		if len(js) == 0 {
			if e := c.attrFailure(o); e != nil {
				c.require(o.notNil(strip(o.ret[1])), "a failure to read a value is reported", cn, pos, "returns %s on the path where %s", o.ret[1], o.describe())
				continue
			}
			c.require((not["Entity"] || not["Resource"] && not["Object"] && not["Entity"]) && not["Link"] || o.isNil(x), "entities and links are marshaled", cn, pos, "nothing is marshaled on the path where %s", o.describe())
			c.require(c.errIsA(o, o.ret[1], "pkg/space/marshal", "ErrUnsuportedType"), "other values are an ErrUnsuportedType", cn, pos, "returns %s on the path where %s", o.ret[1], o.describe())
			continue
		}
		if !c.require(len(js) == 1 && !loop, "a value is marshaled once", cn, js[0].Pos, "%s", js[0]) {
			continue
		}
		e := js[0]
		c.require(c.attrFailure(o) == nil, "a failure to read a value is reported", cn, e.Pos, "it is marshaled on the path where %s", o.describe())
		c.require(same(o.ret[0], e.Res[0]) || o.notNil(e.Res[1]), "the encoding is returned", cn, e.Pos, "returns %s", o.ret[0])
		c.require(reports(o, o.ret[1], e.Res[1]), "a failure to encode is reported", cn, e.Pos, "returns %s on the path where %s", o.ret[1], o.describe())
		if o.notNil(e.Res[1]) {
			continue
		}
		kind := ""
		for _, k := range spaceKinds {
			if is[k.name] && kind == "" {
				kind = k.name
			}
		}
		if !c.require(kind != "", "only entities and links are marshaled", cn, e.Pos, "it is marshaled on the path where %s", o.describe()) {
			continue
		}
		if kind == "Entity" {
			c.require(not["Resource"] && not["Object"], "resources and objects are marshaled as such", cn, e.Pos, "a value is marshaled as an entity on the path where %s", o.describe())
		}
		done[kind] = true
		val, typ := c.valueAt(o, e.Args[0])
		if !c.require(val != nil, "the JSON form has every field", cn+" "+kind, e.Pos, "%s is marshaled", e.Args[0]) {
			continue
		}
		l := jsonLoss(typ, map[types.Type]bool{})
		c.require(l == "", "the JSON form has every field", cn+" "+kind, e.Pos, "%s", l)
		c.decoded(o, unm, kind, e.Res[0], jsonVal{val, typ}, x, un)
	}
	for _, k := range spaceKinds {
		c.require(done[k.name], "every kind of value is marshaled", cn+" "+k.name, fnPos(mar), "no path marshals it")
	}
	c.unmarshalCheck(unm, un)
}

// decoded unmarshals the encoding b of v into a variable of the kind.
func (c *Ctx) decoded(o *State, unm *ssa.Function, kind string, b *Term, v jsonVal, src *Term, cn string) {
	var k spaceKind
	for _, y := range spaceKinds {
		if y.name == kind {
			k = y
		}
	}
	t := c.named("pkg/space", kind)
	xp := mkT(unm.Params[2].Type(), "param", "op.x."+kind)
	s := o.clone()
	s.assume(istype(types.NewPointer(t), xp), true, "")
	c.m.jsonVals = map[*Term]jsonVal{strip(b): v}
	defer func() { c.m.jsonVals = nil }()
	n := 0
	name := cn + " " + kind
	s.events = append([]*Event(nil), o.events...)
	nEv := len(s.events)
	for _, r := range c.callOn(s, unm, mkT(unm.Params[0].Type(), "param", "op.m"), b, xp) {
		if !c.returned(r, 1, name) {
			continue
		}
		us, _ := eventsOf(r.events[nEv:], "encoding/json.Unmarshal")
		failed := false
		for _, u := range us {
			failed = failed || r.notNil(u.Res[0])
		}
		if failed {
			continue // malformed
		}
		if !c.require(len(us) == 1 && nilErr(r.ret[0], r), "what was marshaled is unmarshaled", name, fnPos(unm), "returns %s on the path where %s", r.ret[0], r.describe()) {
			continue
		}
		n++
		c.sameSpace(r, k, r.clone().load(xp, t, nil), src, name, us[0].Pos)
	}
	c.require(n > 0, "what was marshaled is unmarshaled", name, fnPos(unm), "no path succeeds")
}

// unmarshalCheck: malformed data and variables of other types are errors which change nothing.
func (c *Ctx) unmarshalCheck(unm *ssa.Function, cn string) {
	b, x := param(unm, 1), param(unm, 2)
	for _, o := range c.paths(unm) {
		if !c.returned(o, 1, cn) {
			continue
		}
		pos := pathScope(o).pos()
		us, loop := eventsOf(o.events, "encoding/json.Unmarshal")
		if len(us) == 0 {
			known := true
			for _, k := range spaceKinds {
				v, ok := o.truth(istype(types.NewPointer(c.named("pkg/space", k.name)), x))
				known = known && ok && !v
			}
			c.require((known || o.isNil(x)) && c.errIsA(o, o.ret[0], "pkg/space/marshal", "ErrUnsuportedType"), "only variables of other types are an ErrUnsuportedType", cn, pos, "returns %s on the path where %s", o.ret[0], o.describe())
			c.noSideEffects(o, cn)
			continue
		}
		if !c.require(len(us) == 1 && !loop, "the data is unmarshaled once", cn, us[0].Pos, "%s", us[0]) {
			continue
		}
		c.require(same(us[0].Args[0], b), "the data given is unmarshaled", cn, us[0].Pos, "%s is unmarshaled", us[0].Args[0])
		err := us[0].Res[0]
		if o.notNil(err) {
			c.require(o.notNil(strip(o.ret[0])), "malformed data is an error", cn, us[0].Pos, "returns %s on the path where %s", o.ret[0], o.describe())
			c.noSideEffects(o, cn)
			continue
		}
		c.require(o.isNil(err), "malformed data is an error", cn, us[0].Pos, "it goes on on the path where %s", o.describe())
		n := 0
		for _, e := range changes(o.events) {
			if e.Kind == EvStore && strip(e.Args[0]) == x {
				n++
				continue
			}
			c.fail("unmarshaling changes only the variable", cn, e.Pos, "%s", e)
		}
		c.require(n == 1 && nilErr(o.ret[0], o), "the variable is set", cn, us[0].Pos, "returns %s after %d stores", o.ret[0], n)
	}
}

func init() {
	register(&Check{
		ID: "C26", Title: "the wire form of entities and links loses nothing",
		Rules: "every ToSpace function is analysed on the result of every path of its FromSpace function, and the accessors of the result are compared with those of the parameter; the struct tags of the wire types are decided by the rules of encoding/json",
		Min:   30,
		Run:   func(c *Ctx) { c.wireCheck() },
	})
	register(&Check{
		ID: "C27", Title: "what the JSON marshaler encodes it decodes again",
		Rules: "Unmarshal is analysed on the value every path of Marshal hands to encoding/json; the accessors of the decoded value are compared with those of the encoded one",
		Min:   40,
		Run:   func(c *Ctx) { c.jsonCheck() },
	})
}
