package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// UIDs are compared by their text: whoever made them and whichever object
// they are, two UIDs with the same text name the same thing, and two with
// different texts different things.

// uidRoles are the types which identify.
type uidRoles struct {
	iface  *types.Interface
	named  types.Type
	result map[types.Type]bool // map types the exported interfaces return
}

func (c *Ctx) uidTypes() *uidRoles {
	t := c.lookupType("pkg/uuid.UID")
	if !c.require(t != nil, "anchor", "uuid.UID", "", "uuid.UID does not exist any more") {
		return nil
	}
	r := &uidRoles{named: t, result: map[types.Type]bool{}}
	r.iface, _ = t.Underlying().(*types.Interface)
	if !c.require(r.iface != nil, "anchor", "uuid.UID is an interface", "", "it is %s", t.Underlying()) {
		return nil
	}
	return r
}

// isUID: an interface value or a pointer which is a UID. A value of a module
// type is compared field by field, that is by its text.
func (r *uidRoles) isUID(t types.Type) bool {
	if types.Identical(t, r.named) {
		return true
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n := namedOf(p.Elem())
	return n != nil && inModulePkg(n.Obj().Pkg()) && strings.Contains(n.Obj().Pkg().Path(), "/uuid") && types.Implements(t, r.iface)
}

// holds: comparing values of type t compares UIDs by identity.
func (r *uidRoles) holds(t types.Type) bool {
	if r.isUID(t) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if r.holds(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return r.holds(u.Elem())
	}
	return false
}

// plain removes conversions between interfaces.
func plain(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

func isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.IsNil()
}

// returnedMaps are the map types keyed by UIDs which the module returns from exported functions.
func (r *uidRoles) returnedMaps(p *Program) {
	for _, f := range p.funcs {
		o, ok := f.Object().(*types.Func)
		if !ok || !o.Exported() {
			continue
		}
		res := f.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if m, ok := res.At(i).Type().Underlying().(*types.Map); ok {
				r.result[m] = true
			}
		}
	}
}

func (r *uidRoles) isResult(t types.Type) bool {
	for m := range r.result {
		if types.Identical(m, t.Underlying()) {
			return true
		}
	}
	return false
}

// text describes how a string depends on the text of a UID.
type text int

const (
	notText text = iota
	theText      // the text of one UID
	changed      // made of the text of a UID, but not the text
)

type textFlow struct {
	r   *uidRoles
	val map[ssa.Value]text
	ret map[*ssa.Function]map[int]text
	dty bool
}

func (t *textFlow) set(v ssa.Value, x text) {
	if x > t.val[v] {
		t.val[v] = x
		t.dty = true
	}
}

// lossy are the functions whose result no longer is the text it is made of.
func lossy(f *ssa.Function) bool {
	if f == nil || f.Pkg == nil {
		return false
	}
	switch f.Pkg.Pkg.Path() {
	case "strings", "bytes", "path", "path/filepath", "unicode/utf8", "hash/fnv", "strconv":
		return true
	}
	return false
}

func (t *textFlow) isText(v ssa.Value) text {
	if x := t.val[v]; x != notText {
		return x
	}
	if p := plain(v); p != v {
		return t.isText(p)
	}
	return notText
}

func (t *textFlow) call(in ssa.CallInstruction) text {
	k := in.Common()
	if k.IsInvoke() {
		if k.Method.Name() == "String" && len(k.Args) == 0 && t.r.isUID(k.Value.Type()) {
			return theText
		}
		return notText
	}
	f := k.StaticCallee()
	if f == nil {
		return notText
	}
	if f.Name() == "String" && len(k.Args) == 1 && f.Signature.Recv() != nil && (t.r.isUID(k.Args[0].Type()) || t.r.isUID(types.NewPointer(k.Args[0].Type()))) {
		return theText
	}
	if f.Pkg != nil && f.Pkg.Pkg.Path() == "fmt" && strings.HasPrefix(f.Name(), "Sprint") {
		return t.sprint(f, k.Args)
	}
	if lossy(f) {
		for _, a := range k.Args {
			if t.isText(a) != notText {
				return changed
			}
		}
		return notText
	}
	if inModule(f) && f.Blocks != nil {
		for i, a := range k.Args {
			if x := t.isText(a); x != notText && i < len(f.Params) {
				t.set(f.Params[i], x)
			}
		}
		return t.ret[f][0]
	}
	return notText
}

// sprint: what the formatted text is made of.
func (t *textFlow) sprint(f *ssa.Function, args []ssa.Value) text {
	n := 0
	one := notText
	for _, a := range args {
		sl, ok := a.(*ssa.Slice)
		if !ok {
			continue
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok {
			continue
		}
		for _, u := range *al.Referrers() {
			ia, ok := u.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, w := range *ia.Referrers() {
				if s, ok := w.(*ssa.Store); ok && s.Addr == ia {
					n++
					p := plain(s.Val)
					if t.r.isUID(p.Type()) {
						one = theText
					} else if x := t.isText(p); x != notText && one != changed {
						one = x
					}
				}
			}
		}
	}
	if one == notText {
		return notText
	}
	same := n == 1 && f.Name() == "Sprint"
	if f.Name() == "Sprintf" && n == 1 && len(args) > 0 {
		if k, ok := args[0].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			s := constant.StringVal(k.Value)
			same = s == "%s" || s == "%v"
		}
	}
	if same {
		return one
	}
	return changed
}

func (t *textFlow) step(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				t.set(x, t.call(x))
			case *ssa.Defer:
				t.call(x)
			case *ssa.Go:
				t.call(x)
			case *ssa.Phi:
				for _, e := range x.Edges {
					t.set(x, t.isText(e))
				}
			case *ssa.Slice:
				if y := t.isText(x.X); y != notText {
					if x.Low != nil || x.High != nil {
						y = changed
					}
					t.set(x, y)
				}
			case *ssa.Convert:
				t.set(x, t.isText(x.X))
			case *ssa.ChangeType:
				t.set(x, t.isText(x.X))
			case *ssa.MakeInterface:
				t.set(x, t.isText(x.X))
			case *ssa.Extract:
				if k, ok := x.Tuple.(*ssa.Call); ok {
					if g := k.Common().StaticCallee(); g != nil {
						t.set(x, t.ret[g][x.Index])
					}
				}
			case *ssa.Lookup:
				// a byte of the text
				if t.isText(x.X) != notText {
					t.set(x, changed)
				}
			case *ssa.BinOp:
				if x.Op == token.ADD && (t.isText(x.X) != notText || t.isText(x.Y) != notText) {
					t.set(x, changed)
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if a, ok := x.X.(*ssa.Alloc); ok {
						t.set(x, t.val[a])
					}
				}
			case *ssa.Store:
				if a, ok := x.Addr.(*ssa.Alloc); ok {
					t.set(a, t.isText(x.Val))
				}
			case *ssa.Return:
				for i, v := range x.Results {
					if y := t.isText(v); y > t.ret[f][i] {
						if t.ret[f] == nil {
							t.ret[f] = map[int]text{}
						}
						t.ret[f][i] = y
						t.dty = true
					}
				}
			}
		}
	}
}

func (c *Ctx) uidCheck() {
	r := c.uidTypes()
	if r == nil {
		return
	}
	r.returnedMaps(c.Program)
	t := &textFlow{r: r, val: map[ssa.Value]text{}, ret: map[*ssa.Function]map[int]text{}}
	for t.dty = true; t.dty; {
		t.dty = false
		for _, f := range c.funcs {
			t.step(f)
		}
	}
	for _, f := range c.funcs {
		c.m.funcsSeen[f] = true
		c.uidFunc(r, t, f)
	}
}

func (c *Ctx) uidFunc(r *uidRoles, t *textFlow, f *ssa.Function) {
	const (
		byText = "UIDs are compared by their text"
		whole  = "the whole text names a thing"
	)
	cn := shortFn(f)
	pos := func(in ssa.Instruction) string { return posOf(in) }
	key := func(in ssa.Instruction, k ssa.Value, m types.Type) {
		p := plain(k)
		if r.holds(p.Type()) {
			c.require(r.isResult(m), byText, cn, pos(in), "a map is keyed by UIDs, which are compared by identity")
		} else if x := t.isText(p); x != notText {
			c.require(x == theText, whole, cn, pos(in), "the key is made of the text of a UID, but is not the text")
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp:
				switch x.Op {
				case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
				default:
					continue
				}
				p, q := plain(x.X), plain(x.Y)
				if isNilConst(p) || isNilConst(q) {
					continue
				}
				if r.holds(p.Type()) || r.holds(q.Type()) {
					c.fail(byText, cn, pos(in), "UIDs are compared by identity: %s", x)
					continue
				}
				a, z := t.isText(p), t.isText(q)
				if a == notText && z == notText {
					continue
				}
				c.require(a != changed && z != changed, whole, cn, pos(in), "what is compared is made of the text of a UID, but is not the text")
			case *ssa.Lookup:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					key(in, x.Index, x.X.Type())
				}
			case *ssa.MapUpdate:
				key(in, x.Key, x.Map.Type())
			case *ssa.TypeAssert:
				if types.Identical(x.X.Type(), r.named) && !types.IsInterface(x.AssertedType) {
					c.fail("any UID names things", cn, pos(in), "only UIDs of type %s are accepted", x.AssertedType)
				}
			case *ssa.Call:
				k := x.Common()
				if bi, ok := k.Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
					key(in, k.Args[1], k.Args[0].Type())
				}
				g := k.StaticCallee()
				if g == nil || g.Pkg == nil {
					continue
				}
				switch g.Pkg.Pkg.Path() {
				case "reflect":
					if g.Name() == "DeepEqual" {
						for _, a := range k.Args {
							if r.holds(plain(a).Type()) {
								c.fail(byText, cn, pos(in), "UIDs are compared by their implementation")
							}
						}
					}
				case "strings":
					switch g.Name() {
					case "EqualFold", "HasPrefix", "HasSuffix", "Contains", "Index":
						for _, a := range k.Args {
							if t.isText(a) != notText {
								c.fail(whole, cn, pos(in), "strings.%s does not compare the whole text", g.Name())
							}
						}
					case "Compare":
						c.require(t.isText(k.Args[0]) != changed && t.isText(k.Args[1]) != changed, whole, cn, pos(in), "what is compared is made of the text of a UID, but is not the text")
					}
				}
			}
		}
	}
}

func init() {
	register(&Check{
		ID: "C13", Title: "UIDs are compared by their text",
		Rules: "every comparison, map access and type assertion of every function of the module: no UID is compared by identity or implementation, and what is compared or used as a key is the whole text of one UID; the text is followed through calls, conversions and variables",
		Min:   5,
		Run:   func(c *Ctx) { c.uidCheck() },
	})
}
