package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The exported errors and the kinds of messages are what callers tell causes
// and payloads apart by.

// errValue names the value an expression gives an error variable; two of the
// same name may be equal. why is set when the value can match another one.
func (c *Ctx) errValue(v ssa.Value, d int) (id, why string) {
	if d > 6 {
		return "", ""
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		if k, ok := x.X.(*ssa.Const); ok {
			return "constant " + types.TypeString(k.Type(), nil) + " " + k.String(), ""
		}
		return c.errValue(x.X, d+1)
	case *ssa.ChangeInterface:
		return c.errValue(x.X, d+1)
	case *ssa.ChangeType:
		return c.errValue(x.X, d+1)
	case *ssa.Const:
		return "nil", "it is nil"
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if g, ok := x.X.(*ssa.Global); ok {
				return "value of " + g.Name(), ""
			}
		}
	case *ssa.Alloc:
		if t := derefType(x.Type()); types.SizesFor("gc", "amd64").Sizeof(t) == 0 {
			return "pointer to nothing", "it points to a value without content"
		}
		return "", ""
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil {
			return "", ""
		}
		if f.String() == "fmt.Errorf" && len(x.Call.Args) > 0 {
			if k, ok := x.Call.Args[0].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "%w") {
				return "", "it wraps another error"
			}
		}
	}
	return "", ""
}

// errText is the constant text an error is made of.
func errText(v ssa.Value) string {
	if x, ok := v.(*ssa.Call); ok && x.Call.StaticCallee() != nil && x.Call.StaticCallee().String() == "errors.New" {
		if k, ok := x.Call.Args[0].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			return constant.StringVal(k.Value)
		}
	}
	return ""
}

// errorsCheck: exported errors with different names are different errors.
func (c *Ctx) errorsCheck() {
	type val struct {
		g        *ssa.Global
		id, name string
	}
	byID := map[string][]val{}
	alias := map[string]string{}
	texts := map[string]string{}
	n := 0
	for _, p := range c.Program.byPth {
		var names []string
		for m := range p.Members {
			names = append(names, m)
		}
		sort.Strings(names)
		stores := map[*ssa.Global][]*ssa.Store{}
		init := p.Func("init")
		var scan func(f *ssa.Function)
		scan = func(f *ssa.Function) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if g, ok := st.Addr.(*ssa.Global); ok {
							stores[g] = append(stores[g], st)
						}
					}
				}
			}
		}
		if init != nil {
			scan(init)
		}
		for _, m := range names {
			if f, ok := p.Members[m].(*ssa.Function); ok && strings.HasPrefix(m, "init#") {
				scan(f)
			}
		}
		for _, m := range names {
			g, ok := p.Members[m].(*ssa.Global)
			if !ok || !token.IsExported(m) || !types.Identical(derefType(g.Type()), types.Universe.Lookup("error").Type()) {
				continue
			}
			n++
			full := strings.TrimPrefix(p.Pkg.Path(), modPath+"/") + "." + m
			pos := c.at(g.Pos())
			ss := stores[g]
			if !c.require(len(ss) > 0, "an exported error is there", full, pos, "it is never set") {
				continue
			}
			for _, st := range ss {
				if txt := errText(st.Val); txt != "" {
					o := texts[p.Pkg.Path()+" "+txt]
					c.require(o == "" || o == m, "errors of a package have different texts", full, pos, "its text %q is also that of %s", txt, o)
					texts[p.Pkg.Path()+" "+txt] = m
				}
				id, why := c.errValue(st.Val, 0)
				c.require(why == "", "an exported error is a value of its own", full, pos, "%s", why)
				if strings.HasPrefix(id, "value of ") {
					alias[full] = strings.TrimPrefix(id, "value of ")
					c.require(alias[full] == m, "errors with different names are different", full, pos, "it is the same value as %s", alias[full])
				} else if id != "" {
					byID[id] = append(byID[id], val{g, id, m})
				}
			}
		}
	}
	for _, f := range c.funcs {
		if f.Synthetic != "" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if g, ok := st.Addr.(*ssa.Global); ok && token.IsExported(g.Name()) && types.Identical(derefType(g.Type()), types.Universe.Lookup("error").Type()) {
					c.require(false, "an exported error keeps its value", shortFn(f), c.at(st.Pos()), "it sets %s", g.Name())
				}
			}
		}
	}
	for id, vs := range byID {
		for _, v := range vs[1:] {
			c.require(v.name == vs[0].name, "errors with different names are different", v.name, c.at(v.g.Pos()), "%s and %s are both %s", v.name, vs[0].name, id)
		}
	}
	c.require(n > 0, "anchor", "errors", "", "no exported errors were found")
}

// at is a position of the source.
func (c *Ctx) at(p token.Pos) string {
	q := c.fset.Position(p)
	return shortFile(q.Filename) + ":" + strconv.Itoa(q.Line)
}

// kinds are the types of messages.
var kinds = []string{"Entity", "Object", "Resource", "Link", "Unknown"}

func (c *Ctx) kindsCheck() {
	n := c.named("pkg/broker", "Type")
	if n == nil {
		c.require(false, "anchor", "broker.Type", "", "the type does not exist any more")
		return
	}
	vals := map[string]constant.Value{}
	for _, k := range kinds {
		o, ok := n.Obj().Pkg().Scope().Lookup(k).(*types.Const)
		if !c.require(ok && types.Identical(o.Type(), n), "anchor", "broker."+k, "", "it is not a message type any more") {
			return
		}
		for _, j := range kinds {
			if v := vals[j]; v != nil {
				c.require(!constant.Compare(v, token.EQL, o.Val()), "message types are different", "broker."+k, c.at(o.Pos()), "%s and %s have the same value", k, j)
			}
		}
		vals[k] = o.Val()
	}
	f := c.declared(n, "String")
	if f == nil || f.Blocks == nil {
		return
	}
	last := vals["Entity"]
	for _, v := range vals {
		if constant.Compare(v, token.GTR, last) {
			last = v
		}
	}
	check := func(v constant.Value, what, want string) {
		for _, o := range c.callOn(newState(c.m), f, constTerm(v, n)) {
			if !c.require(o.status == stRet && len(o.ret) == 1, "a message type has a text", "broker.Type.String", fnPos(f), "it does not return for %s", what) {
				continue
			}
			got, ok := c.textOf(o.ret[0])
			c.require(!ok || got == want, "the text of a message type is its name", "broker.Type.String", fnPos(f), "%s is %q", what, got)
		}
	}
	for _, k := range kinds {
		check(vals[k], k, k)
	}
	check(constant.BinaryOp(last, token.ADD, constant.MakeInt64(1)), "a value which is no message type", "Unknown")
	check(constant.MakeInt64(-1), "a negative value", "Unknown")
}

// textOf returns the text a term is known to be.
func (c *Ctx) textOf(t *Term) (string, bool) {
	t = strip(t)
	if t.Op == "const" && strings.HasPrefix(t.Str, "string:") {
		r, err := strconv.Unquote(t.Str[len("string:"):])
		return r, err == nil
	}
	return "", false
}

func init() {
	register(&Check{
		ID: "C40", Title: "Causes of failure and kinds of messages can be told apart",
		Rules: "every exported error variable of the module is set once, to a value of its own which wraps no other; errors of a package have different texts; the message types have different values and String maps each to its name, any other value to Unknown",
		Min:   30,
		Run: func(c *Ctx) {
			c.errorsCheck()
			c.kindsCheck()
		},
	})
}
