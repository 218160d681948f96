package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The pipelines around the broker and the runner.

// pipeline is a type with options whose operation uses them.
type pipeline struct {
	rel, ctor, typ, op string
	nargs, opts        int
}

var pipelines = []pipeline{
	{"pkg/broker/ingester/simple", "NewIngester", "Ingester", "Ingest", 7, 6},
	{"pkg/broker/digester/simple", "NewDigester", "Digester", "Digest", 4, 3},
	{"", "NewRunner", "Runner", "Run", 5, 4},
}

func (p pipeline) name() string {
	return strings.TrimPrefix(strings.TrimPrefix(p.rel+".", "pkg/")+p.typ, ".") + "." + p.op
}

// piped is a path of the operation on the result of a path of the constructor.
type piped struct {
	o    *State // end of the operation
	c    *State // end of the constructor
	obj  *Term
	opts *Term // options of the call
	ctor *Term // options of the constructor
	f    *ssa.Function
}

// pipe runs the operation on what the constructor made.
func (c *Ctx) pipe(p pipeline) (r []piped) {
	ct, n := c.fn(p.rel, p.ctor), c.named(p.rel, p.typ)
	cn := p.name()
	if !c.require(ct != nil && n != nil && len(ct.Params) == 1, "anchor", cn+" constructor", "", "%s or its type does not exist any more", p.ctor) {
		return nil
	}
	f := c.method(n, p.op)
	if !c.opParams(f, p.nargs, cn) {
		return nil
	}
	for _, o := range c.paths(ct) {
		if !c.returned(o, 2, cn+" constructor") {
			continue
		}
		if !c.require(nilErr(o.ret[1], o) && strip(o.ret[0]).Op == "alloc", "constructing succeeds", cn, fnPos(ct), "returns %s, %s", o.ret[0], o.ret[1]) {
			continue
		}
		c.noSideEffects(o, cn+" constructor")
		obj := strip(o.ret[0])
		args := []*Term{obj}
		for i := 1; i < len(f.Params); i++ {
			args = append(args, opParam(f, i))
		}
		s := o.clone()
		s.events = nil
		for _, x := range c.callOn(s, f, args...) {
			r = append(r, piped{o: x, c: o, obj: obj, opts: opParam(f, p.opts), ctor: param(ct, 0), f: f})
		}
	}
	return r
}

// opParam is a parameter of the operation of a pipeline: not one of its constructor, whose parameters have the same names.
func opParam(f *ssa.Function, i int) *Term {
	return mkT(f.Params[i].Type(), "param", "op."+f.Params[i].Name())
}

// setting tells whether t is the option name of the call, with the option of the constructor as its default.
func (p piped) setting(t *Term, name string) bool {
	opts, init, ok := optionField(t, name)
	if ok && noOptions(p.o, p.opts) && p.ctorSetting(t, name) {
		return true
	}
	if !ok || !same(opts, p.opts) {
		return false
	}
	// what the setting was before the options of the call were applied
	if init.Op == "struct" {
		v := structField(init, name)
		if v == nil {
			return false
		}
		if noOptions(p.o, p.ctor) && p.o.isNil(strip(v)) {
			return true
		}
		d, zero, ok := optionField(v, name)
		return ok && same(d, p.ctor) && isZeroOptions(zero)
	}
	if noOptions(p.o, p.ctor) && isZeroOptions(init) {
		return true
	}
	return init.Op == "fold" && same(init.Args[0], p.ctor) && isZeroOptions(init.Args[1])
}

// ctorSetting tells whether t is the option name of the constructor.
func (p piped) ctorSetting(t *Term, name string) bool {
	opts, zero, ok := optionField(t, name)
	return ok && same(opts, p.ctor) && isZeroOptions(zero)
}

// noSetting tells whether neither the call nor the constructor has the option name.
func (c *Ctx) noSetting(p piped, name string) bool {
	if noOptions(p.o, p.opts) && noOptions(p.o, p.ctor) {
		return true
	}
	for _, f := range p.o.flist {
		if f.T.Op == "eq" && f.V {
			for j := 0; j < 2; j++ {
				if f.T.Args[1-j] == tNil && p.setting(f.T.Args[j], name) {
					return true
				}
			}
		}
	}
	return false
}

func (c *Ctx) withSetting(p piped, name string) bool {
	for _, f := range p.o.flist {
		if f.T.Op == "eq" && !f.V {
			for j := 0; j < 2; j++ {
				if f.T.Args[1-j] == tNil && p.setting(f.T.Args[j], name) {
					return true
				}
			}
		}
	}
	return false
}

// defaultsCheck: the settings of the constructor hold unless the call has its own.
func (c *Ctx) defaultsCheck() {
	for _, p := range pipelines {
		cn := p.name()
		for _, x := range c.pipe(p) {
			if x.o.status != stRet && !(x.o.status == stPanic) {
				c.fail("returns", cn, fnPos(x.f), "the path where %s does not return", x.o.describe())
				continue
			}
			// the call leaves the settings alone
			for _, e := range changes(x.o.events) {
				c.fail("the options of a call are for that call only", cn, e.Pos, "%s", e)
			}
			n := namedOf(derefType(x.obj.Type))
			if st, ok := n.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					a := mk("faddr", fieldKey(n, i), x.obj)
					was, is := x.c.clone().load(a, st.Field(i).Type(), nil), x.o.clone().load(a, st.Field(i).Type(), nil)
					c.require(was == is, "the options of a call are for that call only", cn+" "+st.Field(i).Name(), fnPos(x.f), "%s was %s and is %s after the call", st.Field(i).Name(), was, is)
				}
			}
			switch p.op {
			case "Ingest":
				c.settingUsed(x, cn, "Marshaler", func(e *Event) *Term {
					if e.Kind == EvInvoke && e.Name == "Marshal" {
						return e.Args[0]
					}
					return nil
				}, "encoding/json.Marshal")
			case "Digest":
				c.settingUsed(x, cn, "Handler", func(e *Event) *Term {
					if e.Kind == EvInvoke && e.Name == "Receive" && len(e.Args) > 2 {
						return c.handlerOf(x.o, e.Args[2])
					}
					return nil
				}, "")
			case "Run":
				for _, e := range x.o.events {
					if e.Kind != EvInvoke || e.Name != "Scrape" {
						continue
					}
					list := strip(e.Args[len(e.Args)-1])
					setting := x.setting
					if list.Op == "append" && len(list.Args) == 2 && same(list.Args[1], x.opts) {
						// the scraper applies the options of the call after those of the constructor
						list, setting = list.Args[0], x.ctorSetting
					}
					vals, ok := c.optsValue(x.o, list)
					if !c.require(ok, "the scraper gets the options", cn, e.Pos, "the options %s can not be determined", e.Args[len(e.Args)-1]) {
						continue
					}
					for _, name := range []string{"Store", "Broker", "Marshaler"} {
						v := vals[name]
						c.require(v != nil && setting(v, name) || (v == nil || x.o.isNil(v)) && c.noSetting(x, name), "the options of the call, else of the constructor are used", cn+" "+name, e.Pos, "the scraper gets %v", v)
					}
				}
			}
		}
	}
}

// settingUsed: what uses the setting name uses the one of the call, else of the constructor; nothing else is used unless there is none.
func (c *Ctx) settingUsed(x piped, cn, name string, use func(*Event) *Term, fallback string) {
	n := 0
	each(x.o.events, func(e *Event, in []*Seg) {
		if v := use(e); v != nil {
			n++
			st := x.o
			if len(in) > 0 {
				st = in[len(in)-1].St
			}
			c.require(x.o.notNil(strip(v)) || st.notNil(strip(v)), "a missing option is not used", cn+" "+name, e.Pos, "%s may be nil on the path where %s", v, x.o.describe())
			c.require(x.setting(v, name), "the options of the call, else of the constructor are used", cn+" "+name, e.Pos, "%s is used", v)
		}
		if fallback != "" && e.Kind == EvExt && e.Name == fallback {
			c.require(c.noSetting(x, name), "the default is used only without an option", cn+" "+name, e.Pos, "%s is used on the path where %s", fallback, x.o.describe())
		}
	})
	if n == 0 {
		c.require(c.noSetting(x, name), "the default is used only without an option", cn+" "+name, fnPos(x.f), "the option is not used on the path where %s", x.o.describe())
	} else {
		c.require(!c.noSetting(x, name), "a missing option is not used", cn+" "+name, fnPos(x.f), "a nil setting is used on the path where %s", x.o.describe())
	}
}

// reports tells whether t is a failure exactly when the result err is one.
func reports(o *State, t, err *Term) bool {
	if same(t, err) || nilErr(t, o) && o.isNil(strip(err)) {
		return true
	}
	return o.notNil(strip(t)) && o.notNil(strip(err))
}

// eventsOf lists the calls of the path with a name.
func eventsOf(evs []*Event, names ...string) (r []*Event, looped bool) {
	each(evs, func(e *Event, in []*Seg) {
		if e.Kind != EvInvoke && e.Kind != EvExt && e.Kind != EvCall {
			return
		}
		for _, n := range names {
			if e.Name == n {
				r = append(r, e)
				looped = looped || len(in) > 0
			}
		}
	})
	return r, looped
}

// generated tells whether the text t has a part which is new in every call.
func generated(t *Term) bool {
	ok := false
	for _, x := range strs(t) {
		x.walk(func(y *Term) bool {
			if (y.Op == "call" || y.Op == "extnew" || y.Op == "res") && strings.Contains(y.Str, "github.com/google/uuid.") {
				ok = true
			}
			return true
		})
	}
	return ok
}

func (c *Ctx) ingestCheck(p pipeline) {
	cn := p.name()
	for _, x := range c.pipe(p) {
		o, f := x.o, x.f
		if !c.returned(o, 1, cn) {
			continue
		}
		ret := o.ret[0]
		arg := func(i int) *Term { return opParam(f, i) }
		ms, mloop := eventsOf(o.events, "Marshal", "encoding/json.Marshal", "encoding/json.MarshalIndent", "Encode")
		ps, ploop := eventsOf(o.events, "Pub", "BulkPub")
		var m *Event
		if c.require(len(ms) == 1 && !mloop && len(ms[0].Res) == 2, "the data is marshaled once", cn, fnPos(f), "it is marshaled %d times on the path where %s", len(ms), o.describe()) {
			m = ms[0]
			c.require(same(m.Args[len(m.Args)-1], arg(5)), "the data given is marshaled", cn, m.Pos, "%s is marshaled", m.Args[len(m.Args)-1])
		}
		if len(ps) == 0 {
			c.require(o.notNil(strip(ret)), "what is not published is an error", cn, fnPos(f), "returns %s on the path where %s", ret, o.describe())
			c.require(m != nil && o.notNil(m.Res[1]), "data which can be marshaled is published", cn, fnPos(f), "nothing is published on the path where %s", o.describe())
			continue
		}
		if !c.require(len(ps) == 1 && !ploop && ps[0].Name == "Pub" && len(ps[0].Args) >= 4, "one message is published", cn, ps[0].Pos, "%s", ps[0]) {
			continue
		}
		e := ps[0]
		c.require(same(e.Args[0], arg(2)) && same(e.Args[1], arg(1)) && same(e.Args[2], arg(3)), "the message goes to the topic of the broker", cn, e.Pos, "%s", e)
		msg := strip(e.Args[3])
		fld := func(n string) *Term { return structField(msg, n) }
		if c.require(msg.Op == "struct" && fld("Data") != nil && fld("Type") != nil && fld("UID") != nil, "the message is made by the ingester", cn, e.Pos, "%s is published", msg) {
			if m != nil {
				c.require(same(fld("Data"), m.Res[0]) && o.isNil(m.Res[1]), "the payload is the marshaled data", cn, e.Pos, "the payload is %s on the path where %s", fld("Data"), o.describe())
			}
			c.require(same(fld("Type"), arg(4)), "the message has the type given", cn, e.Pos, "the type is %s", fld("Type"))
			c.require(generated(fld("UID")), "the message has a new ID", cn, e.Pos, "the ID is %s", fld("UID"))
		}
		c.require(reports(o, ret, e.Res[0]), "the result is that of publishing", cn, e.Pos, "returns %s on the path where %s", ret, o.describe())
	}
}

func (c *Ctx) digestCheck(p pipeline) {
	cn := p.name()
	xs := c.pipe(p)
	c.require(len(xs) > 0, "the digester ends with a failure of receiving", cn, "", "it never returns")
	for _, x := range xs {
		o, f := x.o, x.f
		if !c.returned(o, 1, cn) {
			continue
		}
		var rs []*Event
		last := -1
		each(o.events, func(e *Event, in []*Seg) {
			if e.Kind != EvInvoke {
				return
			}
			if !c.require(e.Name == "Receive" && len(e.Args) >= 3, "the digester only receives", cn, e.Pos, "%s", e) {
				return
			}
			rs = append(rs, e)
			c.require(same(e.Args[0], opParam(f, 2)) && same(e.Args[1], opParam(f, 1)), "the messages of the subscription are received", cn, e.Pos, "%s", e)
			if fn, free := funcOf(e.Args[2]); fn != nil {
				_, why := c.unwrap(o, fn, free)
				c.require(why == "", "every message is handed to the handler", cn, e.Pos, "%s", why)
			}
			if len(in) == 0 {
				last = len(rs) - 1
				return
			}
			c.require(in[len(in)-1].St.isNil(e.Res[0]), "the digester ends with the first failure", cn, e.Pos, "it goes on where %s", in[len(in)-1].St.describe())
		})
		if !c.require(last >= 0, "the digester ends with a failure of receiving", cn, fnPos(f), "it returns %s without receiving on the path where %s", o.ret[0], o.describe()) {
			continue
		}
		e := rs[last]
		c.require(last == len(rs)-1 && o.notNil(e.Res[0]) && o.notNil(strip(o.ret[0])), "the digester ends with a failure of receiving", cn, e.Pos, "it returns %s on the path where %s", o.ret[0], o.describe())
		c.require(len(rs) > 1, "the digester goes on after a message", cn, e.Pos, "it receives once on the path where %s", o.describe())
	}
}

// handlerOf returns the handler which the handler h stands for: itself, or the one
// it hands every message on to; nil when it is a function of the module.
func (c *Ctx) handlerOf(o *State, h *Term) *Term {
	fn, free := funcOf(h)
	if fn == nil {
		return h
	}
	inner, _ := c.unwrap(o, fn, free)
	return inner
}

// unwrap runs a function literal which handles messages, for one message and for
// one after it, and returns the handler it calls with each message as it is; why
// tells what else it does.
func (c *Ctx) unwrap(o *State, fn *ssa.Function, free []*Term) (inner *Term, why string) {
	if fn.Parent() == nil || len(fn.Params) != 2 {
		return nil, ""
	}
	ctx, msg := paramTerm(fn, 0), paramTerm(fn, 1)
	inner, why, outs := c.unwrapOne(o, fn, free, ctx, msg)
	for _, x := range outs {
		// whatever became of the variables it changes
		for a, v := range x.cells {
			if was, ok := o.cells[a]; ok && was != v && a.Type != nil {
				x.cells[a] = mkT(derefType(a.Type), "param", "later "+a.String())
			}
		}
		if why == "" {
			_, why, _ = c.unwrapOne(x, fn, free, mkT(ctx.Type, "param", "later "+ctx.Str), mkT(msg.Type, "param", "later "+msg.Str))
		}
	}
	return inner, why
}

func (c *Ctx) unwrapOne(o *State, fn *ssa.Function, free []*Term, ctx, msg *Term) (inner *Term, why string, done []*State) {
	n := o.clone()
	n.status, n.frames, n.ret, n.events = stRun, nil, nil, nil
	var outs []*State
	c.guard(shortFn(fn), func() { outs = c.m.Run(fn, []*Term{ctx, msg}, free, n) })
	for _, x := range outs {
		if x.status != stRet || len(x.ret) != 1 {
			continue
		}
		done = append(done, x)
		calls, itself := 0, false
		each(x.events, func(e *Event, in []*Seg) {
			itself = itself || e.Kind == EvExt
			if e.Kind != EvDyn && !(e.Kind == EvCall && len(e.Args) == 2) {
				return
			}
			calls++
			a := e.Args
			if e.Kind == EvDyn {
				inner, a = a[0], a[1:]
			}
			switch {
			case len(in) > 0:
				why = "it handles a message more than once"
			case len(a) != 2 || !same(a[1], msg):
				why = "it hands on something else than the message"
			case !reports(x, x.ret[0], e.Res[0]):
				why = "it does not return what the handler returns"
			}
		})
		if calls == 0 && itself {
			continue // it handles the message itself
		}
		if calls != 1 {
			why = "it calls the handler " + strconv.Itoa(calls) + " times where " + x.describe()
		}
	}
	return inner, why, done
}

func (c *Ctx) dumpCheck() {
	cn := "broker/handlers.DumpData"
	f := c.fn("pkg/broker/handlers", "DumpData")
	if !c.require(f != nil && len(f.Params) == 2, "anchor", cn, "", "does not exist any more") {
		return
	}
	for _, o := range c.paths(f) {
		if !c.returned(o, 1, cn) {
			continue
		}
		n := 0
		each(o.events, func(e *Event, in []*Seg) {
			if e.Kind != EvExt || len(in) > 0 {
				return
			}
			switch e.Name {
			case "fmt.Print", "io.Copy", "(*os.File).Write", "(*os.File).WriteString", "io.WriteString", "fmt.Fprint", "(*bytes.Reader).WriteTo", "(*bytes.Buffer).WriteTo", "(*strings.Reader).WriteTo":
			default:
				return
			}
			n++
			dst, src := e.Args[0], e.Args[len(e.Args)-1]
			if strings.HasSuffix(e.Name, "WriteTo") {
				dst, src = src, dst
			}
			c.require(e.Name == "fmt.Print" || strings.HasSuffix(strip(dst).String(), "os.Stdout"), "the payload goes to the standard output", cn, e.Pos, "it goes to %s", dst)
			c.require(c.wholeData(src, param(f, 1)), "the whole payload is written", cn, e.Pos, "%s is written", src)
			c.require(reports(o, o.ret[0], e.Res[len(e.Res)-1]), "a failure to write is reported", cn, e.Pos, "returns %s on the path where %s", o.ret[0], o.describe())
		})
		c.require(n == 1, "the whole payload is written", cn, fnPos(f), "it is written %d times on the path where %s", n, o.describe())
	}
}

// wholeData tells whether t reads, or is, the whole payload of the message m.
func (c *Ctx) wholeData(t, m *Term) bool {
	for d := 0; d < 6; d++ {
		t = strip(t)
		switch {
		case t.Op == "field" && strings.HasSuffix(t.Str, "Message.Data"):
			return same(t.Args[0], m)
		case (t.Op == "ext" || t.Op == "extnew") && len(t.Args) == 1 && (strings.Contains(t.Str, "bytes.NewReader") || strings.Contains(t.Str, "bytes.NewBuffer") || strings.Contains(t.Str, "strings.NewReader")),
			t.Op == "conv" && len(t.Args) == 1, t.Op == "seq" && len(t.Args) == 1:
			t = t.Args[0]
		default:
			return false
		}
	}
	return false
}

func (c *Ctx) runCheck(p pipeline) {
	cn := p.name()
	for _, x := range c.pipe(p) {
		o, f := x.o, x.f
		if !c.returned(o, 1, cn) {
			continue
		}
		ss, loop := eventsOf(o.events, "Scrape")
		plan := opParam(f, 2)
		if len(ss) == 0 {
			c.require(o.isNil(plan), "a plan is scraped", cn, fnPos(f), "nothing is scraped on the path where %s", o.describe())
			c.require(globalErr(o.ret[0], "", "ErrMissingPlan"), "a missing plan is an ErrMissingPlan", cn, fnPos(f), "returns %s on the path where %s", o.ret[0], o.describe())
			continue
		}
		e := ss[0]
		if c.require(len(ss) == 1 && !loop && len(e.Args) >= 3, "a plan is scraped once", cn, e.Pos, "%s", e) {
			c.require(o.notNil(plan), "a missing plan is an ErrMissingPlan", cn, e.Pos, "it is scraped on the path where %s", o.describe())
			c.require(same(e.Args[0], opParam(f, 3)) && same(e.Args[1], opParam(f, 1)) && same(e.Args[2], plan), "the scraper gets the plan", cn, e.Pos, "%s", e)
			c.require(reports(o, o.ret[0], e.Res[0]), "the result is that of the scraper", cn, e.Pos, "returns %s on the path where %s", o.ret[0], o.describe())
		}
	}
}

func init() {
	register(&Check{
		ID: "C25", Title: "the pipelines hand on what they are given and report every failure",
		Rules: "on every path of the operations the calls of the marshaler, the broker, the subscriber, the scraper and the output, their arguments and what becomes of their results",
		Min:   25,
		Run: func(c *Ctx) {
			c.ingestCheck(pipelines[0])
			c.digestCheck(pipelines[1])
			c.dumpCheck()
			c.runCheck(pipelines[2])
			// so that what holds for the first operation holds for all
			c.borrow((*Ctx).defaultsCheck, "the options of a call are for that call only")
		},
	})
	register(&Check{
		ID: "C24", Title: "options given to a constructor are defaults the options of a call override",
		Rules: "each operation is analysed on the result of each path of its constructor; the setting it uses is matched with the options of the call applied over those of the constructor",
		Min:   12,
		Run:   func(c *Ctx) { c.defaultsCheck() },
	})
}
