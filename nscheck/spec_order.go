package main

import "go/types"

// Messages of a topic stay in the order they were published in: a topic has
// one channel, which is first in first out; a publishing call puts its message
// in before it returns, nobody else puts one in, and a receiving call hands the
// message it takes to its handler itself.

// msgChans counts the message channels a value of type t holds.
func (c *Ctx) msgChans(t types.Type, seen map[types.Type]bool) int {
	if seen[t] {
		return 0
	}
	seen[t] = true
	if c.isMsgChan(t) {
		return 1
	}
	n := 0
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		n = c.msgChans(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			// the same type twice holds two channels
			if c.isMsgChan(u.Field(i).Type()) {
				n++
				continue
			}
			n += c.msgChans(u.Field(i).Type(), seen)
		}
	case *types.Slice, *types.Array, *types.Map:
		e := u.(interface{ Elem() types.Type }).Elem()
		n = 2 * c.msgChans(e, seen)
	}
	return n
}

func (c *Ctx) orderCheck() {
	r := c.broker()
	if r == nil {
		return
	}
	// one queue per topic
	var m *types.Map
	ok := false
	for i, st := 0, structOf(r.mem); i < st.NumFields(); i++ {
		if fieldKey(r.mem, i) == r.topics {
			m, ok = st.Field(i).Type().Underlying().(*types.Map)
		}
	}
	if c.require(ok, "anchor", "map of topics", "", "the topics of the broker are no map") {
		n := c.msgChans(m.Elem(), map[types.Type]bool{})
		c.require(n == 1, "the messages of a topic wait in one queue", "element of the map of topics", "", "a topic has %d queues", n)
	}
	sends, recvs := 0, 0
	for _, a := range c.activities() {
		if a.fn.Pkg != r.pub.Pkg {
			continue
		}
		for _, op := range chanOps(a.st.events) {
			if k, _ := c.role(r, a.st, op.ch); k != chMsg {
				continue
			}
			if op.send {
				sends++
				c.require(a.fn == r.pub && !a.gor, "only the publishing call puts its message into the queue", a.name, op.e.Pos, "%s is put into the queue by %s", op.val, a.name)
			} else {
				recvs++
				c.require(a.fn == r.recv && !a.gor, "only the receiving call takes messages out of the queue", a.name, op.e.Pos, "a message is taken by %s", a.name)
			}
		}
		each(a.st.events, func(e *Event, _ []*Seg) {
			if e.Kind != EvDyn || len(e.Args) == 0 {
				return
			}
			n := namedOf(e.Args[0].Type)
			if n == nil || n.Obj().Name() != "Handler" {
				return
			}
			c.require(a.fn == r.recv && !a.gor, "the receiving call calls the handler itself", a.name, e.Pos, "the handler is called by %s", a.name)
		})
	}
	c.require(sends > 0, "only the publishing call puts its message into the queue", "Memory.Pub", fnPos(r.pub), "Pub puts nothing into a queue")
	c.require(recvs > 0, "only the receiving call takes messages out of the queue", "Subscriber.Receive", fnPos(r.recv), "Receive takes nothing from a queue")
	// the pipelines publish and receive one after another
	for _, p := range []struct {
		rel, typ, op, call string
	}{{"pkg/broker/ingester/simple", "Ingester", "Ingest", "Pub"}, {"pkg/broker/digester/simple", "Digester", "Digest", "Receive"}} {
		n := c.named(p.rel, p.typ)
		if !c.require(n != nil, "anchor", p.typ, "", "%s does not exist any more", p.typ) {
			continue
		}
		f := c.method(n, p.op)
		if !c.need(f, p.typ+"."+p.op) {
			continue
		}
		for _, o := range c.paths(f) {
			c.noHandOver(o, p.typ+"."+p.op, p.call)
		}
	}
}

// noHandOver: nothing is published or received in another goroutine.
func (c *Ctx) noHandOver(o *State, cn, call string) {
	const rule = "messages are published and received one after another"
	c.require(true, rule, cn, "", "")
	each(o.events, func(e *Event, _ []*Seg) {
		if e.Kind != EvGo {
			return
		}
		c.guard(cn, func() {
			for _, g := range c.m.RunGo(e) {
				each(g.events, func(x *Event, _ []*Seg) {
					if x.Kind == EvInvoke && x.Name == call {
						c.fail(rule, cn, x.Pos, "%s is called in a goroutine of its own", call)
					}
				})
			}
		})
	})
}

func init() {
	register(&Check{
		ID: "C36", Title: "messages of a topic are received in the order they were published",
		Rules: "the queue of a topic is one channel, every send on and receive from a message channel and every call of a handler on the paths of the broker and its goroutines is made by the publishing or receiving call itself",
		Min:   6,
		Run:   func(c *Ctx) { c.orderCheck() },
	})
}
