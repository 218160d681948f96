package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// chanOp is a channel operation which happens on a path.
type chanOp struct {
	e    *Event
	send bool
	ch   *Term
	val  *Term // sent value, or the term of the received one
	poll bool  // can not block
}

// chanOps lists the channel operations of the events which take place.
func chanOps(events []*Event) []chanOp {
	var r []chanOp
	each(events, func(e *Event, _ []*Seg) {
		switch e.Kind {
		case EvSend:
			r = append(r, chanOp{e, true, e.Args[0], e.Args[1], false})
		case EvRecv:
			r = append(r, chanOp{e, false, e.Args[0], e.Res[0], false})
		case EvSelect:
			if e.Chosen < 0 {
				return
			}
			c := e.Cases[e.Chosen]
			o := chanOp{e: e, send: c.Send, ch: c.Chan, val: c.Val, poll: !e.Block}
			if !c.Send && len(e.Res) > 0 {
				o.val = e.Res[0]
			}
			r = append(r, o)
		}
	})
	return r
}

// brokerRoles tells what the parts of the memory broker are for.
type brokerRoles struct {
	mem, sub               *types.Named
	connected, active      string          // flags
	exit, subExit          string          // channels closed by Close and Unsubscribe
	topics, subs           string          // maps
	session                map[string]bool // fields which hold the channel closed by Close
	ctl                    map[string]bool // fields of the other channels of the broker
	pub, subFn, open, clos *ssa.Function
	recv, unsub, ctor      *ssa.Function
	ok                     bool
}

func chanElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	c, ok := t.Underlying().(*types.Chan)
	if !ok {
		return nil
	}
	return c.Elem()
}

func (c *Ctx) isMsgChan(t types.Type) bool {
	e := chanElem(t)
	n := namedOf(e)
	return e != nil && n != nil && n.Obj().Name() == "Message" && strings.HasSuffix(n.Obj().Pkg().Path(), "/pkg/broker")
}

// holdsMsgChan tells whether values of t contain a channel of messages.
func (c *Ctx) holdsMsgChan(t types.Type, d int) bool {
	if d > 3 {
		return false
	}
	if c.isMsgChan(t) {
		return true
	}
	if st := structOf(t); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			if c.holdsMsgChan(st.Field(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) broker() *brokerRoles {
	r := &brokerRoles{session: map[string]bool{}, ctl: map[string]bool{}}
	r.mem = c.named("pkg/broker/memory", "Memory")
	r.sub = c.named("pkg/broker/memory", "Subscriber")
	if !c.require(r.mem != nil && r.sub != nil, "anchor", "broker/memory types", "", "the broker or the subscriber type does not exist") {
		return nil
	}
	r.pub, r.subFn, r.open, r.clos = c.declared(r.mem, "Pub"), c.declared(r.mem, "Sub"), c.declared(r.mem, "Open"), c.declared(r.mem, "Close")
	r.recv, r.unsub = c.declared(r.sub, "Receive"), c.declared(r.sub, "Unsubscribe")
	r.ctor = c.fn("pkg/broker/memory", "New")
	for _, x := range []struct {
		f *ssa.Function
		n int
		s string
	}{{r.pub, 5, "Memory.Pub"}, {r.subFn, 4, "Memory.Sub"}, {r.open, 3, "Memory.Open"}, {r.clos, 1, "Memory.Close"},
		{r.recv, 4, "Subscriber.Receive"}, {r.unsub, 3, "Subscriber.Unsubscribe"}, {r.ctor, 1, "memory.New"}} {
		if !c.opParams(x.f, x.n, "broker/memory "+x.s) {
			return nil
		}
	}
	st := structOf(r.mem)
	for i := 0; i < st.NumFields(); i++ {
		m, ok := st.Field(i).Type().Underlying().(*types.Map)
		if !ok {
			continue
		}
		if n := namedOf(m.Elem()); c.holdsMsgChan(m.Elem(), 0) && (n == nil || n.Obj() != r.sub.Obj()) {
			r.topics = fieldKey(r.mem, i)
		} else {
			el := m.Elem()
			if mm, ok := el.Underlying().(*types.Map); ok {
				el = mm.Elem()
			}
			if n := namedOf(el); n != nil && n.Obj() == r.sub.Obj() {
				r.subs = fieldKey(r.mem, i)
			}
		}
	}
	closed := func(fn *ssa.Function, base *Term) string {
		k := ""
		for _, o := range c.paths(fn) {
			each(o.events, func(e *Event, _ []*Seg) {
				if e.Kind == EvClose {
					if b, f := fieldRead(e.Args[0]); b == base {
						k = f
					}
				}
			})
		}
		return k
	}
	r.exit, r.subExit = closed(r.clos, param(r.clos, 0)), closed(r.unsub, param(r.unsub, 0))
	// the flag whose absence ends the operation with the error
	flag := func(fn *ssa.Function, ret int, errName string) string {
		for _, o := range c.paths(fn) {
			if o.status != stRet || !globalErr(o.ret[ret], "pkg/broker", errName) || len(chanOps(o.events)) > 0 {
				continue
			}
			for _, f := range o.flist {
				if b, k := fieldRead(f.T); b == param(fn, 0) && isBool(f.T.Type) && !f.V {
					return k
				}
			}
		}
		return ""
	}
	r.connected, r.active = flag(r.pub, 0, "ErrNotConnected"), flag(r.recv, 0, "ErrSubscriptionInactive")
	for _, x := range []struct{ k, s string }{{r.topics, "map of topics"}, {r.subs, "map of subscribers"}, {r.exit, "channel closed by Close"},
		{r.subExit, "channel closed by Unsubscribe"}, {r.connected, "flag tested by Pub before it fails with ErrNotConnected"},
		{r.active, "flag tested by Receive before it fails with ErrSubscriptionInactive"}} {
		if !c.require(x.k != "", "broker structure", x.s, fnPos(r.pub), "the broker has no %s", x.s) {
			return nil
		}
	}
	c.sessionFields(r)
	return r
}

// reaches tells whether the object of the address a is returned.
func (s *State) reaches(a *Term) bool {
	r := strip(rootOf(a))
	for _, x := range s.ret {
		if termHas(x, func(t *Term) bool { return t == r }) {
			return true
		}
	}
	return false
}

// sessionFields finds the fields which always hold the channel Close closes.
func (c *Ctx) sessionFields(r *brokerRoles) {
	writes := map[string][]*Term{}
	add := func(t *Term) {}
	seen := map[*Term]bool{}
	add = func(t *Term) {
		t = strip(t)
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "struct" && t.Type != nil {
			st := structOf(t.Type)
			for i, a := range t.Args {
				if st != nil && i < st.NumFields() {
					k := fieldKey(t.Type, i)
					writes[k] = append(writes[k], a)
				}
				add(a)
			}
		}
	}
	for _, a := range c.activities() {
		if a.fn.Pkg != r.pub.Pkg {
			continue
		}
		each(a.st.events, func(e *Event, _ []*Seg) {
			switch e.Kind {
			case EvStore:
				if a.st.fresh(e.Args[0]) && !a.st.reaches(e.Args[0]) {
					return // a local variable: what it is stored in counts
				}
				if e.Args[0].Op == "faddr" {
					writes[e.Args[0].Str] = append(writes[e.Args[0].Str], strip(e.Args[1]))
				}
				add(e.Args[1])
			case EvMapSet:
				add(e.Args[2])
			}
		})
	}
	cand := map[string]bool{}
	for k, ws := range writes {
		if k == r.exit || k == r.subExit {
			continue
		}
		for _, w := range ws {
			if _, f := fieldRead(w); f == r.exit {
				cand[k] = true
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for k := range cand {
			for _, w := range writes[k] {
				_, f := fieldRead(w)
				if f != r.exit && !cand[f] {
					delete(cand, k)
					ch = true
					break
				}
			}
		}
	}
	r.session = cand
	r.session[r.exit] = true
}

const (
	chOther = "other"
	chCtx   = "ctx"
	chTimer = "timer"
	chSess  = "session end"
	chSub   = "unsubscribe"
	chMsg   = "messages"
)

// role classifies a channel; d is the duration of a timer.
func (c *Ctx) role(r *brokerRoles, o *State, ch *Term) (kind string, d *Term) {
	ch = strip(ch)
	if p, d := timeoutOf(ch); p != nil {
		if o.notNil(strip(pureOf("Err", p))) {
			return chCtx, d
		}
		return chTimer, d
	}
	if ch.Op == "pure" && ch.Str == "Done" {
		return chCtx, nil
	}
	if ch.Op == "after" {
		return chTimer, ch.Args[0]
	}
	b, k := fieldRead(ch)
	if b != nil && strings.HasSuffix(k, "time.Timer.C") && b.Op == "extnew" && strings.HasPrefix(b.Str, "time.NewTimer@") {
		return chTimer, b.Args[0]
	}
	if r.session[k] {
		return chSess, nil
	}
	if k == r.subExit {
		return chSub, nil
	}
	if c.isMsgChan(ch.Type) {
		return chMsg, nil
	}
	return chOther, nil
}

// timeoutOf returns the parent and the duration of the context with a timeout
// whose end the channel tells.
func timeoutOf(ch *Term) (parent, d *Term) {
	ch = strip(ch)
	if ch.Op != "pure" || ch.Str != "Done" || len(ch.Args) == 0 {
		return nil, nil
	}
	x := strip(ch.Args[0])
	if x.Op == "res" && len(x.Args) == 1 {
		x = strip(x.Args[0])
	}
	if !strings.HasPrefix(x.Str, "context.WithTimeout") || len(x.Args) < 2 {
		return nil, nil
	}
	return strip(x.Args[0]), x.Args[1]
}

// inTopic tells whether ch is the message channel of topic of the broker m;
// when tells at which critical section it was looked up or created.
func (c *Ctx) inTopic(r *brokerRoles, o *State, ch, m, topic *Term) bool {
	ch = strip(ch)
	isTopics := func(t *Term) bool {
		b, k := fieldRead(t)
		return b == m && k == r.topics
	}
	if ch.Op == "makechan" {
		for _, e := range o.events {
			if e.Kind == EvMapSet && isTopics(e.Args[0]) && same(e.Args[1], topic) && holds(o, e.Args[2], ch) {
				return true
			}
		}
		return false
	}
	el := ch
	if b, k := fieldRead(ch); b != nil && k != "" {
		el = strip(b)
	}
	if el.Op == "lookup" && isTopics(el.Args[0]) && same(el.Args[1], topic) {
		// known to be there
		for _, f := range o.flist {
			if f.V && f.T.Op == "in" && f.T.Args[0] == el.Args[0] && f.T.Args[1] == el.Args[1] && f.T.Str == el.Str {
				return true
			}
			if !f.V && f.T.Op == "eq" && (f.T.Args[0] == tNil || f.T.Args[1] == tNil) && f.T.contains(el) {
				return true
			}
		}
	}
	return false
}

// holds tells whether the value v contains x.
func holds(o *State, v, x *Term) bool {
	v = strip(v)
	if v == x {
		return true
	}
	if v.Op == "struct" {
		for _, a := range v.Args {
			if holds(o, a, x) {
				return true
			}
		}
	}
	if v.Op == "alloc" {
		for a, w := range o.cells {
			if a.Op == "faddr" && a.Args[0] == v && strip(w) == x {
				return true
			}
		}
	}
	return false
}

// epochOf returns the critical section the shared content of object base in t was read in.
func epochOf(t, base *Term) int {
	r := -1
	for n, x := range termEpochs(t) {
		if x.contains(base) {
			r = n
		}
	}
	return r
}

// flagFact returns the value of the flag of object base the path has tested
// and the critical section of the test.
func flagFact(o *State, base *Term, key string) (val, known bool, epoch int) {
	return flagFactIn(o.flist, base, key)
}

func flagFactIn(fs []Fact, base *Term, key string) (val, known bool, epoch int) {
	for _, f := range fs {
		if b, k := fieldRead(f.T); b == base && k == key {
			val, known, epoch = f.V, true, epochOf(f.T, base)
		}
	}
	return
}

// errIsA tells whether err is the sentinel or wraps it.
func (c *Ctx) errIsA(o *State, err *Term, rel, name string) bool {
	sp := c.pkg(rel)
	if sp == nil {
		return false
	}
	g, ok := sp.Members[name].(*ssa.Global)
	if !ok {
		return false
	}
	t := mk("gval", g.RelString(nil))
	return strip(err) == t || o.m.errIs(o, strip(err), t) == tTrue
}

// causeOK: err is the error which belongs to the way the wait has ended.
func (c *Ctx) causeOK(r *brokerRoles, o *State, cause string, err, ctx *Term, sessErr string) bool {
	switch cause {
	case chCtx:
		return isCtxErr(err, ctx) && o.notNil(strip(err)) || c.wrapsCtx(o, err, ctx)
	case chTimer:
		return c.errIsA(o, err, "pkg/broker", "ErrTimeout")
	case chSess:
		return c.errIsA(o, err, "pkg/broker", sessErr)
	case chSub:
		return c.errIsA(o, err, "pkg/broker", "ErrSubscriptionInactive")
	}
	return false
}

// wraps tells whether err is an error made with fmt.Errorf from x.
func (c *Ctx) wraps(o *State, err, x *Term) bool {
	err = strip(err)
	return err.Op == "errorf" && o.m.errIs(o, err, x) == tTrue
}

// wrapsCtx tells whether err is an error made with fmt.Errorf from the error of ctx.
func (c *Ctx) wrapsCtx(o *State, err, ctx *Term) bool {
	err = strip(err)
	return err.Op == "errorf" && termHas(err, func(x *Term) bool {
		return isCtxErr(x, ctx) && o.m.errIs(o, err, strip(x)) == tTrue
	})
}

func (c *Ctx) pubCheck() {
	r := c.broker()
	if r == nil {
		return
	}
	const cn = "Memory.Pub"
	m, ctx, topic, msg := param(r.pub, 0), param(r.pub, 1), param(r.pub, 2), param(r.pub, 3)
	for _, o := range c.paths(r.pub) {
		sc := pathScope(o)
		if !c.returned(o, 1, cn) {
			continue
		}
		err := o.ret[0]
		ops := chanOps(o.events)
		sends := 0
		var last *chanOp
		for i := range ops {
			op := ops[i]
			kind, _ := c.role(r, o, op.ch)
			switch {
			case op.send:
				sends++
				c.require(same(op.val, msg), "the published message is enqueued", cn, op.e.Pos, "%s is sent instead of the message", op.val)
				c.require(c.inTopic(r, o, op.ch, m, topic), "the message goes to its topic", cn, op.e.Pos, "the message is sent to %s", op.ch)
				v, known, ep := flagFact(o, m, r.connected)
				c.require(known && v, "publishing needs a session", cn, op.e.Pos, "a message is enqueued without testing that a session is open")
				if known && v && ep >= 0 {
					c.require(c.queueEpoch(r, o, op.ch, m) == ep, "publishing needs a session", cn, op.e.Pos, "the queue is looked up in another critical section than the test that a session is open")
				}
			case kind == chMsg:
				c.fail("publishing takes no messages", cn, op.e.Pos, "Pub receives from a topic")
			default:
				last = &ops[i]
			}
		}
		if nilErr(err, o) {
			c.require(sends == 1, "success means enqueued exactly once", cn, sc.pos(), "returns nil after sending %d messages on the path where %s", sends, o.describe())
			continue
		}
		c.require(o.notNil(strip(err)), "failure is reported", cn, sc.pos(), "the error %s may be nil on the path where %s", err, o.describe())
		c.require(sends == 0, "failure means not enqueued", cn, sc.pos(), "returns %s although the message was enqueued", err)
		c.failCause(r, o, cn, last, err, ctx, m, r.connected, "ErrNotConnected")
	}
}

// queueEpoch returns the critical section the queue ch was looked up or created in.
func (c *Ctx) queueEpoch(r *brokerRoles, o *State, ch, m *Term) int {
	ch = strip(ch)
	if ch.Op == "makechan" {
		for _, e := range o.events {
			if e.Kind == EvMapSet && holds(o, e.Args[2], ch) {
				for _, l := range e.Locks {
					if o.m.lockBelongs(l.T, m) {
						return l.Epoch
					}
				}
			}
		}
		return -2
	}
	return epochOf(ch, m)
}

// failCause checks the error of a failed wait or of a failed test.
func (c *Ctx) failCause(r *brokerRoles, o *State, cn string, last *chanOp, err, ctx, obj *Term, flag, flagErr string) {
	sc := pathScope(o)
	if last != nil {
		kind, _ := c.role(r, o, last.ch)
		if p, _ := timeoutOf(last.ch); p != nil && kind == chTimer {
			c.require(o.isNil(strip(pureOf("Err", p))), "the error tells the cause", cn+" "+kind, last.e.Pos, "a context with a timeout has ended, but it is not known whether it was the timeout or the context it was made from")
		}
		c.require(c.causeOK(r, o, kind, err, ctx, flagErr), "the error tells the cause", cn+" "+kind, last.e.Pos, "returns %s when the wait was ended by %s (%s)", err, kind, last.ch)
		return
	}
	if v, known, _ := flagFact(o, obj, flag); known && !v {
		c.require(c.errIsA(o, err, "pkg/broker", flagErr), "the error tells the cause", cn+" "+flagErr, sc.pos(), "returns %s without a session", err)
		return
	}
	// the context has been tested before
	done := false
	for _, f := range o.flist {
		if f.T.Op == "eq" && !f.V && (isCtxErr(f.T.Args[0], ctx) || isCtxErr(f.T.Args[1], ctx)) {
			done = true
		}
	}
	c.require(done && c.causeOK(r, o, chCtx, err, ctx, ""), "the error tells the cause", cn, sc.pos(), "returns %s on the path where %s", err, o.describe())
}

func (c *Ctx) topicCheck() {
	r := c.broker()
	if r == nil {
		return
	}
	// the message channels of subscribers and topics
	c.ownStateIn("pkg/broker/memory")
	c.ctorCap(r)
	c.limitsFrame(r, func(k string, _ types.Type) bool { return k == c.capField(r) })
	for _, a := range c.activities() {
		if a.fn.Pkg != r.pub.Pkg {
			continue
		}
		o := a.st
		isTopics := func(t *Term) bool { _, k := fieldRead(t); return k == r.topics }
		closesSession := false
		each(o.events, func(e *Event, _ []*Seg) {
			if e.Kind == EvClose {
				if _, k := fieldRead(e.Args[0]); k == r.exit {
					closesSession = true
				}
			}
		})
		each(o.events, func(e *Event, in []*Seg) {
			switch e.Kind {
			case EvStore:
				if e.Args[0].Op == "faddr" && e.Args[0].Str == r.topics {
					ok := closesSession || e.Fresh || a.fn == r.open
					c.require(ok, "topics live as long as the session", a.name, e.Pos, "all topics are replaced")
				}
			case EvMapDel:
				if isTopics(e.Args[0]) {
					c.require(closesSession, "topics live as long as the session", a.name, e.Pos, "the topic %s is removed and its messages are lost", e.Args[1])
				}
			case EvMapSet:
				if !isTopics(e.Args[0]) {
					return
				}
				own := (a.fn == r.pub || a.fn == r.subFn) && !a.gor && same(e.Args[1], param(a.fn, 2))
				c.require(own, "only the own topic is created", a.name, e.Pos, "topic %s is written", e.Args[1])
				absent := false
				st := o
				if len(in) > 0 {
					st = in[len(in)-1].St
				}
				for _, f := range st.flist {
					if f.T.Op == "in" && !f.V && isTopics(f.T.Args[0]) && same(f.T.Args[1], e.Args[1]) {
						absent = true
					}
					if f.T.Op == "eq" && f.V && (f.T.Args[0] == tNil || f.T.Args[1] == tNil) && termHas(f.T, func(x *Term) bool {
						return x.Op == "lookup" && isTopics(x.Args[0]) && same(x.Args[1], e.Args[1])
					}) {
						absent = true
					}
				}
				c.require(absent, "an existing topic is kept", a.name, e.Pos, "the queue of %s is replaced without knowing that there is none", e.Args[1])
				var ch *Term
				termHas(e.Args[2], func(x *Term) bool {
					if x.Op == "makechan" && c.isMsgChan(x.Type) {
						ch = x
					}
					return false
				})
				if ch == nil && strip(e.Args[2]).Op == "alloc" {
					for ad, w := range o.cells {
						if ad.Op == "faddr" && ad.Args[0] == strip(e.Args[2]) && strip(w).Op == "makechan" && c.isMsgChan(strip(w).Type) {
							ch = strip(w)
						}
					}
				}
				if c.require(ch != nil, "a topic gets a queue of its own", a.name, e.Pos, "the queue of the topic is %s", e.Args[2]) {
					b, k := fieldRead(ch.Args[0])
					c.require(b == param(a.fn, 0) && k == c.capField(r), "the queue has the capacity of the broker", a.name, e.Pos, "the capacity is %s", ch.Args[0])
				}
			}
		})
		for _, op := range chanOps(o.events) {
			if k, _ := c.role(r, o, op.ch); k != chMsg {
				continue
			}
			if op.send {
				ok := a.fn == r.pub && !a.gor && c.inTopic(r, o, op.ch, param(a.fn, 0), param(a.fn, 2))
				c.require(ok, "messages are only sent by publishing on their topic", a.name, op.e.Pos, "%s is sent to %s", op.val, op.ch)
			} else {
				ok := a.fn == r.recv && !a.gor && c.ownQueue(op.ch, param(a.fn, 0))
				c.require(ok, "messages are only taken by receivers of their topic", a.name, op.e.Pos, "a message is taken from %s", op.ch)
			}
		}
	}
	// what Sub returns
	const cn = "Memory.Sub"
	m, topic := param(r.subFn, 0), param(r.subFn, 2)
	for _, o := range c.paths(r.subFn) {
		sc := pathScope(o)
		if !c.returned(o, 2, cn) {
			continue
		}
		res, err := strip(o.ret[0]), o.ret[1]
		v, known, ep := flagFact(o, m, r.connected)
		if !nilErr(err, o) {
			c.require(o.notNil(strip(err)) && known && !v && c.errIsA(o, err, "pkg/broker", "ErrNotConnected"), "subscribing fails only without a session", cn, sc.pos(), "returns %s on the path where %s", err, o.describe())
			c.require(o.isNil(res), "a failed subscription returns nothing", cn, sc.pos(), "returns %s", res)
			continue
		}
		if !c.require(known && v, "subscribing needs a session", cn, sc.pos(), "succeeds without testing that a session is open") {
			continue
		}
		if !c.require(res.Op == "alloc" && namedOf(res.Type) != nil && namedOf(res.Type).Obj() == r.sub.Obj(), "subscribing creates a subscription", cn, sc.pos(), "returns %s", res) {
			continue
		}
		f := c.structCells(o, res)
		var msgs, act, sess, own, top, id int
		for k, w := range f {
			w = strip(w)
			switch {
			case c.isMsgChan(w.Type):
				msgs++
				c.require(c.inTopic(r, o, w, m, topic), "a subscriber gets the messages of its topic", cn, sc.pos(), "it is connected to %s", w)
				c.require(c.queueEpoch(r, o, w, m) == ep, "subscribing needs a session", cn, sc.pos(), "the queue is looked up in another critical section than the test that a session is open")
			case k == r.active:
				act++
				c.require(w == tTrue, "a new subscription is active", cn, sc.pos(), "it is created inactive")
			case r.session[k]:
				sess++
			case k == r.subExit:
				own++
				c.require(w.Op == "makechan", "a subscription can be ended on its own", cn, sc.pos(), "its channel is %s", w)
			case same(w, topic):
				top++
			case w.Op == "pure" && w.Str == "String":
				if x, ok := isPure(w.Args[0], "UID"); ok {
					_ = x
				}
				id++
			}
		}
		c.require(msgs == 1, "a subscriber gets the messages of its topic", cn, sc.pos(), "the subscription has %d queues", msgs)
		c.require(act == 1, "a new subscription is active", cn, sc.pos(), "the flag is not set")
		c.require(sess >= 1, "a subscription ends with the session", cn, sc.pos(), "the subscription does not know the end of the session")
		c.require(own == 1, "a subscription can be ended on its own", cn, sc.pos(), "it has no channel of its own")
		// topic and ID
		c.subAccessor(r, o, res, "Topic", func(t *Term) bool { return same(t, topic) }, "a subscription reports its topic")
		c.subAccessor(r, o, res, "ID", func(t *Term) bool { return freshUID(t) }, "a subscription has an ID of its own")
		// registered
		reg := false
		each(o.events, func(e *Event, in []*Seg) {
			if e.Kind == EvMapSet && strip(e.Args[2]) == res {
				reg = true
			}
		})
		c.require(reg, "a subscription is registered", cn, sc.pos(), "the broker does not keep the subscription")
	}
	// subscriptions of others are kept
	for _, o := range c.paths(r.subFn) {
		each(o.events, func(e *Event, _ []*Seg) {
			_, k := fieldRead(e.Args0())
			switch {
			case e.Kind == EvMapSet && k == r.subs:
				ab := !isMapish(e.Args[2].Type) || topicAbsent(o, e)
				c.require(ab, "subscribing keeps other subscriptions", cn, e.Pos, "the subscriptions of %s are replaced without knowing that there are none", e.Args[1])
			case e.Kind == EvMapDel && k == r.subs, e.Kind == EvStore && e.Args[0].Op == "faddr" && e.Args[0].Str == r.subs:
				c.fail("subscribing keeps other subscriptions", cn, e.Pos, "%s", e)
			}
		})
	}
}

// topicAbsent tells whether the entry which e sets was found to be missing.
func topicAbsent(o *State, e *Event) bool {
	fs := o.flist
	if e.NFacts < len(fs) {
		fs = fs[:e.NFacts]
	}
	entry := func(x *Term) bool {
		return (x.Op == "lookup" || x.Op == "in") && len(x.Args) >= 2 && sameContainer(x.Args[0], e.Args[0]) && same(strip(x.Args[1]), strip(e.Args[1]))
	}
	for _, f := range fs {
		switch {
		case f.T.Op == "in" && !f.V && entry(f.T):
			return true
		case f.T.Op == "eq" && f.V:
			for _, x := range f.T.Args {
				x = strip(x)
				if x.Op == "len" {
					x = strip(x.Args[0])
				}
				if entry(x) {
					return true
				}
			}
		}
	}
	return false
}

// sameContainer tells whether a and b are reads of one field.
func sameContainer(a, b *Term) bool {
	a, b = strip(a), strip(b)
	return same(a, b) || a.Op == "load" && b.Op == "load" && same(a.Args[0], b.Args[0])
}

// Args0 returns the first argument of the event.
func (e *Event) Args0() *Term {
	if len(e.Args) == 0 {
		return tNil
	}
	return e.Args[0]
}

// freshUID tells whether t is the string of a UID made on the path.
func freshUID(t *Term) bool {
	t = strip(t)
	return termHas(t, func(x *Term) bool {
		return (x.Op == "extnew" || x.Op == "call" || x.Op == "ext" || x.Op == "res") && strings.Contains(x.Str, "google/uuid")
	})
}

func termHas(t *Term, f func(*Term) bool) bool {
	hit := false
	t.walk(func(x *Term) bool {
		if f(x) {
			hit = true
		}
		return !hit
	})
	return hit
}

// structCells returns the fields of a new object, including those of embedded
// struct values, by field key.
func (c *Ctx) structCells(o *State, obj *Term) map[string]*Term {
	r := map[string]*Term{}
	var addVal func(k string, w *Term)
	depth := 0
	addVal = func(k string, w *Term) {
		r[k] = w
		if n := namedOf(w.Type); n != nil && w != tNil && depth < 2 && inModulePkg(n.Obj().Pkg()) && !c.isMonitored(n) {
			if pt, ok := w.Type.Underlying().(*types.Pointer); ok {
				if st := structOf(pt.Elem()); st != nil {
					depth++
					for i := 0; i < st.NumFields(); i++ {
						a := o.m.faddr(strip(w), pt.Elem(), i)
						addVal(a.Str, o.clone().load(a, st.Field(i).Type(), nil))
					}
					depth--
				}
			}
		}
		if strip(w).Op == "struct" && strip(w).Type != nil {
			st := structOf(strip(w).Type)
			for i, a := range strip(w).Args {
				if st != nil && i < st.NumFields() {
					addVal(fieldKey(strip(w).Type, i), a)
				}
			}
		}
	}
	for a, w := range o.cells {
		x := a
		for x.Op == "faddr" && x.Args[0].Op == "faddr" {
			x = x.Args[0]
		}
		if x.Op == "faddr" && x.Args[0] == obj {
			addVal(a.Str, w)
		}
	}
	// content of objects behind a lock is taken from the stores
	each(o.events, func(e *Event, _ []*Seg) {
		if e.Kind != EvStore {
			return
		}
		x := e.Args[0]
		for x.Op == "faddr" && x.Args[0].Op == "faddr" {
			x = x.Args[0]
		}
		if x.Op == "faddr" && x.Args[0] == obj {
			addVal(e.Args[0].Str, e.Args[1])
		}
	})
	return r
}

// subAccessor evaluates an accessor of the new subscription obj.
func (c *Ctx) subAccessor(r *brokerRoles, o *State, obj *Term, name string, good func(*Term) bool, rule string) {
	f := c.declared(r.sub, name)
	if !c.opParams(f, 2, "Subscriber."+name) {
		return
	}
	cells := c.structCells(o, obj)
	for _, p := range c.paths(f) {
		if !c.returned(p, 2, "Subscriber."+name) {
			continue
		}
		b, k := fieldRead(p.ret[0])
		w := cells[k]
		c.require(nilErr(p.ret[1], p) && b == param(f, 0) && w != nil && good(w), rule, "Subscriber."+name, fnPos(f), "returns %s, which Sub sets to %v", p.ret[0], w)
	}
}

// ownQueue tells whether ch is a field of the subscriber.
func (c *Ctx) ownQueue(ch, s *Term) bool {
	b, _ := fieldRead(strip(ch))
	for b != nil && b != s {
		if b.Op == "faddr" {
			b = b.Args[0]
			continue
		}
		b, _ = fieldRead(b)
	}
	return b == s
}

// capField is the field New stores the capacity option in.
func (c *Ctx) capField(r *brokerRoles) string {
	for _, o := range c.paths(r.ctor) {
		if o.status != stRet {
			continue
		}
		for k, w := range c.structCells(o, strip(o.ret[0])) {
			if _, ini, ok := optionField(w, "Cap"); ok && isZeroOptions(ini) {
				return k
			}
		}
	}
	return ""
}

func (c *Ctx) receiveCheck() {
	r := c.broker()
	if r == nil {
		return
	}
	const cn = "Subscriber.Receive"
	s, ctx, h := param(r.recv, 0), param(r.recv, 1), param(r.recv, 2)
	for _, o := range c.paths(r.recv) {
		sc := pathScope(o)
		ops := chanOps(o.events)
		var got []*Term
		var last *chanOp
		infeasible := false
		timedOut := false
		for i := range ops {
			kind, _ := c.role(r, o, ops[i].ch)
			if kind == chMsg {
				if ops[i].send {
					c.fail("receiving sends nothing", cn, ops[i].e.Pos, "Receive puts a message into the queue")
					continue
				}
				got = append(got, ops[i].val)
				for _, f := range o.flist {
					if f.T.Op == "recvok" && !f.V && f.T.Str == ops[i].val.Str {
						infeasible = true // the queue is never closed
					}
				}
				continue
			}
			if kind == chTimer {
				timedOut = true
			}
			last = &ops[i]
		}
		if infeasible {
			continue
		}
		if !c.returned(o, 1, cn) {
			continue
		}
		var calls []*Event
		inLoop := false
		c.require(len(got) <= 1, "a message is taken at most once", cn, sc.pos(), "%d messages are taken on the path where %s", len(got), o.describe())
		each(o.events, func(e *Event, in []*Seg) {
			if len(in) > 0 {
				for _, x := range chanOps([]*Event{e}) {
					k, _ := c.role(r, in[len(in)-1].St, x.ch)
					c.require(k != chMsg, "a message is taken at most once", cn, e.Pos, "messages are taken in a loop")
				}
			}
			if e.Kind == EvDyn && e.Args[0] == h {
				calls = append(calls, e)
				inLoop = inLoop || len(in) > 0
			}
		})
		err := strip(o.ret[0])
		if c.require(len(calls) <= 1 && !inLoop, "the handler gets a message at most once", cn, sc.pos(), "the handler is called %d times on the path where %s", len(calls), o.describe()) && len(calls) == 1 {
			e := calls[0]
			c.require(len(e.Args) == 3 && same(e.Args[1], ctx), "the handler gets the context", cn, e.Pos, "it is called with %s", e)
			c.require(len(e.Args) == 3 && len(got) == 1 && same(e.Args[2], got[0]), "the handler gets the message taken from the queue", cn, e.Pos, "it is called with %s", e)
			he := e.Res[0]
			ok := err == strip(he) || o.isNil(he) && o.isNil(err) || c.wraps(o, err, strip(he)) && o.notNil(he)
			c.require(ok, "the result is the result of the handler", cn, e.Pos, "returns %s", err)
			continue
		}
		if len(calls) == 0 {
			if len(got) > 0 {
				c.require(timedOut, "a message taken from the queue is handled", cn, sc.pos(), "a message is dropped on the path where %s", o.describe())
			}
			c.require(o.notNil(err), "success means handled", cn, sc.pos(), "may return nil without handling a message on the path where %s", o.describe())
			c.failCause(r, o, cn, last, err, ctx, s, r.active, "ErrSubscriptionInactive")
		}
	}
}

// cleared tells whether the map field key has no entries at the end of the scope.
func mapCleared(sc *Scope, key string) bool {
	for i := len(sc.Events) - 1; i >= 0; i-- {
		e := sc.Events[i]
		if e.Kind == EvMapSet {
			if _, k := fieldRead(e.Args[0]); k == key {
				return false
			}
		}
		if e.Kind == EvStore && e.Args[0].Op == "faddr" && e.Args[0].Str == key {
			v := strip(e.Args[1])
			if v == tNil {
				return true
			}
			if v.Op != "makemap" {
				return false
			}
			for _, x := range sc.Events {
				if x.Kind == EvMapSet && strip(x.Args[0]) == v {
					return false
				}
			}
			return true
		}
		if e.Kind == EvLoopEnd && e.Loop.Kind == "map" && sc.loopDone(e.Loop) {
			if _, k := fieldRead(e.Loop.Over); k == key && everySeg(e.Loop, func(g *Seg) bool {
				for _, x := range g.Events {
					if x.Kind == EvMapDel && loopKey(e.Loop, x.Args[1]) {
						if _, k := fieldRead(x.Args[0]); k == key {
							return true
						}
					}
				}
				return false
			}) {
				return true
			}
		}
	}
	return false
}

// changes lists the writes to content of shared objects.
func changes(events []*Event) []*Event {
	var r []*Event
	each(events, func(e *Event, _ []*Seg) {
		switch e.Kind {
		case EvStore, EvMapSet, EvMapDel, EvGWrite:
			if !e.Fresh {
				r = append(r, e)
			}
		case EvClose, EvGo, EvSend:
			r = append(r, e)
		case EvSelect:
			if e.Chosen >= 0 && e.Cases[e.Chosen].Send {
				r = append(r, e)
			}
		}
	})
	return r
}

// closeSpec: the scope ends the session of m exactly once when one is open.
// The first skip facts of o are from before.
func (c *Ctx) closeSpec(r *brokerRoles, o *State, skip int, m *Term, cn string) {
	sc := pathScope(o)
	v, known, ep := flagFactIn(o.flist[skip:], m, r.connected)
	ch := changes(o.events)
	if known && !v {
		c.require(len(ch) == 0, "closing a closed broker changes nothing", cn, sc.pos(), "it does %v", ch)
		return
	}
	if !c.require(known, "closing tests for a session", cn, sc.pos(), "the session is closed without testing that one is open") {
		return
	}
	closes, off := 0, false
	for _, e := range o.events {
		switch {
		case e.Kind == EvClose:
			if b, k := fieldRead(e.Args[0]); b == m && k == r.exit {
				closes++
				c.require(epochOf(e.Args[0], m) == ep, "the open session is closed", cn, e.Pos, "the channel was read in another critical section")
			}
		case e.Kind == EvStore && ownerAddr(e.Args[0]) == m && e.Args[0].Str == r.connected:
			off = strip(e.Args[1]) == tFalse
		}
	}
	c.require(closes == 1, "closing ends the session once", cn, sc.pos(), "the end of the session is signalled %d times", closes)
	c.require(off, "a closed broker is not connected", cn, sc.pos(), "the broker stays connected")
	c.require(mapCleared(sc, r.topics), "closing drops all topics", cn, sc.pos(), "topics survive the session")
	c.require(mapCleared(sc, r.subs), "closing drops all subscriptions", cn, sc.pos(), "subscriptions survive the session")
}

func (c *Ctx) sessionCheck() {
	r := c.broker()
	if r == nil {
		return
	}
	const co = "Memory.Open"
	m := param(r.open, 0)
	for _, o := range c.paths(r.open) {
		sc := pathScope(o)
		if !c.returned(o, 1, co) {
			continue
		}
		c.require(nilErr(o.ret[0], o), "opening succeeds", co, sc.pos(), "returns %s", o.ret[0])
		v, known, _ := flagFact(o, m, r.connected)
		ch := changes(o.events)
		if known && v {
			c.require(len(ch) == 0, "opening an open broker changes nothing", co, sc.pos(), "it does %v", ch)
			continue
		}
		if !c.require(known, "opening tests for a session", co, sc.pos(), "a session is opened without testing that none is open") {
			continue
		}
		var on, fresh bool
		gos := 0
		for _, e := range o.events {
			switch {
			case e.Kind == EvStore && ownerAddr(e.Args[0]) == m:
				v := strip(e.Args[1])
				switch e.Args[0].Str {
				case r.connected:
					on = v == tTrue
				case r.exit:
					fresh = v.Op == "makechan"
				case r.topics, r.subs:
					c.require(v.Op == "makemap", "a session starts empty", co, e.Pos, "it starts with %s", v)
				default:
					if chanElem(v.Type) != nil {
						c.require(v.Op == "makechan", "a session has channels of its own", co, e.Pos, "it uses %s", v)
					}
				}
			case e.Kind == EvGo:
				gos++
			case e.Kind == EvClose:
				c.fail("opening closes nothing", co, e.Pos, "%s", e)
			}
		}
		c.require(on, "an open broker is connected", co, sc.pos(), "the broker is not connected after Open")
		c.require(fresh, "a session has channels of its own", co, sc.pos(), "the end of the session is not a new channel")
		c.require(gos == 1, "one goroutine serves a session", co, sc.pos(), "%d goroutines are started", gos)
	}
	c.sessionFrame(r)
	const cc = "Memory.Close"
	for _, o := range c.paths(r.clos) {
		if !c.returned(o, 1, cc) {
			continue
		}
		c.require(nilErr(o.ret[0], o), "closing succeeds", cc, pathScope(o).pos(), "returns %s", o.ret[0])
		c.closeSpec(r, o, 0, param(r.clos, 0), cc)
	}
	// the goroutine of the session
	n := 0
	for _, a := range c.activities() {
		if !a.gor || a.fn != r.open {
			continue
		}
		n++
		c.sessionGoroutine(r, a)
	}
	c.require(n > 0, "one goroutine serves a session", "goroutine of Memory.Open", fnPos(r.open), "the goroutine has no paths")
}

// sessionFrame: sessions begin and end with Open and Close only; whatever else
// is done with the broker leaves the session alone.
func (c *Ctx) sessionFrame(r *brokerRoles) {
	user := map[*ssa.Function]bool{r.pub: true, r.subFn: true, r.recv: true, r.unsub: true}
	chans := map[string]bool{}
	var own func(t types.Type, d int)
	own = func(t types.Type, d int) {
		st := structOf(t)
		if n := namedOf(t); st == nil || d > 4 || n == nil || n.Obj().Pkg() != r.mem.Obj().Pkg() || n.Obj() == r.sub.Obj() {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i).Type()
			if chanElem(f) != nil {
				chans[fieldKey(t, i)] = true
			}
			if p, ok := f.Underlying().(*types.Pointer); ok {
				f = p.Elem()
			}
			own(f, d+1)
		}
	}
	own(r.mem, 0)
	for _, a := range c.activities() {
		if !user[a.fn] {
			continue
		}
		n := 0
		each(a.st.events, func(e *Event, _ []*Seg) {
			n++
			switch {
			case e.Kind == EvClose:
				_, k := fieldRead(strip(e.Args[0]))
				c.require(!r.session[k], "only opening and closing begin and end a session", a.name, e.Pos, "%s ends the session", e)
			case e.Kind == EvStore && !e.Fresh && e.Args[0].Op == "faddr":
				k := e.Args[0].Str
				c.require(k != r.connected && !chans[k] && k != r.topics && k != r.subs, "only opening and closing begin and end a session", a.name+" writes "+shortName(k), e.Pos, "%s", e)
			}
		})
		if n > 0 {
			c.require(true, "only opening and closing begin and end a session", a.name, "", "")
		}
	}
}

// subsFrame: publishing, receiving and unsubscribing leave the broker's
// register of subscriptions to the goroutine of the session.
func (c *Ctx) subsFrame(r *brokerRoles) {
	for _, a := range c.activities() {
		if a.fn != r.pub && a.fn != r.recv {
			continue
		}
		each(a.st.events, func(e *Event, in []*Seg) {
			if e.Kind == EvStore && !e.Fresh && e.Args[0].Op == "faddr" && e.Args[0].Str == r.active {
				c.fail("a subscription lasts until it is ended", a.name, e.Pos, "%s", e)
			}
			if e.Kind != EvMapSet && e.Kind != EvMapDel {
				return
			}
			sc := pathScope(a.st)
			if len(in) > 0 {
				sc = segScope(in[len(in)-1])
			}
			idx, _ := sc.idxOf(e.Args[0], func(k string) bool { return k == r.subs })
			c.require(idx == "", "a subscription lasts until it is ended", a.name, e.Pos, "%s", e)
		})
		c.require(true, "a subscription lasts until it is ended", a.name, "", "")
	}
}

// limitsFrame: the limits of the broker stay what it was made with.
func (c *Ctx) limitsFrame(r *brokerRoles, which func(key string, t types.Type) bool) {
	mem, sub := structOf(r.mem), structOf(r.sub)
	limit := map[string]bool{}
	for i := 0; i < mem.NumFields(); i++ {
		if k := fieldKey(r.mem, i); which(k, mem.Field(i).Type()) {
			limit[k] = true
		}
	}
	for i := 0; i < sub.NumFields(); i++ {
		if k := fieldKey(r.sub, i); which(k, sub.Field(i).Type()) {
			limit[k] = true
		}
	}
	for _, a := range c.activities() {
		each(a.st.events, func(e *Event, _ []*Seg) {
			if e.Kind == EvStore && !e.Fresh && e.Args[0].Op == "faddr" && limit[e.Args[0].Str] {
				c.fail("the limits of the broker stay what it was made with", a.name+" writes "+shortName(e.Args[0].Str), e.Pos, "%s", e)
			}
		})
	}
	for k := range limit {
		c.require(true, "the limits of the broker stay what it was made with", shortName(k), "", "")
	}
}

// sessionGoroutine: it ends its own session when the context is done, ends
// with the session, and does nothing else to the session.
func (c *Ctx) sessionGoroutine(r *brokerRoles, a activity) {
	o := a.st
	m := param(r.open, 0)
	ops := chanOps(o.events)
	// the iteration which ends the goroutine
	var last *chanOp
	for i := range ops {
		if ops[i].e.Depth > 0 && inEvents(o.events, ops[i].e) {
			last = &ops[i]
		}
	}
	if !c.require(o.status == stRet && last != nil, "the goroutine ends with its session", a.name, pathScope(o).pos(), "the goroutine ends in another way") {
		return
	}
	own := o.goExit(r, m)
	kind, _ := c.role(r, o, last.ch)
	switch {
	case kind == chCtx && same(last.ch, pureOf("Done", param(r.open, 1))):
		mine, tested := false, false
		for _, f := range o.flist {
			if f.T.Op != "eq" {
				continue
			}
			for i := 0; i < 2; i++ {
				if _, k := fieldRead(f.T.Args[i]); k == r.exit && own != nil && same(f.T.Args[1-i], own) {
					mine, tested = f.V, true
				}
			}
		}
		ch := changes(topEvents(o.events))
		if tested && !mine {
			c.require(len(ch) == 0, "a goroutine leaves later sessions alone", a.name, pathScope(o).pos(), "it does %v", ch)
			return
		}
		v, known, _ := flagFactIn(o.flist[a.skip:], m, r.connected)
		if known && !v {
			c.require(len(ch) == 0, "closing a closed broker changes nothing", a.name, pathScope(o).pos(), "it does %v", ch)
			return
		}
		c.require(tested, "a goroutine leaves later sessions alone", a.name, pathScope(o).pos(), "the session is closed without testing that it is still the session of the goroutine")
		c.closeSpec(r, o, a.skip, m, a.name)
	case own != nil && same(last.ch, own) && !last.send:
		ch := changes(topEvents(o.events))
		c.require(len(ch) == 0, "a goroutine leaves later sessions alone", a.name, pathScope(o).pos(), "it does %v", ch)
	default:
		c.fail("the goroutine ends with its session", a.name, last.e.Pos, "the goroutine ends after %s", last.e)
	}
	// iterations: only subscriptions go, the session stays
	for _, l := range allLoops(o.events) {
		if !serves(l) {
			continue
		}
		for _, g := range l.Segs {
			for _, op := range chanOps(g.Events) {
				k, _ := c.role(r, g.St, op.ch)
				if own != nil && same(op.ch, own) {
					k = chSess
				}
				c.require(k != chCtx && k != chSess, "the goroutine ends with its session", a.name+" loop", op.e.Pos, "it goes on after %s", k)
			}
			each(g.Events, func(e *Event, _ []*Seg) {
				switch {
				case e.Kind == EvClose, e.Kind == EvStore && ownerAddr(e.Args[0]) == m && !e.Fresh:
					c.fail("the goroutine changes the session only at its end", a.name, e.Pos, "%s", e)
				case e.Kind == EvMapSet || e.Kind == EvMapDel:
					_, k := fieldRead(e.Args[0])
					c.require(k != r.topics, "the goroutine changes the session only at its end", a.name, e.Pos, "%s", e)
				}
			})
		}
	}
}

func inEvents(ev []*Event, e *Event) bool {
	for _, x := range ev {
		if x == e {
			return true
		}
	}
	return false
}

// serves tells whether the loop handles requests.
func serves(l *Loop) bool {
	if l == nil {
		return false
	}
	for _, g := range l.Segs {
		if len(chanOps(g.Events)) > 0 {
			return true
		}
	}
	return false
}

// topEvents drops the loops which handle requests from the events.
func topEvents(ev []*Event) []*Event {
	var r []*Event
	for _, e := range ev {
		if e.Kind == EvLoopStart && serves(e.Loop) {
			x := *e
			x.Loop = nil
			e = &x
		}
		r = append(r, e)
	}
	return r
}

// goExit returns the end-of-session channel the goroutine has been started with.
func (o *State) goExit(r *brokerRoles, m *Term) *Term {
	var x *Term
	each(o.events, func(e *Event, _ []*Seg) {
		if e.Kind != EvSelect && e.Kind != EvRecv {
			return
		}
		chk := func(ch *Term) {
			if strip(ch).Op == "makechan" && chanElem(ch.Type) != nil && structOf(chanElem(ch.Type)) != nil && structOf(chanElem(ch.Type)).NumFields() == 0 {
				x = strip(ch)
			}
		}
		for _, cs := range e.Cases {
			if !cs.Send {
				chk(cs.Chan)
			}
		}
	})
	return x
}

// ctxReported: a wait which the end of the context has ended is reported as the error of the context.
func (c *Ctx) ctxReported(r *brokerRoles, o *State, cn string, ctx *Term) {
	if o.status != stRet || len(o.ret) == 0 {
		return
	}
	var last *Event
	for _, e := range o.events {
		switch {
		case e.Kind == EvSelect && e.Block:
			last = e
		case e.Kind == EvDyn:
			last = nil
		}
	}
	if last == nil || last.Chosen < 0 || last.Cases[last.Chosen].Send || !same(last.Cases[last.Chosen].Chan, pureOf("Done", ctx)) {
		return
	}
	err := o.ret[len(o.ret)-1]
	c.require(c.causeOK(r, o, chCtx, err, ctx, ""), "an ended context is reported", cn, last.Pos, "%s is returned when the context has ended", err)
}

func (c *Ctx) boundedCheck() {
	r := c.broker()
	if r == nil {
		return
	}
	c.limitsFrame(r, func(_ string, t types.Type) bool { return t.String() == "time.Duration" })
	fld := map[string]string{} // what the default timeout of an operation is stored in
	for _, x := range []struct {
		fn   *ssa.Function
		cn   string
		opt  string
		opts int
		sub  bool
	}{{r.pub, "Memory.Pub", "PubTimeout", 4, false}, {r.recv, "Subscriber.Receive", "RecvTimeout", 3, true}} {
		obj, ctx := param(x.fn, 0), param(x.fn, 1)
		n := 0
		for _, o := range c.paths(x.fn) {
			c.ctxReported(r, o, x.cn, ctx)
			each(o.events, func(e *Event, _ []*Seg) {
				switch e.Kind {
				case EvExt:
					c.require(!blockingExt[e.Name], "every wait can be ended", x.cn, e.Pos, "%s waits whatever happens", e)
				case EvSend, EvRecv:
					c.fail("every wait can be ended", x.cn, e.Pos, "%s waits for one thing only", e)
				case EvSelect:
					if !e.Block {
						return
					}
					n++
					var hasCtx, hasSess, hasSub bool
					var d *Term
					for _, cs := range e.Cases {
						if cs.Send {
							continue
						}
						k, dur := c.role(r, o, cs.Chan)
						if p, t := timeoutOf(cs.Chan); p != nil {
							hasCtx = hasCtx || p == strip(ctx)
							d = t
							continue
						}
						switch k {
						case chCtx:
							hasCtx = hasCtx || same(cs.Chan, pureOf("Done", ctx))
						case chTimer:
							d = dur
						case chSess:
							hasSess = true
						case chSub:
							hasSub = true
						}
					}
					c.require(hasCtx, "every wait ends with the context", x.cn, e.Pos, "the wait does not end when the context is done")
					c.require(hasSess, "every wait ends with the session", x.cn, e.Pos, "the wait does not end when the broker is closed")
					if x.sub {
						c.require(hasSub, "every wait ends with the subscription", x.cn, e.Pos, "the wait does not end when the subscriber unsubscribes")
					}
					if c.require(d != nil, "every wait is bounded by a timeout", x.cn, e.Pos, "the wait has no timeout") {
						c.timeoutSpec(o, x.cn, x.opt, param(x.fn, x.opts), obj, d, e.Pos, fld)
					}
				}
			})
		}
		c.require(n > 0, "operations wait in a select", x.cn, fnPos(x.fn), "no blocking select has been found")
	}
	// where the defaults come from
	if k := fld["Memory.Pub"]; k != "" {
		c.ctorTimeout(r, k, "PubTimeout")
	}
	if k := fld["Subscriber.Receive"]; k != "" {
		for _, o := range c.paths(r.subFn) {
			if o.status != stRet || !nilErr(o.ret[1], o) {
				continue
			}
			w := c.structCells(o, strip(o.ret[0]))[k]
			if c.require(w != nil, "a subscription has a receive timeout", "Memory.Sub", pathScope(o).pos(), "the timeout is not set") {
				sub := map[string]string{}
				c.timeoutSpec(o, "Memory.Sub", "RecvTimeout", param(r.subFn, 3), param(r.subFn, 0), w, pathScope(o).pos(), sub)
				if k := sub["Memory.Sub"]; k != "" {
					c.ctorTimeout(r, k, "RecvTimeout")
				}
			}
		}
	}
	// the ends are signalled
	for _, x := range []struct {
		fn      *ssa.Function
		cn      string
		flag, k string
	}{{r.clos, "Memory.Close", r.connected, r.exit}, {r.unsub, "Subscriber.Unsubscribe", r.active, r.subExit}} {
		for _, o := range c.paths(x.fn) {
			obj := param(x.fn, 0)
			if v, known, _ := flagFact(o, obj, x.flag); known && !v || x.fn == r.unsub && c.endedOnce(r, o) {
				continue
			}
			n := 0
			for _, e := range o.events {
				if e.Kind == EvClose {
					if b, k := fieldRead(e.Args[0]); b == obj && k == x.k {
						n++
					}
				}
			}
			c.require(n == 1, "ending a session or subscription wakes up those who wait", x.cn, pathScope(o).pos(), "nobody is woken up on the path where %s", o.describe())
		}
	}
	// other operations and goroutines
	for _, a := range c.activities() {
		if a.fn.Pkg != r.pub.Pkg || !a.gor && (a.fn == r.pub || a.fn == r.recv) {
			continue
		}
		var own *Term
		if a.gor && a.fn == r.open {
			own = a.st.goExit(r, param(a.fn, 0))
		}
		ends := func(o *State, ch *Term) bool {
			k, _ := c.role(r, o, ch)
			return k == chCtx || k == chSess || own != nil && same(ch, own)
		}
		each(a.st.events, func(e *Event, in []*Seg) {
			switch e.Kind {
			case EvSend, EvRecv:
				c.require(e.Kind == EvRecv && ends(a.st, e.Args[0]), "every wait can be ended", a.name, e.Pos, "%s waits for one thing only", e)
			case EvSelect:
				if !e.Block {
					return
				}
				ok := false
				for _, cs := range e.Cases {
					if k, _ := c.role(r, a.st, cs.Chan); !cs.Send && (k == chSess || own != nil && same(cs.Chan, own)) {
						ok = true
					}
				}
				c.require(ok, "every wait ends with the session", a.name, e.Pos, "the wait does not end when the broker is closed")
				if len(in) > 0 && e.Chosen >= 0 {
					c.require(!ends(in[len(in)-1].St, e.Cases[e.Chosen].Chan), "every wait ends with the session", a.name, e.Pos, "the loop goes on after the end")
				}
			}
		})
	}
}

// timeoutSpec: d is the timeout of the call, or the default in a field of obj.
func (c *Ctx) timeoutSpec(o *State, cn, opt string, opts, obj, d *Term, pos string, fld map[string]string) {
	set, known := false, noOptions(o, opts)
	for _, f := range o.flist {
		if f.T.Op != "eq" {
			continue
		}
		for i := 0; i < 2; i++ {
			if f.T.Args[1-i] != intT(0) {
				continue
			}
			if os, ini, ok := optionField(f.T.Args[i], opt); ok && same(os, opts) && isZeroOptions(ini) {
				set, known = !f.V, true
			}
		}
	}
	if os, ini, ok := optionField(d, opt); ok && same(os, opts) && isZeroOptions(ini) {
		c.require(known && set, "the timeout of the call takes precedence, then the default", cn, pos, "the timeout of the call is used without testing that it is given")
		return
	}
	// options which start with the default
	if d = strip(d); d.Op == "field" && d.Args[0].Op == "fold" && same(d.Args[0].Args[0], opts) && strings.HasSuffix(d.Str, "."+opt) {
		ini := d.Args[0].Args[1]
		if st := structOf(ini.Type); st != nil && ini.Op == "struct" {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == opt {
					if b, k := fieldRead(ini.Args[i]); b == obj {
						fld[cn] = k
						return
					}
				}
			}
		}
	}
	b, k := fieldRead(d)
	if d == intT(0) {
		// zero is the default when the default is zero
		for _, f := range o.flist {
			for j := 0; f.T.Op == "eq" && f.V && j < 2; j++ {
				if x, fk := fieldRead(f.T.Args[j]); x == obj && fk != "" && f.T.Args[1-j] == intT(0) {
					b, k = x, fk
				}
			}
		}
	}
	if c.require(b == obj && k != "" && known && !set, "the timeout of the call takes precedence, then the default", cn, pos, "the timeout is %s on the path where %s", d, o.describe()) {
		fld[cn] = k
	}
}

// ctorTimeout: New stores the option or the default timeout in the field.
func (c *Ctx) ctorTimeout(r *brokerRoles, key, opt string) {
	const cn = "broker/memory.New"
	for _, o := range c.paths(r.ctor) {
		if o.status != stRet {
			continue
		}
		w := c.structCells(o, strip(o.ret[0]))[key]
		if w == nil {
			w = intT(0)
		}
		_, ini, ok := optionField(w, opt)
		if ok && isZeroOptions(ini) {
			set := false
			for _, f := range o.flist {
				if f.T.Op == "eq" && !f.V && (f.T.Args[0] == intT(0) || f.T.Args[1] == intT(0)) && (strip(f.T.Args[0]) == strip(w) || strip(f.T.Args[1]) == strip(w)) {
					set = true
				}
			}
			c.require(set, "timeouts have a default", cn+" "+opt, pathScope(o).pos(), "a timeout of zero is kept")
			continue
		}
		i, isInt := intConst(w)
		z := noOptions(o, param(r.ctor, 0))
		for _, f := range o.flist {
			if f.T.Op == "eq" && f.V {
				for j := 0; j < 2; j++ {
					if f.T.Args[1-j] == intT(0) {
						if _, ini, ok := optionField(f.T.Args[j], opt); ok && isZeroOptions(ini) {
							z = true
						}
					}
				}
			}
		}
		c.require(isInt && i > 0 && z, "timeouts have a default", cn+" "+opt, pathScope(o).pos(), "the default timeout is %s on the path where %s", w, o.describe())
	}
}

// ctorCap: New stores the capacity of the options, or the default when it is negative.
func (c *Ctx) ctorCap(r *brokerRoles) {
	const cn = "broker/memory.New"
	key := c.capField(r)
	if !c.require(key != "", "the capacity of the options is kept", cn, fnPos(r.ctor), "New does not store the capacity") {
		return
	}
	isCap := func(t *Term) bool {
		_, ini, ok := optionField(t, "Cap")
		return ok && isZeroOptions(ini)
	}
	for _, o := range c.paths(r.ctor) {
		if o.status != stRet || len(o.ret) < 2 || !nilErr(o.ret[1], o) {
			continue
		}
		w := c.structCells(o, strip(o.ret[0]))[key]
		if w == nil {
			w = intT(0)
		}
		const inf = int64(1) << 40
		lo, hi := -inf, inf
		if noOptions(o, param(r.ctor, 0)) {
			lo, hi = 0, 0
		}
		for _, f := range o.flist {
			switch f.T.Op {
			case "lt":
				a, b := f.T.Args[0], f.T.Args[1]
				if k, ok := intConst(b); ok && isCap(a) {
					if f.V {
						hi = min64(hi, k-1)
					} else {
						lo = -min64(-lo, -k)
					}
				}
				if k, ok := intConst(a); ok && isCap(b) {
					if f.V {
						lo = -min64(-lo, -k-1)
					} else {
						hi = min64(hi, k)
					}
				}
			case "eq":
				for j := 0; j < 2; j++ {
					if k, ok := intConst(f.T.Args[1-j]); ok && f.V && isCap(f.T.Args[j]) {
						lo, hi = k, k
					}
				}
			}
		}
		if isCap(strip(w)) {
			c.require(lo >= 0, "a negative capacity is replaced by the default", cn, pathScope(o).pos(), "the capacity may be negative on the path where %s", o.describe())
			continue
		}
		k, ok := intConst(strip(w))
		c.require(ok && (hi < 0 && k > 0 || lo == hi && lo == k), "the capacity of the options is kept", cn, pathScope(o).pos(), "the capacity is %s on the path where %s", w, o.describe())
	}
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func (c *Ctx) closeSafety() {
	r := c.broker()
	if r == nil {
		return
	}
	closed := map[string]string{} // closed field -> flag
	for _, a := range c.activities() {
		each(a.st.events, func(e *Event, in []*Seg) {
			if e.Kind != EvClose {
				return
			}
			b, k := fieldRead(e.Args[0])
			if !c.require(k != "" && len(in) == 0, "only known channels are closed", a.name, e.Pos, "%s is closed", e.Args[0]) {
				return
			}
			ep := 0
			for _, l := range e.Locks {
				if a.st.m.lockBelongs(l.T, b) && l.Write {
					ep = l.Epoch
				}
			}
			if !c.require(ep != 0, "a channel is closed under the write lock", a.name+" closes "+shortName(k), e.Pos, "two calls may close the channel at the same time") {
				return
			}
			flag := ""
			for _, f := range a.st.flist {
				if fb, fk := fieldRead(f.T); fb == b && isBool(f.T.Type) && f.V && epochOf(f.T, b) == ep {
					for _, s := range a.st.events {
						if s.Kind == EvStore && ownerAddr(s.Args[0]) == b && s.Args[0].Str == fk && strip(s.Args[1]) == tFalse && s.Epoch == e.Epoch {
							flag = fk
						}
					}
				}
			}
			c.require(flag != "", "a channel is closed at most once", a.name+" closes "+shortName(k), e.Pos, "the close does not depend on a flag that is reset in the same critical section")
			if old := closed[k]; old != "" && flag != "" {
				c.require(old == flag, "a channel is closed at most once", a.name+" closes "+shortName(k), e.Pos, "closes depend on different flags")
			}
			if flag != "" {
				closed[k] = flag
			}
			c.require(!c.isMsgChan(e.Args[0].Type), "queues of messages are never closed", a.name, e.Pos, "publishers may send on the closed channel")
			n := 0
			for _, x := range a.st.events {
				if x.Kind == EvClose && same(x.Args[0], e.Args[0]) {
					n++
				}
			}
			c.require(n == 1, "a channel is closed at most once", a.name+" closes "+shortName(k), e.Pos, "the channel is closed %d times on one path", n)
		})
	}
	flags := map[string]string{}
	for k, f := range closed {
		flags[f] = k
	}
	for _, a := range c.activities() {
		each(a.st.events, func(e *Event, in []*Seg) {
			// a flag is set together with a fresh channel
			if e.Kind == EvStore && e.Args[0].Op == "faddr" && flags[e.Args[0].Str] != "" && strip(e.Args[1]) != tFalse {
				k := flags[e.Args[0].Str]
				ok := false
				for _, x := range a.st.events {
					if x.Kind == EvStore && ownerAddr(x.Args[0]) == ownerAddr(e.Args[0]) && x.Args[0].Str == k && strip(x.Args[1]).Op == "makechan" && (x.Epoch == e.Epoch || x.Fresh) {
						ok = true
					}
				}
				c.require(ok, "an open flag comes with a new channel", a.name, e.Pos, "%s", e)
			}
			// a channel is replaced only while nobody can need it
			if e.Kind == EvStore && e.Args[0].Op == "faddr" && closed[e.Args[0].Str] != "" && !e.Fresh {
				v, known, ep := flagFact(a.st, ownerAddr(e.Args[0]), closed[e.Args[0].Str])
				c.require(known && !v && ep == lockEpoch(a.st, e, ownerAddr(e.Args[0])), "a channel in use is not replaced", a.name, e.Pos, "%s without knowing that the old one is closed", e)
			}
			for _, op := range chanOps([]*Event{e}) {
				if !op.send {
					continue
				}
				_, k := fieldRead(strip(op.ch))
				c.require(closed[k] == "" && !r.session[k], "nothing is sent on a channel that gets closed", a.name+" sends on "+shortName(k), op.e.Pos, "%s", op.e)
			}
		})
	}
	c.require(closed[r.exit] != "", "the end of a session is a closed channel", "Memory", fnPos(r.clos), "no close found")
	c.require(closed[r.subExit] != "", "the end of a subscription is a closed channel", "Subscriber", fnPos(r.unsub), "no close found")
}

func lockEpoch(o *State, e *Event, base *Term) int {
	for _, l := range e.Locks {
		if o.m.lockBelongs(l.T, base) {
			return l.Epoch
		}
	}
	return -1
}

// endedOnce tells whether the subscription is known to have ended before,
// because the sync.Once which ends it is done: it is never done without the
// flag of the subscription being reset in the same critical section.
func (c *Ctx) endedOnce(r *brokerRoles, o *State) bool {
	done := func(o *State) bool {
		for _, f := range o.flist {
			if b, k := fieldRead(f.T); b == param(r.unsub, 0) && k == onceDone && f.V {
				return true
			}
		}
		return false
	}
	if !done(o) {
		return false
	}
	for _, x := range c.paths(r.unsub) {
		if done(x) {
			continue
		}
		once, off := 0, false
		for _, e := range x.events {
			if e.Kind == EvStore && ownerAddr(e.Args[0]) == param(r.unsub, 0) && len(e.Locks) > 0 {
				once += b2i(e.Args[0].Str == onceDone)
				off = off || e.Args[0].Str == r.active && strip(e.Args[1]) == tFalse
			}
		}
		if v, known, _ := flagFact(x, param(r.unsub, 0), r.active); once > 0 && !off && !(known && !v) {
			return false
		}
	}
	for _, a := range c.activities() {
		bad := false
		each(a.st.events, func(e *Event, _ []*Seg) {
			if e.Kind == EvStore && !e.Fresh && (e.Args[0].Str == onceDone && a.fn != r.unsub || e.Args[0].Str == r.active && strip(e.Args[1]) != tFalse) {
				bad = true
			}
		})
		if bad {
			return false
		}
	}
	return true
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (c *Ctx) unsubCheck() {
	r := c.broker()
	if r == nil {
		return
	}
	const cn = "Subscriber.Unsubscribe"
	s := param(r.unsub, 0)
	for _, o := range c.paths(r.unsub) {
		sc := pathScope(o)
		if !c.returned(o, 1, cn) {
			continue
		}
		c.require(nilErr(o.ret[0], o), "unsubscribing succeeds", cn, sc.pos(), "returns %s", o.ret[0])
		v, known, _ := flagFact(o, s, r.active)
		ch := changes(o.events)
		if known && !v || c.endedOnce(r, o) {
			c.require(len(ch) == 0 || known && v, "unsubscribing twice changes nothing", cn, sc.pos(), "it does %v", ch)
			continue
		}
		if !c.require(known, "unsubscribing tests the subscription", cn, sc.pos(), "the subscription is ended without testing that it is active") {
			continue
		}
		closes, off, gos := 0, false, 0
		for _, e := range o.events {
			switch {
			case e.Kind == EvClose:
				b, k := fieldRead(e.Args[0])
				c.require(b == s && k == r.subExit, "unsubscribing ends only the own subscription", cn, e.Pos, "%s", e)
				closes++
			case e.Kind == EvStore && ownerAddr(e.Args[0]) == s && e.Args[0].Str == r.active:
				off = strip(e.Args[1]) == tFalse
			case e.Kind == EvStore && ownerAddr(e.Args[0]) == s && e.Args[0].Str == onceDone:
			case e.Kind == EvStore && !e.Fresh:
				c.fail("unsubscribing ends only the own subscription", cn, e.Pos, "%s", e)
			case e.Kind == EvGo:
				gos++
			}
		}
		c.require(closes == 1 && off, "unsubscribing ends the subscription", cn, sc.pos(), "the subscription is still active (signalled %d times, flag reset %v)", closes, off)
		c.require(gos == 1, "unsubscribing tells the broker once", cn, sc.pos(), "%d goroutines tell the broker", gos)
	}
	// what the broker is told
	type told struct{ id, topic string }
	var msgs []told
	for _, a := range c.activities() {
		if !a.gor || a.fn != r.unsub {
			continue
		}
		c.require(a.st.status == stRet, "telling the broker ends", a.name, pathScope(a.st).pos(), "it does not end")
		c.require(len(chanOps(a.st.events)) > 0, "unsubscribing tells the broker once", a.name, pathScope(a.st).pos(), "it ends without telling the broker on the path where %s", a.st.describe())
		for _, op := range chanOps(a.st.events) {
			if op.send {
				c.requestOf(r, a, op)
				msgs = append(msgs, told{})
				continue
			}
			k, _ := c.role(r, a.st, op.ch)
			c.require(k == chSess, "telling the broker ends with the session", a.name, op.e.Pos, "it ends with %s", k)
		}
		for _, e := range changes(a.st.events) {
			c.require(e.Kind == EvSelect || e.Kind == EvSend, "unsubscribing ends only the own subscription", a.name, e.Pos, "%s", e)
		}
	}
	c.require(len(msgs) > 0, "unsubscribing tells the broker once", cn, fnPos(r.unsub), "the broker is not told")
	// what the broker does
	n := 0
	for _, a := range c.activities() {
		if !a.gor || a.fn != r.open {
			continue
		}
		for _, l := range allLoops(a.st.events) {
			if !serves(l) {
				continue
			}
			for _, g := range l.Segs {
				var req *Term
				for _, op := range chanOps(g.Events) {
					if !op.send {
						req = op.val
					}
				}
				each(g.Events, func(e *Event, in []*Seg) {
					if e.Kind != EvMapDel && e.Kind != EvMapSet {
						return
					}
					gs := segScope(g)
					idx, outer := gs.idxOf(e.Args[0], func(k string) bool { return k == r.subs })
					if idx == "" {
						return
					}
					n++
					tf, idf := c.reqFields(r)
					ok := req != nil && e.Kind == EvMapDel && len(in) == 0
					if ok && outer != nil {
						ok = isReqField(outer, req, tf) && isReqField(e.Args[1], req, idf)
					} else if ok {
						// the last subscription of the topic
						ok = isReqField(e.Args[1], req, tf) && gs.knowsEmpty(func(k string) bool { return k == r.subs }, idx, e.Args[1])
					}
					c.require(ok, "the broker removes only the subscription it was told to", a.name, e.Pos, "%s", e)
				})
			}
		}
	}
	c.require(n > 0, "the broker removes the subscription", "goroutine of Memory.Open", fnPos(r.open), "subscriptions are never removed")
	c.requestsServed(r)
	c.requestsArrive(r)
	c.subsFrame(r)
}

// requestsServed: whatever request the goroutine of the session takes, the
// subscription it names is gone before the next one is taken.
func (c *Ctx) requestsServed(r *brokerRoles) {
	tf, idf := c.reqFields(r)
	isSubs := func(k string) bool { return k == r.subs }
	for _, a := range c.activities() {
		if !a.gor || a.fn != r.open {
			continue
		}
		for _, l := range allLoops(a.st.events) {
			if !serves(l) {
				continue
			}
			for _, g := range l.Segs {
				var req *Term
				for _, op := range chanOps(g.Events) {
					if k, _ := c.role(r, g.St, op.ch); !op.send && k == chOther {
						req = op.val
					}
				}
				if req == nil {
					continue
				}
				gs := segScope(g)
				done := false
				for _, e := range g.Events {
					if e.Kind != EvMapDel {
						continue
					}
					idx, outer := gs.idxOf(e.Args[0], isSubs)
					if idx == "" {
						continue
					}
					if outer != nil && isReqField(outer, req, tf) && isReqField(e.Args[1], req, idf) {
						done = true
					}
				}
				if !done {
					for _, f := range g.Facts { // what was known when the session began is out of date
						done = done || c.reqGone(gs, f, r, req, tf, idf)
					}
				}
				c.require(done, "the broker removes every subscription it is told to", a.name, gs.pos(), "the subscription stays on the path where %s", g.St.describe())
			}
		}
	}
}

// reqGone: the fact says that the subscription of the request is not there.
func (c *Ctx) reqGone(gs *Scope, f Fact, r *brokerRoles, req *Term, tf, idf string) bool {
	isSubs := func(k string) bool { return k == r.subs }
	t := f.T
	if _, k := fieldRead(t); k == r.connected {
		return !f.V
	}
	// entry: m[k] holds the subscription, or the subscriptions of its topic
	entry := func(m, k *Term) bool {
		idx, outer := gs.idxOf(m, isSubs)
		if idx == "" {
			return false
		}
		if outer == nil {
			return isReqField(k, req, tf)
		}
		return isReqField(outer, req, tf) && isReqField(k, req, idf)
	}
	switch t.Op {
	case "in":
		return !f.V && entry(t.Args[0], t.Args[1])
	case "eq":
		for j := 0; j < 2; j++ {
			x, y := strip(t.Args[j]), t.Args[1-j]
			if y == intT(0) && x.Op == "len" {
				x = strip(x.Args[0])
			} else if y != tNil {
				continue
			}
			if f.V && x.Op == "lookup" && entry(x.Args[0], x.Args[1]) {
				return true
			}
		}
	}
	return false
}

// requestsArrive: what Unsubscribe sends is received by the goroutine of the
// session the subscription belongs to.
func (c *Ctx) requestsArrive(r *brokerRoles) {
	// where the goroutine listens
	listens := map[string]bool{}
	for _, a := range c.activities() {
		if !a.gor || a.fn != r.open {
			continue
		}
		each(a.st.events, func(e *Event, in []*Seg) {
			st := a.st
			if len(in) > 0 {
				st = in[len(in)-1].St
			}
			for _, op := range chanOps([]*Event{e}) {
				if k, _ := c.role(r, st, op.ch); op.send || k != chOther {
					continue
				}
				if b, k := fieldRead(strip(op.ch)); b == param(r.open, 0) {
					listens[k] = true
				}
				for _, o := range c.paths(r.open) {
					for _, x := range o.events {
						if x.Kind == EvStore && ownerAddr(x.Args[0]) == param(r.open, 0) && strip(x.Args[1]) == strip(op.ch) {
							listens[x.Args[0].Str] = true
						}
					}
				}
			}
		})
	}
	c.require(len(listens) > 0, "the broker is told over the channel it listens on", "goroutine of Memory.Open", fnPos(r.open), "the goroutine of the session receives no requests from a channel of the broker")
	sent := map[string]string{}
	for _, a := range c.activities() {
		if !a.gor || a.fn != r.unsub {
			continue
		}
		for _, op := range chanOps(a.st.events) {
			if !op.send {
				continue
			}
			b, k := fieldRead(strip(op.ch))
			if c.require(b != nil && k != "", "the broker is told over the channel it listens on", a.name, op.e.Pos, "the request is sent to %s", op.ch) {
				sent[k] = op.e.Pos
			}
		}
	}
	for _, o := range c.paths(r.subFn) {
		if o.status != stRet || len(o.ret) != 2 || !nilErr(o.ret[1], o) {
			continue
		}
		f := c.structCells(o, strip(o.ret[0]))
		for k, pos := range sent {
			ok := listens[k]
			w, has := f[k]
			if has {
				b, kb := fieldRead(strip(w))
				ok = b == param(r.subFn, 0) && listens[kb]
			}
			c.require(ok, "the broker is told over the channel it listens on", "Memory.Sub", pos, "the subscription sends requests to %s (%s), on which the goroutine of the session does not listen", shortName(k), w)
		}
	}
}

func isReqField(t, req *Term, key string) bool {
	b, k := fieldRead(t)
	return key != "" && b != nil && k == key && (b == req || same(b, req))
}

// requestOf: the request names the subscriber's ID and topic.
func (c *Ctx) requestOf(r *brokerRoles, a activity, op chanOp) {
	s := param(r.unsub, 0)
	idk, topk := c.accessorKey(r, "ID"), c.accessorKey(r, "Topic")
	v := strip(op.val)
	st := structOf(v.Type)
	if !c.require(v.Op == "struct" && st != nil, "the broker is told ID and topic", a.name, op.e.Pos, "it is told %s", v) {
		return
	}
	var id, top bool
	for _, x := range v.Args {
		b, k := fieldRead(x)
		if b == s && k == idk {
			id = true
		}
		if b == s && k == topk {
			top = true
		}
	}
	c.require(id && top, "the broker is told ID and topic", a.name, op.e.Pos, "it is told %s", v)
}

func (c *Ctx) accessorKey(r *brokerRoles, name string) string {
	f := c.declared(r.sub, name)
	if f == nil {
		return ""
	}
	for _, p := range c.paths(f) {
		if p.status == stRet && len(p.ret) > 0 {
			_, k := fieldRead(p.ret[0])
			return k
		}
	}
	return ""
}

// reqFields returns the fields of the request which hold the topic and the ID.
func (c *Ctx) reqFields(r *brokerRoles) (topic, id string) {
	s := param(r.unsub, 0)
	idk, topk := c.accessorKey(r, "ID"), c.accessorKey(r, "Topic")
	for _, a := range c.activities() {
		if !a.gor || a.fn != r.unsub {
			continue
		}
		for _, op := range chanOps(a.st.events) {
			v := strip(op.val)
			if !op.send || v.Op != "struct" || v.Type == nil {
				continue
			}
			for i, x := range v.Args {
				b, k := fieldRead(x)
				if b == s && k == idk {
					id = fieldKey(v.Type, i)
				}
				if b == s && k == topk {
					topic = fieldKey(v.Type, i)
				}
			}
		}
	}
	return
}

func init() {
	register(&Check{ID: "C04", Title: "publishing succeeds exactly when the message was enqueued", Min: 8, Run: (*Ctx).pubCheck,
		Rules: "every path of Memory.Pub: the channel operations which take place are matched against the result and against the channel that ended the wait"})
	register(&Check{ID: "C05", Title: "topics are isolated and live as long as the session", Min: 12, Run: (*Ctx).topicCheck,
		Rules: "every write to the map of topics and every use of a message channel in the broker package belongs to the topic of the operation; the subscription Sub returns is tied to the queue of its topic"})
	register(&Check{ID: "C06", Title: "receiving hands each message to the handler once", Min: 6, Run: (*Ctx).receiveCheck,
		Rules: "every path of Subscriber.Receive: messages taken, handler calls and result are matched"})
	register(&Check{ID: "C07", Title: "broker sessions open and close completely and independently", Min: 12, Run: func(c *Ctx) { c.sessionCheck(); c.completeIn("pkg/broker/memory") },
		Rules: "every path of Open, Close and of the goroutine Open starts"})
	register(&Check{ID: "C08", Title: "every wait in the broker is bounded", Min: 12, Run: (*Ctx).boundedCheck,
		Rules: "every blocking channel operation of the broker package and its goroutines is a select with the cases which end it; timeouts come from the call, then the subscription, then the broker, then the default"})
	register(&Check{ID: "C09", Title: "no channel is closed twice or used for sending after it is closed", Min: 8, Run: (*Ctx).closeSafety,
		Rules: "typestate of closed channels: every close happens under the write lock, depends on a flag reset in the same critical section, and no send targets a channel that is ever closed"})
	register(&Check{ID: "C10", Title: "unsubscribing ends exactly one subscription", Min: 8, Run: func(c *Ctx) {
		c.unsubCheck()
		c.borrow((*Ctx).sessionCheck, "the goroutine ends with its session")
	},
		Rules: "every path of Unsubscribe and its goroutine, and every iteration of the goroutine of the session"})
}
