package main

import (
	"fmt"
	"go/types"
)

func init() {
	register("C19", checkC19)
	register("C20", checkC20)
}

// is: the two are known to hold the same bytes.
func (c *scene) is(st *State, a, b *Term) bool {
	v, k := st.Eval(st.eqBytes(a, b))
	return k && v
}

// prefixed decides whether the frame starts with the topic, as the scene says.
func (c *scene) prefixed(st *State, x, t *Term) (val, known bool) {
	if st.lenOf(t) == c.ts.Zero {
		return true, true
	}
	for _, p := range c.prefixes {
		if c.is(st, x, p.frame) && c.is(st, t, p.topic) {
			return p.val, true
		}
	}
	return false, false
}

type prefix struct {
	frame, topic *Term
	val          bool
}

// starts says whether messages with the first frame match the topic.
func (c *scene) starts(st *State, frame, topic *Term, val bool) {
	c.prefixes = append(c.prefixes, prefix{frame, topic, val})
	if val {
		st.Assume(c.ts.ge(c.ts.sub(st.lenOf(frame), st.lenOf(topic))), true)
	}
	c.equal(st, frame, topic, val)
	delete(st.facts, st.eqBytes(frame, topic)) // it may be longer
}

// prefixCall models the functions that compare prefixes.
func (c *scene) prefixCall(st *State, ci *CallInfo) []Out {
	switch ci.Ext {
	case "strings.HasPrefix", "bytes.HasPrefix":
		if v, k := c.prefixed(st, ci.Args[0], ci.Args[1]); k {
			return []Out{{st, c.ts.boolean(v)}}
		}
	case "strings.CutPrefix", "bytes.CutPrefix":
		if v, k := c.prefixed(st, ci.Args[0], ci.Args[1]); k {
			res := ci.Ins.Common().Signature().Results()
			rest := ci.Args[0]
			if v {
				rest = c.ts.sym("rest:"+st.name(ci.Ins), res.At(0).Type())
			}
			return []Out{{st, c.ts.mk("agg", "tuple", res, rest, c.ts.boolean(v))}}
		}
	}
	if c.stuck != nil && ci.Fn == c.send && !ci.Go && c.stuck[ci.Args[0]] {
		// the peer does not read: the write goes on for ever
		c.add(st, "stuck", c.ts.integer(int64(c.cur)))
		c.end(st, nil)
		return []Out{}
	}
	return nil
}

// prefixBranch decides comparisons with the start of a frame.
func (c *scene) prefixBranch(st *State, cond *Term) (bool, bool) {
	neg := false
	for cond.op == "not" {
		cond, neg = cond.args[0], !neg
	}
	if cond.op != "eq" && cond.op != "bytes=" && len(cond.args) != 2 {
		return false, false
	}
	for i := 0; i < 2; i++ {
		x, t := cond.args[i], cond.args[1-i]
		for x.op == "str" || x.op == "bytes" {
			x = x.args[0]
		}
		if x.op != "sub" || x.args[1] != c.ts.Zero {
			continue
		}
		if st.subst(x.args[2]) != st.subst(st.lenOf(t)) {
			continue
		}
		if v, k := c.prefixed(st, x.args[0], t); k {
			return v != neg, true
		}
	}
	return false, false
}

// topic is a non-empty topic.
func (c *scene) topic(st *State, name string) *Term {
	v := c.frame(name)
	st.Assume(c.ts.ge(c.ts.linComb(st.lenOf(v), 1, nil, 0, -1)), true)
	st.pins = append(st.pins[:len(st.pins):len(st.pins)], v)
	return v
}

// control is a subscription (1) or unsubscription (0) message.
func (c *scene) control(kind int64, topic *Term) *Term {
	b := c.ts.mk("elem", "", nil, c.ts.integer(kind))
	if topic == c.none() {
		return c.message(fmt.Sprint("control", kind), c.ts.mk("seq", "", bytesT, b))
	}
	return c.message(fmt.Sprint("control", kind, topic.id), c.ts.mk("seq", "", bytesT, b, c.ts.mk("spread", "", nil, topic)))
}

func (c *scene) none() *Term { return c.ts.str("") }

// tell: peers send messages one after the other.
func (c *scene) tell(st *State, ms ...[2]*Term) []*State {
	out := []*State{st}
	for _, m := range ms {
		for i := range out {
			out[i] = c.script(out[i], m[0], m[1])
		}
		out = c.serve(out)
	}
	return out
}

// publish sends a message and lets the goroutines work.
func (c *scene) publish(r *Report, key, what string, st *State, body *Term, to []*Term) (out []*State) {
	where := c.s.name[3:]
	for _, m := range []string{"Send", "SendMulti"} {
		n := len(c.wrote(st))
		outs := c.do(st, m, c.message("published", body))
		if len(outs) == 0 {
			r.fail(key+"-path", where, nil, "%s, %s has no path", what, m)
		}
		for _, o := range outs {
			if o.res == nil {
				r.fail(key+"-waits", where, trail(o.st), "%s, %s waits", what, m)
				continue
			}
			if c.isErr(o.st, o.res[0]) != 0 {
				r.fail(key+"-error", where, trail(o.st), "%s, %s fails", what, m)
				continue
			}
			after := c.serve([]*State{o.st})
			if len(after) == 0 {
				r.fail(key+"-serve", where, trail(o.st), "%s, no path takes the message from its queue", what)
			}
			for _, x := range after {
				if c.written(r, key, what, x, n, to, body) {
					r.ok("%s: %s", what, m)
					if m == "Send" {
						out = append(out, x)
					}
				}
			}
		}
	}
	return
}

func (p *Program) newPubScene(s *sockInst) *scene {
	c := p.newScene(s)
	c.onCall = c.prefixCall
	c.branch = c.prefixBranch
	return c
}

func checkC19(p *Program, r *Report) {
	r.rule("For each constructor of a PUB or XPUB socket the states after two connections were made are computed by dataflow from the constructor's. On every path of a connection's reader goroutine over sequences of subscription and unsubscription messages (arbitrary topics, the empty one, several topics, the other connection's), then Send or SendMulti, then the goroutines that take the message from its queue: the message is written, unchanged and once, to exactly the connections with a topic that the first frame starts with.")
	r.rule("A subscription or unsubscription message is not returned by Recv; a message that is neither (two frames, an empty frame, another first byte) subscribes to nothing.")
	r.assume("whether a frame starts with a topic is what strings.HasPrefix, bytes.HasPrefix, CutPrefix or a comparison with the frame's first bytes says; the queues are not full; reads and writes of a connection as in C12 and C13.")
	n := 0
	for _, s := range p.alone("Pub", "XPub") {
		base := p.newPubScene(s)
		sts := base.dial(base.dial([]*State{base.start()}))
		for _, st := range sts {
			base.pubCases(r, st)
			n++
		}
		if len(sts) == 0 {
			r.fail("dial", s.name[3:], nil, "no path leads to two connections")
		}
		base.report(r)
	}
	r.count("states with two subscribers", n)
	r.atLeast("states with two subscribers", 2)
}

func (c *scene) pubCases(r *Report, st0 *State) {
	where := c.s.name[3:]
	a, b := c.conns(st0)[0], c.conns(st0)[1]
	st0 = st0.Fork()
	t1, t2 := c.topic(st0, "topic1"), c.topic(st0, "topic2")
	c.equal(st0, t1, t2, false)
	f := c.frame("published")
	st0.pins = append(st0.pins[:len(st0.pins):len(st0.pins)], f)
	sub := func(conn, t *Term) [2]*Term { return [2]*Term{conn, c.control(1, t)} }
	unsub := func(conn, t *Term) [2]*Term { return [2]*Term{conn, c.control(0, t)} }
	none := c.none()
	type ms = [][2]*Term
	cases := []struct {
		what string
		ms   ms
		a, b []*Term // what the connections are subscribed to in the end
	}{
		{"without subscriptions", ms{}, nil, nil},
		{"with one topic", ms{sub(a, t1)}, []*Term{t1}, nil},
		{"with a topic of the other connection", ms{sub(b, t1)}, nil, []*Term{t1}},
		{"with the empty topic", ms{sub(a, none)}, []*Term{none}, nil},
		{"with two topics", ms{sub(a, t1), sub(a, t2)}, []*Term{t1, t2}, nil},
		{"with a topic each", ms{sub(a, t1), sub(b, t2)}, []*Term{t1}, []*Term{t2}},
		{"with the same topic", ms{sub(a, t1), sub(b, t1)}, []*Term{t1}, []*Term{t1}},
		{"after an unsubscription", ms{sub(a, t1), unsub(a, t1)}, nil, nil},
		{"after an unsubscription from one of two topics", ms{sub(a, t1), sub(a, t2), unsub(a, t1)}, []*Term{t2}, nil},
		{"after an unsubscription from the other of two topics", ms{sub(a, t1), sub(a, t2), unsub(a, t2)}, []*Term{t1}, nil},
		{"after an unsubscription from the empty topic", ms{sub(a, t1), sub(a, none), unsub(a, none)}, []*Term{t1}, nil},
		{"after an unsubscription that leaves the empty topic", ms{sub(a, none), sub(a, t1), unsub(a, t1)}, []*Term{none}, nil},
		{"after an unsubscription by the other connection", ms{sub(a, t1), sub(b, t1), unsub(b, t1)}, []*Term{t1}, nil},
		{"after an unsubscription from a topic not subscribed to", ms{sub(a, t1), unsub(a, t2)}, []*Term{t1}, nil},
		{"after a new subscription", ms{sub(a, t1), unsub(a, t1), sub(a, t1)}, []*Term{t1}, nil},
		{"after a message of two frames", ms{{a, c.message("two", c.ts.mk("seq", "", bytesT, c.ts.mk("elem", "", nil, c.ts.integer(1)), c.ts.mk("spread", "", nil, t1)), c.frame("two"))}}, nil, nil},
		{"after an empty frame", ms{{a, c.message("one empty", none)}}, nil, nil},
		{"after another command", ms{{a, c.control(2, t1)}}, nil, nil},
		{"with the empty topic and another one", ms{sub(a, none), sub(a, t1)}, []*Term{none, t1}, nil},
		{"with another topic and the empty one", ms{sub(a, t2), sub(a, none), sub(b, t1)}, []*Term{none, t2}, []*Term{t1}},
		{"after a subscription made twice and cancelled once", ms{sub(a, t1), sub(a, t2), sub(a, t2), unsub(a, t1)}, []*Term{t2}, nil},
		{"after another command about a topic", ms{sub(a, t1), {a, c.control(2, t1)}}, []*Term{t1}, nil},
	}
	for i, cs := range cases {
		// what of the message matches
		for mask := 0; mask < 4; mask++ {
			st := st0.Fork()
			c.prefixes = nil
			match := map[*Term]bool{none: true, t1: mask&1 == 1, t2: mask&2 == 2}
			c.starts(st, f, t1, match[t1])
			c.starts(st, f, t2, match[t2])
			var to []*Term
			for k, ts := range [][]*Term{cs.a, cs.b} {
				for _, t := range ts {
					if match[t] {
						to = append(to, []*Term{a, b}[k])
						break
					}
				}
			}
			w := cs.what
			if len(to) == 0 {
				w += ", for a message that nobody asked for"
			}
			for _, x := range c.tell(st, cs.ms...) {
				if mask == 0 && i < 15 {
					for _, o := range c.do(x, "Recv") {
						ok := o.res == nil || c.isErr(o.st, o.res[1]) == 1
						r.check(ok, "delivered", where, "%s, Recv does not return the subscription", cs.what)
					}
				}
				c.publish(r, "publish", w, x, c.list(f), to)
				if len(c.publish(r, "publish-many", w, x, c.list(f, c.rest("published")), to)) == 0 && len(c.problems) == 0 {
					r.fail("publish-lost", where, trail(x), "%s, no path publishes the message", w)
				}
			}
		}
	}
}

func checkC20(p *Program, r *Report) {
	r.rule("For each constructor of a PUB or XPUB socket the states after three connections subscribed to everything are computed by dataflow from the constructor's. Send and SendMulti return without an error on every path whichever queues are full, and write to no connection themselves; the goroutines then write the message to exactly those whose queue was not full.")
	r.rule("While the write to one subscriber goes on for ever, the goroutines write two messages, one after the other, to each of the others.")
	r.assume("no lock is held at a write (C03); the queue of a subscriber is the channel of its messages.")
	n := 0
	for _, s := range p.alone("Pub", "XPub") {
		c := p.newPubScene(s)
		where := s.name[3:]
		for _, st := range c.dial(c.dial(c.dial([]*State{c.start()}))) {
			conns := c.conns(st)
			f := c.frame("published")
			var ms [][2]*Term
			for _, conn := range conns {
				ms = append(ms, [2]*Term{conn, c.control(1, c.none())})
			}
			for _, x := range c.tell(st, ms...) {
				n++
				// which channel belongs to whom
				queue := map[*Term]*Term{}
				body := c.list(f, c.rest("published"))
				for _, m := range []string{"Send", "SendMulti"} {
					for _, o := range c.do(x, m, c.message("published", body)) {
						if o.res == nil {
							r.fail("waits", where, trail(o.st), "%s waits although no queue is full", m)
							continue
						}
						r.check(len(c.wrote(o.st)) == len(c.wrote(x)), "writes", where, "%s writes to no connection itself", m)
						for a, v := range o.st.heap {
							if a.op != "chq" || len(v.args) == 0 {
								continue
							}
							// the queue alone
							y := o.st.Fork()
							for a2 := range y.heap {
								if a2.op == "chq" && a2 != a {
									delete(y.heap, a2)
								}
							}
							for _, z := range c.serve([]*State{y}) {
								w := c.wrote(z)[len(c.wrote(x)):]
								if len(w) == 1 {
									queue[a.args[0]] = w[0].args[0]
								} else {
									r.fail("queue", where, trail(z), "a message in one queue is written to %d connections", len(w))
								}
							}
						}
					}
				}
				of := map[*Term]*Term{}
				for q, conn := range queue {
					of[conn] = q
				}
				if len(queue) != len(conns) || len(of) != len(conns) {
					r.fail("queues", where, trail(x), "%d subscribers have %d queues", len(conns), len(queue))
					continue
				}
				r.ok("%s: each subscriber has its queue", where)
				for mask := 0; mask < 8; mask++ {
					var to []*Term
					full := map[*Term]bool{}
					for i, conn := range conns {
						if mask>>i&1 == 1 {
							full[of[conn]] = true
						} else {
							to = append(to, conn)
						}
					}
					c.full = func(st *State, ch *Term) bool { return full[ch] }
					c.publish(r, "full", fmt.Sprintf("with %d of 3 queues full", 3-len(to)), x, body, to)
					c.full = nil
				}
				for _, slow := range conns {
					c.stuck = map[*Term]bool{slow: true}
					var to []*Term
					for _, conn := range conns {
						if conn != slow {
							to = append(to, conn)
						}
					}
					what := "with a subscriber that does not read"
					for _, y := range c.publish(r, "slow", what, x, body, to) {
						c.publish(r, "slow", what, y, c.list(c.frame("second")), to)
						r.count("slow subscribers", 1)
					}
					c.stuck = nil
				}
			}
		}
		c.report(r)
	}
	r.count("states with three subscribers", n)
	r.atLeast("states with three subscribers", 2)
	r.atLeast("slow subscribers", 6)
}

var _ = types.Typ
