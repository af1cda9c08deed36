package main

import (
	"fmt"
	"go/types"
	"os"
)

func init() { register("C21", checkC21) }

// inside runs something else in the middle of an operation.
func (c *scene) inside(st *State, run func(*State) []*State) []*State {
	f := c.s.f
	visited, work, states, max, cl, stopped, problem := f.visited, f.work, f.states, f.MaxSt, f.c, f.stopped, f.Problem
	ended, known, follow, pins, outer := c.ended, c.known, c.follow, st.pins, st.props["outer"]
	f.work = nil
	n := st.Fork()
	n.pins = n.pins[:len(n.pins):len(n.pins)]
	for fr := n.top; fr != nil; fr = fr.caller {
		for _, v := range fr.env {
			n.pins = append(n.pins, v)
		}
	}
	n.top = nil
	if h := n.props["held"]; h != nil {
		n.props["outer"] = h
		delete(n.props, "held")
	}
	out := run(n)
	f.visited, f.work, f.states, f.MaxSt = visited, work, states, max
	f.c, f.stopped, f.Problem = cl, stopped, problem
	c.ended, c.known, c.follow = ended, known, follow
	for _, o := range out {
		x := st.Fork()
		o.top, o.trail = x.top, x.trail
		more := o.pins
		o.pins = pins[:len(pins):len(pins)]
		for _, v := range more {
			// what the other operation made
			o.pins = append(o.pins, v)
		}
		if h := st.props["held"]; h != nil {
			o.props["held"] = h
		}
		delete(o.props, "outer")
		if outer != nil {
			o.props["outer"] = outer
		}
		o.note("%s: meanwhile %s", st.Where(), c.meanwhile)
	}
	return out
}

func heldLock(ext string, a *Term) (l *Term, read bool) {
	return throughIface(a), ext == "sync.RWMutex.RLock" || ext == "sync.RWMutex.RUnlock"
}

// lockHook follows the locks, and lets another operation come in between.
func (c *scene) lockHook(st *State, ci *CallInfo) []Out {
	ts := c.ts
	switch ci.Ext {
	case "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock", "sync.Locker.Lock":
		l, read := heldLock(ci.Ext, ci.Args[0])
		e := ts.mk("heldlock", fmt.Sprint(read), nil, l)
		if o := st.props["outer"]; o != nil {
			for _, h := range o.args {
				if h.args[0] == l && (!read || h.aux != "true") {
					return []Out{} // not while the other one has it
				}
			}
		}
		sts := []*State{st}
		if c.between != nil && st.props["between"] == nil && st.props["outer"] == nil {
			n := st.Fork()
			n.props["between"] = ts.True
			between := c.between
			c.between = nil
			sts = append(sts, c.inside(n, between)...)
			c.between = between
			c.points++
		}
		var out []Out
		for _, x := range sts {
			c.add(x, "held", e)
			out = append(out, Out{x, nil})
		}
		return out
	case "sync.Mutex.Unlock", "sync.RWMutex.Unlock", "sync.RWMutex.RUnlock", "sync.Locker.Unlock":
		l, read := heldLock(ci.Ext, ci.Args[0])
		e := ts.mk("heldlock", fmt.Sprint(read), nil, l)
		if v := st.props["held"]; v != nil {
			as := append([]*Term(nil), v.args...)
			for i := len(as) - 1; i >= 0; i-- {
				if as[i] == e {
					as = append(as[:i], as[i+1:]...)
					break
				}
			}
			delete(st.props, "held")
			if len(as) > 0 {
				c.add(st, "held", as...)
			}
		}
		return []Out{{st, nil}}
	}
	if c.between != nil && st.props["between"] == nil && st.props["outer"] == nil && ci.Fn == c.send && !ci.Go {
		n := st.Fork()
		n.props["between"] = ts.True
		between, self := c.between, c.onCall
		c.between = nil
		sts := append([]*State{st}, c.inside(n, between)...)
		c.between = between
		c.points++
		// then the write as usual
		c.onCall = nil
		defer func() { c.onCall = self }()
		var out []Out
		for _, x := range sts {
			ci.Seen = false
			out = append(out, c.hook(x, ci)...)
		}
		return out
	}
	return nil
}

// told is the last that the peer of the connection was told about the topic:
// 1 that the socket is subscribed, 0 that it is not, -1 nothing.
func (c *scene) told(st *State, conn, topic *Term) int {
	last := -1
	for _, w := range c.wrote(st) {
		if w.args[0] != conn {
			continue
		}
		for k := int64(0); k < 2; k++ {
			if c.same(st, w.args[1].args[c.frames], c.control(k, topic).args[c.frames]) {
				last = int(k)
			}
		}
	}
	return last
}

func checkC21(p *Program, r *Report) {
	r.rule("For each constructor of a SUB socket the states after sequences of SetOption(SUBSCRIBE or UNSUBSCRIBE, any topic), Dial, accepted connections, lost connections and failing writes are computed by dataflow from the constructor's: for every connection that the socket has and whose writes do not fail, the last that was written to it about a topic is a subscription if the socket is subscribed to the topic, and no subscription otherwise.")
	r.rule("The same with another operation (SetOption SUBSCRIBE, Dial, an accepted or a lost connection) between any two steps of the first, at every lock acquisition and at every write to a connection, unless the first holds a lock that the other one needs.")
	r.assume("the Handshake does not fail; reads and writes of a connection as in C12 and C13; only subscriptions are looked at while something else goes on, not unsubscriptions.")
	n := 0
	for _, s := range p.alone("Sub") {
		c := p.newScene(s)
		c.onCall = c.lockHook
		n += c.subCases(r)
		c.report(r)
	}
	r.count("sequences", n)
	r.atLeast("sequences", 12)
	r.atLeast("points in between", 20)
}

type subStep struct {
	what string
	run  func(*State) []*State
}

func (c *scene) subCases(r *Report) int {
	where := c.s.name[3:]
	ts := c.ts
	st0 := c.start()
	t1, t2 := c.topic(st0, "topic1"), c.topic(st0, "topic2")
	c.equal(st0, t1, t2, false)
	none := c.none()
	str := types.Typ[types.String]
	option := func(name string, t *Term) func(*State) []*State {
		k := c.p.Root.Scope().Lookup(name).(*types.Const)
		return func(st *State) (out []*State) {
			v := st.iface(str, st.asStr(t), types.NewInterfaceType(nil, nil))
			for _, o := range c.do(st, "SetOption", ts.constant(k.Val(), str), v) {
				if o.res == nil {
					r.fail("waits", where, trail(o.st), "SetOption waits")
					continue
				}
				if c.fails == nil {
					r.check(c.isErr(o.st, o.res[0]) == 0, "error", where, "SetOption returns no error")
				}
				out = append(out, o.st)
			}
			return
		}
	}
	sub := func(t *Term) subStep { return subStep{"subscribe", option("OptionSubscribe", t)} }
	unsub := func(t *Term) subStep { return subStep{"unsubscribe", option("OptionUnsubscribe", t)} }
	dial := subStep{"dial", func(st *State) []*State { return c.dial([]*State{st}) }}
	accept := subStep{"accept", func(st *State) []*State { return c.accept(st) }}
	listen := subStep{"listen", func(st *State) (out []*State) {
		for _, o := range c.do(st, "Listen") {
			if o.res != nil && c.isErr(o.st, o.res[0]) == 0 {
				out = append(out, o.st)
			}
		}
		return
	}}
	lose := func(i int) subStep {
		return subStep{"lose", func(st *State) []*State {
			if len(c.conns(st)) <= i {
				return []*State{st} // it is not there yet
			}
			x := st.Fork()
			c.add(x, "lost", c.conns(st)[i])
			return c.lose(x, c.conns(st)[i])
		}}
	}
	type steps = []subStep
	// what the socket is subscribed to in the end
	cases := []struct {
		what  string
		steps steps
		with  *subStep // what else happens during the last step
		is    []*Term
		fails int // the connection whose writes fail
	}{
		{"after a subscription before the connection", steps{sub(t1), dial}, nil, []*Term{t1}, -1},
		{"after a subscription on a connection", steps{dial, sub(t1)}, nil, []*Term{t1}, -1},
		{"after a subscription on two connections", steps{dial, dial, sub(t1)}, nil, []*Term{t1}, -1},
		{"after two subscriptions before two connections", steps{sub(t1), sub(t2), dial, dial}, nil, []*Term{t1, t2}, -1},
		{"after a subscription to everything", steps{sub(none), dial}, nil, []*Term{none}, -1},
		{"after a subscription to everything on a connection", steps{dial, sub(none), sub(t1), dial}, nil, []*Term{none, t1}, -1},
		{"after an unsubscription before the connection", steps{sub(t1), sub(t2), unsub(t1), dial}, nil, []*Term{t2}, -1},
		{"after an unsubscription on a connection", steps{sub(t1), sub(t2), dial, unsub(t1), dial}, nil, []*Term{t2}, -1},
		{"after an unsubscription from everything", steps{sub(none), sub(t1), dial, unsub(none), dial}, nil, []*Term{t1}, -1},
		{"after a new subscription", steps{sub(t1), dial, unsub(t1), sub(t1), dial}, nil, []*Term{t1}, -1},
		{"after an unsubscription from a topic that was not subscribed to", steps{sub(t1), dial, unsub(t2), dial}, nil, []*Term{t1}, -1},
		{"after a connection was lost", steps{sub(t1), dial, lose(0), sub(t2), dial}, nil, []*Term{t1, t2}, -1},
		{"after the only connection was lost", steps{dial, lose(0), sub(t1), dial}, nil, []*Term{t1}, -1},
		{"after one of two connections was lost", steps{dial, dial, lose(0), sub(t1), dial}, nil, []*Term{t1}, -1},
		{"after the other of two connections was lost", steps{dial, dial, lose(1), sub(t1), dial}, nil, []*Term{t1}, -1},
		{"with an accepted connection", steps{listen, sub(t1), sub(t2), accept}, nil, []*Term{t1, t2}, -1},
		{"on an accepted connection", steps{listen, accept, sub(t1), unsub(t2)}, nil, []*Term{t1}, -1},
		{"while the writes to the first connection fail", steps{dial, sub(t1), sub(t2), dial}, nil, []*Term{t1, t2}, 0},
		{"while the writes to the second connection fail", steps{sub(t1), dial, dial, sub(t2), dial}, nil, []*Term{t1, t2}, 1},
	}
	cp := func(s subStep) *subStep { return &s }
	for _, x := range []struct {
		what  string
		steps steps
		with  *subStep
	}{
		{"when a connection is made during the subscription", steps{sub(t1)}, cp(dial)},
		{"when another connection is made during the subscription", steps{dial, sub(t1)}, cp(dial)},
		{"when a connection is accepted during the subscription", steps{listen, sub(t1)}, cp(accept)},
		{"when the subscription comes while a connection is made", steps{dial}, cp(sub(t1))},
		{"when the subscription comes while another connection is made", steps{dial, dial}, cp(sub(t1))},
		{"when the subscription comes while a connection is accepted", steps{listen, accept}, cp(sub(t1))},
		{"when a connection is lost during the subscription", steps{dial, dial, sub(t1)}, cp(lose(0))},
		{"when two connections are made at once", steps{sub(t1), dial}, cp(dial)},
		{"when a connection is made while one is lost", steps{sub(t1), dial, lose(0)}, cp(dial)},
	} {
		cases = append(cases, struct {
			what  string
			steps steps
			with  *subStep
			is    []*Term
			fails int
		}{x.what, x.steps, x.with, []*Term{t1}, -1})
	}
	for _, cs := range cases {
		sts := []*State{st0}
		if cs.fails >= 0 {
			c.fails = func(st *State, conn *Term) bool {
				return len(c.conns(st)) > cs.fails && c.conns(st)[cs.fails] == conn
			}
		}
		for i, s := range cs.steps {
			var next []*State
			if i == len(cs.steps)-1 && cs.with != nil {
				c.between, c.meanwhile = cs.with.run, cs.with.what
			}
			for _, st := range sts {
				next = append(next, s.run(st)...)
			}
			if c.between != nil {
				c.between = nil
				r.count("points in between", c.points)
				c.points = 0
			}
			sts = next
		}
		c.fails = nil
		some := false
		for _, st := range sts {
			if cs.with != nil && st.props["between"] == nil {
				continue
			}
			lost := map[*Term]bool{}
			if v := st.props["lost"]; v != nil {
				for _, a := range v.args {
					lost[a] = true
				}
			}
			subscribed := map[*Term]bool{}
			for _, t := range cs.is {
				subscribed[t] = true
			}
			for i, conn := range c.conns(st) {
				if lost[conn] || i == cs.fails {
					continue
				}
				some = true
				for k, t := range []*Term{t1, t2, none} {
					name := []string{"topic 1", "topic 2", "the empty topic"}[k]
					got := c.told(st, conn, t)
					if subscribed[t] && got != 1 {
						if os.Getenv("SCENE") != "" {
							fmt.Fprintln(os.Stderr, "TOLD", i, conn, "lost:", st.props["lost"])
							for _, w := range c.wrote(st) {
								fmt.Fprintln(os.Stderr, "   ", w)
							}
						}
						r.fail("lost", where, trail(st), "%s, a peer does not learn of the subscription to %s", cs.what, name)
					} else if !subscribed[t] && got == 1 {
						r.fail("stale", where, trail(st), "%s, a peer is told that there is a subscription to %s", cs.what, name)
					} else {
						r.ok("%s", cs.what)
					}
				}
			}
		}
		if !some && len(c.problems) == 0 {
			r.fail("path", where, nil, "%s: no path leads there", cs.what)
		}
	}
	return len(cases)
}
