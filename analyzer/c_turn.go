package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

func init() {
	register("C22", checkC22)
	register("C23", checkC23)
}

// word is a non-empty string that nothing is known about.
func (c *scene) word(st *State, name string) *Term {
	v := c.ts.sym(name, types.Typ[types.String])
	st.Assume(c.ts.ge(c.ts.linComb(st.lenOf(v), 1, nil, 0, -1)), true)
	st.pins = append(st.pins[:len(st.pins):len(st.pins)], v)
	return v
}

// frame is a frame that nothing is known about; rest are more of them.
func (c *scene) frame(name string) *Term { return c.ts.sym("frame:"+name, bytesT) }
func (c *scene) rest(name string) *Term  { return c.ts.sym("frames:"+name, framesT) }

// bytesOf is a string as a frame.
func (c *scene) bytesOf(s *Term) *Term {
	return c.ts.conv(types.Typ[types.String], bytesT, s)
}

// equal states that two frames are equal, or not.
func (c *scene) equal(st *State, a, b *Term, val bool) bool {
	t := st.eqBytes(a, b)
	ok := st.Assume(t, val)
	for _, x := range []*Term{a, b} {
		st.pins = append(st.pins[:len(st.pins):len(st.pins)], x)
	}
	return ok
}

// isErr: 1 an error, 0 none, -1 not known.
func (c *scene) isErr(st *State, e *Term) int {
	if v, k := st.Eval(c.ts.eq(e, c.ts.Nil)); k {
		if v {
			return 0
		}
		return 1
	}
	return -1
}

// trail is how the state came about.
func trail(st *State) []string { return st.Trace() }

// randoms are the random bytes in the value.
func randoms(v *Term) string {
	var out []string
	v.contains(func(x *Term) bool {
		if x.op == "sym" && strings.HasPrefix(x.aux, "rand:") {
			out = append(out, x.aux)
		}
		return false
	})
	sort.Strings(out)
	return strings.Join(out, " ")
}

// received checks what Recv returns.
func (c *scene) received(r *Report, key, what string, o outcome, want *Term) bool {
	where := c.s.name[3:]
	if o.res == nil {
		r.fail(key+"-lost", where, trail(o.st), "%s, Recv waits although the message has come", what)
		return false
	}
	if c.isErr(o.st, o.res[1]) != 0 {
		r.fail(key+"-error", where, trail(o.st), "%s, Recv reports %s", what, o.res[1].show(2))
		return false
	}
	got := o.st.field(o.res[0], o.res[0].typ, c.frames)
	if !c.same(o.st, got, want) {
		r.fail(key+"-frames", where, trail(o.st), "%s, Recv returns the frames %s instead of %s", what, c.show(o.st, got), c.show(o.st, want))
		return false
	}
	return true
}

// written checks what has been written to whom since n writes.
func (c *scene) written(r *Report, key, what string, st *State, n int, conn []*Term, want *Term) bool {
	where := c.s.name[3:]
	got := c.wrote(st)[n:]
	name := func(x *Term) string {
		for i, k := range c.conns(st) {
			if k == x {
				return []string{"the first peer", "the second peer", "the third peer", "the fourth peer"}[i]
			}
		}
		return "another connection"
	}
	left := append([]*Term(nil), conn...)
	for _, w := range got {
		at := -1
		for i, k := range left {
			if k == w.args[0] {
				at = i
			}
		}
		if at < 0 {
			r.fail(key+"-to", where, trail(st), "%s, a message is written to %s, which it is not for, or twice", what, name(w.args[0]))
			return false
		}
		left = append(left[:at:at], left[at+1:]...)
		fr := st.field(w.args[1], w.args[1].typ, c.frames)
		if want != nil && !c.same(st, fr, want) {
			r.fail(key+"-what", where, trail(st), "%s, the frames written are %s instead of %s", what, c.show(st, fr), c.show(st, want))
			return false
		}
	}
	if len(left) > 0 {
		r.fail(key+"-none", where, trail(st), "%s, nothing is written to %s", what, name(left[0]))
		return false
	}
	return true
}

// ---- C22

func checkC22(p *Program, r *Report) {
	r.rule("For each constructor of a ROUTER socket the states of the socket after two connections were made are computed by dataflow from the constructor's, following Dial through addConn; the peers announce arbitrary different identities, empty ones or none.")
	r.rule("On every path of Recv after a message with arbitrary frames was read by a connection's goroutine: the result's frames are the identity of that connection followed by the frames that came.")
	r.rule("On every path of Send and SendMulti for a message [f0, f1, rest...], split by what f0 equals: exactly the connections with identity f0 are written to, once, and [f1, rest...] is written; without frames it is an error and nothing is written.")
	r.rule("An identity given by the socket derives from its own random bytes, is not empty, and is there before the connection's goroutine starts.")
	r.assume("crypto/rand yields different bytes each time; two announced identities differ; reads and writes of a connection as in C10, C12, C13.")
	n := 0
	for _, s := range p.alone("Router") {
		for _, known := range []string{"announced", "none", "empty"} {
			c := p.newScene(s)
			st0 := c.start()
			what := "with " + map[string]string{"announced": "announced identities", "none": "peers that announce no identity", "empty": "peers that announce an empty identity"}[known]
			if known == "announced" {
				for i := 0; i < 2; i++ {
					c.ident[i] = c.word(st0, []string{"identity:1", "identity:2"}[i])
				}
				c.equal(st0, c.ident[0], c.ident[1], false)
			} else if known == "empty" {
				c.ident[0], c.ident[1] = c.ts.str(""), c.ts.str("")
			}
			c.onEv = func(st *State, ev *Event) {
				if ev.Kind != "go" || ev.Fn == nil {
					return
				}
				for _, conn := range c.conns(st) {
					for _, a := range ev.Args[1:] {
						if a == conn && st.lenOf(c.identity(st, conn)) == c.ts.Zero {
							r.fail("late-"+known, s.name[3:], trail(st), "%s: a goroutine starts for a connection before its peer has an identity", what)
						}
					}
				}
			}
			sts := c.dial(c.dial([]*State{st0}))
			for _, st := range sts {
				c.routerCase(r, st, what, known)
				n++
			}
			c.onEv = nil
			if len(sts) == 0 {
				r.fail("dial-"+known, s.name[3:], nil, "%s: no path leads to two connections", what)
			}
			c.report(r)
		}
	}
	r.count("states with two peers", n)
	r.atLeast("states with two peers", 3)
}

func (c *scene) routerCase(r *Report, st *State, what, known string) {
	where := c.s.name[3:]
	conns := c.conns(st)
	ids := []*Term{c.identity(st, conns[0]), c.identity(st, conns[1])}
	if known == "announced" {
		for i := range ids {
			if v, k := st.Eval(st.eqBytes(ids[i], c.ident[i])); !k || !v {
				r.fail("identity-kept", where, trail(st), "%s: the identity of a peer becomes %s", what, ids[i].show(3))
				return
			}
		}
	} else {
		for i := range ids {
			if v, k := st.Eval(c.ts.ge(c.ts.linComb(st.lenOf(ids[i]), 1, nil, 0, -1))); !k || !v {
				r.fail("identity-none", where, trail(st), "%s: the peer gets no identity (%s)", what, ids[i])
				return
			}
		}
		a, b := randoms(ids[0]), randoms(ids[1])
		if a == "" || b == "" || a == b {
			r.fail("identity-unique", where, trail(st), "%s: the identities given do not come from random bytes of their own", what)
			return
		}
		if !c.equal(st, ids[0], ids[1], false) {
			r.fail("identity-unique", where, trail(st), "%s: the identities given are equal", what)
			return
		}
	}
	r.ok("%s: each peer has its identity", what)
	for i := range ids {
		ids[i] = c.bytesOf(ids[i])
	}

	// receiving
	var in []*Term
	for i := range conns {
		in = append(in, c.list(c.frame("in"+string(rune('1'+i))), c.rest("in"+string(rune('1'+i)))))
	}
	for _, order := range [][]int{{0}, {1}, {0, 1}, {1, 0}, {0, 0}} {
		x := []*State{st}
		for _, i := range order {
			for j := range x {
				x[j] = c.script(x[j], conns[i], c.message("in"+string(rune('1'+i)), in[i]))
			}
			x = c.serve(x)
		}
		if len(x) == 0 {
			r.fail("listen", where, nil, "%s: no path reads the message %v", what, order)
		}
		for _, i := range order {
			var next []*State
			for _, y := range x {
				for _, o := range c.do(y, "Recv") {
					if c.received(r, "recv", what, o, c.list(ids[i], in[i])) {
						next = append(next, o.st)
						r.ok("%s: Recv returns identity and frames", what)
					}
				}
			}
			x = next
		}
		for _, y := range x {
			for _, o := range c.do(y, "Recv") {
				r.check(o.res == nil, "recv-more", where, "%s, Recv returns nothing when there is no message left", what)
			}
		}
	}

	// sending
	f0, f1, rest := c.frame("to"), c.frame("body"), c.rest("body")
	for _, m := range []string{"Send", "SendMulti"} {
		for to := -1; to < 2; to++ {
			for _, long := range []bool{true, false} {
				x := st.Fork()
				n := len(c.wrote(x))
				var want []*Term
				w := what + ", sending to an identity that no peer has"
				for i := range conns {
					c.equal(x, f0, ids[i], i == to)
					if i == to {
						want = append(want, conns[i])
						w = what + ", sending to a peer's identity"
					}
				}
				body := c.list(f1, rest)
				if !long {
					body = c.list(f1)
				}
				outs := c.do(x, m, c.message("out", f0, body))
				if len(outs) == 0 {
					r.fail("send-path", where, nil, "%s: %s has no path", w, m)
				}
				for _, o := range outs {
					if o.res == nil {
						r.fail("send-waits", where, trail(o.st), "%s, %s waits", w, m)
						continue
					}
					if c.written(r, "send", w, o.st, n, want, body) {
						r.ok("%s: %s", w, m)
					}
					if to >= 0 && c.isErr(o.st, o.res[0]) != 0 {
						r.fail("send-error", where, trail(o.st), "%s, %s reports an error although the message was written", w, m)
					}
				}
			}
		}
		x := st.Fork()
		for _, o := range c.do(x, m, c.message("no frames")) {
			ok := o.res != nil && c.isErr(o.st, o.res[0]) == 1 && len(c.wrote(o.st)) == len(c.wrote(x))
			r.check(ok, "send-empty", where, "%s, %s of a message without frames fails and writes nothing", what, m)
		}
	}
}

// ---- C23

func checkC23(p *Program, r *Report) {
	r.rule("For each constructor of a REQ socket the states after three connections were made are computed by dataflow from the constructor's. On every path of a sequence of Send and Recv, with and without failing connections: each request is written once, behind one empty frame, to one connection; three successful requests in a row use all three connections; a connection whose write fails is skipped for the next; Recv reads from the connection last written to and returns what follows the first frame.")
	r.rule("For each constructor of a REP socket, with two connections and arbitrary request bodies behind envelopes of zero to two non-empty frames and an empty one: Recv returns what follows the first empty frame; the reply is written once, to the connection of the request, behind exactly its envelope; a second reply, one without a request and one to a malformed request fail and write nothing; nothing is written when the connection of the request is gone.")
	r.assume("no two operations of the socket run at the same time; writes and reads of a connection as in C12 and C13.")
	for _, s := range p.alone("Req") {
		c := p.newScene(s)
		sts := c.dial(c.dial(c.dial([]*State{c.start()})))
		for _, st := range sts {
			c.reqCase(r, st)
		}
		if len(sts) == 0 {
			r.fail("dial", s.name[3:], nil, "no path leads to three connections")
		}
		r.count("REQ states with three peers", len(sts))
		x := c.start()
		for _, o := range c.do(x, "Send", c.message("alone", c.frame("alone"))) {
			r.check(o.res != nil && c.isErr(o.st, o.res[0]) == 1, "alone", s.name[3:], "Send of a request without a connection reports an error")
		}
		c.report(r)
	}
	r.atLeast("REQ states with three peers", 1)
	for _, s := range p.alone("Rep") {
		c := p.newScene(s)
		sts := c.dial(c.dial([]*State{c.start()}))
		for _, st := range sts {
			c.repCase(r, st)
		}
		if len(sts) == 0 {
			r.fail("dial", s.name[3:], nil, "no path leads to two connections")
		}
		r.count("REP states with two peers", len(sts))
		c.report(r)
	}
	r.atLeast("REP states with two peers", 1)
}

// ask sends a request and says to whom it went.
func (c *scene) ask(r *Report, sts []*State, what string, k int) (out []*State, to []*Term) {
	where := c.s.name[3:]
	body := c.list(c.frame(fmt.Sprint("request", k)), c.rest(fmt.Sprint("request", k)))
	m := []string{"Send", "SendMulti"}[k%2]
	for _, st := range sts {
		n := len(c.wrote(st))
		outs := c.do(st, m, c.message(fmt.Sprint("request", k), body))
		if len(outs) == 0 {
			r.fail("ask-path", where, nil, "%s: %s has no path", what, m)
		}
		for _, o := range outs {
			if o.res == nil {
				r.fail("ask-waits", where, trail(o.st), "%s, %s waits", what, m)
				continue
			}
			if c.isErr(o.st, o.res[0]) != 0 {
				r.fail("ask-error", where, trail(o.st), "%s, %s reports an error", what, m)
				continue
			}
			w := c.wrote(o.st)[n:]
			if len(w) != 1 {
				r.fail("ask-writes", where, trail(o.st), "%s, %d messages are written for one request", what, len(w))
				continue
			}
			fr := o.st.field(w[0].args[1], w[0].args[1].typ, c.frames)
			if !c.same(o.st, fr, c.list(c.ts.str(""), body)) {
				r.fail("ask-what", where, trail(o.st), "%s, the frames written are %s, not an empty frame and those of the request", what, c.show(o.st, fr))
				continue
			}
			r.ok("%s: one request behind an empty frame", what)
			out = append(out, o.st)
			to = append(to, w[0].args[0])
		}
	}
	return
}

// answer: every peer sends something; the reply comes from the one that was asked.
func (c *scene) answer(r *Report, st *State, what string, k int, from *Term) (out []*State) {
	var want *Term
	for i, conn := range c.conns(st) {
		body := c.list(c.frame(fmt.Sprint("reply", k, i)), c.rest(fmt.Sprint("reply", k, i)))
		st = c.script(st, conn, c.message(fmt.Sprint("reply", k, i), c.ts.str(""), body))
		if conn == from {
			want = body
		}
	}
	for _, o := range c.do(st, "Recv") {
		if c.received(r, "reply", what, o, want) {
			r.ok("%s: the reply comes from the connection asked", what)
			// the others' messages are gone for the next round
			for _, conn := range c.conns(o.st) {
				delete(o.st.props, fmt.Sprintf("script%d", conn.id))
			}
			out = append(out, o.st)
		}
	}
	return
}

func (c *scene) reqCase(r *Report, st0 *State) {
	where := c.s.name[3:]
	conns := c.conns(st0)
	// requests and replies in turn
	type path struct {
		st *State
		to []*Term
	}
	paths := []path{{st0, nil}}
	for k := 0; k < 7; k++ {
		var next []path
		for _, x := range paths {
			sts, to := c.ask(r, []*State{x.st}, "in turn", k)
			for i, st := range sts {
				ss := []*State{st}
				if k != 3 {
					ss = c.answer(r, st, "in turn", k, to[i])
				}
				for _, y := range ss {
					next = append(next, path{y, append(x.to[:len(x.to):len(x.to)], to[i])})
				}
			}
		}
		paths = next
	}
	for _, x := range paths {
		for i := 0; i+2 < len(x.to); i++ {
			ok := x.to[i] != x.to[i+1] && x.to[i] != x.to[i+2] && x.to[i+1] != x.to[i+2]
			r.check(ok, "turn", where, "three requests in a row go to three connections")
		}
	}
	// connections that fail
	for mask := 1; mask < 8; mask++ {
		bad := map[*Term]bool{}
		for i := range conns {
			bad[conns[i]] = mask>>i&1 == 1
		}
		c.fails = func(st *State, conn *Term) bool { return bad[conn] }
		if mask == 7 {
			for _, o := range c.do(st0, "Send", c.message("nobody", c.frame("nobody"))) {
				r.check(o.res != nil && c.isErr(o.st, o.res[0]) == 1, "all-fail", where, "Send reports an error when every connection fails")
			}
		} else {
			for _, k := range []int{0, 1} {
				sts, to := c.ask(r, []*State{st0}, "with failing connections", k)
				for i, st := range sts {
					for _, y := range c.answer(r, st, "with failing connections", k, to[i]) {
						// from there the next
						sts2, to2 := c.ask(r, []*State{y}, "with failing connections", k+2)
						for j, z := range sts2 {
							c.answer(r, z, "with failing connections", k+2, to2[j])
						}
					}
				}
			}
		}
		c.fails = nil
	}
	// the connection that was asked is lost: there is no reply, whatever the others send
	sts, to := c.ask(r, []*State{st0}, "before a loss", 8)
	for i, st := range sts {
		for _, y := range c.lose(st, to[i]) {
			z := y
			for k, conn := range conns {
				z = c.script(z, conn, c.message("stray", c.frame(fmt.Sprint("stray", k)), c.frame("stray")))
			}
			for _, o := range c.do(z, "Recv") {
				ok := o.res == nil || c.isErr(o.st, o.res[1]) == 1
				r.check(ok, "reply-lost", where, "after the connection that was asked is lost, Recv returns no other message")
			}
			a, to2 := c.ask(r, []*State{y}, "after a loss", 9)
			for j, z := range a {
				r.check(to2[j] != to[i], "ask-lost", where, "a request after a loss goes to another connection")
				c.answer(r, z, "after a loss", 9, to2[j])
			}
			r.count("losses", 1)
		}
		// another one is lost: the reply still comes
		for _, other := range conns {
			if other == to[i] {
				continue
			}
			for _, y := range c.lose(st, other) {
				for _, z := range c.answer(r, y, "after the loss of another connection", 8, to[i]) {
					a, to2 := c.ask(r, []*State{z}, "after the loss of another connection", 9)
					for j, z := range a {
						r.check(to2[j] != other, "ask-lost", where, "a request after a loss goes to another connection")
						c.answer(r, z, "after the loss of another connection", 9, to2[j])
					}
				}
				r.count("losses of others", 1)
			}
		}
	}
	r.atLeast("losses of others", 2)
	r.atLeast("losses", 2)
}

// lose: the connection reports that it is closed, and the goroutines take it out.
func (c *scene) lose(st *State, conn *Term) []*State {
	T := c.p.mustType("Conn")
	s := structOf(T)
	var cb *Term
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "onCloseErrorCB" {
			cb = st.loadPlain(st.fa(types.NewPointer(T), conn, i), s.Field(i).Type())
		}
	}
	if cb == nil {
		fatalf("anchor not found: Conn.onCloseErrorCB")
	}
	fn, free := c.s.f.calleeOf(cb)
	if fn == nil {
		c.problems = append(c.problems, "the callback of a lost connection is not known")
		return nil
	}
	var out []*State
	for _, o := range c.exec(st, fn, []*Term{conn}, free) {
		if o.res != nil {
			out = append(out, c.serve([]*State{o.st})...)
		}
	}
	return out
}

func (c *scene) repCase(r *Report, st0 *State) {
	where := c.s.name[3:]
	conns := c.conns(st0)
	empty := c.ts.str("")
	long := func(st *State, name string) *Term {
		v := c.frame(name)
		st.Assume(c.ts.ge(c.ts.linComb(st.lenOf(v), 1, nil, 0, -1)), true)
		st.pins = append(st.pins[:len(st.pins):len(st.pins)], v)
		return v
	}
	request := func(st *State, conn *Term, name string, fs ...*Term) []*State {
		out := c.serve([]*State{c.script(st, conn, c.message("request:"+name, fs...))})
		if len(out) == 0 {
			r.fail("listen", where, nil, "no path reads the request")
		}
		return out
	}
	take := func(st *State, what string, want *Term) (out []*State) {
		for _, o := range c.do(st, "Recv") {
			if c.received(r, "request", what, o, want) {
				r.ok("%s: Recv returns the body", what)
				out = append(out, o.st)
			}
		}
		return
	}
	reply := func(st *State, what string, conn, envelope *Term) (out []*State) {
		for k, m := range []string{"Send", "SendMulti"} {
			n := len(c.wrote(st))
			body := c.list(c.frame("reply"), c.rest("reply"))
			for _, o := range c.do(st, m, c.message("reply", body)) {
				if o.res == nil || c.isErr(o.st, o.res[0]) != 0 {
					r.fail("reply-error", where, trail(o.st), "%s, %s fails", what, m)
					continue
				}
				for _, x := range c.serve([]*State{o.st}) {
					var to []*Term
					if conn != nil {
						to = append(to, conn)
					}
					if c.written(r, "reply", what, x, n, to, c.list(envelope, body)) {
						r.ok("%s: the reply is written", what)
						if k == 0 {
							out = append(out, x)
						}
					}
				}
			}
		}
		return
	}
	nothing := func(st *State, key, what string) {
		n := len(c.wrote(st))
		for _, o := range c.do(st, "Send", c.message("unasked", c.frame("unasked"))) {
			bad := o.res == nil || c.isErr(o.st, o.res[0]) != 1
			for _, x := range c.serve([]*State{o.st}) {
				bad = bad || len(c.wrote(x)) != n
			}
			r.check(!bad, key, where, "%s, Send fails and writes nothing", what)
		}
	}
	nothing(st0, "unasked", "without a request")

	for shape := 0; shape < 5; shape++ {
		for i := range conns {
			st := st0.Fork()
			var env []*Term
			for k := 0; k < shape%3; k++ {
				env = append(env, long(st, fmt.Sprint("envelope", k)))
			}
			env = append(env, empty)
			body := []*Term{c.frame("body"), c.rest("body")}
			if shape == 3 {
				body = []*Term{empty, c.frame("body")}
			}
			if shape == 4 {
				body = []*Term{c.frame("body"), empty, c.frame("body2")}
			}
			what := fmt.Sprintf("with an envelope of %d frames", len(env))
			for _, a := range request(st, conns[i], "1", append(env[:len(env):len(env)], body...)...) {
				for _, b := range take(a, what, c.list(body...)) {
					for _, d := range reply(b, what, conns[i], c.list(env...)) {
						nothing(d, "again", "after the reply")
					}
					// another request before the reply
					other := []*Term{long(b, "other"), empty}
					ob := c.list(c.frame("otherbody"))
					for _, e := range request(b, conns[1-i], "2", append(other[:2:2], ob)...) {
						// still queued
						for _, d := range reply(e, "with another request waiting", conns[i], c.list(env...)) {
							nothing(d, "again-queued", "after the reply, with another request waiting")
							for _, g := range take(d, "after the reply", ob) {
								reply(g, "to the next request", conns[1-i], c.list(other...))
							}
						}
						for _, g := range take(e, "without a reply to the first", ob) {
							for _, h := range reply(g, "to the last of two requests", conns[1-i], c.list(other...)) {
								nothing(h, "again-two", "after the reply to the last of two requests")
							}
						}
					}
					if shape == 1 {
						for _, l := range c.lose(b, conns[i]) {
							n := len(c.wrote(l))
							for _, o := range c.do(l, "Send", c.message("late", c.frame("late"))) {
								for _, x := range c.serve([]*State{o.st}) {
									r.check(len(c.wrote(x)) == n, "late", where, "nothing is written when the connection of the request is gone")
									r.count("lost requests", 1)
								}
							}
						}
						for _, l := range c.lose(b, conns[1-i]) {
							for _, d := range reply(l, "after the loss of another connection", conns[i], c.list(env...)) {
								nothing(d, "again-lost", "after the reply, and the loss of another connection")
							}
						}
					}
				}
			}
		}
	}
	r.atLeast("lost requests", 2)
	// malformed
	for i := range conns {
		st := st0.Fork()
		for _, a := range request(st, conns[i], "malformed", long(st, "malformed1"), long(st, "malformed2")) {
			for _, o := range c.do(a, "Recv") {
				if o.res == nil || c.isErr(o.st, o.res[1]) != 1 {
					r.fail("malformed", where, trail(o.st), "Recv of a request without an empty frame reports no error")
					continue
				}
				nothing(o.st, "malformed-reply", "after a malformed request")
			}
		}
		// an envelope and no body
		for _, a := range request(st0, conns[i], "no body", empty) {
			for _, b := range take(a, "without a body", c.list()) {
				reply(b, "without a body", conns[i], c.list(empty))
			}
		}
	}
}
