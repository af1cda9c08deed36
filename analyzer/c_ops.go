package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C07", checkC07)
	register("C08", checkC08)
}

// msgField is the index of the only field of Msg with the given type.
func (p *Program) msgField(is func(t types.Type) bool) int {
	st := structOf(p.mustType("Msg"))
	at := -1
	for i := 0; i < st.NumFields(); i++ {
		if is(st.Field(i).Type()) {
			if at >= 0 {
				fatalf("several fields of Msg have the type looked for")
			}
			at = i
		}
	}
	if at < 0 {
		fatalf("no field of Msg has the type looked for")
	}
	return at
}

func isErrType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func isFrames(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	s, ok = s.Elem().Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), types.Typ[types.Byte])
}

// recvRun follows messages from the connections to Recv.
type recvRun struct {
	p          *Program
	r          *Report
	f          *Flow
	frames, er int
	readers    map[*ssa.Function]bool
	follow     bool // note what was received
}

func (p *Program) newRecvRun(r *Report, f *Flow) *recvRun {
	x := &recvRun{p: p, r: r, f: f, frames: p.msgField(isFrames), er: p.msgField(isErrType), readers: map[*ssa.Function]bool{}}
	for _, fn := range p.connReaders() {
		x.readers[fn] = true
	}
	return x
}

// got notes a message that came from a peer. v may be a struct that holds one.
func (x *recvRun) got(st *State, v *Term) {
	if m := x.messageIn(v); m != nil && x.follow {
		st.props["got"] = m
	}
}

// messageIn finds the message in a value.
func (x *recvRun) messageIn(v *Term) *Term {
	if v.op != "agg" {
		return nil
	}
	if v.aux == x.p.typeName(x.p.mustType("Msg")) {
		return v
	}
	for _, a := range v.args {
		if m := x.messageIn(a); m != nil {
			return m
		}
	}
	return nil
}

func (x *recvRun) call(st *State, ci *CallInfo) []Out {
	if ci.Seen {
		return nil
	}
	if ci.Fn == nil || !x.readers[ci.Fn] {
		return nil
	}
	ci.Seen = true
	nm := st.name(ci.Ins)
	st.kill("peer:" + nm)
	res := ci.Ins.Common().Signature().Results()
	m := st.unknown("peer:"+nm, res.At(0).Type())
	x.got(st, m)
	if res.Len() == 1 {
		return []Out{{st, m}}
	}
	// the error beside the message is the message's own
	return []Out{{st, x.f.ts.mk("agg", "tuple", res, m, m.args[x.er])}}
}

// fromPeer: the frames are, or are part of, those of a message that was
// received; its error is yielded.
func (x *recvRun) fromPeer(m *Term) *Term {
	st := structOf(x.p.mustType("Msg"))
	var e *Term
	fr := "." + st.Field(x.frames).Name()
	m.args[x.frames].contains(func(t *Term) bool {
		if t.op == "sym" && strings.HasPrefix(t.aux, "peer") && strings.HasSuffix(t.aux, fr) {
			e = x.f.ts.sym(strings.TrimSuffix(t.aux, fr)+"."+st.Field(x.er).Name(), st.Field(x.er).Type())
			return true
		}
		return false
	})
	return e
}

func (x *recvRun) client() Client {
	return Client{MaxDepth: 24, Call: x.call, Model: x.call,
		RecvVal: func(st *State, ch *Term, et types.Type) *Term {
			if !x.p.peerData(et) {
				return nil
			}
			v := st.unknown("peer chan:"+st.epoch, et)
			x.got(st, v)
			return v
		},
		RecvOk: func(st *State, ch, v, ok *Term) {
			if x.messageIn(v) != nil && x.follow {
				st.props["open"] = ok
			}
		}}
}

// isNilFact: the value is known to be nil.
func isNilFact(st *State, t *Term) bool {
	v, k := st.Eval(st.ts().eq(t, st.ts().Nil))
	return k && v
}

// starters are the functions that go statements of the module run, and the
// goroutines' own code.
func (p *Program) goTargets() []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	add := func(fn *ssa.Function) {
		if fn != nil && len(fn.Blocks) > 0 && !seen[fn] {
			seen[fn] = true
			out = append(out, fn)
		}
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				g, ok := ins.(*ssa.Go)
				if !ok {
					continue
				}
				if c := g.Call.StaticCallee(); c != nil {
					add(c)
				} else if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
					add(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// reaches: one of the functions can be called, directly or not.
func (p *Program) reaches(fn *ssa.Function, to map[*ssa.Function]bool) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		if to[f] {
			return true
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok && visit(c.Common().StaticCallee()) {
					return true
				}
			}
		}
		for _, a := range f.AnonFuncs {
			if visit(a) {
				return true
			}
		}
		return false
	}
	return visit(fn)
}

// reachesNow: without the goroutines that it starts.
func (p *Program) reachesNow(fn *ssa.Function, to map[*ssa.Function]bool) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		if to[f] {
			return true
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if _, ok := ins.(*ssa.Go); ok {
					continue
				}
				if c, ok := ins.(ssa.CallInstruction); ok && visit(c.Common().StaticCallee()) {
					return true
				}
			}
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if m, ok := ins.(*ssa.MakeClosure); ok {
					started := len(*m.Referrers()) > 0
					for _, u := range *m.Referrers() {
						if _, ok := u.(*ssa.Go); !ok {
							started = false
						}
					}
					if !started && visit(m.Fn.(*ssa.Function)) {
						return true
					}
				}
			}
		}
		return false
	}
	return visit(fn)
}

func checkC07(p *Program, r *Report) {
	r.rule("for every socket type, from the memory its constructor leaves: every path of Recv that may return a nil error has received a message whose own error is known to be nil, from a connection or from a channel that is open, and returns frames of that message")
	r.rule("for every goroutine of the module that reads messages of a connection: a message it puts on a channel either carries a non-nil error, or the frames of a message that was read together with that message's own error")
	r.assume("what is received from a channel was sent by the goroutines of the second rule; a request without a body is a message without frames")
	readers := map[*ssa.Function]bool{}
	for _, fn := range p.connReaders() {
		readers[fn] = true
	}
	for _, s := range p.instances() {
		x := p.newRecvRun(r, s.f)
		x.follow = true
		before := len(r.Findings)
		n, good := 0, 0
		c := x.client()
		envelope := strings.HasSuffix(s.name, "Rep")
		c.Return = func(st *State, res []*Term, ins ssa.Instruction) {
			n++
			err := res[len(res)-1]
			if !st.mayBeNil(err) {
				return
			}
			at := p.instrPos(ins)
			fail := func(key, msg string, a ...any) {
				r.fail("nothing:"+s.name+":"+key, at, st.Trace(), "Recv of a %s socket may return a nil error %s", strings.TrimPrefix(s.name, "New"), fmt.Sprintf(msg, a...))
			}
			got := st.props["got"]
			if got == nil {
				fail("none", "without having received a message")
				return
			}
			if ok := st.props["open"]; ok != nil {
				if v, k := st.Eval(ok); !k || !v {
					fail("closed", "with what a closed channel yields")
					return
				}
			}
			e := x.fromPeer(res[0])
			switch {
			case e == nil && envelope && st.subst(st.lenOf(res[0].args[x.frames])) == x.f.ts.Zero:
				e = got.args[x.er]
			case e == nil:
				fail("other", "together with something else than the message that was received (%v)", res[0].args[x.frames])
				return
			}
			if !isNilFact(st, e) && e != err {
				fail("err", "although the message that was received carries an error")
				return
			}
			good++
		}
		s.client(c)
		s.run(s.st.Fork(), "recv", "Recv")
		r.problems(s.f, s.name+".Recv")
		if good == 0 && len(r.Findings) == before && s.name != "NewPub" && s.name != "NewPush" {
			r.fail("vacuous:"+s.name, p.pos(s.method("Recv").Pos()), nil, "Recv of %s never returns a message", s.name)
		}
		if len(r.Findings) == before {
			r.ok("%s.Recv: %d paths, %d with a message", s.name, n, good)
		}
		r.count("sockets", 1)
	}
	for _, fn := range p.goTargets() {
		if !p.reaches(fn, readers) {
			continue
		}
		before := len(r.Findings)
		f := p.newFlow(Client{})
		x := p.newRecvRun(r, f)
		c := x.client()
		sent := 0
		c.Event = func(st *State, ev *Event) {
			var v *Term
			switch ev.Kind {
			case "send":
				v = ev.Args[1]
			case "selected":
				if len(ev.Args) < 2 {
					return
				}
				v = ev.Args[1]
			default:
				return
			}
			m := x.messageIn(v)
			if m == nil {
				return
			}
			sent++
			err := m.args[x.er]
			if !st.mayBeNil(err) {
				return
			}
			at := p.instrPos(ev.Ins)
			e := x.fromPeer(m)
			if e == nil {
				r.fail("made:"+fn.String(), at, st.Trace(), "%s passes on something else than the message that was read (%v), without an error", fn, m.args[x.frames])
			} else if e != err && !isNilFact(st, e) {
				r.fail("lost:"+fn.String(), at, st.Trace(), "%s passes on a message without the error it was read with", fn)
			}
		}
		f.c = c
		st := f.newState()
		args, free := f.params(st, fn)
		f.RunKey("go", st, fn, args, free)
		r.problems(f, fn.String())
		r.count("messages passed on", sent)
		if len(r.Findings) == before {
			r.ok("%s: %d messages passed on", fn, sent)
		}
	}
	r.atLeast("sockets", 12)
	r.atLeast("messages passed on", 3)
}

// params are unknown arguments for fn.
func (f *Flow) params(st *State, fn *ssa.Function) (args, free []*Term) {
	for i, pr := range fn.Params {
		v := f.Param("param:"+pr.Name(), pr.Type())
		if i == 0 && fn.Signature.Recv() != nil {
			if _, ok := pr.Type().Underlying().(*types.Pointer); ok {
				st.facts[f.ts.eq(v, f.ts.Nil)] = false
			}
		}
		st.pins = append(st.pins, v)
		args = append(args, v)
	}
	for _, fv := range fn.FreeVars {
		v := f.Free(fv)
		st.facts[f.ts.eq(v, f.ts.Nil)] = false
		st.pins = append(st.pins, v)
		free = append(free, v)
	}
	return
}

// sendRun follows what Send does with its message.
type sendRun struct {
	p *Program
	s *sockInst
}

// checkC08: success of Send.
func checkC08(p *Program, r *Report) {
	r.rule("for every socket type but PUB, XPUB and ROUTER, from the memory its constructor leaves and with any connections in its pools: every path of Send and SendMulti that may return a nil error has either written to a connection with no error, the message given being what was written (behind the empty delimiter for REQ), or, for REP, put the message on a channel together with the connection that the request came from")
	r.rule("every path of Conn.SendMsg that returns no error, for messages of up to three frames, plain and transformed, has written all frames of the message (as in C12)")
	r.assume("net.Conn.Write without an error wrote everything; golang.org/x/sync/errgroup reports an error exactly when one of its functions does")
	fi := p.msgField(isFrames)
	send := p.connMethod("SendMsg")
	connT := p.mustType("Conn")
	for _, s := range p.instances() {
		kind := strings.TrimPrefix(s.name, "New")
		switch kind {
		case "Pub", "XPub", "Router", "Stream", "Pull":
			continue
		}
		for _, op := range []string{"Send", "SendMulti"} {
			before := len(r.Findings)
			f := s.f
			ts := f.ts
			fn := s.method(op)
			msg := s.st.unknown("the message", fn.Params[1].Type())
			frames := msg.args[fi]
			n, good := 0, 0
			hook := func(st *State, ci *CallInfo) []Out {
				if ci.Seen || ci.Fn != send {
					return nil
				}
				ci.Seen = true
				nm := st.name(ci.Ins)
				e := ts.sym("write:"+nm, ci.Ins.Common().Signature().Results().At(0).Type())
				bad := st.Fork()
				bad.facts[ts.eq(e, ts.Nil)] = false
				bad.note("%s: the write fails", p.instrPos(ci.Ins))
				fr := ci.Args[1].args[fi]
				if !st.sameFrames(fr, frames, kind == "Req") {
					r.fail("content:"+s.name+op, p.instrPos(ci.Ins), st.Trace(), "%s of a %s socket writes %v instead of the message it was given", op, kind, fr)
				}
				st.props["written"] = ts.True
				return []Out{{bad, e}, {st, ts.Nil}}
			}
			s.client(Client{MaxDepth: 24, RunGo: true, Call: hook, Model: hook,
				Event: func(st *State, ev *Event) {
					var v *Term
					switch {
					case ev.Kind == "send":
						v = ev.Args[1]
					case ev.Kind == "selected" && len(ev.Args) > 1:
						v = ev.Args[1]
					default:
						return
					}
					if kind != "Rep" || v.op != "agg" {
						return
					}
					// the message with the connection it is for
					var conn *Term
					has := false
					var visit func(t *Term)
					visit = func(t *Term) {
						if t.op == "agg" {
							for _, a := range t.args {
								visit(a)
							}
							return
						}
						if t.typ != nil && named(deref(t.typ)) == connT {
							conn = t
						}
						if t == frames {
							has = true
						}
					}
					visit(v)
					if conn == nil {
						return
					}
					at := p.instrPos(ev.Ins)
					if !st.NonNil(conn) {
						r.fail("noconn:"+s.name+op, at, st.Trace(), "%s of a REP socket queues a reply for no connection", op)
					} else if !has {
						r.fail("content:"+s.name+op, at, st.Trace(), "%s of a REP socket queues something else than the message it was given", op)
					}
					st.props["written"] = ts.True
				},
				Return: func(st *State, res []*Term, ins ssa.Instruction) {
					n++
					if !st.mayBeNil(res[0]) {
						return
					}
					if st.props["written"] == nil {
						r.fail("nil:"+s.name+op, p.instrPos(ins), st.Trace(), "%s of a %s socket may return a nil error although the message was written to no connection", op, kind)
						return
					}
					good++
				}})
			st := s.st.Fork()
			st.pins = append(st.pins, msg)
			s.run(st, "send", op, msg)
			r.problems(f, s.name+"."+op)
			if good == 0 && len(r.Findings) == before {
				r.fail("vacuous:"+s.name+op, p.pos(fn.Pos()), nil, "%s of %s never succeeds", op, s.name)
			}
			if len(r.Findings) == before {
				r.ok("%s.%s: %d paths, %d succeed", s.name, op, n, good)
			}
			r.count("operations", 1)
		}
	}
	r.atLeast("operations", 14)
	for _, null := range []bool{true, false} {
		p.writesMessages(r, send, null, 3)
	}
	r.atLeast("writers", 12)
}

// sameFrames: the frames are those given, behind an empty one if so asked.
func (s *State) sameFrames(got, want *Term, delim bool) bool {
	parts := s.Parts(got, want.typ.Underlying().(*types.Slice).Elem())
	if delim {
		if len(parts) == 0 || parts[0].op != "elem" {
			return false
		}
		if z := s.subst(s.lenOf(parts[0].args[0])); z != s.ts().Zero {
			return false
		}
		parts = parts[1:]
	}
	return len(parts) == 1 && parts[0].op == "spread" && parts[0].args[0] == want || len(parts) == 0 && s.subst(s.lenOf(want)) == s.ts().Zero
}
