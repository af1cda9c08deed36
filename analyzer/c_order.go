package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C36", checkC36) }

// order is a scene that looks at the order of messages.
type order struct {
	*scene
	r       *Report
	puts    map[*ssa.Function]bool
	what    string
	expired bool // waits with a time limit end
	before  map[*Term]bool
	tokens  bool // the package sends on channels of signals
}

func (p *Program) newOrder(r *Report, s *sockInst) *order {
	x := &order{scene: p.newPubScene(s), r: r, puts: map[*ssa.Function]bool{}}
	old := x.onCall
	x.onCall = func(st *State, ci *CallInfo) []Out {
		switch {
		case ci.Ext == "sync.WaitGroup.Wait":
			delete(st.props, "flying")
		case ci.Ext == "golang.org/x/sync/errgroup.Group.Wait":
			delete(st.props, "group")
		case ci.Fn != nil && x.readers[ci.Fn] && !ci.Go && x.flies(st):
			r.fail("overtaken", x.p.instrPos(ci.Ins), st.Trace(), "%s, the next message is read while a goroutine may still be handing over the one before", x.what)
		}
		return old(st, ci)
	}
	x.onEv = func(st *State, ev *Event) {
		if (ev.Kind == "recv" || ev.Kind == "selected") && x.expired && len(ev.Args) > 0 && ev.Args[0].typ != nil && isTimeChan(ev.Args[0].typ) {
			x.add(st, "ticks", x.ts.True)
		}
		switch ev.Kind {
		case "close":
			if !x.in(st, ev.Args[0]) {
				x.add(st, "shut", ev.Args[0])
			}
		case "go":
			if ev.Fn != nil && !x.lasting(ev.Fn) && x.passes(ev.Fn) {
				st.props["flying"] = x.ts.True
			}
		case "grpgo":
			st.props["group"] = x.ts.True
		case "recv", "wait":
			delete(st.props, "flying")
		}
	}
	x.adjust = func(cl *Client) {
		ready := cl.Ready
		cl.Ready = func(st *State, ch *Term, send bool) int {
			if x.expired && ch.typ != nil && isTimeChan(ch.typ) && (st.props["ticks"] == nil || len(st.props["ticks"].args) < 2) {
				return 0 // twice
			}
			if !send && x.before[ch] && !x.tokens {
				if x.in(st, ch) {
					return 1
				}
				return -1
			}
			return ready(st, ch, send)
		}
	}
	for _, fn := range p.Funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg != p.Root {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.Send:
					x.tokens = x.tokens || isSignal(i.Chan.Type())
				case *ssa.Select:
					for _, y := range i.States {
						x.tokens = x.tokens || y.Dir == types.SendOnly && isSignal(y.Chan.Type())
					}
				}
			}
		}
	}
	return x
}

// isSignal: a channel that carries nothing.
func isSignal(t types.Type) bool {
	ch, ok := t.Underlying().(*types.Chan)
	if !ok {
		return false
	}
	s, ok := ch.Elem().Underlying().(*types.Struct)
	return ok && s.NumFields() == 0
}

// in: the channel is closed.
func (x *order) in(st *State, ch *Term) bool {
	if q := st.props["shut"]; q != nil {
		for _, a := range q.args {
			if a == ch {
				return true
			}
		}
	}
	return false
}

// do runs a method of the socket: signals made before it do not come by
// themselves.
func (x *order) do(st *State, name string, args ...*Term) []outcome {
	x.before = map[*Term]bool{}
	for _, v := range st.heap {
		if v.op == "mkchan" && v.typ != nil && isSignal(v.typ) {
			x.before[v] = true
		}
	}
	defer func() { x.before = nil }()
	return x.scene.do(st, name, args...)
}

// flies: a goroutine may still be at work with a message.
func (x *order) flies(st *State) bool {
	return st.props["flying"] != nil || st.props["group"] != nil
}

// passes: the function writes to a connection or sends a message on a channel.
func (x *order) passes(fn *ssa.Function) bool {
	if v, ok := x.puts[fn]; ok {
		return v
	}
	x.puts[fn] = false
	v := fn == x.send || x.p.reachesNow(fn, map[*ssa.Function]bool{x.send: true})
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch i := ins.(type) {
			case *ssa.Send:
				v = v || x.p.peerData(i.X.Type())
			case *ssa.Select:
				for _, s := range i.States {
					v = v || s.Send != nil && x.p.peerData(s.Send.Type())
				}
			case ssa.CallInstruction:
				if m := i.Common().Method; m != nil {
					for _, c := range x.p.implementers(i.Common().Value.Type(), m) {
						v = v || x.s.f.hasBody(c) && x.p.inModule(c) && x.passes(c)
					}
				}
				if c := i.Common().StaticCallee(); c != nil && x.s.f.hasBody(c) && x.p.inModule(c) {
					v = v || x.passes(c)
				}
			}
		}
	}
	x.puts[fn] = v
	return v
}

// sent is a message that a peer sends, or the user.
type sentMsg struct {
	name   string
	frames *Term
	msg    *Term
}

func (x *order) three(tag string, sizes ...int) []sentMsg {
	var out []sentMsg
	for i, n := range sizes {
		name := fmt.Sprintf("%s%d", tag, i+1)
		var fs []*Term
		for j := 0; j < n; j++ {
			fs = append(fs, x.frame(fmt.Sprintf("%s.%d", name, j)))
		}
		out = append(out, sentMsg{name, x.list(fs...), x.message(name, fs...)})
	}
	return out
}

// drain receives until nothing is left; the messages are those of the connections.
func (x *order) drain(st *State, left [][]sentMsg) {
	n := 0
	for _, l := range left {
		n += len(l)
	}
	where := x.s.name[3:]
	for _, o := range x.do(st, "Recv") {
		if o.res == nil {
			if n > 0 {
				x.r.fail("lost", where, trail(o.st), "%s, %d messages that were read from a connection are not received", x.what, n)
			} else {
				x.r.ok("%s: %s", where, x.what)
			}
			continue
		}
		if n == 0 {
			x.r.fail("more", where, trail(o.st), "%s, Recv returns another message", x.what)
			continue
		}
		if x.isErr(o.st, o.res[1]) != 0 {
			x.r.fail("error", where, trail(o.st), "%s, Recv returns an error", x.what)
			continue
		}
		got := o.st.field(o.res[0], o.res[0].typ, x.frames)
		at := -1
		for i, l := range left {
			if len(l) > 0 && x.ends(o.st, got, l[0].frames) {
				at = i
			}
		}
		if at < 0 {
			x.r.fail("order", where, trail(o.st), "%s, Recv returns %s, which is not the next message of any connection", x.what, x.show(o.st, got))
			continue
		}
		rest := append([][]sentMsg(nil), left...)
		rest[at] = rest[at][1:]
		x.drain(o.st, rest)
	}
}

// ends: the frames end with the other ones, behind an identity at most.
func (x *order) ends(st *State, got, want *Term) bool {
	a, b := x.parts(st, got), x.parts(st, want)
	if len(a) < len(b) || len(a) > len(b)+1 {
		return false
	}
	return x.same(st, x.ts.mk("seq", "", framesT, a[len(a)-len(b):]...), want)
}

func (x *order) scripts(st *State, conn *Term, ms []sentMsg) *State {
	for _, m := range ms {
		st = x.script(st, conn, m.msg)
	}
	return st
}

func (x *order) left(st *State, conn *Term) int {
	if q := st.props[fmt.Sprintf("script%d", conn.id)]; q != nil {
		return len(q.args)
	}
	return 0
}

func (x *order) receives(st *State) {
	cs := x.conns(st)
	a, b := cs[0], cs[1]
	ma, mb := x.three("a", 2, 3, 2), x.three("b", 3, 2, 3)
	where := x.s.name[3:]
	some := func(sts []*State) []*State {
		if len(sts) == 0 && len(x.problems) == 0 {
			x.r.fail("path", where, nil, "%s, nothing is read", x.what)
		}
		return sts
	}
	x.what = "with three messages of one peer"
	for _, y := range some(x.serve([]*State{x.scripts(st, a, ma)})) {
		x.drain(y, [][]sentMsg{ma})
	}
	x.what = "with three messages of each of two peers"
	for _, y := range some(x.serve([]*State{x.scripts(x.scripts(st, a, ma), b, mb)})) {
		x.drain(y, [][]sentMsg{ma, mb})
	}
	x.what = "with one message, received before the next ones come"
	for _, y := range some(x.serve([]*State{x.scripts(st, a, ma[:1])})) {
		for _, o := range x.do(y, "Recv") {
			if o.res == nil {
				x.r.fail("lost", where, trail(o.st), "%s, the message is not received", x.what)
				continue
			}
			for _, z := range some(x.serve([]*State{x.scripts(x.scripts(o.st, a, ma[1:]), b, mb[:1])})) {
				x.drain(z, [][]sentMsg{ma[1:], mb[:1]})
			}
		}
	}
	// nobody takes the messages
	x.once = true
	for _, x.expired = range []bool{false, true} {
		x.what = "while nobody receives and the queue is full"
		x.full = func(st *State, ch *Term) bool { return true }
		sts := x.serve([]*State{x.scripts(st, a, ma)})
		if !x.expired {
			some(sts)
		}
		for _, y := range sts {
			if x.left(y, a) > 0 {
				x.r.ok("%s: %s, reading stops", where, x.what)
				continue
			}
			x.full = nil
			x.once = false
			x.drain(y, [][]sentMsg{ma})
			x.once = true
			x.full = func(st *State, ch *Term) bool { return true }
		}
		x.full = nil
	}
	// there is room for some
	for _, x.expired = range []bool{false, true} {
		for x.room = 1; x.room <= 2; x.room++ {
			x.what = fmt.Sprintf("while nobody receives and the queue has room for %d", x.room)
			room := x.room
			sts := x.serve([]*State{x.scripts(st, b, mb)})
			if !x.expired {
				some(sts)
			}
			for _, y := range sts {
				left := mb
				if x.left(y, b) == len(mb)-room-1 {
					// one more is in the hands of the goroutine
					left = mb[:room]
				}
				x.room, x.once = 0, false
				x.drain(y, [][]sentMsg{left})
				x.room, x.once = room, true
			}
		}
	}
	x.room, x.once, x.expired = 0, false, false
}

func (x *order) sends(st *State) {
	where := x.s.name[3:]
	ms := x.three("s", 2, 3, 2)
	cs := x.conns(st)
	if x.s.name == "NewRouter" {
		// to the first peer, the second one and the first one again
		for i, k := range []int{0, 1, 0} {
			id := x.bytesOf(x.identity(st, cs[k]))
			fs := append([]*Term{id}, x.framesOf(ms[i].frames)...)
			ms[i].msg = x.message("routed:"+ms[i].name, fs...)
		}
	}
	for _, serveAll := range []bool{false, true} {
		for _, second := range []string{"Send", "SendMulti"} {
			x.what = "after Send, " + second + ", Send"
			sts := []*State{st}
			n := len(x.wrote(st))
			for i, m := range []string{"Send", second, "Send"} {
				var next []*State
				for _, s := range sts {
					for _, o := range x.do(s, m, ms[i].msg) {
						switch {
						case o.res == nil:
							x.r.fail("waits", where, trail(o.st), "%s: %s waits", x.what, m)
						case x.isErr(o.st, o.res[0]) != 0:
							x.r.fail("fails", where, trail(o.st), "%s: %s fails", x.what, m)
						case x.flies(o.st):
							x.r.fail("flying", where, trail(o.st), "%s: a goroutine may still be writing the message when %s has returned, the next one can overtake it", x.what, m)
						default:
							ss := []*State{o.st}
							if serveAll {
								ss = x.serve(ss)
							}
							next = append(next, ss...)
						}
					}
				}
				sts = next
			}
			for _, y := range x.serve(sts) {
				x.inOrder(y, n, ms)
			}
			if len(sts) == 0 && len(x.problems) == 0 {
				x.r.fail("none", where, nil, "%s: no path sends all of them", x.what)
			}
		}
	}
}

func (x *order) framesOf(l *Term) (fs []*Term) {
	for _, p := range l.args {
		fs = append(fs, p.args[0])
	}
	return
}

// inOrder: what was written to each connection is in the order of the messages.
func (x *order) inOrder(st *State, n int, ms []sentMsg) {
	where := x.s.name[3:]
	last := map[*Term]int{}
	count := make([]int, len(ms))
	for _, w := range x.wrote(st)[n:] {
		got := st.field(w.args[1], w.args[1].typ, x.frames)
		at := -1
		for i, m := range ms {
			if x.ends(st, got, m.frames) {
				at = i
			}
		}
		if at < 0 {
			x.r.fail("what", where, trail(st), "%s, %s is written, which was not sent", x.what, x.show(st, got))
			return
		}
		if l, ok := last[w.args[0]]; ok && l >= at {
			x.r.fail("written", where, trail(st), "%s, message %d is written after message %d to the same connection", x.what, at+1, l+1)
			return
		}
		last[w.args[0]] = at
		count[at]++
	}
	for i, c := range count {
		if c == 0 {
			x.r.fail("unsent", where, trail(st), "%s, message %d is written to no connection", x.what, i+1)
			return
		}
	}
	x.r.ok("%s: %s", where, x.what)
}

func checkC36(p *Program, r *Report) {
	r.rule("From the states of each socket with two connections, computed by dataflow from its constructor's: the goroutines read up to three messages (arbitrary frames) from each connection; on every path Recv then returns them, each once and those of one connection in order, and then waits. While every queue is full, reading stops instead of dropping or passing over what was read.")
	r.rule("On every path of three Sends (or SendMulti) and the goroutines after them, what is written to a connection is in the order of the Sends, none twice, and each message is written to some connection. A goroutine that hands over or writes a message is waited for before the next one is read, or before Send returns.")
	r.assume("a channel is first in, first out; reads and writes of a connection as in C12 and C13; PUB and XPUB drop messages for subscribers whose queue is full (C20)")
	recv, send := 0, 0
	for _, s := range p.alone("Pull", "Sub", "XSub", "Dealer", "Router", "Pair", "XPub") {
		x := p.newOrder(r, s)
		sts := x.dial(x.dial([]*State{x.start()}))
		for _, st := range sts {
			recv++
			x.receives(st)
		}
		if len(sts) == 0 {
			r.fail("dial", s.name[3:], nil, "no path leads to two connections")
		}
		x.report(r)
	}
	for _, s := range p.alone("Push", "Dealer", "Pair", "Router", "Pub", "XPub", "XSub") {
		x := p.newOrder(r, s)
		for i := 0; i < 2 && s.name == "NewRouter"; i++ {
			x.ident[i] = x.word(x.s.st, fmt.Sprintf("identity%d", i))
		}
		for _, st := range x.dial(x.dial([]*State{x.start()})) {
			if s.name == "NewRouter" {
				x.equal(st, x.ident[0], x.ident[1], false)
			}
			sts := []*State{st}
			if s.name == "NewPub" || s.name == "NewXPub" {
				var ms [][2]*Term
				for _, conn := range x.conns(st) {
					ms = append(ms, [2]*Term{conn, x.control(1, x.none())})
				}
				sts = x.tell(st, ms...)
			}
			for _, y := range sts {
				send++
				x.sends(y)
			}
		}
		x.report(r)
	}
	r.count("states that receive", recv)
	r.count("states that send", send)
	r.atLeast("states that receive", 7)
	r.atLeast("states that send", 7)
}
