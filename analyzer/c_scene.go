package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// scene follows a socket through operations one after the other: the
// connections, what is read from and written to them and what goes through
// the channels between its goroutines. Contexts do not end meanwhile.
type scene struct {
	p           *Program
	s           *sockInst
	ts          *Terms
	frames, er  int
	readers     map[*ssa.Function]bool
	send        *ssa.Function
	kids        []kid
	kidAt       map[string]int
	stays, gets map[*ssa.Function]bool
	n           int            // runs
	follow      int            // iterations of any loop
	cur         int            // the goroutine that runs
	stuck       map[*Term]bool // writes to the connection never end
	prefixes    []prefix
	problems    []string
	peerType    string
	ident       map[int]*Term // the identity that the peer of a connection announces

	// hooks of the check
	branch func(st *State, cond *Term) (val, known bool)
	onCall func(st *State, ci *CallInfo) []Out
	onEv   func(st *State, ev *Event)
	fails  func(st *State, conn *Term) bool // writes to the connection fail
	full   func(st *State, ch *Term) bool   // nobody receives from the channel, and it is full
	room   int                              // the capacity of the channels of messages, unless 0
	once   bool                             // serve runs each goroutine once: one that waits with something in hand must not start again

	onGo     func(st *State, ev *Event) bool // a function value that is started
	adjust   func(cl *Client)
	allChans bool                     // whatever is sent on channels is kept
	idle     func(st *State) []*State // what happens while an operation waits

	// between runs in the middle of an operation, once
	between   func(st *State) []*State
	meanwhile string
	points    int

	ended func(st *State, res []*Term)
	known map[*Term]bool // facts before the operation
}

var peerOf = map[string]string{"Pub": "SUB", "XPub": "SUB", "Sub": "PUB", "XSub": "PUB", "Req": "REP", "Rep": "REQ", "Router": "DEALER", "Dealer": "ROUTER", "Push": "PULL", "Pull": "PUSH", "Pair": "PAIR"}

func (p *Program) newScene(s *sockInst) *scene {
	c := &scene{p: p, s: s, ts: s.f.ts, frames: p.msgField(isFrames), er: p.msgField(isErrType), readers: map[*ssa.Function]bool{}, send: p.connMethod("SendMsg"), kidAt: map[string]int{}, stays: map[*ssa.Function]bool{}, gets: map[*ssa.Function]bool{}, ident: map[int]*Term{}}
	for _, fn := range p.connReaders() {
		c.readers[fn] = true
	}
	c.peerType = peerOf[strings.TrimPrefix(s.name, "New")]
	for _, k := range s.started {
		c.kids = append(c.kids, k)
	}
	return c
}

// start is the socket as the constructor returns it.
func (c *scene) start() *State {
	st := c.s.st.Fork()
	for _, k := range c.kids {
		st.pins = append(append(st.pins[:len(st.pins):len(st.pins)], k.args...), k.free...)
	}
	for _, v := range st.heap {
		// identities are no longer than the protocol allows
		if v.op == "sym" && strings.HasPrefix(v.aux, "option:") && v.typ != nil && isBytesLike(v.typ) {
			st.Assume(c.ts.ge(c.ts.linComb(st.lenOf(v), -1, nil, 0, 255)), true)
		}
	}
	st.props["wrote"] = c.ts.mk("seq", "wrote", nil)
	st.props["kids"] = c.ts.mk("seq", "kids", nil)
	return st
}

// message is a message with the frames.
func (c *scene) message(name string, frames ...*Term) *Term {
	T := c.p.mustType("Msg")
	m := c.s.st.unknown(name, T)
	st := structOf(T)
	as := append([]*Term(nil), m.args...)
	as[c.frames] = c.list(frames...)
	as[c.er] = c.ts.Nil
	for i := 0; i < st.NumFields(); i++ {
		if n := named(st.Field(i).Type()); n != nil && n.Obj().Name() == "MsgType" {
			if o, ok := c.p.Root.Scope().Lookup("UsrMsg").(*types.Const); ok {
				as[i] = c.ts.constant(o.Val(), o.Type())
			}
		}
	}
	return c.ts.mk("agg", m.aux, T, as...)
}

func isBytesLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	}
	return false
}

var framesT = types.NewSlice(types.NewSlice(types.Typ[types.Byte]))

// list is a list of frames; a list among them stands for three more frames.
func (c *scene) list(frames ...*Term) *Term {
	var ps []*Term
	for _, fr := range frames {
		if fr.typ != nil && isFrames(fr.typ) {
			if fr.op == "sym" {
				for i := 2; i <= 4; i++ {
					ps = append(ps, c.ts.mk("elem", "", nil, c.frame(fmt.Sprintf("%s.%d", fr.aux, i))))
				}
				continue
			}
			ps = append(ps, c.ts.mk("spread", "", nil, fr))
		} else {
			ps = append(ps, c.ts.mk("elem", "", nil, fr))
		}
	}
	return c.ts.mk("seq", "", framesT, ps...)
}

// same: the two lists of frames have the same frames.
func (c *scene) same(st *State, a, b *Term) bool {
	pa, pb := c.parts(st, a), c.parts(st, b)
	if len(pa) != len(pb) {
		return false
	}
	for i := range pa {
		if pa[i] == pb[i] {
			continue
		}
		if pa[i].op != "elem" || pb[i].op != "elem" {
			return false
		}
		x, y := pa[i].args[0], pb[i].args[0]
		if st.lenOf(x) == c.ts.Zero && st.lenOf(y) == c.ts.Zero {
			continue
		}
		if v, k := st.Eval(st.eqBytes(x, y)); !k || !v {
			return false
		}
	}
	return true
}

func (c *scene) parts(st *State, a *Term) []*Term {
	var out []*Term
	for _, p := range st.Parts(a, framesT.Elem()) {
		if p.op == "spread" && (p.args[0].op == "seq" || p.args[0].isNil()) {
			if !p.args[0].isNil() {
				out = append(out, c.parts(st, p.args[0])...)
			}
			continue
		}
		if p.op == "spread" {
			if n, ok := st.subst(st.lenOf(p.args[0])).intVal(); ok && n == 0 {
				continue
			}
		}
		out = append(out, p)
	}
	return out
}

func (c *scene) show(st *State, a *Term) string {
	var ss []string
	for _, p := range c.parts(st, a) {
		x := p.args[0]
		if p.op == "spread" {
			ss = append(ss, x.show(3)+"...")
		} else if st.lenOf(x) == c.ts.Zero {
			ss = append(ss, `""`)
		} else {
			ss = append(ss, x.show(3))
		}
	}
	return "[" + strings.Join(ss, " ") + "]"
}

// peerMeta is the address of the metadata of a connection's peer.
func (c *scene) peerMeta(st *State, conn *Term) (*Term, types.Type) {
	T := types.Type(c.p.mustType("Conn"))
	a := conn
	for _, name := range []string{"Peer", "Meta"} {
		s := structOf(T)
		at := -1
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				at = i
			}
		}
		if at < 0 {
			fatalf("anchor not found: Conn.Peer.Meta")
		}
		a = st.fa(types.NewPointer(T), a, at)
		T = s.Field(at).Type()
	}
	return a, T
}

// identity is what the socket knows as the identity of the connection's peer.
func (c *scene) identity(st *State, conn *Term) *Term {
	a, T := c.peerMeta(st, conn)
	m := st.loadPlain(a, T)
	v, _ := st.lookup(m, c.ts.str("Identity"), types.Typ[types.String])
	return v
}

func (c *scene) conns(st *State) []*Term {
	if v := st.props["conns"]; v != nil {
		return v.args
	}
	return nil
}

func (c *scene) wrote(st *State) []*Term { return st.props["wrote"].args }

func (c *scene) add(st *State, prop string, v ...*Term) {
	var as []*Term
	if o := st.props[prop]; o != nil {
		as = o.args
	}
	st.props[prop] = c.ts.mk("seq", prop, nil, append(as[:len(as):len(as)], v...)...)
}

// carries: messages go through the channel.
func (c *scene) carries(ch *Term) bool {
	if c.allChans {
		return true
	}
	if ch.typ == nil {
		return false
	}
	t, ok := ch.typ.Underlying().(*types.Chan)
	return ok && c.p.peerData(t.Elem())
}

func (c *scene) hook(st *State, ci *CallInfo) []Out {
	if ci.Seen {
		return nil
	}
	if c.onCall != nil {
		if o := c.onCall(st, ci); o != nil {
			ci.Seen = true
			return o
		}
	}
	ci.Seen = true
	ts := c.ts
	nm := st.name(ci.Ins)
	if k := makesConn(ci); k != "" {
		sig := ci.Meth.Type().(*types.Signature)
		if sig.Params().Len() == 0 && k == "conn" {
			// Accept
			if st.props["arrive"] == nil {
				c.end(st, nil)
				return []Out{}
			}
			delete(st.props, "arrive")
			nm += fmt.Sprintf("/%d", len(c.conns(st)))
		}
		v := ts.sym(fmt.Sprintf("%s:%s", k, nm), sig.Results().At(0).Type())
		st.facts[ts.eq(v, ts.Nil)] = false
		st.pins = append(st.pins[:len(st.pins):len(st.pins)], v)
		return []Out{{st, ts.mk("agg", "tuple", sig.Results(), v, ts.Nil)}}
	}
	if ci.Meth != nil && ci.Meth.Name() == "Handshake" && len(ci.Args) == 3 {
		// the peer tells its type and identity
		conn := ci.Args[1]
		k := len(c.conns(st))
		// what the greeting was like does not matter from here on
		for f, v := range st.facts {
			if o, ok := c.known[f]; !ok || o != v {
				delete(st.facts, f)
			}
		}
		st.facts[ts.eq(conn, ts.Nil)] = false
		a0, _ := c.peerMeta(st, conn)
		for a := range st.heap {
			if base(a) == conn && a != a0 && a.op == "fa" && a.args[0] == a0.args[0] {
				st.heap[a] = st.unknown("greeting:"+nm, cellType(a))
			}
		}
		c.add(st, "conns", conn)
		a, T := c.peerMeta(st, conn)
		m := st.loadPlain(a, T)
		str := types.Typ[types.String]
		st.mapStore(m, ts.str("Socket-Type"), ts.str(c.peerType), str, true)
		if id := c.ident[k]; id != nil {
			st.mapStore(m, ts.str("Identity"), id, str, true)
		}
		return []Out{{st, ts.Nil}}
	}
	switch {
	case ci.Fn == c.send && !ci.Go:
		if c.fails != nil && c.fails(st, ci.Args[0]) {
			e := ts.sym("write error:"+nm, types.Universe.Lookup("error").Type())
			st.facts[ts.eq(e, ts.Nil)] = false
			c.add(st, "failed", ci.Args[0])
			return []Out{{st, e}}
		}
		c.add(st, "wrote", ts.mk("agg", "write", nil, ci.Args[0], ci.Args[1]))
		st.note("%s: a message is written", c.p.instrPos(ci.Ins))
		return []Out{{st, ts.Nil}}
	case ci.Fn != nil && c.readers[ci.Fn] && !ci.Go:
		key := fmt.Sprintf("script%d", ci.Args[0].id)
		q := st.props[key]
		c.add(st, "read", ci.Args[0])
		if q == nil || len(q.args) == 0 {
			// nothing comes for now
			c.end(st, nil)
			return []Out{}
		}
		m := q.args[0]
		st.props[key] = ts.mk("seq", key, nil, q.args[1:]...)
		res := ci.Ins.Common().Signature().Results()
		if res.Len() == 1 {
			return []Out{{st, m}}
		}
		return []Out{{st, ts.mk("agg", "tuple", res, m, m.args[c.er])}}
	}
	switch ci.Ext {
	case "sync.Cond.Wait":
		c.end(st, nil)
		return []Out{}
	case "sync.Cond.Signal", "sync.Cond.Broadcast":
		st.props["signal"] = ts.True
		return []Out{{st, nil}}
	case "context.Context.Err", "context.Cause":
		return []Out{{st, ts.Nil}}
	case "io.ReadFull", "crypto/rand.Read":
		// random bytes do not run out
		buf := ci.Args[len(ci.Args)-1]
		if ci.Ext != "io.ReadFull" || ci.Args[0].contains(func(x *Term) bool { return x.aux == "crypto/rand.Reader" }) {
			n := st.subst(st.lenOf(buf))
			st.fill(buf, n, ts.sym("rand:"+nm, types.NewSlice(types.Typ[types.Byte])), nm)
			return []Out{{st, ts.mk("agg", "tuple", ci.Ins.Common().Signature().Results(), n, ts.Nil)}}
		}
	case "fmt.Sprintf", "fmt.Sprint", "encoding/hex.EncodeToString", "encoding/base64.Encoding.EncodeToString":
		// the text of the bytes as they are now
		var as []*Term
		least := 0
		for i, a := range ci.Args {
			if a.op == "slc" && a.typ != nil || i > 0 {
				if es, ok := st.Elems(a, types.NewInterfaceType(nil, nil)); ok && strings.HasPrefix(ci.Ext, "fmt.") {
					for _, e := range es {
						if e.op == "iface" {
							e = e.args[0]
						}
						if e.typ != nil && isBytesLike(e.typ) {
							e = st.content(e, types.Typ[types.String])
						}
						as = append(as, e)
					}
					continue
				}
			}
			if a.typ != nil && isBytesLike(a.typ) && !a.isConst() {
				a = st.content(a, types.Typ[types.String])
				least = 1
			}
			as = append(as, a)
		}
		if ci.Ext == "fmt.Sprintf" && ci.Args[0].isConst() {
			f := constant.StringVal(ci.Args[0].c)
			least = len(f) - 2*strings.Count(f, "%")
			if strings.Count(f, "%x") > 0 {
				least++
			}
		}
		v := ts.mk("text", ci.Ext, types.Typ[types.String], as...)
		st.Assume(ts.ge(ts.linComb(st.lenOf(v), 1, nil, 0, int64(-least))), true)
		return []Out{{st, v}}
	case "sort.Strings", "slices.Sort", "sort.Slice":
		// the order does not matter
		return []Out{{st, nil}}
	}
	return nil
}

// end: what runs now gets no further.
func (c *scene) end(st *State, res []*Term) {
	if c.ended != nil {
		n := st.Fork()
		n.top = nil
		c.ended(n, res)
	}
}

func (c *scene) event(st *State, ev *Event) {
	ts := c.ts
	if c.onEv != nil {
		c.onEv(st, ev)
	}
	switch ev.Kind {
	case "send", "selected":
		if len(ev.Args) < 2 || !c.carries(ev.Args[0]) {
			return
		}
		q := st.chq(ev.Args[0])
		var as []*Term
		if q != nil {
			as = q.args
		}
		st.heap[ts.mk("chq", "", nil, ev.Args[0])] = ts.mk("q", "", nil, append(as[:len(as):len(as)], ev.Args[1])...)
	case "signal":
		st.props["signal"] = ts.True
	case "blocked":
		if c.idle != nil {
			if outs := c.idle(st); outs != nil {
				for _, n := range outs {
					c.s.f.push(n)
				}
				return
			}
		}
		c.end(st, nil)
	case "go", "afterfunc":
		if ev.Kind == "go" && ev.Fn != nil && c.s.f.hasBody(ev.Fn) && !c.lasting(ev.Fn) {
			return // runs at once
		}
		v, args := ev.Args[0], []*Term(nil)
		if ev.Kind == "go" {
			args = ev.Args[1:]
		} else {
			return // contexts do not end
		}
		if ev.Fn == nil && c.onGo != nil && c.onGo(st, ev) {
			return
		}
		if ev.Fn == nil {
			c.problems = append(c.problems, "unknown goroutine at "+c.p.instrPos(ev.Ins))
			return
		}
		var free []*Term
		if v.op == "clos" {
			free = v.args
		}
		key := c.p.instrPos(ev.Ins)
		for _, a := range append(append([]*Term(nil), args...), free...) {
			key += fmt.Sprintf(",%d", a.id)
		}
		i, ok := c.kidAt[key]
		if !ok {
			i = len(c.kids)
			c.kidAt[key] = i
			c.kids = append(c.kids, kid{fn: ev.Fn, args: args, free: free, ins: ev.Ins})
		}
		st.pins = append(append(append(st.pins[:len(st.pins):len(st.pins)], v), args...), free...)
		c.add(st, "kids", ts.integer(int64(i)))
	}
}

// queued is how many values are in the channel.
func (c *scene) queued(st *State, ch *Term) int {
	if q := st.chq(ch); q != nil {
		return len(q.args)
	}
	return 0
}

// client are the hooks for an operation.
func (c *scene) client() Client {
	return Client{NoKill: true, Zeros: true, RunGroups: true, RunGoIf: func(st *State, fn *ssa.Function) bool { return !c.lasting(fn) }, MaxDepth: 24, Unroll: 72, Call: c.hook, Model: c.hook, Event: c.event,
		Ready: func(st *State, ch *Term, send bool) int {
			if ch.op == "done" || ch.typ != nil && isTimeChan(ch.typ) {
				return -1
			}
			if c.carries(ch) && !send {
				return -1 // the engine looks at what was sent first
			}
			if send && c.full != nil && c.full(st, ch) {
				return -1
			}
			if send && c.room > 0 && c.carries(ch) && c.queued(st, ch) >= c.room {
				return -1
			}
			if send && c.carries(ch) {
				return 1
			}
			return 0
		},
		Queued: func(st *State, ch *Term, room bool) *Term {
			if !c.carries(ch) {
				return nil
			}
			if room {
				if c.room > 0 {
					return c.ts.integer(int64(c.room))
				}
				return nil
			}
			if c.full != nil && ch.op == "mkchan" && c.full(st, ch) {
				return st.subst(ch.args[0])
			}
			return c.ts.integer(int64(c.queued(st, ch)))
		},
		Branch: func(st *State, cond *Term, ins *ssa.If) (bool, bool) {
			if c.branch != nil {
				return c.branch(st, cond)
			}
			return false, false
		},
		Range: func(st *State, m *Term) (ks, vs []*Term, ok bool) {
			if m.op != "mkmap" || st.heap[c.ts.mk("ct", "", nil, m)] != nil {
				return nil, nil, false
			}
			var as []*Term
			for a, v := range st.heap {
				if a.op != "mp" || a.args[0] != m {
					continue
				}
				if v.op == "maybe" {
					return nil, nil, false
				}
				if v.op != "absent" {
					as = append(as, a)
				}
			}
			sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
			for _, a := range as {
				ks = append(ks, a.args[1])
				vs = append(vs, st.heap[a])
			}
			return ks, vs, true
		}}
}

func isTimeChan(t types.Type) bool {
	ch, ok := t.Underlying().(*types.Chan)
	return ok && isNamed(ch.Elem(), "time", "Time")
}

// outcome is the state after an operation, and what it returned; no result
// means that it waits.
type outcome struct {
	st  *State
	res []*Term
}

func (c *scene) exec(st *State, fn *ssa.Function, args, free []*Term) []outcome {
	if len(c.problems) > 0 {
		return nil // it is reported already
	}
	c.n++
	c.s.f.MaxSt = 3000
	var out []outcome
	seen := map[string]bool{}
	c.ended = func(n *State, res []*Term) {
		k := n.key("")
		for _, r := range res {
			k += fmt.Sprintf(",%d", r.id)
		}
		if !seen[k] {
			seen[k] = true
			out = append(out, outcome{n, res})
		}
	}
	cl := c.client()
	cl.Follow = c.follow
	if c.adjust != nil {
		c.adjust(&cl)
	}
	cl.Return = func(st *State, res []*Term, ins ssa.Instruction) {
		n := st.Fork()
		n.top = nil
		if res == nil {
			res = []*Term{}
		}
		c.ended(n, res)
	}
	c.s.client(cl)
	n := st.Fork()
	n.trail = nil
	c.known = cp(n.facts)
	c.s.f.RunKey(fmt.Sprintf("s%d", c.n), n, fn, args, free)
	for _, m := range c.s.f.Problem {
		c.problems = append(c.problems, c.p.fnName(fn)+": "+m)
	}
	c.ended = nil
	return out
}

// do runs a method of the socket.
func (c *scene) do(st *State, name string, args ...*Term) []outcome {
	fn := c.s.method(name)
	as := []*Term{c.s.recv.args[0]}
	for i, pr := range fn.Params[1:] {
		if i < len(args) && args[i] != nil {
			as = append(as, args[i])
		} else {
			as = append(as, c.s.f.Param("param:"+name+"."+pr.Name(), pr.Type()))
		}
	}
	c.follow = 6
	defer func() { c.follow = 0 }()
	return c.exec(st, fn, as, nil)
}

// dial connects to another peer; only the successes are yielded.
func (c *scene) dial(sts []*State) []*State {
	var out []*State
	for _, st := range sts {
		before := len(c.conns(st))
		for _, o := range c.do(st, "Dial") {
			if o.res == nil || len(c.conns(o.st)) <= before {
				continue
			}
			if v, k := o.st.Eval(c.ts.eq(o.res[0], c.ts.Nil)); k && v {
				out = append(out, o.st)
			}
		}
	}
	return out
}

// accept lets another peer connect to the listening socket.
func (c *scene) accept(st *State) []*State {
	n := st.Fork()
	n.props["arrive"] = c.ts.True
	var out []*State
	for _, x := range c.serve([]*State{n}) {
		if len(c.conns(x)) > len(c.conns(st)) {
			out = append(out, x)
		}
	}
	return out
}

// accepts: the goroutine waits for peers that connect.
func (c *scene) accepts(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, ok := ins.(*ssa.Go); ok {
					continue
				}
				if m := ci.Common().Method; m != nil && m.Name() == "Accept" {
					return true
				}
				if cal := ci.Common().StaticCallee(); cal != nil && cal.Pkg != nil && c.p.ByPath[cal.Pkg.Pkg.Path()] != nil && visit(cal) {
					return true
				}
			}
		}
		return false
	}
	return visit(fn)
}

// kidsOf are the goroutines started so far.
func (c *scene) kidsOf(st *State) []int {
	var out []int
	for i := range c.s.started {
		out = append(out, i)
	}
	if v := st.props["kids"]; v != nil {
		for _, a := range v.args {
			n, _ := a.intVal()
			out = append(out, int(n))
		}
	}
	return out
}

// serve lets the goroutines work off what has come in: messages of peers and
// what lies in channels.
func (c *scene) serve(sts []*State) []*State {
	if os.Getenv("SCENE") != "" {
		defer func() { println("serve", len(sts)) }()
	}
	rounds := 6
	if c.once {
		rounds = 1
	}
	for round := 0; round < rounds; round++ {
		var next []*State
		progress := false
		for _, st := range sts {
			cur := []*State{st}
			for _, i := range c.kidsOf(st) {
				var after []*State
				for _, x := range cur {
					if os.Getenv("SCENE") != "" {
						println(c.p.fnName(c.kids[i].fn), c.ready(x, i))
					}
					if !c.ready(x, i) {
						after = append(after, x)
						continue
					}
					c.follow, c.cur = 6, i
					if c.condWaits(c.kids[i].fn) {
						x = x.Fork()
						delete(x.props, "signal")
					}
					os := c.exec(x, c.kids[i].fn, c.kids[i].args, c.kids[i].free)
					c.follow = 0
					for _, o := range os {
						if o.res != nil {
							// the goroutine has ended
							var left []*Term
							for _, a := range o.st.props["kids"].args {
								if n, _ := a.intVal(); int(n) != i {
									left = append(left, a)
								}
							}
							o.st.props["kids"] = c.ts.mk("seq", "kids", nil, left...)
						}
						after = append(after, o.st)
					}
					progress = true
				}
				cur = after
			}
			next = append(next, cur...)
		}
		sts = next
		if !progress {
			break
		}
		if len(sts) > 64 {
			c.problems = append(c.problems, "too many states")
			return nil
		}
	}
	return sts
}

// ready: there is something for the goroutine: what it reads from has something.
func (c *scene) ready(st *State, i int) bool {
	k := c.kids[i]
	if v := st.props["stuck"]; v != nil {
		for _, a := range v.args {
			if n, _ := a.intVal(); int(n) == i {
				return false
			}
		}
	}
	if c.accepts(k.fn) {
		return st.props["arrive"] != nil
	}
	reach := map[*Term]bool{}
	var work []*Term
	mark := func(t *Term) {
		var visit func(t *Term)
		visit = func(t *Term) {
			if t == nil || reach[t] {
				return
			}
			reach[t] = true
			work = append(work, t)
			for _, a := range t.args {
				visit(a)
			}
		}
		visit(t)
	}
	for _, a := range append(append([]*Term(nil), k.args...), k.free...) {
		mark(a)
	}
	if c.p.reachesNow(k.fn, c.readers) {
		for _, conn := range c.conns(st) {
			q := st.props[fmt.Sprintf("script%d", conn.id)]
			if reach[conn] && q != nil && len(q.args) > 0 {
				return true
			}
		}
		return false
	}
	if !c.takes(k.fn) {
		return st.props["signal"] != nil && c.condWaits(k.fn)
	}
	byBase := map[*Term][]*Term{}
	for a := range st.heap {
		byBase[base(a)] = append(byBase[base(a)], a)
	}
	for len(work) > 0 {
		t := work[len(work)-1]
		work = work[:len(work)-1]
		for _, a := range byBase[t] {
			mark(st.heap[a])
		}
	}
	for a, v := range st.heap {
		if a.op == "chq" && len(v.args) > 0 && reach[a.args[0]] {
			return true
		}
	}
	return false
}

// lasting: the goroutine stays: it reads from a connection, or waits for
// something in a loop.
func (c *scene) lasting(fn *ssa.Function) bool {
	if v, ok := c.stays[fn]; ok {
		return v
	}
	v := c.p.reachesNow(fn, c.readers) || c.accepts(fn) || c.loops(fn, map[*ssa.Function]bool{c.send: true}) || waitsFirst(fn)
	c.stays[fn] = v
	return v
}

// waitsFirst: the goroutine does nothing before something happens elsewhere.
func waitsFirst(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	for b := fn.Blocks[0]; !seen[b]; {
		seen[b] = true
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Select:
				if x.Blocking {
					return true
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return true
				}
			case ssa.CallInstruction:
				if m := x.Common().Method; m == nil || m.Name() != "Done" {
					return false
				}
			case *ssa.Store, *ssa.MapUpdate, *ssa.Send:
				return false
			}
		}
		if len(b.Succs) != 1 {
			break
		}
		b = b.Succs[0]
	}
	return false
}

// loops: the function, or one that it calls, has a loop around an operation on a channel
// or a condition variable.
func (c *scene) loops(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if fn == nil || seen[fn] || len(fn.Blocks) == 0 || c.p.ByPath[fn.Pkg.Pkg.Path()] == nil {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			waits := false
			switch x := ins.(type) {
			case *ssa.Select, *ssa.Send:
				waits = true
			case *ssa.UnOp:
				waits = x.Op == token.ARROW
			case ssa.CallInstruction:
				cal := x.Common().StaticCallee()
				if c.loops(cal, seen) {
					return true
				}
				if _, ok := x.(*ssa.Go); ok {
					continue
				}
				waits = cal != nil && cal.Name() == "Wait"
			}
			if waits && c.inLoop(b) {
				return true
			}
		}
	}
	return false
}

func (c *scene) inLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(x *ssa.BasicBlock) bool
	visit = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if visit(s) {
					return true
				}
			}
		}
		return false
	}
	return visit(b)
}

// condWaits: the goroutine waits on a condition variable.
func (c *scene) condWaits(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cal := ci.Common().StaticCallee()
				if cal != nil && cal.Name() == "Wait" && cal.Signature.Recv() != nil && isNamed(deref(cal.Signature.Recv().Type()), "sync", "Cond") {
					return true
				}
				if cal != nil && cal.Pkg != nil && c.p.ByPath[cal.Pkg.Pkg.Path()] != nil && visit(cal) {
					return true
				}
			}
		}
		return false
	}
	return visit(fn)
}

// takes: the goroutine is one that receives messages from a channel.
func (c *scene) takes(fn *ssa.Function) bool {
	if v, ok := c.gets[fn]; ok {
		return v
	}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if f == nil || seen[f] || c.readers[f] {
			return false
		}
		seen[f] = true
		msg := func(t types.Type) bool {
			ch, ok := t.Underlying().(*types.Chan)
			return ok && c.p.peerData(ch.Elem())
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Select:
					for _, s := range x.States {
						if s.Dir == types.RecvOnly && msg(s.Chan.Type()) {
							return true
						}
					}
				case *ssa.UnOp:
					if x.Op == token.ARROW && msg(x.X.Type()) {
						return true
					}
				case ssa.CallInstruction:
					if visit(x.Common().StaticCallee()) {
						return true
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			if visit(a) {
				return true
			}
		}
		return false
	}
	v := visit(fn)
	c.gets[fn] = v
	return v
}

// script: the peer sends messages.
func (c *scene) script(st *State, conn *Term, ms ...*Term) *State {
	n := st.Fork()
	c.add(n, fmt.Sprintf("script%d", conn.id), ms...)
	return n
}

// report turns what could not be analysed into failures.
func (c *scene) report(r *Report) {
	seen := map[string]bool{}
	for _, m := range c.problems {
		if !seen[m] {
			seen[m] = true
			r.fail("unanalysed:"+c.s.name, "-", nil, "%s: %s", c.s.name[3:], m)
		}
	}
}
