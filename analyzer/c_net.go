package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C32", checkC32) }

// netScene is a transport of package networking with stand-ins for its sockets.
type netScene struct {
	*scene
	r     *Report
	pkg   *ssa.Package
	ptr   types.Type // *Transport
	msgT  *types.Named
	recv  *Term
	loads []*payload
	what  string
	dials bool  // whether Dial may fail
	zero  *Term // what is counted as dropped in the beginning
}

// payload is what a peer sends, and what it decodes to.
type payload struct {
	kind          string
	data          *Term
	typ, from, to string
	bad, fail     bool
	handler       *Term // the one that must be called
	msg           *Term // as decoded
}

func (p *Program) newNet(r *Report) *netScene {
	var pk *ssa.Package
	for _, x := range p.ByPath {
		if x.Name() == "networking" {
			pk = p.Prog.Package(x)
		}
	}
	if pk == nil {
		fatalf("anchor not found: package networking")
	}
	f := p.newFlow(Client{NoKill: true, Zeros: true})
	base := p.initState(f, pk.Pkg, false)
	s := &sockInst{name: "Newnetworking", f: f, st: base}
	x := &netScene{scene: p.newScene(s), r: r, pkg: pk}
	for _, n := range []string{"New", "DefaultConfig"} {
		if pk.Func(n) == nil {
			fatalf("anchor not found: %s of package networking", n)
		}
	}
	x.ptr = pk.Func("New").Signature.Results().At(0).Type()
	o, ok := pk.Pkg.Scope().Lookup("Message").(*types.TypeName)
	if !ok {
		fatalf("anchor not found: type Message of package networking")
	}
	x.msgT = o.Type().(*types.Named)
	x.allChans = true
	x.onCall, x.onEv, x.follow = x.netCall, x.netEvent, 6
	x.branch = func(st *State, cond *Term) (bool, bool) {
		// what Recv failed with is none of the errors known by name
		if cond.op == "eq" && (cond.args[0].op == "newerr" && !cond.args[1].isNil() || cond.args[1].op == "newerr" && !cond.args[0].isNil()) && cond.args[0] != cond.args[1] {
			return false, true
		}
		return false, false
	}
	x.onGo = func(st *State, ev *Event) bool {
		return x.called(st, ev.Args[0], ev.Args[1:], ev.Ins)
	}
	x.adjust = func(cl *Client) {
		old := cl.Ready
		cl.Ready = func(st *State, ch *Term, send bool) int {
			if ch.op == "done" {
				if st.cancelled(ch.args[0]) {
					return 1
				}
				return -1
			}
			if x.in(st, "shut", ch) {
				return 1
			}
			return old(st, ch, send)
		}
		cl.RecvOk = func(st *State, ch, v, ok *Term) {
			if x.in(st, "shut", ch) {
				st.Assume(ok, false)
			}
		}
		cl.RecvVal = func(st *State, ch *Term, elem types.Type) *Term {
			if x.in(st, "shut", ch) {
				return st.zero(elem)
			}
			return nil
		}
	}
	return x
}

func (x *netScene) in(st *State, prop string, t *Term) bool {
	if v := st.props[prop]; v != nil {
		for _, a := range v.args {
			if a == t {
				return true
			}
		}
	}
	return false
}

func (x *netScene) all(st *State, prop string) []*Term {
	if v := st.props[prop]; v != nil {
		return v.args
	}
	return nil
}

// called: a handler is called.
func (x *netScene) called(st *State, h *Term, args []*Term, ins ssa.Instruction) bool {
	if h.isNil() {
		x.r.fail("nil handler", x.p.instrPos(ins), st.Trace(), "%s, a nil handler is called", x.what)
		return true
	}
	if h.op != "sym" || !strings.HasPrefix(h.aux, "handler:") || len(args) != 1 {
		return false
	}
	c := x.ts.mk("agg", "handled", nil, h, args[0])
	x.add(st, "handled", c)
	st.pins = append(st.pins[:len(st.pins):len(st.pins)], args[0])
	st.note("%s: %s is called", x.p.instrPos(ins), h.aux)
	return true
}

func (x *netScene) netEvent(st *State, ev *Event) {
	switch ev.Kind {
	case "close":
		if ev.Args[0].isNil() {
			x.r.fail("close nil", x.p.instrPos(ev.Ins), st.Trace(), "%s, a nil channel is closed", x.what)
			return
		}
		if x.in(st, "shut", ev.Args[0]) {
			x.r.fail("close", x.p.instrPos(ev.Ins), st.Trace(), "%s, a channel is closed that is closed already", x.what)
			return
		}
		x.add(st, "shut", ev.Args[0])
	case "send", "selected":
		if len(ev.Args) >= 2 && x.in(st, "shut", ev.Args[0]) {
			x.r.fail("send", x.p.instrPos(ev.Ins), st.Trace(), "%s, something is sent on a channel that is closed", x.what)
		}
	case "mapupdate":
		if len(ev.Args) > 0 && ev.Args[0].isNil() {
			x.r.fail("map", x.p.instrPos(ev.Ins), st.Trace(), "%s, a nil map is written to", x.what)
		}
	case "nilderef":
		x.r.fail("nil", x.p.instrPos(ev.Ins), st.Trace(), "%s, something is used that is nil", x.what)
	case "panic":
		x.r.fail("panic", x.p.instrPos(ev.Ins), st.Trace(), "%s, there is a panic", x.what)
	case "go":
		if ev.Fn != nil && x.listens(ev.Fn) {
			x.stays[ev.Fn] = true
		}
	}
}

// listens: the goroutine receives from a socket.
func (x *netScene) listens(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if f == nil || seen[f] || f.Pkg != x.pkg && f.Pkg != nil {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok && visit(mc.Fn.(*ssa.Function)) {
					return true
				}
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if m := ci.Common().Method; m != nil && isSocketRecv(x.p, m) {
					return true
				}
				if visit(ci.Common().StaticCallee()) {
					return true
				}
				for _, a := range ci.Common().Args {
					if af, ok := a.(*ssa.Function); ok && visit(af) {
						return true
					}
				}
			}
		}
		return false
	}
	return visit(fn)
}

func (x *netScene) errTerm(st *State, name string) *Term {
	e := x.ts.mk("newerr", name, types.Universe.Lookup("error").Type())
	st.facts[x.ts.eq(e, x.ts.Nil)] = false
	return e
}

func (x *netScene) netCall(st *State, ci *CallInfo) []Out {
	ts := x.ts
	nm := st.name(ci.Ins)
	if ci.Clos != nil && ci.Fn == nil && ci.Meth == nil && !ci.Go {
		if x.called(st, ci.Clos, ci.Args, ci.Ins) {
			return []Out{{st, nil}}
		}
	}
	if o := x.lockHook(st, ci); o != nil {
		if strings.HasSuffix(ci.Ext, "nlock") {
			// another operation may be next
			var out []Out
			for _, s := range x.interrupt(o[0].St) {
				out = append(out, Out{s, nil})
			}
			return out
		}
		return o
	}
	sock := types.Type(x.p.mustType("Socket"))
	if ci.Fn != nil && ci.Fn.Pkg != nil && ci.Fn.Pkg.Pkg == x.p.Root && ci.Fn.Signature.Recv() == nil && ci.Fn.Signature.Results().Len() == 1 && types.Identical(ci.Fn.Signature.Results().At(0).Type(), sock) && strings.HasPrefix(ci.Fn.Name(), "New") {
		who := "-"
		if w := st.props["who"]; w != nil {
			who = w.aux
		}
		v := ts.sym(fmt.Sprintf("socket:%s:%s:%d", ci.Fn.Name()[3:], who, len(x.all(st, "socks"))), sock)
		st.facts[ts.eq(v, ts.Nil)] = false
		x.add(st, "socks", v)
		return []Out{{st, v}}
	}
	if ci.Meth != nil && types.Identical(ci.Meth.Type().(*types.Signature).Recv().Type(), sock) {
		res := ci.Meth.Type().(*types.Signature).Results()
		switch ci.Meth.Name() {
		case "Close":
			sts := x.interrupt(st)
			var out []Out
			for _, s := range sts {
				x.add(s, "closed", ci.Args[0])
				out = append(out, Out{s, ts.Nil})
			}
			return out
		case "Send", "SendMulti":
			x.add(st, "sent", ts.mk("agg", "sent", nil, ci.Args[0], ci.Args[1]))
			return []Out{{st, ts.Nil}}
		case "Recv":
			key := fmt.Sprintf("in%d", ci.Args[0].id)
			q := st.props[key]
			if x.in(st, "closed", ci.Args[0]) || q == nil || len(q.args) == 0 {
				x.end(st, nil)
				return []Out{}
			}
			m := q.args[0]
			st.props[key] = ts.mk("seq", key, nil, q.args[1:]...)
			if m.op == "newerr" {
				return []Out{{st, ts.mk("agg", "tuple", res, st.zero(res.At(0).Type()), m)}}
			}
			return []Out{{st, ts.mk("agg", "tuple", res, m, ts.Nil)}}
		case "Dial":
			var out []Out
			for _, s := range x.interrupt(st) {
				if x.dials {
					n := s.Fork()
					n.props["failed"] = ts.True
					n.note("%s: Dial fails", x.p.instrPos(ci.Ins))
					out = append(out, Out{n, x.errTerm(n, "dial:"+nm)})
				}
				x.add(s, "dialed", ci.Args[0])
				out = append(out, Out{s, ts.Nil})
			}
			return out
		}
		switch res.Len() {
		case 0:
			return []Out{{st, nil}}
		case 1:
			if isErrType(res.At(0).Type()) {
				return []Out{{st, ts.Nil}}
			}
			return []Out{{st, st.unknown("socket:"+nm, res.At(0).Type())}}
		}
		return []Out{{st, st.unknown("socket:"+nm, res)}}
	}
	switch ci.Ext {
	case "sync.Pool.Put":
		x.add(st, "pool", ts.mk("agg", "pooled", nil, ci.Args[0], ci.Args[1]))
		st.pins = append(st.pins[:len(st.pins):len(st.pins)], ci.Args[1])
		return []Out{{st, nil}}
	case "sync.Pool.Get":
		var out []Out
		for i, e := range x.all(st, "pool") {
			if e.args[0] != ci.Args[0] {
				continue
			}
			n := st.Fork()
			as := n.props["pool"].args
			delete(n.props, "pool")
			if len(as) > 1 {
				x.add(n, "pool", append(append([]*Term(nil), as[:i]...), as[i+1:]...)...)
			}
			out = append(out, Out{n, e.args[1]})
		}
		var mk *Term
		pt, ok := ci.Args[0].typ.(*types.Pointer)
		if ok {
			if s := structOf(pt.Elem()); s != nil {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == "New" {
						mk = st.loadPlain(st.fa(pt, ci.Args[0], i), s.Field(i).Type())
					}
				}
			}
		}
		if mk == nil {
			return nil
		}
		fn, free := x.s.f.calleeOf(mk)
		if fn == nil {
			return append(out, Out{st, ts.Nil})
		}
		for _, s := range x.inside(st.Fork(), func(z *State) []*State {
			var zs []*State
			for _, o := range x.exec(z, fn, nil, free) {
				if len(o.res) == 1 {
					o.st.props["made"] = ts.mk("made", "", nil, o.res[0])
					o.st.pins = append(o.st.pins[:len(o.st.pins):len(o.st.pins)], o.res[0])
					zs = append(zs, o.st)
				}
			}
			return zs
		}) {
			v := s.props["made"].args[0]
			delete(s.props, "made")
			out = append(out, Out{s, v})
		}
		return out
	case "context.Context.Err", "context.Cause":
		if st.cancelled(ci.Args[0]) {
			return []Out{{st, x.errTerm(st, "ctxerr")}}
		}
		return []Out{{st, ts.Nil}}
	case "errors.Is":
		// what Recv and Dial failed with is none of the errors known by name
		if ci.Args[0].op == "newerr" {
			return []Out{{st, ts.Fals}}
		}
	case "encoding/json.Marshal":
		n := len(x.all(st, "encoded"))
		v := ts.sym(fmt.Sprintf("json%d:%s", n, nm), bytesT)
		ptr := throughIface(ci.Args[0])
		var m *Term
		if ptr.typ != nil && types.Identical(ptr.typ, types.NewPointer(x.msgT)) {
			m = st.loadPlain(ptr, x.msgT)
		} else {
			m = ptr
		}
		x.add(st, "encoded", ts.mk("agg", "encoded", nil, v, m))
		return []Out{{st, ts.mk("agg", "tuple", ci.Ins.Common().Signature().Results(), v, ts.Nil)}}
	case "encoding/json.Unmarshal", "encoding/json.Valid":
		var pl *payload
		for _, l := range x.loads {
			if l.data == nil {
				continue
			}
			if v, k := st.Eval(st.eqBytes(ci.Args[0], l.data)); k && v {
				pl = l
			}
		}
		if pl == nil {
			x.r.fail("decodes", x.p.instrPos(ci.Ins), st.Trace(), "%s, what is decoded is not what was received", x.what)
			return []Out{}
		}
		if ci.Ext == "encoding/json.Valid" {
			return []Out{{st, ts.boolean(!pl.bad)}}
		}
		tgt := throughIface(ci.Args[1])
		if tgt.typ == nil || !types.Identical(tgt.typ, types.NewPointer(x.msgT)) {
			x.problems = append(x.problems, "what is decoded is no Message")
			return []Out{}
		}
		if pl.bad {
			// part of it may have been decoded
			st.Store(tgt, x.msgT, st.unknown("half "+pl.kind, x.msgT))
			return []Out{{st, x.errTerm(st, "syntax")}}
		}
		// what is left out stays as it was
		was := st.loadPlain(tgt, x.msgT)
		v := pl.msg
		if s := structOf(x.msgT); was.op == "agg" && len(was.args) == len(v.args) {
			as := append([]*Term(nil), v.args...)
			for i := range as {
				if strings.Contains(s.Tag(i), "omitempty") && as[i] == st.zero(s.Field(i).Type()) {
					as[i] = was.args[i]
				}
			}
			v = ts.mk("agg", v.aux, x.msgT, as...)
		}
		st.Store(tgt, x.msgT, v)
		return []Out{{st, ts.Nil}}
	}
	return nil
}

// interrupt lets another operation run where this one waits for the network.
func (x *netScene) interrupt(st *State) []*State {
	sts := []*State{st}
	if x.between != nil && st.props["between"] == nil && st.props["outer"] == nil {
		n := st.Fork()
		n.props["between"] = x.ts.True
		between := x.between
		x.between = nil
		sts = append(sts, x.inside(n, between)...)
		x.between = between
		x.points++
	}
	return sts
}

func (x *netScene) method(name string) *ssa.Function {
	sel := x.p.Prog.MethodSets.MethodSet(x.ptr).Lookup(x.pkg.Pkg, name)
	if sel == nil {
		fatalf("anchor not found: method %s of %v", name, x.ptr)
	}
	return x.p.Prog.MethodValue(sel)
}

func (x *netScene) op(st *State, name string, args ...*Term) []outcome {
	return x.exec(st, x.method(name), append([]*Term{x.recv}, args...), nil)
}

// must runs a method that has to return.
func (x *netScene) must(st *State, name string, args ...*Term) []*State {
	var out []*State
	for _, o := range x.op(st, name, args...) {
		if o.res == nil {
			x.r.fail("waits", name, trail(o.st), "%s, %s waits", x.what, name)
			continue
		}
		out = append(out, o.st)
	}
	if len(out) == 0 && len(x.problems) == 0 {
		x.r.fail("path", name, nil, "%s, %s never returns", x.what, name)
	}
	return out
}

// ready is a transport as New returns it.
func (x *netScene) make() *State {
	st := x.start()
	ctx := x.ts.sym("param:ctx", x.pkg.Func("New").Signature.Params().At(0).Type())
	st.facts[x.ts.eq(ctx, x.ts.Nil)] = false
	for _, o := range x.exec(st, x.pkg.Func("DefaultConfig"), []*Term{x.ts.str("me"), x.ts.integer(5000)}, nil) {
		for _, n := range x.exec(o.st, x.pkg.Func("New"), []*Term{ctx, o.res[0]}, nil) {
			if n.res != nil {
				x.recv = n.res[0]
				n.st.facts[x.ts.eq(x.recv, x.ts.Nil)] = false
				n.st.pins = append(n.st.pins[:len(n.st.pins):len(n.st.pins)], x.recv)
				return n.st
			}
		}
	}
	return nil
}

// peers are the listed ones.
func (x *netScene) peers(st *State) (ps []string, ok bool) {
	outs := x.op(st, "GetPeers")
	if len(outs) != 1 || outs[0].res == nil {
		return nil, false
	}
	es, ok := outs[0].st.Elems(outs[0].res[0], types.Typ[types.String])
	if !ok {
		return nil, false
	}
	for _, e := range es {
		s, k := outs[0].st.subst(e).strVal()
		if !k {
			return nil, false
		}
		ps = append(ps, s)
	}
	sort.Strings(ps)
	return ps, true
}

// reaches is the socket that Send to the peer uses, if any.
func (x *netScene) reaches(st *State, peer string) (*Term, bool) {
	y := st.Fork()
	m := x.ts.mk("alloc", "message to "+peer, types.NewPointer(x.msgT))
	y.allocs[m] = true
	y.facts[x.ts.eq(m, x.ts.Nil)] = false
	y.Store(m, x.msgT, y.unknown("message to "+peer, x.msgT))
	n := len(x.all(y, "sent"))
	var to *Term
	outs := x.op(y, "Send", x.ts.str(peer), m)
	for _, o := range outs {
		if o.res == nil {
			x.r.fail("waits", "Send", trail(o.st), "%s, Send waits", x.what)
			return nil, false
		}
		sent := x.all(o.st, "sent")[n:]
		e := x.isErr(o.st, o.res[0])
		switch {
		case e == 1 && len(sent) == 0 && len(outs) == 1:
			return nil, true
		case e == 0 && len(sent) == 1 && (to == nil || to == sent[0].args[0]):
			to = sent[0].args[0]
			// one frame with the message, which tells where it comes from and goes to
			fs := x.parts(o.st, sent[0].args[1].args[x.frames])
			good := len(fs) == 1 && fs[0].op == "elem"
			if good {
				good = false
				for _, e := range x.all(o.st, "encoded") {
					if v, k := o.st.Eval(o.st.eqBytes(fs[0].args[0], e.args[0])); k && v {
						good = x.field(o.st, e.args[1], "From", "me") && x.field(o.st, e.args[1], "To", peer)
					}
				}
			}
			if !good {
				x.r.fail("contents", "Send", trail(o.st), "%s, Send to %s does not send the message as one frame with From and To", x.what, peer)
			}
		default:
			x.r.fail("send", "Send", trail(o.st), "%s, Send to %s sends %d messages and returns %v", x.what, peer, len(sent), o.res[0])
			return nil, false
		}
	}
	return to, to != nil
}

func (x *netScene) field(st *State, m *Term, name, want string) bool {
	s := structOf(x.msgT)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name && m.op == "agg" {
			v, ok := st.subst(m.args[i]).strVal()
			return ok && v == want
		}
	}
	return false
}

// agree: peers are listed exactly while there is a socket for messages to them.
func (x *netScene) agree(st *State) bool {
	ps, ok := x.peers(st)
	if !ok {
		if len(x.problems) == 0 {
			x.problems = append(x.problems, "what GetPeers returns is not known")
		}
		return false
	}
	held := map[*Term]bool{}
	for _, p := range []string{"A", "B", "X"} {
		n := 0
		for _, l := range ps {
			if l == p {
				n++
			}
		}
		sk, ok := x.reaches(st, p)
		if !ok {
			return false
		}
		switch {
		case n > 1:
			x.r.fail("listed twice", "GetPeers", trail(st), "%s, %s is listed %d times", x.what, p, n)
			return false
		case n == 1 && sk == nil:
			x.r.fail("listed", "GetPeers", trail(st), "%s, %s is listed, but there is no socket for messages to it", x.what, p)
			return false
		case n == 0 && sk != nil:
			x.r.fail("unlisted", "GetPeers", trail(st), "%s, %s is not listed, but there is a socket for messages to it", x.what, p)
			return false
		case sk != nil && x.in(st, "closed", sk):
			x.r.fail("closed", "Send", trail(st), "%s, messages to %s go to a socket that is closed", x.what, p)
			return false
		case sk != nil && (!strings.Contains(sk.aux, ":"+p+":") || !x.in(st, "dialed", sk)):
			x.r.fail("wrong", "Send", trail(st), "%s, messages to %s go to a socket that is not connected to it", x.what, p)
			return false
		}
		if sk != nil {
			held[sk] = true
		}
	}
	for _, sk := range x.all(st, "socks") {
		if strings.HasPrefix(sk.aux, "socket:Dealer:") && !held[sk] && !x.in(st, "closed", sk) {
			x.r.fail("leak", "ConnectPeer", trail(st), "%s, a socket to a peer is neither used nor closed", x.what)
			return false
		}
	}
	x.r.ok("%s: peers and sockets agree", x.what)
	return true
}

type netOp struct {
	name string
	peer string
}

func (o netOp) String() string {
	switch o.name {
	case "ConnectPeer":
		return "connect " + o.peer
	case "DisconnectPeer":
		return "disconnect " + o.peer
	}
	return strings.ToLower(o.name)
}

// perform runs an operation; only the returns are yielded.
func (x *netScene) perform(st *State, o netOp) []outcome {
	y := st.Fork()
	old := y.props["who"]
	y.props["who"] = x.ts.mk("who", o.peer, nil)
	delete(y.props, "failed")
	var args []*Term
	switch o.name {
	case "ConnectPeer":
		args = []*Term{x.ts.str(o.peer), x.ts.integer(6000 + int64(o.peer[0]))}
	case "DisconnectPeer":
		args = []*Term{x.ts.str(o.peer)}
	}
	var out []outcome
	for _, u := range x.op(y, o.name, args...) {
		if u.res == nil {
			x.r.fail("waits", o.name, trail(u.st), "%s, %s waits", x.what, o.name)
			continue
		}
		delete(u.st.props, "who")
		if old != nil {
			u.st.props["who"] = old
		}
		out = append(out, u)
	}
	if len(out) == 0 && len(x.problems) == 0 && st.props["between"] == nil && x.between == nil {
		x.r.fail("path", o.name, nil, "%s, %s never returns", x.what, o.name)
	}
	return out
}

// history checks every sequence of operations up to the depth.
func (x *netScene) history(st *State, done []string, depth int, before []string) {
	if len(x.problems) > 0 {
		return
	}
	for _, o := range []netOp{{"ConnectPeer", "A"}, {"ConnectPeer", "B"}, {"DisconnectPeer", "A"}, {"DisconnectPeer", "X"}} {
		seq := append(done[:len(done):len(done)], o.String())
		x.what = "after " + strings.Join(seq, ", ")
		was := false
		for _, p := range before {
			was = was || p == o.peer
		}
		succ := 0
		for _, u := range x.perform(st, o) {
			x.what = "after " + strings.Join(seq, ", ")
			if !x.agree(u.st) {
				continue
			}
			now, _ := x.peers(u.st)
			is := false
			for _, p := range now {
				is = is || p == o.peer
			}
			// nothing happens to the others
			if strings.Join(minus(before, o.peer), ",") != strings.Join(minus(now, o.peer), ",") {
				x.r.fail("others", o.name, trail(u.st), "%s, the peers are %v", x.what, now)
				continue
			}
			if o.name == "ConnectPeer" {
				e := x.isErr(u.st, u.res[0])
				switch {
				case e == 0 && !is:
					x.r.fail("success", o.name, trail(u.st), "%s, ConnectPeer has succeeded but the peer is not listed", x.what)
					continue
				case e != 0 && (was || is):
					x.r.fail("error", o.name, trail(u.st), "%s, ConnectPeer has failed but the peer is listed", x.what)
					continue
				case e != 0 && u.st.props["failed"] == nil:
					x.r.fail("refused", o.name, trail(u.st), "%s, ConnectPeer has failed although every Dial succeeded", x.what)
					continue
				case e == 0:
					succ++
				}
				if was && len(x.all(u.st, "socks")) != len(x.all(st, "socks")) {
					x.r.fail("again", o.name, trail(u.st), "%s, another socket was made for a peer that is connected", x.what)
					continue
				}
			} else if is {
				x.r.fail("listed", o.name, trail(u.st), "%s, the peer is still listed", x.what)
				continue
			}
			x.r.ok("%s: outcome", x.what)
			if depth > 1 {
				x.history(u.st, seq, depth-1, now)
			}
		}
		if o.name == "ConnectPeer" && succ == 0 && len(x.problems) == 0 {
			x.what = "after " + strings.Join(seq, ", ")
			x.r.fail("never", o.name, nil, "%s: ConnectPeer never succeeds", x.what)
		}
	}
}

func minus(l []string, s string) (out []string) {
	for _, e := range l {
		if e != s {
			out = append(out, e)
		}
	}
	return
}

// stopped: everything is closed.
func (x *netScene) stopped(st *State) {
	for _, sk := range x.all(st, "socks") {
		if !x.in(st, "closed", sk) {
			x.r.fail("open", "Stop", trail(st), "%s, %s is still open", x.what, strings.Join(strings.Split(sk.aux, ":")[:2], " "))
			return
		}
	}
	x.r.ok("%s: every socket is closed", x.what)
}

func (x *netScene) load(kind, typ, from, to string, h *Term) *payload {
	pl := &payload{kind: kind, typ: typ, from: from, to: to, handler: h}
	pl.data = x.ts.sym("payload:"+kind, bytesT)
	x.s.st.Assume(x.ts.ge(x.ts.linComb(x.s.st.lenOf(pl.data), 1, nil, 0, -1)), true)
	m := x.s.st.unknown("message "+kind, x.msgT)
	as := append([]*Term(nil), m.args...)
	s := structOf(x.msgT)
	for i := 0; i < s.NumFields(); i++ {
		switch s.Field(i).Name() {
		case "Type":
			as[i] = x.ts.constant(constant.MakeString(typ), s.Field(i).Type())
		case "From":
			as[i] = x.ts.constant(constant.MakeString(from), s.Field(i).Type())
		case "To":
			as[i] = x.ts.constant(constant.MakeString(to), s.Field(i).Type())
		default:
			if kind == "a" && strings.Contains(s.Tag(i), "omitempty") {
				as[i] = x.s.st.zero(s.Field(i).Type())
			}
		}
	}
	pl.msg = x.ts.mk("agg", m.aux, x.msgT, as...)
	x.loads = append(x.loads, pl)
	return pl
}

// messages checks what becomes of messages.
func (x *netScene) messages(st0 *State) {
	ts := x.ts
	hT := x.method("RegisterHandler").Signature.Params().At(1).Type()
	sts := []*State{st0}
	h := map[string]*Term{}
	for _, n := range []string{"a", "b", "b2", "d", "e"} {
		h[n] = ts.sym("handler:"+n, hT)
	}
	step := func(name string, args ...*Term) {
		var next []*State
		for _, st := range sts {
			for _, t := range h {
				st.facts[ts.eq(t, ts.Nil)] = false
			}
			next = append(next, x.must(st, name, args...)...)
		}
		sts = next
	}
	x.what = "registering"
	step("RegisterHandler", ts.str("a"), h["a"])
	step("RegisterHandler", ts.str("b"), h["b"])
	step("RegisterHandler", ts.str("nil"), ts.Nil)
	step("Start")
	step("RegisterHandler", ts.str("b"), h["b2"])
	step("RegisterHandler", ts.str("d"), h["d"])
	step("UnregisterHandler", ts.str("d"))
	step("UnregisterHandler", ts.str("never"))
	if len(sts) == 0 {
		return
	}
	x.zero = x.ts.Zero
	for _, o := range x.op(sts[0], "GetMetrics") {
		x.zero = o.res[2]
	}
	// Start succeeds on one of the paths: the sockets can be bound
	st := sts[0]
	var loops []int
	for _, i := range x.kidsOf(st) {
		if x.listens(x.kids[i].fn) {
			loops = append(loops, i)
		}
	}
	x.r.count("goroutines that receive", len(loops))
	bad := x.load("bad", "a", "peer", "", nil)
	bad.bad = true
	id := x.load("identity", "a", "peer", "", nil)
	id.bad = true
	flt := &payload{kind: "error", fail: true}
	plain := []*payload{
		x.load("a", "a", "peer", "", h["a"]),
		x.load("a again", "a", "other", "me", h["a"]),
		x.load("b", "b", "peer", "me", h["b2"]),
		x.load("nil", "nil", "peer", "", nil),
		x.load("d", "d", "peer", "", nil),
		x.load("none", "none", "peer", "", nil),
		x.load("own broadcast", "a", "me", "", nil),
		x.load("to itself", "a", "me", "me", h["a"]),
		bad, flt,
	}
	for _, kind := range []string{"Sub", "Router"} {
		var sk *Term
		for _, s := range x.all(st, "socks") {
			if strings.HasPrefix(s.aux, "socket:"+kind+":") {
				sk = s
			}
		}
		if sk == nil {
			x.r.fail("socket", "New", nil, "there is no %s socket", kind)
			continue
		}
		try := func(seq ...*payload) {
			var names []string
			y := st.Fork()
			for i, pl := range seq {
				names = append(names, pl.kind)
				if pl.fail {
					x.add(y, fmt.Sprintf("in%d", sk.id), x.errTerm(y, fmt.Sprintf("recv%d", i)))
					continue
				}
				y.Assume(ts.ge(ts.linComb(y.lenOf(pl.data), 1, nil, 0, -1)), true)
				y.facts[ts.eq(pl.data, ts.Nil)] = false
				fs := []*Term{pl.data}
				if kind == "Router" {
					y.Assume(ts.ge(ts.linComb(y.lenOf(id.data), 1, nil, 0, -1)), true)
					fs = []*Term{id.data, pl.data}
				}
				x.add(y, fmt.Sprintf("in%d", sk.id), x.message(fmt.Sprintf("in:%d:%s", i, pl.kind), fs...))
			}
			x.what = fmt.Sprintf("%s receives %s", strings.ToUpper(kind), strings.Join(names, ", "))
			ends := 0
			for _, u := range x.work([]*State{y}, loops) {
				if q := u.props[fmt.Sprintf("in%d", sk.id)]; q != nil && len(q.args) > 0 {
					x.r.fail("left", kind, trail(u), "%s, but messages are not received any more", x.what)
					continue
				}
				ends++
				x.verdict(u, seq)
			}
			if ends == 0 && len(x.problems) == 0 {
				x.r.fail("none", kind, nil, "%s: nothing is received", x.what)
			}
		}
		for _, a := range plain {
			try(a)
			for _, b := range plain {
				if a != b {
					try(a, b)
				}
			}
		}
		try(plain[0], bad, plain[1])
		try(plain[0], plain[2], plain[1])
		try(flt, flt, flt, plain[0])
		// handlers change meanwhile
		for _, alt := range []string{"RegisterHandler", "UnregisterHandler"} {
			args := []*Term{ts.str("a")}
			if alt == "RegisterHandler" {
				args = append(args, h["e"])
			}
			x.meanwhile = alt
			x.between = func(s *State) []*State {
				s.facts[ts.eq(h["e"], ts.Nil)] = false
				var out []*State
				for _, o := range x.op(s, alt, args...) {
					if o.res != nil {
						out = append(out, o.st)
					}
				}
				return out
			}
			pl := *plain[0]
			y := st.Fork()
			y.Assume(ts.ge(ts.linComb(y.lenOf(pl.data), 1, nil, 0, -1)), true)
			fs := []*Term{pl.data}
			if kind == "Router" {
				fs = []*Term{id.data, pl.data}
			}
			x.add(y, fmt.Sprintf("in%d", sk.id), x.message("in:while", fs...))
			x.what = fmt.Sprintf("%s receives a message while %s runs", strings.ToUpper(kind), alt)
			for _, u := range x.work([]*State{y}, loops) {
				hs := x.all(u, "handled")
				switch {
				case len(hs) == 1 && (hs[0].args[0] == h["a"] || alt == "RegisterHandler" && hs[0].args[0] == h["e"]):
				case len(hs) == 0 && alt == "UnregisterHandler":
				default:
					x.r.fail("while", kind, trail(u), "%s, %d handlers are called", x.what, len(hs))
					continue
				}
				x.r.ok("%s", x.what)
			}
			x.between = nil
		}
	}
}

// work lets the goroutines run.
func (x *netScene) work(sts []*State, loops []int) []*State {
	ran := map[int]bool{}
	for round := 0; round < 3; round++ {
		var all []int
		if len(sts) > 0 {
			all = x.kidsOf(sts[0])
		}
		progress := false
		for _, i := range all {
			if round > 0 && ran[i] && x.listens(x.kids[i].fn) {
				continue
			}
			if !ran[i] {
				progress = true
			}
			ran[i] = true
			var next []*State
			for _, st := range sts {
				if !x.has(st, i) {
					next = append(next, st)
					continue
				}
				x.cur = i
				for _, o := range x.exec(st, x.kids[i].fn, x.kids[i].args, x.kids[i].free) {
					next = append(next, o.st)
				}
			}
			sts = next
		}
		if !progress && round > 0 {
			break
		}
		if len(sts) > 64 {
			x.problems = append(x.problems, "too many states")
			return nil
		}
	}
	return sts
}

func (x *netScene) has(st *State, i int) bool {
	for _, k := range x.kidsOf(st) {
		if k == i {
			return true
		}
	}
	return false
}

// verdict: each message was handled as it must be.
func (x *netScene) verdict(st *State, seq []*payload) {
	hs := append([]*Term(nil), x.all(st, "handled")...)
	dropped := int64(0)
	ptrs := map[*Term]bool{}
	for _, c := range hs {
		if ptrs[c.args[1]] {
			x.r.fail("shared", "handlers", trail(st), "%s, two calls of handlers get the same message", x.what)
			return
		}
		ptrs[c.args[1]] = true
	}
	for _, pl := range seq {
		if pl.bad {
			dropped++
		}
		if pl.handler == nil {
			continue
		}
		at := -1
		for i, c := range hs {
			if c.args[0] == pl.handler && x.carriesMsg(st, c.args[1], pl.msg) {
				at = i
			}
		}
		if at < 0 {
			x.r.fail("not handled", "handlers", trail(st), "%s, but the message %q does not get to its handler as it was sent", x.what, pl.kind)
			return
		}
		hs = append(hs[:at], hs[at+1:]...)
	}
	if len(hs) > 0 {
		x.r.fail("handled", "handlers", trail(st), "%s, and %s is called once more", x.what, hs[0].args[0].aux)
		return
	}
	good := false
	for _, o := range x.op(st, "GetMetrics") {
		if o.res == nil {
			continue
		}
		d, ok := o.st.subst(x.ts.linComb(o.res[2], 1, x.zero, -1, 0)).intVal()
		good = ok && d == dropped
		if !good {
			x.r.fail("dropped", "GetMetrics", trail(o.st), "%s, %d messages cannot be decoded, but %v are counted as dropped", x.what, dropped, o.st.subst(o.res[2]).show(3))
			return
		}
	}
	if good {
		x.r.ok("%s", x.what)
	}
}

func (x *netScene) carriesMsg(st *State, ptr, msg *Term) bool {
	if ptr.typ == nil {
		return false
	}
	v := st.loadPlain(ptr, x.msgT)
	if v == msg {
		return true
	}
	if v.op != "agg" || len(v.args) != len(msg.args) {
		return false
	}
	for i := range v.args {
		if v.args[i] == msg.args[i] {
			continue
		}
		if e, k := st.Eval(x.ts.eq(v.args[i], msg.args[i])); !k || !e {
			return false
		}
	}
	return true
}

func checkC32(p *Program, r *Report) {
	r.rule("From the transport as New returns it, with stand-ins for the sockets, each path of the goroutines that Start starts is computed by dataflow for every pair (and some longer sequences) of messages that are registered, registered again, unregistered, never registered, registered with nil, broadcast by the node itself, sent to itself or not decodable, and errors of Recv: the handler of the type is called once with its own copy, and the others are dropped (and counted) or ignored.")
	r.rule("Each path of every sequence of ConnectPeer (each Dial succeeds or fails) and DisconnectPeer up to a depth: a peer is listed exactly while Send reaches an open socket dialed for it, every other socket to peers is closed, and ConnectPeer succeeds when its Dials do. One more operation runs where an operation takes a lock, dials or closes. Stop closes every socket.")
	r.assume("encoding/json decodes what it encoded; sockets behave as stated by the properties about them; handlers belong to the user")
	x := p.newNet(r)
	x.what = "New"
	st := x.make()
	if st == nil {
		r.fail("path", "New", nil, "New never returns")
		x.report(r)
		return
	}
	depth := 3
	x.dials = true
	x.history(st, nil, depth, nil)
	// the same of a transport that was started
	x.dials = true
	x.what = "Start"
	for _, s := range x.must(st, "Start") {
		x.history(s, []string{"start"}, 2, nil)
	}
	x.messages(st)
	x.dials = false
	// one operation in the middle of another
	stop := netOp{"Stop", "-"}
	prior := [][]netOp{nil, {{"ConnectPeer", "A"}}}
	inner := []netOp{{"ConnectPeer", "A"}, {"DisconnectPeer", "A"}, {"ConnectPeer", "B"}, stop}
	for _, pre := range prior {
		for _, a := range inner {
			for _, b := range inner {
				if a == stop && b == stop {
					continue
				}
				s := st
				var seq []string
				for _, o := range pre {
					seq = append(seq, o.String())
					for _, u := range x.perform(s, o) {
						s = u.st
					}
				}
				what := fmt.Sprintf("after %s, meanwhile %s", strings.Join(append(seq, a.String()), ", "), b)
				x.what = what
				x.meanwhile = b.String()
				x.between = func(z *State) []*State {
					var out []*State
					for _, o := range x.perform(z, b) {
						out = append(out, o.st)
					}
					return out
				}
				outs := x.perform(s, a)
				x.between = nil
				for _, u := range outs {
					x.what = what
					if u.st.props["between"] == nil {
						continue
					}
					n := u.st.Fork()
					delete(n.props, "between")
					if a == stop || b == stop {
						x.stopped(n)
						continue
					}
					x.agree(n)
				}
			}
		}
	}
	r.count("places where another operation comes in between", x.points)
	r.atLeast("places where another operation comes in between", 20)
	// Stop
	for _, pre := range [][]netOp{nil, {{"ConnectPeer", "A"}}, {{"ConnectPeer", "A"}, {"ConnectPeer", "B"}, {"DisconnectPeer", "A"}}, {stop}, {{"ConnectPeer", "A"}, stop}} {
		for _, started := range []bool{false, true} {
			s := st
			var seq []string
			if started {
				x.what = "Start"
				for _, y := range x.must(s, "Start") {
					s = y
				}
				seq = append(seq, "start")
			}
			for _, o := range append(pre, stop, netOp{"ConnectPeer", "B"}, netOp{"DisconnectPeer", "A"}, stop) {
				seq = append(seq, o.String())
				x.what = "after " + strings.Join(seq, ", ")
				for _, u := range x.perform(s, o) {
					s = u.st
				}
				if len(x.all(s, "shut")) > 0 || o == stop {
					x.stopped(s)
				}
			}
		}
	}
	x.report(r)
	r.count("operations run", x.n)
	r.atLeast("operations run", 500)
}
