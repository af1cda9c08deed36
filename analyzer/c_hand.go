package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C14", checkC14)
	register("C15", checkC15)
}

func el(ts *Terms, t *Term) *Term { return ts.mk("elem", "", nil, t) }
func sp(ts *Terms, t *Term) *Term { return ts.mk("spread", "", nil, t) }

// openRun analyses Open against a peer whose greeting is known.
type openRun struct {
	*connRun
	mech   string
	server bool
	peerT  *Term // the socket type in the peer's metadata; nil: none
	open   *ssa.Function
	hs     int // handshakes entered
	onHs   func(st *State, ci *CallInfo)
}

func (p *Program) openFn() *ssa.Function { return p.mustFunc(p.Root, "Open") }

func (p *Program) newOpenRun(r *Report, mech string, server bool) (*openRun, *State) {
	f := p.newFlow(Client{})
	ts := f.ts
	c := &connRun{p: p, r: r, f: f}
	o := &openRun{connRun: c, mech: mech, server: server, open: p.openFn()}
	st := p.initState(f, p.Root, true).Fork()
	ps := o.open.Params
	c.rw = ts.sym("the wire", ps[0].Type())
	c.sec = ts.sym("the security mechanism", ps[1].Type())
	c.sect = ts.str(mech)
	st.facts[ts.eq(c.rw, ts.Nil)] = false
	st.facts[ts.eq(c.sec, ts.Nil)] = false
	f.c.Call = o.call
	f.c.Model = o.call
	f.c.Unroll = 72
	f.c.MaxDepth = 24
	st.props["out"] = ts.mk("seq", "", bytesT)
	st.pins = []*Term{c.rw, c.sec, c.sect}
	c.bad = func(st *State, key, where, msg string) {
		r.fail(key, where, st.Trace(), "Open %s", msg)
	}
	return o, st
}

func compatible(a, b string) bool {
	for _, x := range zmtpCompat[a] {
		if x == b {
			return true
		}
	}
	return false
}

// greeting is what a peer sends first.
func (o *openRun) greeting(b map[int]int64, mech string) *Term {
	ts := o.f.ts
	var es []*Term
	for i := 0; i < 64; i++ {
		v := ts.integer(0)
		switch {
		case i == 0:
			v = ts.integer(0xFF)
		case i == 9:
			v = ts.integer(0x7F)
		case i < 9, i > 32:
			v = ts.sym(fmt.Sprintf("greeting byte %d", i), byteT)
		case i == 10:
			v = ts.integer(3)
		case i >= 12 && i < 32 && i-12 < len(mech):
			v = ts.integer(int64(mech[i-12]))
		}
		if x, ok := b[i]; ok {
			v = ts.integer(x)
		}
		es = append(es, el(ts, v))
	}
	return ts.mk("seq", "", bytesT, es...)
}

func (o *openRun) call(st *State, ci *CallInfo) []Out {
	if ci.Seen {
		return nil
	}
	ts := o.f.ts
	if ci.Meth != nil && len(ci.Args) > 0 && throughIface(ci.Args[0]) == o.sec && ci.Meth.Name() == "Handshake" {
		ci.Seen = true
		o.hs++
		nm := st.name(ci.Ins)
		if o.onHs != nil {
			o.onHs(st, ci)
		}
		if st.props["shook"] != nil {
			o.r.fail("twice", st.Where(), st.Trace(), "Open shakes hands twice on one connection")
		}
		n := st.Fork()
		n.kill("hs:" + nm)
		st.kill("hs:" + nm)
		e := ts.sym("hserr:"+nm, types.Universe.Lookup("error").Type())
		n.facts[ts.eq(e, ts.Nil)] = false
		n.props["shook"] = ts.Fals
		n.note("%s: the security handshake fails", o.p.instrPos(ci.Ins))
		st.props["shook"] = ts.True
		if v, k := st.Eval(ts.eq(ci.Args[2], ts.boolean(o.server))); !k || !v {
			o.r.fail("role", st.Where(), st.Trace(), "Open hands %v to the security handshake where the role is server=%v", ci.Args[2], o.server)
		}
		m := o.peerMeta(st, ci.Args[1])
		str := types.Typ[types.String]
		if o.peerT != nil {
			st.mapStore(m, ts.str("Socket-Type"), o.peerT, str, true)
		} else {
			st.mapStore(m, ts.str("Socket-Type"), ts.str(""), str, false)
		}
		return []Out{{n, e}, {st, ts.Nil}}
	}
	if ci.Ext == "net.Conn.Write" || ci.Ext == "io.Writer.Write" {
		if o.isWire(ci.Args[0]) {
			ci.Seen = true
			nm := st.name(ci.Ins)
			res := ci.Ins.Common().Signature().Results()
			n := st.Fork()
			n.kill("io:" + nm)
			n.props["failed"] = ts.True
			e := ts.sym("ioerr:"+nm, types.Universe.Lookup("error").Type())
			n.facts[ts.eq(e, ts.Nil)] = false
			n.note("%s: the write fails", o.p.instrPos(ci.Ins))
			o.put(st, ci.Args[1])
			ln := st.subst(st.lenOf(ci.Args[1]))
			st.kill("io:" + nm)
			return []Out{{n, ts.mk("agg", "tuple", res, ts.sym("written:"+nm, types.Typ[types.Int]), e)}, {st, ts.mk("agg", "tuple", res, ln, ts.Nil)}}
		}
	}
	outs := o.connRun.call(st, ci)
	if (ci.Ext == "io.ReadFull" || ci.Ext == "io.CopyN") && len(outs) == 2 {
		outs[0].St.props["failed"] = ts.True
	}
	return outs
}

// peerMeta is the map with the peer's metadata.
func (o *openRun) peerMeta(st *State, conn *Term) *Term {
	T := o.p.mustType("Conn")
	u := T.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() != "Peer" {
			continue
		}
		pt := u.Field(i).Type()
		pu, ok := pt.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for j := 0; j < pu.NumFields(); j++ {
			if pu.Field(j).Name() == "Meta" {
				a := st.fa(types.NewPointer(T), conn, i)
				return st.Load(st.fa(types.NewPointer(pt), a, j), pu.Field(j).Type())
			}
		}
	}
	fatalf("anchor not found: Conn.Peer.Meta")
	return nil
}

// run analyses Open for a socket type; success is told of each return without an error.
func (o *openRun) runOpen(st *State, typ, in *Term, success func(st *State, conn *Term, ins ssa.Instruction)) int {
	ts := o.f.ts
	n := 0
	st.props["in"] = in
	o.f.c.Return = func(st *State, res []*Term, ins ssa.Instruction) {
		if !st.mayBeNil(res[1]) {
			return
		}
		n++
		success(st, res[0], ins)
	}
	id := o.f.Param("identity", o.open.Params[3].Type())
	cb := o.f.Param("callback", o.open.Params[5].Type())
	o.f.RunKey("open", st, o.open, []*Term{o.rw, o.sec, typ, id, ts.boolean(o.server), cb}, nil)
	o.r.problems(o.f, "Open")
	o.r.count("handshakes analysed", 1)
	return n
}

func checkC14(p *Program, r *Report) {
	r.rule("Open, for every socket type but STREAM, both roles and each mechanism: with a greeting that lacks the signature, has an older version or names another mechanism, or when an exchange or the security handshake fails, or when the peer's socket type is not compatible by the table of the specification, no path returns a connection without an error; the security handshake is entered once, in the role of the connection, after 64 bytes were written and read and checked; with all of these in order a path succeeds")
	r.rule("what Open returned with an error is never stored in the socket by Dial or by what Listen starts")
	names := []string{"PAIR", "PUB", "SUB", "REQ", "REP", "DEALER", "ROUTER", "PULL", "PUSH", "XPUB", "XSUB", "STREAM"}
	bad := 0
	where := p.pos(p.openFn().Pos())
	expect := func(o *openRun, key, what string, n int, want bool, tr []string) {
		r.count("cases", 1)
		if (n > 0) == want {
			return
		}
		bad++
		if want {
			r.fail("refuses:"+key, where, tr, "Open never succeeds %s", what)
		} else {
			r.fail("admits:"+key, where, tr, "Open can succeed %s", what)
		}
	}
	// socket types
	for _, own := range names[:11] {
		for _, peer := range append(append([]string{}, names...), "", "FOO") {
			o, st := p.newOpenRun(r, "NULL", len(own)%2 == 0)
			if peer != "" {
				o.peerT = o.f.ts.str(peer)
			}
			var tr []string
			var shook *Term
			n := o.runOpen(st, o.f.ts.str(own), o.greeting(nil, "NULL"), func(st *State, conn *Term, ins ssa.Instruction) {
				tr, shook = st.Trace(), st.props["shook"]
				if shook != o.f.ts.True || st.props["failed"] != nil {
					bad++
					r.fail("unfinished:"+own, p.instrPos(ins), tr, "Open succeeds although an exchange or the security handshake did not")
				}
				if !st.NonNil(conn) {
					bad++
					r.fail("nothing:"+own, p.instrPos(ins), tr, "Open succeeds without a connection")
				}
			})
			expect(o, own+":"+peer, fmt.Sprintf("as %s for a peer of type %q", own, peer), n, compatible(own, peer), tr)
		}
	}
	// greetings
	type g struct {
		what  string
		bytes map[int]int64
		mech  string
		ok    bool
	}
	for _, mech := range []string{"NULL", "PLAIN", "CURVE"} {
		for _, server := range []bool{true, false} {
			gs := []g{{"a proper greeting", nil, mech, true},
				{"a wrong first byte of the signature", map[int]int64{0: 0xFE}, mech, false},
				{"a wrong last byte of the signature", map[int]int64{9: 0x7E}, mech, false},
				{"an older major version", map[int]int64{10: 2}, mech, false},
				{"an older major version with a newer minor one", map[int]int64{10: 2, 11: 9}, mech, false},
				{"a newer minor version", map[int]int64{11: 1}, mech, true},
				{"no mechanism", nil, "", false},
				{"a longer mechanism", nil, mech + "X", false},
				{"a mechanism that fills its field", nil, "ABCDEFGHIJKLMNOPQRST", false},
				{"its name within a full field", nil, (mech + "ABCDEFGHIJKLMNOPQRST")[:20], false},
				{"its name within a field full but for a byte", nil, (mech + "ABCDEFGHIJKLMNOPQRST")[:19], false},
				{"a shorter mechanism", nil, mech[:len(mech)-1], false},
				{"a mechanism in lower case", nil, strings.ToLower(mech), false}}
			for _, m := range []string{"NULL", "PLAIN", "CURVE"} {
				if m != mech {
					gs = append(gs, g{"mechanism " + m, nil, m, false})
				}
			}
			for i := range mech {
				gs = append(gs, g{fmt.Sprintf("another letter %d in the mechanism", i+1), map[int]int64{12 + i: 'Z'}, mech, false})
			}
			if mech == "NULL" && server {
				for v := int64(0); v < 256; v++ {
					if v != 0xFF {
						gs = append(gs, g{"a wrong first byte of the signature", map[int]int64{0: v}, mech, false})
					}
					if v != 0x7F {
						gs = append(gs, g{"a wrong last byte of the signature", map[int]int64{9: v}, mech, false})
					}
					if v < 3 {
						gs = append(gs, g{"an older major version", map[int]int64{10: v}, mech, false})
					}
				}
			}
			for _, gr := range gs {
				o, st := p.newOpenRun(r, mech, server)
				ts := o.f.ts
				o.peerT = ts.str("DEALER")
				o.onHs = func(st *State, ci *CallInfo) {
					if len(st.props["in"].args) != 0 {
						bad++
						r.fail("early:"+mech, st.Where(), st.Trace(), "the security handshake begins before the greeting was read")
					}
					if n, ok := st.lenOf(st.props["out"]).intVal(); !ok || n != 64 {
						bad++
						r.fail("unsent:"+mech, st.Where(), st.Trace(), "the security handshake begins after %v instead of 64 bytes were sent", st.lenOf(st.props["out"]))
					}
				}
				var tr []string
				n := o.runOpen(st, ts.str("DEALER"), o.greeting(gr.bytes, gr.mech), func(st *State, conn *Term, ins ssa.Instruction) {
					tr = st.Trace()
					if st.props["shook"] != ts.True || st.props["failed"] != nil {
						bad++
						r.fail("unfinished:"+mech, p.instrPos(ins), tr, "Open succeeds although an exchange or the security handshake did not")
					}
				})
				expect(o, mech+":"+gr.what, fmt.Sprintf("(mechanism %s, server=%v) with %s", mech, server, gr.what), n, gr.ok, tr)
				if !gr.ok && o.hs > 0 {
					bad++
					r.fail("shakes:"+mech+":"+gr.what, where, nil, "the security handshake of %s begins in spite of %s", mech, gr.what)
				}
			}
		}
	}
	// a truncated greeting
	for _, k := range []int{0, 11, 63} {
		o, st := p.newOpenRun(r, "NULL", true)
		o.peerT = o.f.ts.str("DEALER")
		c := o.connRun
		c.bad = func(st *State, key, where, msg string) {}
		in := o.greeting(nil, "NULL")
		n := o.runOpen(st, o.f.ts.str("DEALER"), o.f.ts.mk("seq", "", bytesT, in.args[:k]...), func(st *State, conn *Term, ins ssa.Instruction) {})
		expect(o, fmt.Sprint("short", k), fmt.Sprintf("with a greeting of %d bytes", k), n, false, nil)
	}
	if bad == 0 {
		r.ok("Open: succeeds exactly with a proper greeting, a finished handshake and a compatible peer (%d cases)", r.Counts["cases"])
	}
	r.atLeast("cases", 200)
	p.onlyOpened(r)
}

// onlyOpened: what Open returned with an error does not get into the socket.
func (p *Program) onlyOpened(r *Report) {
	for _, s := range p.instances() {
		for _, op := range []string{"Dial", "Listen"} {
			ts := s.f.ts
			t := &tracker{p: p, r: r, f: s.f, base: s.st, done: map[string]bool{}}
			t.what = "New" + s.name[3:] + "." + op
			t.key = s.name + ":" + op
			open := p.openFn()
			bad := false
			opened, added := 0, 0
			fail := func(st *State, msg string) {
				bad = true
				r.fail("kept:"+t.key, st.Where(), st.Trace(), "%s: %s", t.what, msg)
			}
			held := func(st *State, v *Term) {
				for k, x := range st.props {
					if strings.HasPrefix(k, "junk:") && st.reaches(v, x) {
						fail(st, "what Open returned with an error is kept")
					}
					if strings.HasPrefix(k, "good:") && st.reaches(v, x) {
						added++
					}
				}
			}
			hook := func(st *State, ci *CallInfo) []Out {
				nm := st.name(ci.Ins)
				if k := makesConn(ci); k != "" {
					sig := ci.Meth.Type().(*types.Signature)
					v := ts.sym(k+":"+nm, sig.Results().At(0).Type())
					st.facts[ts.eq(v, ts.Nil)] = false
					st.props["res:"+k] = v
					return []Out{{st, ts.mk("agg", "tuple", sig.Results(), v, ts.Nil)}}
				}
				if ci.Fn == open {
					opened++
					res := open.Signature.Results()
					n := st.Fork()
					n.kill("open:" + nm)
					st.kill("open:" + nm)
					e := ts.sym("openerr:"+nm, res.At(1).Type())
					n.facts[ts.eq(e, ts.Nil)] = false
					j := ts.sym("half-open:"+nm, res.At(0).Type())
					n.props["junk:"] = j
					n.note("%s: Open fails", p.instrPos(ci.Ins))
					v := ts.sym("connection:"+nm, res.At(0).Type())
					st.facts[ts.eq(v, ts.Nil)] = false
					st.props["good:"] = v
					return []Out{{n, ts.mk("agg", "tuple", res, j, e)}, {st, ts.mk("agg", "tuple", res, v, ts.Nil)}}
				}
				if ci.Fn != nil && ci.Fn.Signature.Recv() != nil && named(deref(ci.Fn.Signature.Recv().Type())) == p.mustType("Conn") && ci.Fn.Name() != "Close" {
					if j := st.props["junk:"]; j != nil && len(ci.Args) > 0 && ci.Args[0] == j {
						fail(st, "what Open returned with an error is used")
					}
				}
				return nil
			}
			c := Client{Call: hook, Model: hook, MaxDepth: 24,
				Store: func(st *State, addr, val *Term, ins ssa.Instruction) {
					if t.foreign(st, addr) {
						held(st, val)
					}
				},
				Event: func(st *State, ev *Event) {
					if ev.Kind == "go" {
						// whatever is started for a connection of the transport
						t.event(st, ev)
					}
					if ev.Kind == "go" || ev.Kind == "send" {
						for _, a := range ev.Args {
							if j := st.props["junk:"]; j != nil && st.reaches(a, j) {
								fail(st, "what Open returned with an error is handed on")
							}
						}
					}
				}}
			s.client(c)
			s.run(s.st.Fork(), "est", op)
			r.problems(s.f, t.what)
			t.children(c, s.name)
			if opened == 0 || added == 0 {
				r.fail("never:"+t.key, p.pos(s.method(op).Pos()), nil, "%s of a %s socket never opens or keeps a connection", op, s.name[3:])
			} else if !bad {
				r.ok("%s of %s: only what Open returned without an error is kept", op, s.name[3:])
			}
			r.count("establishing operations", 1)
		}
	}
	r.atLeast("establishing operations", 24)
}

// ---- C15

// mechanism is an implementation of Security in the module.
type mechanism struct {
	T    types.Type // dynamic type
	ctor *ssa.Function
	name string
}

// mechanisms are the module's implementations of Security.
func (p *Program) mechanisms() []*mechanism {
	sec := p.mustType("Security")
	it := sec.Underlying().(*types.Interface)
	var out []*mechanism
	var paths []string
	for path := range p.ByPath {
		paths = append(paths, path)
	}
	sort.Strings(paths)
	for _, path := range paths {
		pk := p.ByPath[path]
		for _, n := range pk.Scope().Names() {
			tn, ok := pk.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
				continue
			}
			m := &mechanism{name: pk.Name() + "." + n}
			switch {
			case types.Implements(tn.Type(), it):
				m.T = tn.Type()
			case types.Implements(types.NewPointer(tn.Type()), it):
				m.T = types.NewPointer(tn.Type())
			default:
				continue
			}
			for _, fnN := range pk.Scope().Names() {
				fo, ok := pk.Scope().Lookup(fnN).(*types.Func)
				if !ok || !fo.Exported() {
					continue
				}
				sig := fo.Type().(*types.Signature)
				if sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), sec) {
					m.ctor = p.mustFunc(pk, fnN)
				}
			}
			out = append(out, m)
		}
	}
	return out
}

// handshake is one analysis of a mechanism's handshake; commands and metadata
// are taken as units. Props: log, the steps taken so far.
type handshake struct {
	p      *Program
	r      *Report
	f      *Flow
	m      *mechanism
	sec    *Term
	conn   *Term
	creds  []*Term // what the constructor was given
	st     *State
	method *ssa.Function
	first  *Term // the body of the first command received
	paths  int
}

func (p *Program) newHandshake(r *Report, m *mechanism) *handshake {
	h := &handshake{p: p, r: r, m: m, f: p.newFlow(Client{})}
	ts := h.f.ts
	st := h.f.newState()
	if m.ctor != nil {
		for _, pr := range m.ctor.Params {
			h.creds = append(h.creds, ts.sym("own "+pr.Name(), pr.Type()))
		}
		var rs []*State
		var vs []*Term
		h.f.c.Return = func(st *State, res []*Term, ins ssa.Instruction) {
			n := st.Fork()
			n.top = nil
			rs, vs = append(rs, n), append(vs, res[0])
		}
		st.pins = append(st.pins, h.creds...)
		h.f.RunKey("new", st, m.ctor, h.creds, nil)
		h.f.c.Return = nil
		if len(rs) != 1 || vs[0].op != "iface" {
			fatalf("%s does not return one mechanism", m.name)
		}
		st, h.sec = rs[0], vs[0].args[0]
		m.T = p.dynTypes[vs[0].aux]
	} else {
		h.sec = st.zero(m.T)
		if pt, ok := m.T.(*types.Pointer); ok {
			h.sec = ts.mk("alloc", "mechanism", m.T)
			st.allocs[h.sec] = true
			st.Store(h.sec, pt.Elem(), st.zero(pt.Elem()))
		}
	}
	h.conn = ts.sym("the connection", types.NewPointer(p.mustType("Conn")))
	st.facts[ts.eq(h.conn, ts.Nil)] = false
	st.pins = append(st.pins, h.conn, h.sec)
	st.pins = append(st.pins, h.creds...)
	st.props["log"] = ts.mk("log", "", nil)
	sel := p.Prog.MethodSets.MethodSet(m.T).Lookup(nil, "Handshake")
	h.method = p.Prog.MethodValue(sel)
	h.st = st
	return h
}

func (h *handshake) log(st *State, what, aux string, args ...*Term) {
	ts := h.f.ts
	as := append(append([]*Term(nil), st.props["log"].args...), ts.mk("step:"+what, aux, nil, args...))
	st.props["log"] = ts.mk("log", "", nil, as...)
}

func (h *handshake) call(st *State, ci *CallInfo) []Out {
	if ci.Seen || ci.Fn == nil {
		return nil
	}
	ts := h.f.ts
	p := h.p
	recv := ci.Fn.Signature.Recv()
	if recv == nil {
		return nil
	}
	owner := named(deref(recv.Type()))
	res := ci.Fn.Signature.Results()
	nm := st.name(ci.Ins)
	errT := types.Universe.Lookup("error").Type()
	fails := func(what string) (*State, *Term) {
		n := st.Fork()
		n.kill("hs:" + nm)
		e := ts.sym(what+"err:"+nm, errT)
		n.facts[ts.eq(e, ts.Nil)] = false
		n.note("%s: %s fails", p.instrPos(ci.Ins), what)
		h.log(n, "failed", what)
		return n, e
	}
	switch {
	case owner == p.mustType("Conn") && ci.Fn.Name() == "RecvCmd":
		ci.Seen = true
		n, e := fails("RecvCmd")
		st.kill("hs:" + nm)
		T := p.mustType("Cmd")
		u := T.Underlying().(*types.Struct)
		var fs []*Term
		var name, body *Term
		for i := 0; i < u.NumFields(); i++ {
			v := ts.sym(fmt.Sprintf("received %s:%s", u.Field(i).Name(), nm), u.Field(i).Type())
			if isStr(u.Field(i).Type()) {
				name = v
			} else {
				if h.first != nil && !h.received(st) {
					v = h.first
				}
				body = v
			}
			fs = append(fs, v)
		}
		h.log(st, "recv", "", name, body)
		cmd := ts.mk("agg", p.typeName(T), T, fs...)
		return []Out{{n, ts.mk("agg", "tuple", res, st.zero(T), e)}, {st, ts.mk("agg", "tuple", res, cmd, ts.Nil)}}
	case owner == p.mustType("Conn") && ci.Fn.Name() == "SendCmd":
		ci.Seen = true
		n, e := fails("SendCmd")
		body := ts.Nil
		if v := ci.Args[2]; !v.isNil() {
			body = st.asStr(v)
		}
		h.log(st, "send", "", ci.Args[1], body)
		if name, ok := ci.Args[1].strVal(); ok && name == "WELCOME" && st.props["must"] != nil {
			h.r.fail("welcome:"+h.m.name, p.instrPos(ci.Ins), st.Trace(), "%s: WELCOME is sent to a client with %s", h.m.name, st.props["must"].aux)
		}
		st.kill("hs:" + nm)
		return []Out{{n, e}, {st, ts.Nil}}
	case owner == p.mustType("Metadata") && ci.Fn.Name() == "MarshalZMTP":
		ci.Seen = true
		n, e := fails("MarshalZMTP")
		v := ts.mk("marshalled", nm, bytesT, ci.Args[0])
		return []Out{{n, ts.mk("agg", "tuple", res, ts.Nil, e)}, {st, ts.mk("agg", "tuple", res, v, ts.Nil)}}
	case owner == p.mustType("Metadata") && ci.Fn.Name() == "UnmarshalZMTP":
		ci.Seen = true
		n, e := fails("UnmarshalZMTP")
		h.log(st, "decode", "", ci.Args[0], ci.Args[1])
		return []Out{{n, e}, {st, ts.Nil}}
	}
	return nil
}

func (h *handshake) received(st *State) bool {
	for _, s := range st.props["log"].args {
		if s.op == "step:recv" {
			return true
		}
	}
	return false
}

// run analyses the handshake in a role; done is told of each success.
func (h *handshake) run(st *State, server bool, done func(st *State, ins ssa.Instruction)) {
	ts := h.f.ts
	h.f.c = Client{Call: h.call, Model: h.call, MaxDepth: 16, Unroll: 72}
	h.f.Problem, h.f.stopped, h.f.states = nil, false, 0
	h.f.c.Return = func(st *State, res []*Term, ins ssa.Instruction) {
		h.unchanged(st, ins)
		if !st.mayBeNil(res[0]) {
			return
		}
		h.paths++
		done(st, ins)
	}
	h.f.c.Store = func(st *State, addr, val *Term, ins ssa.Instruction) { h.overwrites(st, addr, ins) }
	h.f.c.Event = func(st *State, ev *Event) {
		if ev.Kind == "copy" || ev.Kind == "append" && (ev.Args[0].op == "sub" || ev.Args[0].op == "slc") {
			h.overwrites(st, ev.Args[0], ev.Ins)
		}
	}
	args := []*Term{h.sec, h.conn, ts.boolean(server)}
	h.f.RunKey(fmt.Sprintf("hs%v", server), st, h.method, args, nil)
	h.r.problems(h.f, h.m.name)
}

// overwrites: the memory of the credentials is not written to.
func (h *handshake) overwrites(st *State, addr *Term, ins ssa.Instruction) {
	a := addr
	for a.op == "ia" || a.op == "slc" || a.op == "sub" || a.op == "bytes" || a.op == "str" {
		a = a.args[0]
	}
	for _, c := range h.creds {
		if a == c {
			h.r.fail("written:"+h.m.name, h.p.instrPos(ins), st.Trace(), "%s: the handshake writes into the configured credentials", h.m.name)
		}
	}
}

// unchanged: the credentials are what they were.
func (h *handshake) unchanged(st *State, ins ssa.Instruction) {
	pt, ok := h.m.T.(*types.Pointer)
	if !ok {
		return
	}
	u, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		a := st.fa(h.m.T, h.sec, i)
		was, now := h.st.Load(a, ft), st.Load(a, ft)
		if h.st.asStrAny(was) != st.asStrAny(now) {
			h.r.fail("changed:"+h.m.name+":"+u.Field(i).Name(), h.p.instrPos(ins), st.Trace(), "%s: the handshake changes the configured %s from %v to %v", h.m.name, u.Field(i).Name(), was, now)
		}
	}
}

func (st *State) asStrAny(v *Term) *Term {
	if v.typ != nil && (types.Identical(v.typ.Underlying(), bytesT) || isStr(v.typ)) {
		return st.asStr(v)
	}
	return v
}

func checkC15(p *Program, r *Report) {
	r.rule("every path of the handshake of each mechanism of the module, in either role, that returns no error received exactly the commands of the mechanism, each with its name, in order, decoded the metadata of the peer's READY or INITIATE into Peer.Meta without an error, and sent its own commands, each at its place")
	r.rule("a PLAIN server sends WELCOME, or completes, on no path on which the user name or the password in HELLO differs from its own; a PLAIN client's HELLO carries its own user name and password, each behind its length")
	r.rule("no path of a handshake changes the configured credentials")
	r.assume("RecvCmd, SendCmd and the encoding of metadata behave as C12 and C30 say; ConstantTimeCompare yields 1 exactly for equal contents")
	ms := p.mechanisms()
	kinds := map[string]bool{}
	for _, m := range ms {
		kind := p.mechKind(m)
		kinds[kind] = true
		r.count("mechanisms", 1)
		for _, server := range []bool{true, false} {
			role := map[bool]string{true: "server", false: "client"}[server]
			before := len(r.Findings)
			h := p.newHandshake(r, m)
			var want []string // of the commands received and sent: <RECV or >SEND
			free := false
			switch {
			case kind == "NULL":
				want = []string{"<READY", ">READY"}
				free = true
			case kind == "PLAIN" && server:
				want = []string{"<HELLO", ">WELCOME", "<INITIATE", ">READY"}
			case kind == "PLAIN":
				want = []string{">HELLO", "<WELCOME", ">INITIATE", "<READY"}
			default:
				r.fail("unknown:"+m.name, "-", nil, "there is no description of the mechanism %q of %s", kind, m.name)
				continue
			}
			h.run(h.st.Fork(), server, func(st *State, ins ssa.Instruction) {
				if msg := h.check(st, want, free); msg != "" {
					r.fail("order:"+m.name+":"+role, p.instrPos(ins), st.Trace(), "%s, %s: completes %s", m.name, role, msg)
				}
			})
			r.count("completions", h.paths)
			if h.paths == 0 {
				r.fail("never:"+m.name+":"+role, p.pos(h.method.Pos()), nil, "%s, %s: never completes", m.name, role)
			}
			if kind == "PLAIN" && server {
				p.plainServer(r, m)
			}
			if len(r.Findings) == before {
				r.ok("%s, %s: completes only after %v", m.name, role, want)
			}
		}
	}
	if !kinds["NULL"] || !kinds["PLAIN"] {
		fatalf("anchor not found: the NULL and PLAIN mechanisms")
	}
	r.atLeast("mechanisms", 3)
	r.atLeast("completions", 6)
}

// mechKind is what Type of the mechanism returns.
func (p *Program) mechKind(m *mechanism) string {
	f := p.newFlow(Client{})
	sel := p.Prog.MethodSets.MethodSet(m.T).Lookup(nil, "Type")
	fn := p.Prog.MethodValue(sel)
	kind := ""
	f.c.Return = func(st *State, res []*Term, ins ssa.Instruction) {
		if s, ok := res[0].strVal(); ok {
			kind = s
		}
	}
	st := f.newState()
	a := f.Param("mechanism", m.T)
	if _, ok := m.T.(*types.Pointer); ok {
		st.facts[f.ts.eq(a, f.ts.Nil)] = false
	}
	f.RunKey("type", st, fn, []*Term{a}, nil)
	return kind
}

// check compares the steps of a completed handshake with the mechanism's.
func (h *handshake) check(st *State, want []string, free bool) string {
	ts := h.f.ts
	var wr, ws []string
	for _, w := range want {
		if w[0] == '<' {
			wr = append(wr, w[1:])
		} else {
			ws = append(ws, w[1:])
		}
	}
	nr, ns, at := 0, 0, 0
	var last *Term
	decoded := false
	for _, s := range st.props["log"].args {
		switch s.op {
		case "step:failed":
			return "although " + s.aux + " failed"
		case "step:recv", "step:send":
			dir := "<"
			k, ws1 := &nr, wr
			if s.op == "step:send" {
				dir, k, ws1 = ">", &ns, ws
			}
			if *k >= len(ws1) {
				return fmt.Sprintf("after one command more than the mechanism has: %s%v", dir, s.args[0])
			}
			name := ws1[*k]
			*k++
			if v, kn := st.Eval(ts.eq(s.args[0], ts.str(name))); !kn || !v {
				if dir == "<" {
					return fmt.Sprintf("after a command that need not be %s", name)
				}
				return fmt.Sprintf("after it sent %v instead of %s", s.args[0], name)
			}
			if !free && want[at] != dir+name {
				return fmt.Sprintf("with %s where %s belongs", dir+name, want[at])
			}
			at++
			if dir == "<" {
				last = s.args[1]
				if name == "READY" || name == "INITIATE" {
					decoded = false
				}
			} else if msg := h.sentBody(st, name, s.args[1]); msg != "" {
				return msg
			}
		case "step:decode":
			if !h.isPeerMeta(st, s.args[0]) {
				return "without the peer's metadata in Peer.Meta"
			}
			if s.args[1] == last {
				decoded = true
			}
		}
	}
	if nr < len(wr) {
		return "without having received " + wr[nr]
	}
	if ns < len(ws) {
		return "without having sent " + ws[ns]
	}
	if !decoded {
		return "without having decoded the peer's metadata"
	}
	return ""
}

func (h *handshake) isPeerMeta(st *State, a *Term) bool {
	var fs []string
	for x := a; x.op == "fa"; x = x.args[0] {
		fs = append(fs, x.aux[strings.LastIndex(x.aux, ".")+1:])
		if x.args[0] == h.conn {
			return strings.Join(fs, ".") == "Meta.Peer"
		}
	}
	return false
}

// sentBody: what the commands of one's own carry.
func (h *handshake) sentBody(st *State, name string, body *Term) string {
	ts := h.f.ts
	switch name {
	case "READY", "INITIATE":
		if !body.contains(func(t *Term) bool { return t.op == "marshalled" }) {
			return "having sent " + name + " without the metadata"
		}
	case "HELLO":
		if len(h.creds) != 2 {
			return ""
		}
		var want []*Term
		for _, c := range h.creds {
			want = append(want, el(ts, st.lenOf(c)), sp(ts, c))
		}
		got := st.normBytes([]*Term{sp(ts, body)})
		w := st.normBytes(want)
		c := &connRun{p: h.p, f: h.f}
		if !c.sameBytes(st, got, w) {
			return fmt.Sprintf("having sent HELLO with %s instead of %s", showParts(got), showParts(w))
		}
	}
	return ""
}

// plainServer: a client with other credentials is not admitted.
func (p *Program) plainServer(r *Report, m *mechanism) {
	type tc struct {
		what       string
		user, pass bool // equal to one's own
		ok         bool
	}
	for _, c := range []tc{{"its user name and password", true, true, true}, {"another user name", false, true, false}, {"another password", true, false, false}, {"another user name and password", false, false, false}} {
		h := p.newHandshake(r, m)
		ts := h.f.ts
		if len(h.creds) != 2 {
			fatalf("anchor not found: the user name and the password of %s", m.name)
		}
		st := h.st.Fork()
		str := types.Typ[types.String]
		part := func(what string, own *Term, same bool) *Term {
			if same {
				return own
			}
			v := ts.sym("the peer's "+what, str)
			st.facts[ts.eq(v, own)] = false
			return v
		}
		u, w := part("user name", h.creds[0], c.user), part("password", h.creds[1], c.pass)
		for _, v := range []*Term{u, w} {
			st.facts[ts.ge(ts.linComb(st.lenOf(v), -1, nil, 0, 255))] = true
		}
		st.pins = append(st.pins, u, w)
		h.first = st.seq([]*Term{el(ts, st.lenOf(u)), sp(ts, u), el(ts, st.lenOf(w)), sp(ts, w)}, bytesT)
		if !c.ok {
			st.props["must"] = ts.mk("must", c.what, nil)
		}
		h.run(st, true, func(st *State, ins ssa.Instruction) {
			if !c.ok {
				r.fail("admits:"+m.name+":"+c.what, p.instrPos(ins), st.Trace(), "%s: the server admits a client with %s", m.name, c.what)
			}
		})
		r.count("credentials", 1)
		if c.ok && h.paths == 0 {
			r.fail("refuses:"+m.name, p.pos(h.method.Pos()), nil, "%s: the server does not admit a client with %s", m.name, c.what)
		}
	}
}
