package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C12", checkC12)
}

var byteT = types.Typ[types.Byte]
var bytesT = types.NewSlice(byteT)

// connRun analyses operations of one established connection against the bytes
// that they put on the wire and take from it.
type connRun struct {
	p    *Program
	r    *Report
	f    *Flow
	conn *Term
	rw   *Term
	sec  *Term
	sect *Term // the security mechanism's type
	typ  *Term
	bad  func(st *State, key, where, msg string)
	// the wire as the reader sees it may run dry
	eof bool
}

func (p *Program) structField(n *types.Named, what string, ok func(v *types.Var) bool) int {
	st := n.Underlying().(*types.Struct)
	r := -1
	for i := 0; i < st.NumFields(); i++ {
		if ok(st.Field(i)) {
			if r >= 0 {
				fatalf("two fields of %s look like %s", n.Obj().Name(), what)
			}
			r = i
		}
	}
	if r < 0 {
		fatalf("anchor not found: the field of %s that holds %s", n.Obj().Name(), what)
	}
	return r
}

func (p *Program) newConnRun(r *Report, null bool) (*connRun, *State) {
	f := p.newFlow(Client{})
	c := &connRun{p: p, r: r, f: f}
	ts := f.ts
	T := p.mustType("Conn")
	pt := types.NewPointer(T)
	st := f.newState()
	c.conn = ts.sym("the connection", pt)
	rwI := p.structField(T, "the transport connection", func(v *types.Var) bool { return isNamed(v.Type(), "net", "Conn") })
	secI := p.structField(T, "the security mechanism", func(v *types.Var) bool {
		n := named(v.Type())
		return n != nil && n.Obj().Name() == "Security" && n.Obj().Pkg() == p.Root
	})
	typI := p.structField(T, "the socket type", func(v *types.Var) bool {
		n := named(v.Type())
		return n != nil && n.Obj().Name() == "SocketType" && n.Obj().Pkg() == p.Root
	})
	u := T.Underlying().(*types.Struct)
	c.rw = ts.sym("the wire", u.Field(rwI).Type())
	c.sec = ts.sym("the security mechanism", u.Field(secI).Type())
	c.typ = ts.sym("the socket type", u.Field(typI).Type())
	for _, v := range []*Term{c.conn, c.rw, c.sec} {
		st.facts[ts.eq(v, ts.Nil)] = false
	}
	st.facts[ts.eq(c.typ, ts.str("STREAM"))] = false
	if null {
		c.sect = ts.str("NULL")
	} else {
		c.sect = ts.sym("the kind of security", types.Typ[types.String])
		st.facts[ts.eq(c.sect, ts.str("NULL"))] = false
	}
	cells := map[*Term]*Term{
		st.fa(pt, c.conn, rwI): c.rw, st.fa(pt, c.conn, secI): c.sec, st.fa(pt, c.conn, typI): c.typ,
	}
	f.c.Load = func(st *State, addr *Term, t types.Type) *Term { return cells[addr] }
	f.c.Call = c.call
	f.c.Model = c.call
	f.c.Unroll = 72
	f.c.MaxDepth = 24
	st.props["out"] = ts.mk("seq", "", bytesT)
	st.pins = []*Term{c.conn, c.rw, c.sec, c.typ, c.sect}
	return c, st
}

func (c *connRun) isWire(t *Term) bool { return throughIface(t) == c.rw }

// call models the security mechanism and the wire.
func (c *connRun) call(st *State, ci *CallInfo) []Out {
	if ci.Seen {
		return nil
	}
	ci.Seen = true
	ts := c.f.ts
	nm := st.name(ci.Ins)
	res := func() *types.Tuple { return ci.Ins.Common().Signature().Results() }
	if ci.Meth != nil && len(ci.Args) > 0 && throughIface(ci.Args[0]) == c.sec {
		switch ci.Meth.Name() {
		case "Type":
			return []Out{{st, c.sect}}
		case "Encrypt", "Decrypt":
			w, data := throughIface(ci.Args[1]), ci.Args[2]
			n := st.Fork()
			e := ts.sym("secerr:"+nm, types.Universe.Lookup("error").Type())
			n.facts[ts.eq(e, ts.Nil)] = false
			n.note("%s: %s fails", c.p.instrPos(ci.Ins), ci.Meth.Name())
			n.kill("sec:" + nm)
			in := c.bytes(st, data)
			st.kill("sec:" + nm)
			out := in
			if !c.sect.isConst() {
				if ci.Meth.Name() == "Encrypt" {
					out = ts.mk("enc", "", bytesT, in)
				} else if in.op == "enc" {
					out = in.args[0]
				} else {
					out = ts.mk("dec", "", bytesT, in)
				}
			}
			if w == c.rw {
				c.put(st, out)
			} else {
				st.bufAppend(w, out)
			}
			return []Out{{n, ts.mk("agg", "tuple", res(), ts.sym("n:"+nm, types.Typ[types.Int]), e)},
				{st, ts.mk("agg", "tuple", res(), st.lenOf(out), ts.Nil)}}
		}
	}
	switch ci.Ext {
	case "net.Conn.Write", "io.Writer.Write", "io.WriteString":
		if c.isWire(ci.Args[0]) {
			c.put(st, ci.Args[1])
		}
	case "net.Buffers.WriteTo":
		if c.isWire(ci.Args[1]) {
			lst := st.Load(ci.Args[0], deref(ci.Ins.Common().Args[0].Type()))
			if es, ok := st.Elems(lst, bytesT); ok {
				for _, e := range es {
					c.put(st, e)
				}
			} else {
				c.put(st, ts.mk("unknown", nm, bytesT, lst))
			}
		}
	case "bytes.Buffer.WriteTo":
		if c.isWire(ci.Args[1]) {
			c.put(st, st.bufGet(ci.Args[0]))
			st.bufSet(ci.Args[0], ts.Nil)
			n := st.Fork()
			n.kill("io:" + nm)
			st.kill("io:" + nm)
			e := ts.sym("ioerr:"+nm, types.Universe.Lookup("error").Type())
			n.facts[ts.eq(e, ts.Nil)] = false
			k := ts.sym("written:"+nm, types.Typ[types.Int64])
			return []Out{{n, ts.mk("agg", "tuple", res(), k, e)}, {st, ts.mk("agg", "tuple", res(), k, ts.Nil)}}
		}
	case "io.ReadFull", "io.CopyN":
		if st.props["in"] == nil {
			return nil
		}
		r := ci.Args[0]
		n := st.subst(st.lenOf(ci.Args[1]))
		if ci.Ext == "io.CopyN" {
			r, n = ci.Args[1], st.subst(ci.Args[2])
		}
		if !c.isWire(r) {
			return nil
		}
		kt := res().At(0).Type()
		f := st.Fork()
		e := ts.sym("ioerr:"+nm, types.Universe.Lookup("error").Type())
		f.facts[ts.eq(e, ts.Nil)] = false
		f.note("%s: the read fails", c.p.instrPos(ci.Ins))
		f.kill("io:" + nm)
		fail := Out{f, ts.mk("agg", "tuple", res(), ts.sym("nread:"+nm, kt), e)}
		st.kill("io:" + nm)
		got, msg := c.take(st, n)
		if msg != "" {
			c.bad(st, "misread", c.p.instrPos(ci.Ins), "does not follow the framing: "+msg)
			return []Out{fail}
		}
		if ci.Ext == "io.CopyN" {
			b := throughIface(ci.Args[0])
			f.bufSet(b, ts.sym("partial:"+nm, bytesT))
			st.bufAppend(b, got)
		} else {
			f.writeRegion(ci.Args[1], f.lenOf(ci.Args[1]), ts.sym("partial:"+nm, nil), nm)
			st.fill(ci.Args[1], n, got, nm)
		}
		return []Out{fail, {st, ts.mk("agg", "tuple", res(), n, ts.Nil)}}
	}
	return nil
}

// bytes is what a slice or buffer holds now, in normal form.
func (c *connRun) bytes(st *State, v *Term) *Term {
	ps := c.norm(st, []*Term{c.f.ts.mk("spread", "", nil, st.bytesNow(v))})
	if len(ps) == 1 && ps[0].op == "spread" {
		return ps[0].args[0]
	}
	if len(ps) == 0 {
		return c.f.ts.Nil
	}
	return st.seq(ps, bytesT)
}

// put appends to what was written.
func (c *connRun) put(st *State, v *Term) {
	ts := c.f.ts
	ps := append([]*Term(nil), st.props["out"].args...)
	ps = append(ps, c.norm(st, []*Term{ts.mk("spread", "", nil, st.bytesNow(v))})...)
	st.props["out"] = ts.mk("seq", "", bytesT, ps...)
}

// take removes the next n bytes from the wire.
func (c *connRun) take(st *State, n *Term) (*Term, string) {
	ts := c.f.ts
	in := st.props["in"].args
	var got []*Term
	for n.op == "conv" && (n.aux == "int64" || n.aux == "uint64" || n.aux == "int") && (isInt(n.args[0].typ) || n.args[0].op == "lin") && st.Prove(n.args[0]) {
		n = n.args[0]
	}
	for {
		n = st.subst(n)
		if k, ok := n.intVal(); ok && k == 0 {
			break
		}
		if len(in) == 0 {
			return nil, fmt.Sprintf("reads %v more bytes than the peer sent", n)
		}
		h := in[0]
		l := ts.integer(1)
		if h.op == "spread" {
			l = st.subst(st.lenOf(h.args[0]))
		}
		d := ts.sub(n, l)
		switch {
		case st.Prove(d):
			got = append(got, h)
			in = in[1:]
			n = d
			if st.Prove(ts.linComb(d, -1, nil, 0, 0)) {
				n = ts.Zero
			}
			continue
		}
		return nil, fmt.Sprintf("reads %v bytes where %v were sent", n, l)
	}
	st.props["in"] = ts.mk("seq", "", bytesT, in...)
	if len(got) == 1 && got[0].op == "spread" {
		return got[0].args[0], ""
	}
	return st.seq(got, bytesT), ""
}

func (c *connRun) norm(st *State, parts []*Term) []*Term { return st.normBytes(parts) }

func (c *connRun) sameBytes(st *State, a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] == b[i] {
			continue
		}
		if a[i].op != "elem" || b[i].op != "elem" {
			return false
		}
		if v, k := st.Eval(c.f.ts.eq(a[i].args[0], b[i].args[0])); !k || !v {
			return false
		}
	}
	return true
}

func showParts(ps []*Term) string {
	var s []string
	for _, p := range ps {
		if p.op == "elem" {
			s = append(s, p.args[0].show(3))
		} else {
			s = append(s, "<"+p.args[0].show(3)+">")
		}
	}
	return "[" + strings.Join(s, " ") + "]"
}

// frame is one frame as it goes over the wire: the possible encodings with the
// condition on the length that goes with each.
func (c *connRun) frame(st *State, flags int64, body *Term, long bool) []*Term {
	ts := c.f.ts
	if !c.sect.isConst() {
		body = ts.mk("enc", "", bytesT, body)
	}
	l := st.lenOf(body)
	el := func(t *Term) *Term { return ts.mk("elem", "", nil, t) }
	sp := func(t *Term) *Term { return ts.mk("spread", "", nil, t) }
	if long {
		return []*Term{el(ts.integer(flags | 2)), sp(ts.mk("be64", "", bytesT, l)), sp(body)}
	}
	return []*Term{el(ts.integer(flags)), el(l), sp(body)}
}

// expectFrames compares what was written with the frames of a message or command.
func (c *connRun) expectFrames(st *State, key, where string, flags []int64, bodies []*Term, fail func(st *State, key, where, msg string)) {
	ts := c.f.ts
	var rec func(st *State, i int, want []*Term)
	rec = func(st *State, i int, want []*Term) {
		if i == len(bodies) {
			got := c.norm(st, st.props["out"].args)
			w := c.norm(st, want)
			if !c.sameBytes(st, got, w) {
				fail(st, key, where, fmt.Sprintf("reports success after writing %s instead of %s", showParts(got), showParts(w)))
			}
			return
		}
		b := bodies[i]
		if !c.sect.isConst() {
			b = ts.mk("enc", "", bytesT, b)
		}
		long := ts.ge(ts.linComb(st.lenOf(b), 1, nil, 0, -256))
		for _, v := range []bool{false, true} {
			n := st.Fork()
			if n.Assume(long, v) {
				rec(n, i+1, append(append([]*Term(nil), want...), c.frame(n, flags[i], bodies[i], v)...))
			}
		}
	}
	rec(st, 0, nil)
}

// message is a message with the given frames.
func (c *connRun) message(st *State, frames []*Term, multipart *Term) *Term {
	ts := c.f.ts
	T := c.p.mustType("Msg")
	u := T.Underlying().(*types.Struct)
	var fs []*Term
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		if sl, ok := ft.Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), bytesT) {
			var parts []*Term
			for _, f := range frames {
				parts = append(parts, ts.mk("elem", "", nil, f))
			}
			fs = append(fs, st.seq(parts, ft))
			continue
		}
		if b, ok := ft.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			fs = append(fs, multipart)
			continue
		}
		fs = append(fs, st.zero(ft))
	}
	return ts.mk("agg", c.p.typeName(T), T, fs...)
}

// framesOf are the frames of a message value.
func (c *connRun) framesOf(st *State, msg *Term) ([]*Term, bool) {
	u := c.p.mustType("Msg").Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		if sl, ok := ft.Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), bytesT) {
			return st.Elems(st.field(msg, c.p.mustType("Msg"), i), bytesT)
		}
	}
	fatalf("anchor not found: the frames of a Msg")
	return nil, false
}

func (p *Program) connMethod(name string) *ssa.Function {
	T := types.NewPointer(p.mustType("Conn"))
	sel := p.Prog.MethodSets.MethodSet(T).Lookup(p.Root, name)
	if sel == nil {
		return nil
	}
	return p.Prog.MethodValue(sel)
}

// connReaders are the functions that yield a message of a connection: RecvMsg,
// and what is used elsewhere than in the connection's own methods.
func (p *Program) connReaders() []*ssa.Function {
	conn, msg := p.mustType("Conn"), p.mustType("Msg")
	isReader := func(fn *ssa.Function) bool {
		sig := fn.Signature
		var ps []types.Type
		if sig.Recv() != nil {
			ps = append(ps, sig.Recv().Type())
		}
		for i := 0; i < sig.Params().Len(); i++ {
			ps = append(ps, sig.Params().At(i).Type())
		}
		if len(ps) != 1 || named(deref(ps[0])) != conn || sig.Results().Len() == 0 || sig.Results().Len() > 2 {
			return false
		}
		return types.Identical(sig.Results().At(0).Type(), msg)
	}
	out := []*ssa.Function{}
	seen := map[*ssa.Function]bool{}
	add := func(fn *ssa.Function) {
		if fn != nil && !seen[fn] && len(fn.Blocks) > 0 {
			seen[fn] = true
			out = append(out, fn)
		}
	}
	add(p.connMethod("RecvMsg"))
	for _, fn := range p.Funcs {
		if isReader(fn) || fn.Signature.Recv() != nil && named(deref(fn.Signature.Recv().Type())) == conn {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					if callee := c.Common().StaticCallee(); callee != nil && isReader(callee) {
						add(callee)
					}
				}
			}
		}
	}
	return out
}

// writesMessages: SendMsg of a connection, for messages of up to so many frames.
func (p *Program) writesMessages(r *Report, send *ssa.Function, null bool, max int) {
	kind := map[bool]string{true: "plain", false: "transformed"}[null]
	for n := 0; n <= max; n++ {
		for _, multi := range []bool{false, true} {
			what := fmt.Sprintf("SendMsg:%s:%d:%v", kind, n, multi)
			c, st := p.newConnRun(r, null)
			var frames []*Term
			var flags []int64
			for i := 0; i < n; i++ {
				frames = append(frames, c.f.ts.sym(fmt.Sprintf("frame %d", i+1), bytesT))
				flags = append(flags, 1)
			}
			if n > 0 {
				flags[n-1] = 0
			}
			c.writes(st, what, send, []*Term{c.conn, c.message(st, frames, c.f.ts.boolean(multi))}, flags, frames)
		}
	}
}

func checkC12(p *Program, r *Report) {
	r.rule("every path of SendMsg, for messages of 0 to 4 frames of any content and length, sent as one or as multipart, with and without a security mechanism that changes the data, and of SendCmd, that returns no error, has written exactly: per frame the flags (MORE on all frames but the last, COMMAND on commands only, LONG above 255 bytes), the true length of the bytes that follow in one or eight big-endian bytes, and those bytes")
	r.rule("every path of the message readers and of RecvCmd, over a wire that carries such frames (1 to 3 frames, short and long, plain and transformed), that yields a message or command took exactly these bytes and yields exactly these frames in order")
	r.assume("net.Conn.Write without an error wrote everything; Security.Encrypt appends the transformed data to its writer and Decrypt undoes it; io.ReadFull and io.CopyN read the number of bytes they report")
	send := p.connMethod("SendMsg")
	cmd := p.connMethod("SendCmd")
	if send == nil || cmd == nil {
		fatalf("anchor not found: SendMsg and SendCmd of Conn")
	}
	for _, null := range []bool{true, false} {
		kind := map[bool]string{true: "plain", false: "transformed"}[null]
		p.writesMessages(r, send, null, 4)
		c, st := p.newConnRun(r, null)
		ts := c.f.ts
		name := ts.sym("the name", types.Typ[types.String])
		body := ts.sym("the body", bytesT)
		pay := st.seq([]*Term{ts.mk("elem", "", nil, st.lenOf(name)), ts.mk("spread", "", nil, name), ts.mk("spread", "", nil, body)}, bytesT)
		c.writes(st, "SendCmd:"+kind, cmd, []*Term{c.conn, name, body}, []int64{4}, []*Term{pay})
	}
	// readers
	for _, fn := range p.connReaders() {
		for _, null := range []bool{true, false} {
			kind := map[bool]string{true: "plain", false: "transformed"}[null]
			for n := 1; n <= 3; n++ {
				for lens := 0; lens < 1<<n; lens++ {
					c, st := p.newConnRun(r, null)
					var frames, in []*Term
					for i := 0; i < n; i++ {
						b := c.f.ts.sym(fmt.Sprintf("frame %d", i+1), bytesT)
						frames = append(frames, b)
						fl := int64(1)
						if i == n-1 {
							fl = 0
						}
						in = append(in, c.sent(st, fl, b, lens>>i&1 == 1)...)
					}
					what := fmt.Sprintf("%s:%s:%d:%d", shortFn(fn), kind, n, lens)
					c.reads(st, what, fn, in, func(st *State, res []*Term) string {
						fs, ok := c.framesOf(st, res[0])
						if !ok || len(fs) != n {
							return fmt.Sprintf("yields frames %v of a message of %d frames", res[0].show(3), n)
						}
						for i := range fs {
							got := c.norm(st, []*Term{c.f.ts.mk("spread", "", nil, st.bytesNow(fs[i]))})
							want := c.norm(st, []*Term{c.f.ts.mk("spread", "", nil, frames[i])})
							if !c.sameBytes(st, got, want) {
								return fmt.Sprintf("yields %s as frame %d instead of %s", showParts(got), i+1, showParts(want))
							}
						}
						if c.isCmd(st, res[0]) != ternNo {
							return "takes a message for a command"
						}
						return ""
					})
				}
			}
		}
	}
	rc := p.connMethod("RecvCmd")
	if rc == nil {
		fatalf("anchor not found: RecvCmd of Conn")
	}
	for _, null := range []bool{true, false} {
		kind := map[bool]string{true: "plain", false: "transformed"}[null]
		for _, long := range []bool{false, true} {
			for _, fl := range []int64{4, 0} {
				c, st := p.newConnRun(r, null)
				ts := c.f.ts
				name := ts.sym("the name", types.Typ[types.String])
				body := ts.sym("the body", bytesT)
				ln := st.lenOf(name)
				st.facts[ts.ge(ts.linComb(ln, -1, nil, 0, 255))] = true
				pay := st.seq([]*Term{ts.mk("elem", "", nil, ln), ts.mk("spread", "", nil, name), ts.mk("spread", "", nil, body)}, bytesT)
				c.reads(st, fmt.Sprintf("RecvCmd:%s:%v:%d", kind, long, fl), rc, c.sent(st, fl, pay, long), func(st *State, res []*Term) string {
					if fl == 0 {
						return "takes a message for a command"
					}
					T := p.mustType("Cmd")
					u := T.Underlying().(*types.Struct)
					for i := 0; i < u.NumFields(); i++ {
						v := st.field(res[0], T, i)
						got := c.norm(st, []*Term{ts.mk("spread", "", nil, st.bytesNow(v))})
						want := name
						if !isStr(u.Field(i).Type()) {
							want = body
						}
						if w := c.norm(st, []*Term{ts.mk("spread", "", nil, want)}); !c.sameBytes(st, got, w) {
							return fmt.Sprintf("yields %s as the command's %s instead of %s", showParts(got), u.Field(i).Name(), showParts(w))
						}
					}
					return ""
				})
			}
		}
	}
	r.atLeast("writers", 10)
	r.atLeast("readers", 10)
}

func shortFn(fn *ssa.Function) string {
	return fn.Name()
}

type tern int

const (
	ternNo tern = iota
	ternYes
	ternUnknown
)

// isCmd: whether the message is marked as a command.
func (c *connRun) isCmd(st *State, msg *Term) tern {
	T := c.p.mustType("Msg")
	u := T.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		n := named(u.Field(i).Type())
		if n != nil && n.Obj().Name() == "MsgType" {
			v := st.subst(st.field(msg, T, i))
			if k, ok := v.intVal(); ok {
				if k == 0 {
					return ternNo
				}
				return ternYes
			}
			return ternUnknown
		}
	}
	fatalf("anchor not found: the type of a Msg")
	return ternUnknown
}

// sent is a frame as a peer sends it.
func (c *connRun) sent(st *State, flags int64, body *Term, long bool) []*Term {
	ts := c.f.ts
	b := body
	if !c.sect.isConst() {
		b = ts.mk("enc", "", bytesT, body)
	}
	if !long {
		st.facts[ts.ge(ts.linComb(st.lenOf(b), -1, nil, 0, 255))] = true
	}
	return c.frame(st, flags, body, long)
}

// writes checks one operation that writes.
func (c *connRun) writes(st *State, what string, fn *ssa.Function, args []*Term, flags []int64, bodies []*Term) {
	ts := c.f.ts
	n, bad := 0, false
	c.f.c.Return = func(st *State, res []*Term, ins ssa.Instruction) {
		if !st.Assume(ts.eq(res[len(res)-1], ts.Nil), true) {
			return
		}
		n++
		c.expectFrames(st, "write:"+what, c.p.instrPos(ins), flags, bodies, func(st *State, key, where, msg string) {
			bad = true
			c.r.fail(key, where, st.Trace(), "%s %s", what, msg)
		})
	}
	c.f.RunKey("wire", st, fn, args, nil)
	c.r.problems(c.f, what)
	c.r.count("writers", 1)
	c.r.count("paths", n)
	if n == 0 {
		c.r.fail("never:"+what, c.p.pos(fn.Pos()), nil, "%s never succeeds", what)
	} else if !bad {
		c.r.ok("%s: what is written is the frames, on all %d paths", what, n)
	}
}

// reads checks one operation that reads.
func (c *connRun) reads(st *State, what string, fn *ssa.Function, in []*Term, check func(st *State, res []*Term) string) {
	ts := c.f.ts
	// single bytes of the lengths
	var wire []*Term
	for _, p := range in {
		if p.op == "spread" && p.args[0].op == "be64" {
			for i := int64(0); i < 8; i++ {
				wire = append(wire, ts.mk("elem", "", nil, ts.mk("el", "", byteT, p.args[0], ts.integer(i))))
			}
			continue
		}
		wire = append(wire, p)
	}
	st.props["in"] = ts.mk("seq", "", bytesT, wire...)
	n, bad := 0, false
	c.f.c.Follow = 8
	c.bad = func(st *State, key, where, msg string) {
		bad = true
		c.r.fail(key+":"+what, where, st.Trace(), "%s %s", what, msg)
	}
	c.f.c.Return = func(st *State, res []*Term, ins ssa.Instruction) {
		st = st.Fork()
		if len(res) > 1 {
			if !st.Assume(ts.eq(res[1], ts.Nil), true) {
				return
			}
		}
		if e := c.msgErr(st, res[0]); e != nil && !st.Assume(ts.eq(e, ts.Nil), true) {
			return
		}
		n++
		msg := ""
		if msg = check(st, res); msg == "" && len(st.props["in"].args) > 0 {
			msg = "leaves " + showParts(st.props["in"].args) + " unread"
		}
		if msg != "" {
			bad = true
			c.r.fail("read:"+what, c.p.instrPos(ins), st.Trace(), "%s %s", what, msg)
		}
	}
	c.f.RunKey("wire", st, fn, []*Term{c.conn}, nil)
	c.r.problems(c.f, what)
	c.r.count("readers", 1)
	c.r.count("paths", n)
	if n == 0 && !strings.HasSuffix(what, ":0") {
		c.r.fail("never:"+what, c.p.pos(fn.Pos()), nil, "%s never succeeds", what)
	} else if !bad {
		c.r.ok("%s: what is read is what was sent, on all %d paths", what, n)
	}
}

// msgErr is the error that a message carries, if the value is a message.
func (c *connRun) msgErr(st *State, v *Term) *Term {
	if v.typ == nil || !types.Identical(v.typ, c.p.mustType("Msg")) {
		return nil
	}
	T := c.p.mustType("Msg")
	u := T.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Type().String() == "error" {
			return st.field(v, T, i)
		}
	}
	return nil
}
