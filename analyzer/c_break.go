package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C16", checkC16)
}

// breakRun analyses the operations of an established connection under
// failures of its wire. Props: mark, set once the connection is marked closed;
// won, once this operation is the one that marked it; cb, the number of times
// the callback ran; broken, what failed; lock:X, the locks held.
type breakRun struct {
	*connRun
	flag  *Term // the cell of the closed mark
	cb    *Term // the callback
	what  string
	wire  int
	fails map[string]bool
}

// ioClasses are the ways a read or write of the wire fails.
var ioClasses = []string{"end of file", "unexpected end of file", "closed pipe", "network error", "timeout"}

func (p *Program) newBreakRun(r *Report, null, stream bool) (*breakRun, *State) {
	c, st := p.newConnRun(r, null)
	ts := c.f.ts
	b := &breakRun{connRun: c, fails: map[string]bool{}}
	T := p.mustType("Conn")
	pt := types.NewPointer(T)
	if stream {
		delete(st.facts, ts.eq(c.typ, ts.str("STREAM")))
		st.facts[ts.eq(c.typ, ts.str("STREAM"))] = true
	}
	cbI := p.structField(T, "the close callback", func(v *types.Var) bool {
		sig, ok := v.Type().Underlying().(*types.Signature)
		return ok && sig.Params().Len() == 1 && named(deref(sig.Params().At(0).Type())) == T
	})
	u := T.Underlying().(*types.Struct)
	b.cb = ts.sym("the callback", u.Field(cbI).Type())
	st.facts[ts.eq(b.cb, ts.Nil)] = false
	cell := st.fa(pt, c.conn, cbI)
	load := c.f.c.Load
	c.f.c.Load = func(st *State, addr *Term, t types.Type) *Term {
		if addr == cell {
			return b.cb
		}
		return load(st, addr, t)
	}
	st.pins = append(st.pins, b.cb)
	// the mark
	closed := p.connMethod("Closed")
	if closed == nil {
		fatalf("anchor not found: Closed of Conn")
	}
	c.f.c.Event = func(st *State, ev *Event) {
		if ev.Kind == "atomic:Load" {
			b.flag = ev.Args[0]
		}
	}
	c.f.RunKey("closed", st.Fork(), closed, []*Term{c.conn}, nil)
	if b.flag == nil {
		fatalf("anchor not found: the atomic mark that Closed of Conn reads")
	}
	c.f.c.Call, c.f.c.Model = b.call, b.call
	c.f.c.Event = b.event
	c.f.c.Store = func(st *State, addr, val *Term, ins ssa.Instruction) {
		if addr == b.flag {
			b.fail(st, "plain", "marks the connection closed without testing in the same step whether it is already")
		}
	}
	return b, st
}

func (b *breakRun) fail(st *State, key, msg string) {
	b.r.fail(key+":"+b.what, st.Where(), st.Trace(), "%s %s", b.what, msg)
}

func (b *breakRun) onConn(a *Term) bool {
	for a.op == "fa" {
		if a.args[0] == b.conn {
			return true
		}
		a = a.args[0]
	}
	return a == b.conn
}

func (b *breakRun) event(st *State, ev *Event) {
	ts := b.f.ts
	switch ev.Kind {
	case "lock":
		if b.onConn(throughIface(ev.Args[0])) {
			st.props[fmt.Sprintf("lock:%d", throughIface(ev.Args[0]).id)] = ts.True
		}
	case "unlock":
		delete(st.props, fmt.Sprintf("lock:%d", throughIface(ev.Args[0]).id))
	case "go":
		if len(ev.Args) > 0 && ev.Args[0] == b.cb {
			b.called(st)
		}
	}
}

// called: the callback runs.
func (b *breakRun) called(st *State) {
	ts := b.f.ts
	if st.props["won"] == nil {
		b.fail(st, "unwon", "runs the close callback without having marked the connection closed itself")
	}
	if st.props["cb"] != nil {
		b.fail(st, "twice", "runs the close callback twice")
	}
	st.props["cb"] = ts.True
}

func (b *breakRun) call(st *State, ci *CallInfo) []Out {
	if ci.Seen {
		return nil
	}
	ts := b.f.ts
	if ci.Clos == b.cb && ci.Ext == "" {
		ci.Seen = true
		for k := range st.props {
			if strings.HasPrefix(k, "lock:") {
				b.fail(st, "locked", "runs the close callback with a lock of the connection held")
			}
		}
		b.called(st)
		return []Out{{st, nil}}
	}
	switch {
	case strings.HasPrefix(ci.Ext, "sync/atomic.") && len(ci.Args) > 0 && b.isFlag(ci):
		ci.Seen = true
		return b.atomic(st, ci)
	case ci.Ext == "errors.Is":
		ci.Seen = true
		if v, k := b.errIs(ci.Args[0], ci.Args[1]); k {
			return []Out{{st, ts.boolean(v)}}
		}
		return nil
	case ci.Ext == "errors.As":
		e := ci.Args[0]
		tgt := throughIface(ci.Args[1])
		pt, ok := tgt.typ.(*types.Pointer)
		if !ok || !types.IsInterface(pt.Elem()) || !isNamed(pt.Elem(), "net", "Error") {
			return nil
		}
		root := wireErr(e)
		if root == nil {
			return nil
		}
		ci.Seen = true
		if root.aux == "wire network error" || root.aux == "wire timeout" {
			st.Store(tgt, pt.Elem(), root)
			return []Out{{st, ts.True}}
		}
		return []Out{{st, ts.Fals}}
	case ci.Meth != nil && len(ci.Args) > 0 && (ci.Meth.Name() == "Timeout" || ci.Meth.Name() == "Temporary"):
		e := ci.Args[0]
		for e.op == "as" || e.op == "iface" {
			e = e.args[0]
		}
		if e.op == "newerr" && strings.HasPrefix(e.aux, "wire ") {
			ci.Seen = true
			if ci.Meth.Name() == "Temporary" {
				// nothing is said about which errors call themselves temporary
				return []Out{{st.Fork(), ts.True}, {st, ts.Fals}}
			}
			return []Out{{st, ts.boolean(e.aux == "wire timeout")}}
		}
		return nil
	}
	if ci.Meth != nil && ci.Meth.Name() == "Decrypt" && len(ci.Args) > 0 && throughIface(ci.Args[0]) == b.sec {
		outs := b.connRun.call(st, ci)
		for _, o := range outs {
			if len(o.Res.args) == 2 && !o.Res.args[1].isNil() {
				o.St.props["broken"] = ts.mk("broken", "the data cannot be decoded", nil)
			}
		}
		return outs
	}
	if !b.onWire(ci) {
		return b.connRun.call(st, ci)
	}
	b.wire++
	if v := st.props["mark"]; v != nil {
		b.fail(st, "used", "uses the wire of a connection that it knows to be marked closed")
	}
	outs := b.connRun.call(st, ci)
	ci.Seen = true
	st.props["out"] = ts.mk("seq", "", bytesT)
	if outs == nil {
		c, m := b.f.c.Call, b.f.c.Model
		b.f.c.Call, b.f.c.Model = nil, nil
		outs, _ = b.f.model(st, ci)
		b.f.c.Call, b.f.c.Model = c, m
	}
	var res []Out
	for _, o := range outs {
		if o.Res == nil || o.Res.op != "agg" || len(o.Res.args) != 2 || o.Res.args[1].op != "sym" {
			res = append(res, o)
			continue
		}
		for _, k := range ioClasses {
			n := o.St.Fork()
			var e *Term
			switch k {
			case "end of file":
				e = b.global(n, "io", "EOF")
			case "unexpected end of file":
				e = b.global(n, "io", "ErrUnexpectedEOF")
			case "closed pipe":
				e = b.global(n, "io", "ErrClosedPipe")
			default:
				e = ts.mk("newerr", "wire "+k, types.Universe.Lookup("error").Type())
				n.facts[ts.mk("is", "net.Error", types.Typ[types.Bool], e)] = true
			}
			n.note("%s: %s", b.p.instrPos(ci.Ins), k)
			if k != "timeout" {
				n.props["broken"] = ts.mk("broken", k, nil)
			}
			res = append(res, Out{n, ts.mk("agg", "tuple", o.Res.typ, o.Res.args[0], e)})
		}
	}
	return res
}

// global is the value of an error variable of another package.
func (b *breakRun) global(st *State, pkg, name string) *Term {
	for _, pk := range b.p.Prog.AllPackages() {
		if pk.Pkg.Path() == pkg {
			if g, ok := pk.Members[name].(*ssa.Global); ok {
				return st.Load(b.f.ts.mk("global", b.p.globalName(g), g.Type()), deref(g.Type()))
			}
		}
	}
	fatalf("%s.%s is not loaded", pkg, name)
	return nil
}

// wireErr is the failure of the wire that an error is or wraps.
func wireErr(e *Term) *Term {
	if e.op != "newerr" {
		return nil
	}
	if strings.HasPrefix(e.aux, "wire ") || strings.HasPrefix(e.aux, "global io.") {
		return e
	}
	if strings.HasPrefix(e.aux, "wrap:") {
		for _, a := range e.args {
			if w := wireErr(a); w != nil {
				return w
			}
		}
	}
	return nil
}

// errIs decides errors.Is for failures of the wire.
func (b *breakRun) errIs(e, target *Term) (val, known bool) {
	if e.isNil() {
		return target.isNil(), true
	}
	if errIs(e, target) {
		return true, true
	}
	w := wireErr(e)
	if w == nil || target.op != "newerr" || !strings.HasPrefix(target.aux, "global ") {
		return false, false
	}
	switch {
	case strings.HasPrefix(w.aux, "global io."):
		return false, true
	case strings.HasPrefix(target.aux, "global io."):
		return false, true
	case strings.HasSuffix(target.aux, "os.ErrDeadlineExceeded"):
		return w.aux == "wire timeout", true
	}
	return false, false
}

func (b *breakRun) isFlag(ci *CallInfo) bool {
	a := ci.Args[0]
	return a == b.flag || b.flag.op == "fa" && b.flag.aux == "sync/atomic.v" && a == b.flag.args[0]
}

// atomic is an operation on the mark. Another goroutine can set it at any time.
func (b *breakRun) atomic(st *State, ci *CallInfo) []Out {
	ts := b.f.ts
	m := ci.Ext[strings.LastIndex(ci.Ext, ".")+1:]
	rt := types.Typ[types.Int32]
	one, zero := ts.integer(1), ts.Zero
	isBool := strings.Contains(ci.Ext, ".Bool.")
	if isBool {
		one, zero = ts.True, ts.Fals
	}
	_ = rt
	set := func(n *State, other bool) *State {
		n.props["mark"] = ts.True
		if other {
			n.note("%s: marked closed meanwhile", b.p.instrPos(ci.Ins))
		}
		return n
	}
	switch {
	case strings.HasPrefix(m, "Load"):
		if st.props["mark"] != nil {
			return []Out{{st, one}}
		}
		n := set(st.Fork(), true)
		return []Out{{n, one}, {st, zero}}
	case strings.HasPrefix(m, "CompareAndSwap"):
		if v, k := st.Eval(ts.eq(ci.Args[1], zero)); !k || !v || ci.Args[2] != one {
			b.fail(st, "swap", fmt.Sprintf("changes the mark from %v to %v", ci.Args[1], ci.Args[2]))
			return []Out{{st, ts.Fals}}
		}
		if st.props["mark"] != nil {
			return []Out{{st, ts.Fals}}
		}
		n := set(st.Fork(), true)
		set(st, false).props["won"] = ts.True
		return []Out{{n, ts.Fals}, {st, ts.True}}
	case strings.HasPrefix(m, "Swap") && ci.Args[1] == one:
		if st.props["mark"] != nil {
			return []Out{{st, one}}
		}
		n := set(st.Fork(), true)
		set(st, false).props["won"] = ts.True
		return []Out{{n, one}, {st, zero}}
	}
	b.fail(st, "mark", "changes the mark by "+m)
	return []Out{{set(st, false), nil}}
}

// onWire: the call reads or writes the transport's connection.
func (b *breakRun) onWire(ci *CallInfo) bool {
	has := false
	for _, a := range ci.Args {
		has = has || b.isWire(a)
	}
	if !has {
		return false
	}
	switch ci.Ext {
	case "net.Conn.Read", "net.Conn.Write", "io.Reader.Read", "io.Writer.Write", "io.ReadFull", "io.ReadAtLeast", "io.CopyN", "io.Copy", "io.ReadAll", "io.WriteString", "net.Buffers.WriteTo", "bytes.Buffer.WriteTo", "bytes.Buffer.ReadFrom":
		return true
	}
	return false
}

// done is told of every return of an operation.
func (b *breakRun) done(st *State, res []*Term, ins ssa.Instruction) {
	ts := b.f.ts
	where := b.p.instrPos(ins)
	err := res[len(res)-1]
	if e := b.msgErr(st, err); e != nil {
		err = e
	}
	if br := st.props["broken"]; br != nil {
		b.fails[br.aux] = true
		if st.props["mark"] == nil {
			b.r.fail("unmarked:"+b.what, where, st.Trace(), "%s returns without marking the connection closed although %s", b.what, b.broke(br))
		}
	}
	if st.props["won"] != nil && st.props["cb"] == nil {
		b.r.fail("uncalled:"+b.what, where, st.Trace(), "%s marks the connection closed without running the close callback", b.what)
	}
	if st.props["won"] != nil && st.props["broken"] == nil {
		if v, k := st.Eval(ts.eq(err, ts.Nil)); k && v {
			b.r.fail("needless:"+b.what, where, st.Trace(), "%s marks the connection closed although nothing failed", b.what)
		}
	}
}

func (b *breakRun) broke(br *Term) string {
	if strings.HasPrefix(br.aux, "the ") {
		return br.aux
	}
	return "the wire failed (" + br.aux + ")"
}

func checkC16(p *Program, r *Report) {
	r.rule("every path of an operation of an established connection (Read, Write, SendMsg, SendCmd, RecvMsg, RecvCmd and the readers of the sockets; for STREAM and the other types, with and without data-changing security) on which a read or write of the wire fails with end of file, a closed pipe or a network error that is no timeout, wrapped or not, or on which received data cannot be decoded, or a frame announces an impossible length, tries to mark the connection closed before it returns")
	r.rule("the mark is set by an atomic test-and-set; the path that set it, and no other, runs the close callback, once, with no lock of the connection held")
	r.rule("an operation that finds the connection marked closed returns an error without reading or writing")
	r.assume("a net.Conn reports end of file as io.EOF or io.ErrUnexpectedEOF, a closed pipe as io.ErrClosedPipe and everything else as a net.Error; errors.Is and errors.As look through fmt.Errorf with %%w")
	type op struct {
		fn   *ssa.Function
		args func(c *breakRun, st *State) []*Term
		outs int
	}
	var ops []op
	add := func(name string, args func(c *breakRun, st *State) []*Term) {
		fn := p.connMethod(name)
		if fn == nil {
			fatalf("anchor not found: %s of Conn", name)
		}
		ops = append(ops, op{fn, args, 1})
	}
	buf := func(c *breakRun, st *State) []*Term {
		return []*Term{c.conn, c.f.ts.sym("the data", bytesT)}
	}
	add("Read", buf)
	add("Write", buf)
	add("SendCmd", func(c *breakRun, st *State) []*Term {
		return []*Term{c.conn, c.f.ts.sym("the name", types.Typ[types.String]), c.f.ts.sym("the body", bytesT)}
	})
	for _, multi := range []bool{false, true} {
		add("SendMsg", func(c *breakRun, st *State) []*Term {
			return []*Term{c.conn, c.message(st, []*Term{c.f.ts.sym("frame 1", bytesT), c.f.ts.sym("frame 2", bytesT)}, c.f.ts.boolean(multi))}
		})
	}
	self := func(c *breakRun, st *State) []*Term { return []*Term{c.conn} }
	add("RecvCmd", self)
	for _, fn := range p.connReaders() {
		ops = append(ops, op{fn, self, 1})
	}
	for _, o := range ops {
		for _, stream := range []bool{false, true} {
			for _, null := range []bool{true, false} {
				if stream && (!null || strings.HasSuffix(o.fn.Name(), "Cmd")) {
					continue
				}
				b, st := p.newBreakRun(r, null, stream)
				b.what = fmt.Sprintf("%s%s%s", o.fn.Name(), map[bool]string{true: " (STREAM)"}[stream], map[bool]string{false: " (secured)"}[null])
				before := len(r.Findings)
				n := 0
				b.f.c.Return = func(st *State, res []*Term, ins ssa.Instruction) {
					n++
					b.done(st, res, ins)
				}
				b.f.RunKey("break", st, o.fn, o.args(b, st), nil)
				r.problems(b.f, b.what)
				r.count("operations", 1)
				r.count("paths", n)
				r.count("wire accesses", b.wire)
				if b.wire == 0 || n == 0 || !b.fails["end of file"] || !b.fails["network error"] {
					r.fail("vacuous:"+b.what, p.pos(o.fn.Pos()), nil, "%s never fails on a broken wire (%v)", b.what, b.fails)
				}
				if len(r.Findings) == before {
					r.ok("%s: %d paths", b.what, n)
				}
			}
		}
		// marked closed before
		name := o.fn.Name()
		if obj := o.fn.Object(); obj == nil || !obj.Exported() {
			continue
		}
		b, st := p.newBreakRun(r, true, false)
		b.what = name + " of a connection marked closed"
		st.props["mark"] = b.f.ts.True
		n := 0
		b.f.c.Return = func(st *State, res []*Term, ins ssa.Instruction) {
			n++
			if !st.NonNil(res[len(res)-1]) {
				r.fail("nil:"+b.what, p.instrPos(ins), st.Trace(), "%s returns no error", b.what)
			}
			b.done(st, res, ins)
		}
		b.f.RunKey("closed", st, o.fn, o.args(b, st), nil)
		r.problems(b.f, b.what)
		r.count("operations on closed connections", 1)
		if n == 0 {
			r.fail("vacuous:"+b.what, p.pos(o.fn.Pos()), nil, "%s does not return", b.what)
		}
	}
	// an impossible length
	for _, fn := range append(p.connReaders(), p.connMethod("RecvCmd")) {
		b, st := p.newBreakRun(r, true, false)
		ts := b.f.ts
		b.what = fn.Name() + " of a frame with an impossible length"
		size := ts.sym("the length", types.Typ[types.Uint64])
		wire := []*Term{el(ts, ts.integer(2)), el(ts, ts.integer(0xFF))}
		for i := 0; i < 7; i++ {
			wire = append(wire, el(ts, ts.integer(0xFF)))
		}
		_ = size
		st.props["in"] = ts.mk("seq", "", bytesT, wire...)
		b.bad = func(st *State, key, where, msg string) {
			r.fail(key+":"+b.what, where, st.Trace(), "%s %s", b.what, msg)
		}
		n := 0
		b.f.c.Return = func(st *State, res []*Term, ins ssa.Instruction) {
			if len(st.props["in"].args) == 0 && st.props["broken"] == nil {
				n++
				err := res[len(res)-1]
				if e := b.msgErr(st, err); e != nil {
					err = e
				}
				if !st.NonNil(err) {
					r.fail("accepts:"+b.what, p.instrPos(ins), st.Trace(), "%s returns no error", b.what)
				}
				st.props["broken"] = ts.mk("broken", "the length is impossible", nil)
			}
			b.done(st, res, ins)
		}
		b.f.RunKey("length", st, fn, []*Term{b.conn}, nil)
		r.problems(b.f, b.what)
		if n == 0 {
			r.fail("vacuous:"+b.what, p.pos(fn.Pos()), nil, "%s does not return", b.what)
		} else {
			r.ok("%s", b.what)
		}
	}
	r.atLeast("operations", 14)
	r.atLeast("operations on closed connections", 6)
}
