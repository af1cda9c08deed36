package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C25", checkC25)
	register("C26", checkC26)
}

// pipes is a scene with connections inside the process.
type pipes struct {
	*scene
	r            *Report
	pkg          *ssa.Package
	wake         func(*State) []*State // what happens while something waits
	when         string                // the deadline: zero, past or future
	what         string
	listen, call *ssa.Function
}

func (p *Program) newPipes(r *Report) *pipes {
	var pk *ssa.Package
	for path, x := range p.ByPath {
		if x.Name() == "inproc" {
			pk = p.Prog.Package(x)
			_ = path
		}
	}
	if pk == nil {
		fatalf("anchor not found: package inproc")
	}
	f := p.newFlow(Client{NoKill: true, Zeros: true})
	base := p.initState(f, pk.Pkg, false)
	s := &sockInst{name: "Newinproc", f: f, st: base}
	x := &pipes{scene: p.newScene(s), r: r, pkg: pk, listen: pk.Func("Listen"), call: pk.Func("Dial")}
	if x.listen == nil || x.call == nil {
		fatalf("anchor not found: Listen and Dial of package inproc")
	}
	x.allChans = true
	x.onCall = x.pipeCall
	x.onEv = x.pipeEvent
	x.idle, x.follow = x.waits, 6
	x.adjust = func(cl *Client) {
		cl.RunGoIf = nil
		cl.Ready = x.pipeReady
		cl.RecvOk = func(st *State, ch, v, ok *Term) {
			if x.shut(st, ch) {
				st.Assume(ok, false)
			}
		}
		cl.RecvVal = func(st *State, ch *Term, elem types.Type) *Term {
			if x.shut(st, ch) {
				return st.zero(elem)
			}
			return nil
		}
	}
	return x
}

func (x *pipes) has(st *State, prop string, t *Term) bool {
	if v := st.props[prop]; v != nil {
		for _, a := range v.args {
			if a == t {
				return true
			}
		}
	}
	return false
}

func (x *pipes) shut(st *State, ch *Term) bool { return x.has(st, "shut", ch) }

func (x *pipes) pipeReady(st *State, ch *Term, send bool) int {
	if x.shut(st, ch) {
		return 1
	}
	if !send || ch.op != "mkchan" {
		return -1
	}
	n := 0
	if q := st.chq(ch); q != nil {
		n = len(q.args)
	}
	if len(ch.args) > 0 {
		if c, ok := ch.args[0].intVal(); ok && int64(n) < c {
			return 1
		}
	}
	return -1
}

func (x *pipes) pipeEvent(st *State, ev *Event) {
	switch ev.Kind {
	case "close":
		if x.shut(st, ev.Args[0]) {
			x.r.fail("close", x.p.instrPos(ev.Ins), st.Trace(), "%s, a channel is closed that is closed already", x.what)
			return
		}
		x.add(st, "shut", ev.Args[0])
	case "send", "selected":
		if len(ev.Args) >= 2 && x.shut(st, ev.Args[0]) {
			x.r.fail("send", x.p.instrPos(ev.Ins), st.Trace(), "%s, something is sent on a channel that is closed", x.what)
		}
	case "nilderef":
		x.r.fail("nil", x.p.instrPos(ev.Ins), st.Trace(), "%s, something is used that is nil", x.what)
	case "panic":
		x.r.fail("panic", x.p.instrPos(ev.Ins), st.Trace(), "%s, there is a panic", x.what)
	}
}

// waits: the operation waits; it yields the states in which something has happened meanwhile.
func (x *pipes) waits(st *State) []*State {
	if x.wake == nil || st.props["woken"] != nil || st.props["outer"] != nil || st.props["nested"] != nil {
		return nil
	}
	n := st.Fork()
	n.props["woken"], n.props["nested"] = x.ts.True, x.ts.True
	delete(n.props, "signal")
	wake := x.wake
	x.wake = nil
	outs := x.inside(n, wake)
	x.wake = wake
	for _, o := range outs {
		delete(o.props, "nested")
	}
	return outs
}

func (x *pipes) pipeCall(st *State, ci *CallInfo) []Out {
	ts := x.ts
	if o := x.lockHook(st, ci); o != nil {
		return o
	}
	switch ci.Ext {
	case "sync.Cond.Wait":
		held := st.props["held"]
		cond := ci.Args[0]
		l := st.heap[ts.mk("fa", "sync.Cond.L", nil, cond)]
		var left []*Term
		if held != nil {
			for _, h := range held.args {
				if l != nil && h.args[0] != throughIface(l) {
					left = append(left, h)
				}
			}
		}
		delete(st.props, "held")
		if len(left) > 0 {
			x.add(st, "held", left...)
		}
		delete(st.props, "signalled")
		x.add(st, "waiters", cond)
		var out []Out
		for _, o := range x.waits(st) {
			if !x.has(o, "signalled", cond) {
				x.end(o, nil)
				continue
			}
			delete(o.props, "held")
			if held != nil {
				o.props["held"] = held
			}
			out = append(out, Out{o, nil})
		}
		if out == nil {
			if x.wake == nil || st.props["woken"] != nil || st.props["nested"] != nil {
				x.end(st, nil)
			}
			return []Out{}
		}
		return out
	case "sync.Cond.Signal", "sync.Cond.Broadcast":
		n := 0
		if v := st.props["waiters"]; v != nil {
			for _, a := range v.args {
				if a == ci.Args[0] {
					n++
				}
			}
		}
		// Signal may wake another one that waits
		if ci.Ext == "sync.Cond.Broadcast" || n == 1 {
			x.add(st, "signalled", ci.Args[0])
		}
		return []Out{{st, nil}}
	case "time.Until":
		d := ts.sym("until:"+st.name(ci.Ins), types.Typ[types.Int64])
		switch x.when {
		case "future":
			st.Assume(ts.ge(ts.linComb(d, 1, nil, 0, -1)), true)
		default:
			st.Assume(ts.ge(ts.linComb(d, -1, nil, 0, 0)), true)
		}
		return []Out{{st, d}}
	case "time.Time.Sub":
		d := ts.sym("sub:"+st.name(ci.Ins), types.Typ[types.Int64])
		k := int64(1)
		if (ci.Args[0] == x.deadline()) != (x.when == "future") {
			k = -1
		}
		st.Assume(ts.ge(ts.linComb(d, k, nil, 0, -1)), true)
		return []Out{{st, d}}
	case "time.Time.After", "time.Time.Before":
		v := (ci.Args[0] == x.deadline()) == (x.when == "future")
		return []Out{{st, ts.boolean(v == (ci.Ext == "time.Time.After"))}}
	case "time.Time.IsZero":
		return []Out{{st, ts.boolean(x.when == "zero")}}
	case "time.AfterFunc":
		t := ts.mk("alloc", fmt.Sprintf("timer:%s:%d", st.name(ci.Ins), x.n), ci.Ins.Common().Signature().Results().At(0).Type())
		st.allocs[t] = true
		st.facts[ts.eq(t, ts.Nil)] = false
		x.add(st, "timers", ts.mk("timer", "", nil, t, ci.Args[1]))
		st.pins = append(st.pins[:len(st.pins):len(st.pins)], t, ci.Args[1])
		return []Out{{st, t}}
	case "time.Timer.Stop":
		if x.has(st, "fired", ci.Args[0]) || x.has(st, "stopped", ci.Args[0]) {
			return []Out{{st, ts.Fals}}
		}
		x.add(st, "stopped", ci.Args[0])
		return []Out{{st, ts.True}}
	}
	return nil
}

// fire lets the time of the timers come.
func (x *pipes) fire(st *State) []*State {
	sts := []*State{st}
	v := st.props["timers"]
	if v == nil {
		return sts
	}
	for _, t := range v.args {
		if x.has(st, "stopped", t.args[0]) || x.has(st, "fired", t.args[0]) {
			continue
		}
		fn, free := x.s.f.calleeOf(t.args[1])
		if fn == nil {
			x.problems = append(x.problems, "the function of a timer is not known")
			return nil
		}
		var next []*State
		for _, y := range sts {
			x.add(y, "fired", t.args[0])
			for _, o := range x.exec(y, fn, nil, free) {
				if o.res != nil {
					next = append(next, o.st)
				}
			}
		}
		sts = next
	}
	return sts
}

func (x *pipes) deadline() *Term {
	return x.s.st.unknown("deadline", x.timeT())
}

func (x *pipes) timeT() types.Type {
	for _, pk := range x.p.Prog.AllPackages() {
		if pk.Pkg.Path() == "time" {
			return pk.Pkg.Scope().Lookup("Time").Type()
		}
	}
	fatalf("package time not found")
	return nil
}

// on runs a method of a value that a function returned as an interface, or as a pointer.
func (x *pipes) on(st *State, v *Term, name string, args ...*Term) []outcome {
	T := v.typ
	if v.op == "iface" {
		T = x.p.dynTypes[v.aux]
		v = v.args[0]
	}
	if T == nil {
		x.problems = append(x.problems, "unknown value with method "+name)
		return nil
	}
	sel := x.p.Prog.MethodSets.MethodSet(T).Lookup(x.pkg.Pkg, name)
	if sel == nil {
		x.problems = append(x.problems, fmt.Sprintf("%v has no method %s", T, name))
		return nil
	}
	return x.exec(st, x.p.Prog.MethodValue(sel), append([]*Term{v}, args...), nil)
}

// ok yields the states after operations that return without an error, and the first result.
func (x *pipes) ok(outs []outcome, what string) (sts []*State, vals []*Term) {
	for _, o := range outs {
		if o.res == nil {
			x.r.fail("waits", "inproc", trail(o.st), "%s: %s waits", x.what, what)
			continue
		}
		if x.isErr(o.st, o.res[len(o.res)-1]) != 0 {
			x.r.fail("error", "inproc", trail(o.st), "%s: %s fails", x.what, what)
			continue
		}
		x.r.ok("%s: %s", x.what, what)
		v := o.res[0]
		y := o.st
		y.pins = append(y.pins[:len(y.pins):len(y.pins)], v)
		sts, vals = append(sts, y), append(vals, v)
	}
	if len(sts) == 0 && len(x.problems) == 0 {
		x.r.fail("path", "inproc", nil, "%s: %s never returns without an error", x.what, what)
	}
	return
}

// bad yields the states after operations that must fail.
func (x *pipes) bad(outs []outcome, what string) (sts []*State) {
	for _, o := range outs {
		if o.res == nil {
			x.r.fail("waits", "inproc", trail(o.st), "%s: %s waits", x.what, what)
			continue
		}
		if x.isErr(o.st, o.res[len(o.res)-1]) != 1 {
			x.r.fail("success", "inproc", trail(o.st), "%s: %s may not fail", x.what, what)
			continue
		}
		x.r.ok("%s: %s", x.what, what)
		sts = append(sts, o.st)
	}
	if len(sts) == 0 && len(x.problems) == 0 {
		x.r.fail("path", "inproc", nil, "%s: %s never fails", x.what, what)
	}
	return
}

// one is the first of several states.
func one(sts []*State, vals []*Term) (*State, *Term) {
	if len(sts) == 0 {
		return nil, nil
	}
	return sts[0], vals[0]
}

// bytes is memory with new contents.
func (x *pipes) bytes(st *State, name string, n int) *Term {
	ts := x.ts
	o := ts.mk("alloc", "bytes:"+name, types.NewPointer(types.NewArray(byteT, int64(n))))
	st.allocs[o] = true
	b := ts.mk("slc", "", bytesT, o, ts.Zero, ts.integer(int64(n)))
	x.put(st, b, name, n)
	st.pins = append(st.pins[:len(st.pins):len(st.pins)], b)
	return b
}

func (x *pipes) put(st *State, b *Term, name string, n int) []*Term {
	var out []*Term
	for i := 0; i < n; i++ {
		v := x.ts.sym(fmt.Sprintf("byte:%s.%d", name, i), byteT)
		st.heap[st.ia(b, x.ts.integer(int64(i)), byteT)] = v
		st.pins = append(st.pins[:len(st.pins):len(st.pins)], v)
		out = append(out, v)
	}
	return out
}

func (x *pipes) symbols(name string, n int) []*Term {
	var out []*Term
	for i := 0; i < n; i++ {
		out = append(out, x.ts.sym(fmt.Sprintf("byte:%s.%d", name, i), byteT))
	}
	return out
}

// write writes n bytes; the memory changes as soon as Write has returned.
func (x *pipes) write(st *State, conn *Term, name string, n int) []*State {
	y := st.Fork()
	b := x.bytes(y, name, n)
	sts, vals := x.ok(x.on(y, conn, "Write", b), "Write")
	for i, s := range sts {
		if k, ok := s.subst(vals[i]).intVal(); !ok || k != int64(n) {
			x.r.fail("count", "inproc", trail(s), "%s: Write of %d bytes returns %v", x.what, n, vals[i])
		}
		x.put(s, b, name+"'", n)
	}
	return sts
}

// read reads into n bytes: the result is what was read.
func (x *pipes) read(st *State, conn *Term, n int) (sts []*State, got [][]*Term) {
	y := st.Fork()
	x.n++
	b := x.bytes(y, fmt.Sprintf("read%d", x.n), n)
	ss, vals := x.ok(x.on(y, conn, "Read", b), "Read")
	for i, s := range ss {
		k, ok := s.subst(vals[i]).intVal()
		if !ok || k < 0 || k > int64(n) {
			x.r.fail("count", "inproc", trail(s), "%s: Read into %d bytes returns %v", x.what, n, vals[i])
			continue
		}
		var g []*Term
		for j := int64(0); j < k; j++ {
			g = append(g, s.load(s.ia(b, x.ts.integer(j), byteT), byteT))
		}
		sts, got = append(sts, s), append(got, g)
	}
	return
}

// reads reads until all of want was got.
func (x *pipes) reads(st *State, conn *Term, want []*Term, sizes []int, what string) (out []*State) {
	if len(want) == 0 {
		return []*State{st}
	}
	size := sizes[0]
	if len(sizes) > 1 {
		sizes = sizes[1:]
	}
	sts, got := x.read(st, conn, size)
	for i, s := range sts {
		good := len(got[i]) > 0 && len(got[i]) <= len(want)
		for j := 0; good && j < len(got[i]); j++ {
			if v, k := s.Eval(x.ts.eq(got[i][j], want[j])); !k || !v {
				good = false
			}
		}
		if !good {
			x.r.fail("data", "inproc", trail(s), "%s, %s does not return what was written next", x.what, what)
			continue
		}
		x.r.ok("%s: %s", x.what, what)
		out = append(out, x.reads(s, conn, want[len(got[i]):], sizes, what)...)
	}
	return
}

// pairUp is a listener on the address, and a connection accepted on it.
func (x *pipes) pairUp(st *State, addr string) (*State, *Term, *Term, *Term) {
	a := x.ts.str(addr)
	st, l := one(x.ok(x.exec(st, x.listen, []*Term{a}, nil), "Listen"))
	if st == nil {
		return nil, nil, nil, nil
	}
	st, c := one(x.ok(x.exec(st, x.call, []*Term{a}, nil), "Dial"))
	if st == nil {
		return nil, nil, nil, nil
	}
	st, s := one(x.ok(x.on(st, l, "Accept"), "Accept"))
	return st, l, c, s
}

// meet: what is written to the one end is read from the other, both ways.
func (x *pipes) meet(st *State, a, b *Term, what string) *State {
	if st == nil {
		return nil
	}
	for i, e := range [][2]*Term{{a, b}, {b, a}} {
		x.n++
		name := fmt.Sprintf("meet%d", x.n)
		if i == 0 && x.connOf(a) == x.connOf(b) {
			x.r.fail("same", "inproc", trail(st), "%s, the two ends are the same", what)
			return nil
		}
		var next *State
		for _, s := range x.write(st, e[0], name, 2) {
			for _, z := range x.reads(s, e[1], x.symbols(name, 2), []int{4}, what) {
				next = z
			}
		}
		if next == nil {
			x.r.fail("meet", "inproc", trail(st), "%s: %s: nothing gets from one end to the other", x.what, what)
			return nil
		}
		st = next
	}
	return st
}

func (x *pipes) connOf(v *Term) *Term { return throughIface(v) }

func checkC25(p *Program, r *Report) {
	r.rule("From the state after package initialization, Listen, Dial and Accept of package inproc, each path of sequences of Write (0 to 3 bytes), Read (into 1 to 4 bytes), Close and deadlines of both ends is computed by dataflow: Reads return the bytes written to the other end, in order and as they were at the Write, whatever the sizes; after a Close of the other end first what was written before, then io.EOF; on the closed end errors.")
	r.rule("An operation that waits (Read with nothing to read, Write with the queue full) is resumed after each of: Close of either end, what it waits for, and the deadline; it then ends, with an error unless it got what it waited for. No channel is closed twice or sent on after it was closed.")
	r.assume("time.AfterFunc runs its function once, when the time has come, unless Stop returned true; the select statement picks any of its cases that can proceed")
	x := p.newPipes(r)
	x.what = "a connection"
	st0, _, c, s := x.pairUp(x.start(), "inproc://a")
	if st0 == nil || s == nil {
		r.fail("pair", "inproc", nil, "no path leads to an accepted connection")
		x.report(r)
		return
	}
	eof := func(st *State, e *Term) bool { return isEOF(e) }
	ts := x.ts
	for i, ends := range [][2]*Term{{c, s}, {s, c}} {
		from, to := ends[0], ends[1]
		dir := []string{"from the dialed end", "from the accepted end"}[i]
		// data
		for _, ws := range [][]int{{3}, {1, 2}, {2, 1}, {1, 1, 1}, {3, 3}} {
			for _, sizes := range [][]int{{1}, {2}, {3}, {4}, {1, 4}, {2, 1, 4}} {
				x.what = fmt.Sprintf("%s, writes of %v bytes, reads of %v", dir, ws, sizes)
				sts := []*State{st0}
				var want []*Term
				for k, n := range ws {
					name := fmt.Sprintf("data%d", k)
					var next []*State
					for _, st := range sts {
						next = append(next, x.write(st, from, name, n)...)
					}
					sts = next
					want = append(want, x.symbols(name, n)...)
				}
				for _, st := range sts {
					after := x.reads(st, to, want, sizes, "Read")
					// closed by the writer while data is on its way
					for _, y := range x.closed(st, from) {
						for _, z := range x.reads(y, to, want, sizes, "Read after Close") {
							x.ends(z, to, "all was read", eof)
						}
					}
					for _, y := range after {
						x.ends(x.first(x.closed(y, from)), to, "all was read", eof)
					}
					r.count("sequences of writes and reads", 1)
				}
			}
		}
		// an end that is closed
		x.what = dir + ", closed"
		for _, st := range x.closed(st0, from) {
			x.closed(st, from)
			for _, y := range x.closed(st, to) {
				x.bad(x.on(y, from, "Read", x.bytes(y, "r", 2)), "Read on a connection closed at both ends")
			}
			y := st.Fork()
			b := x.bytes(y, "late", 2)
			x.bad(x.on(y, from, "Write", b), "Write after Close")
			x.bad(x.on(y, from, "Read", b), "Read after Close")
			x.bad(x.on(y, to, "Write", b), "Write after the other end was closed")
		}
		// what waits, and what happens meanwhile
		closing := func(conn *Term) func(*State) []*State {
			return func(st *State) []*State { return x.closed(st, conn) }
		}
		past := func(conn *Term, name, when string) func(*State) []*State {
			return func(st *State) (out []*State) {
				old := x.when
				x.when = when
				for _, o := range x.on(st, conn, name, x.deadline()) {
					if o.res != nil {
						out = append(out, o.st)
					}
				}
				x.when = old
				return
			}
		}
		later := func(conn *Term, name string) func(*State) []*State {
			return func(st *State) (out []*State) {
				for _, y := range past(conn, name, "future")(st) {
					out = append(out, x.fire(y)...)
				}
				return
			}
		}
		timer := func(st *State) []*State { return x.fire(st) }
		set := func(st *State, conn *Term, name, when string) *State {
			return x.first(past(conn, name, when)(st))
		}
		x.what = dir + ", the same deadline twice"
		for _, w := range []string{"zero", "past", "future"} {
			for _, name := range []string{"SetDeadline", "SetReadDeadline", "SetWriteDeadline"} {
				y := set(set(st0, to, name, w), to, name, w)
				r.check(y != nil, "deadline", "inproc", "%s: %s returns", x.what, name)
			}
		}
		// data of any length
		x.what = dir + ", a long write"
		long := x.frame("long")
		problems := len(x.problems)
		y := st0.Fork()
		y.pins = append(y.pins[:len(y.pins):len(y.pins)], long)
		y.Assume(ts.ge(ts.linComb(y.lenOf(long), 1, nil, 0, -1)), true)
		sts, vals := x.ok(x.on(y, from, "Write", long), "Write")
		for k, y := range sts {
			d := ts.sub(y.subst(vals[k]), y.subst(y.lenOf(long)))
			r.check(!y.Prove(ts.linComb(d, -1, nil, 0, -1)) && !y.Prove(ts.linComb(d, 1, nil, 0, -1)), "count", "inproc", "%s: Write returns the length", x.what)
			o := ts.mk("alloc", "bytes:long", types.NewPointer(types.NewSlice(byteT)))
			y.allocs[o] = true
			n := ts.sym("room", types.Typ[types.Int])
			y.Assume(ts.ge(ts.linComb(n, 1, y.lenOf(long), -1, 0)), true)
			buf := ts.mk("slc", "", bytesT, o, ts.Zero, n)
			y.pins = append(y.pins[:len(y.pins):len(y.pins)], o, n, buf)
			outs, ns := x.ok(x.on(y, to, "Read", buf), "Read")
			for k, z := range outs {
				// a loop over single bytes says nothing about the number of them
				d := ts.sub(z.subst(ns[k]), z.subst(z.lenOf(long)))
				less, more := z.Prove(ts.linComb(d, -1, nil, 0, -1)), z.Prove(ts.linComb(d, 1, nil, 0, -1))
				r.check(!less && !more, "count", "inproc", "%s: Read returns the length, not %v", x.what, z.subst(ns[k]))
				got := z.content(ts.mk("slc", "", bytesT, o, ts.Zero, z.lenOf(long)), types.Typ[types.String])
				if v, known := z.Eval(z.eqBytes(got, long)); known {
					r.check(v, "data", "inproc", "%s: Read returns all that was written, not %v", x.what, got)
				}
			}
		}
		if len(x.problems) > problems {
			x.problems = x.problems[:problems]
			r.assume("a Read or Write that goes byte by byte treats bytes beyond the third as it does the first three")
		}
		full := st0
		for k := 0; k < 64 && full != nil; k++ {
			y := full.Fork()
			outs := x.on(y, from, "Write", x.bytes(y, fmt.Sprintf("full%d", k), 1))
			if len(outs) == 0 || outs[0].res == nil {
				break
			}
			full = outs[0].st
		}
		for _, cs := range []struct {
			what   string
			st     *State
			write  bool
			wake   func(*State) []*State
			expect string
		}{
			{"a Read waits and its end is closed", st0, false, closing(to), "error"},
			{"a Read waits and the other end is closed", st0, false, closing(from), "EOF"},
			{"a Read waits and something is written", st0, false, func(st *State) []*State { return x.write(st, from, "now", 2) }, "data"},
			{"a Read waits, something is written and the other end is closed", st0, false, func(st *State) (out []*State) {
				for _, y := range x.write(st, from, "now", 2) {
					out = append(out, x.closed(y, from)...)
				}
				return
			}, "data"},
			{"a Read waits until its deadline", set(st0, to, "SetReadDeadline", "future"), false, timer, "timeout"},
			{"a Read waits until the deadline of both", set(st0, to, "SetDeadline", "future"), false, timer, "timeout"},
			{"a Read waits and a deadline is set", st0, false, later(to, "SetReadDeadline"), "timeout"},
			{"a Read waits and a deadline in the past is set", st0, false, past(to, "SetReadDeadline", "past"), "timeout"},
			{"a Read waits and a deadline is moved", set(set(st0, to, "SetReadDeadline", "future"), to, "SetReadDeadline", "future"), false, timer, "timeout"},
			{"a Read waits after a deadline was taken back", set(set(st0, to, "SetReadDeadline", "past"), to, "SetReadDeadline", "zero"), false, func(st *State) []*State { return x.write(st, from, "now", 2) }, "data"},
			{"a Read waits after a new deadline was set", set(set(st0, to, "SetReadDeadline", "past"), to, "SetReadDeadline", "future"), false, func(st *State) []*State { return x.write(st, from, "now", 2) }, "data"},
			{"a Read waits until a new deadline", set(set(st0, to, "SetReadDeadline", "past"), to, "SetReadDeadline", "future"), false, timer, "timeout"},
			{"a Read waits with a deadline for writes", set(st0, to, "SetWriteDeadline", "past"), false, func(st *State) []*State { return x.write(st, from, "now", 2) }, "data"},
			{"a Write waits and its end is closed", full, true, closing(from), "error"},
			{"a Write waits and the other end is closed", full, true, closing(to), "error"},
			{"a Write waits until its deadline", set(full, from, "SetWriteDeadline", "future"), true, timer, "timeout"},
			{"a Write waits until the deadline of both", set(full, from, "SetDeadline", "future"), true, timer, "timeout"},
			{"a Write waits and a deadline in the past is set", full, true, past(from, "SetWriteDeadline", "past"), "timeout"},
			{"a Write waits with a deadline for reads", set(full, from, "SetReadDeadline", "past"), true, func(st *State) []*State {
				sts, _ := x.read(st, to, 4)
				return sts
			}, "data"},
			{"a Write waits and something is read", full, true, func(st *State) []*State {
				sts, _ := x.read(st, to, 4)
				return sts
			}, "data"},
		} {
			x.what = dir + ", " + cs.what
			if cs.st == nil {
				r.fail("state", "inproc", nil, "%s: no path leads there", x.what)
				continue
			}
			y := cs.st.Fork()
			conn, op, size := to, "Read", 4
			if cs.write {
				conn, op, size = from, "Write", 1
			}
			b := x.bytes(y, "waiting", size)
			for _, o := range x.on(y, conn, op, b) {
				if o.res != nil {
					r.fail("early", "inproc", trail(o.st), "%s: %s does not wait", x.what, op)
				}
			}
			x.wake = cs.wake
			outs := x.on(y, conn, op, b)
			x.wake = nil
			if len(outs) == 0 && len(x.problems) == 0 {
				r.fail("path", "inproc", nil, "%s: no path leads there", x.what)
			}
			for _, o := range outs {
				if o.res == nil {
					r.fail("stuck", "inproc", trail(o.st), "%s: %s does not end", x.what, op)
					continue
				}
				n, known := o.st.subst(o.res[0]).intVal()
				e := x.isErr(o.st, o.res[1])
				switch cs.expect {
				case "data":
					if e != 0 || !known {
						r.fail("lost", "inproc", trail(o.st), "%s: %s fails", x.what, op)
						continue
					}
					want := int64(size)
					if !cs.write {
						want = 2
						for j, v := range x.symbols("now", 2) {
							g := o.st.load(o.st.ia(b, x.ts.integer(int64(j)), byteT), byteT)
							if v, k := o.st.Eval(x.ts.eq(g, v)); !k || !v {
								r.fail("data", "inproc", trail(o.st), "%s: Read returns something else", x.what)
							}
						}
					}
					r.check(n == want, "count", "inproc", "%s: %s returns the number of bytes", x.what, op)
				case "EOF":
					r.check(e == 1 && known && n == 0 && eof(o.st, o.res[1]), "eof", "inproc", "%s: Read reports the end of file", x.what)
				default:
					r.check(e == 1 && known && n == 0, "result", "inproc", "%s: %s returns an error and no data", x.what, op)
					if !cs.write && e == 1 {
						r.check(!eof(o.st, o.res[1]), "noteof", "inproc", "%s: Read does not report the end of file", x.what)
					}
				}
				r.count("operations that waited", 1)
			}
		}
	}
	x.report(r)
	r.atLeast("sequences of writes and reads", 60)
	r.atLeast("operations that waited", 36)
}

func (x *pipes) first(sts []*State) *State {
	if len(sts) == 0 {
		return nil
	}
	return sts[0]
}

// closed closes the end.
func (x *pipes) closed(st *State, conn *Term) (out []*State) {
	if st == nil {
		return nil
	}
	for _, o := range x.on(st, conn, "Close") {
		if o.res == nil {
			x.r.fail("waits", "inproc", trail(o.st), "%s: Close waits", x.what)
			continue
		}
		x.r.check(x.isErr(o.st, o.res[0]) == 0, "close", "inproc", "%s: Close returns no error", x.what)
		out = append(out, o.st)
	}
	return
}

// ends: Reads report the end of file, again and again.
func (x *pipes) ends(st *State, conn *Term, what string, isEOF func(*State, *Term) bool) {
	if st == nil {
		return
	}
	for k := 0; k < 2; k++ {
		y := st.Fork()
		x.n++
		for _, o := range x.on(y, conn, "Read", x.bytes(y, fmt.Sprintf("end%d", x.n), 2)) {
			if o.res == nil {
				x.r.fail("waits", "inproc", trail(o.st), "%s, %s: Read waits", x.what, what)
				return
			}
			n, k := o.st.subst(o.res[0]).intVal()
			x.r.check(k && n == 0 && isEOF(o.st, o.res[1]), "eof", "inproc", "%s, %s: Read reports the end of file", x.what, what)
			st = o.st
		}
	}
}

func checkC26(p *Program, r *Report) {
	r.rule("From the state after package initialization, each path of sequences of Listen, Dial, Accept and Close of package inproc is computed by dataflow: a second Listen on an address in use fails, and so does Dial on an address without listener; the connections that Accept returns are the ends of those dialed to that address, in order, each once (what is written to the one end is read from the other); Close frees the address, makes later Accepts fail and closes the connections that were not accepted, and no others.")
	r.rule("An Accept that waits is resumed by a Dial to its address and by Close of its listener, also while others wait. Whatever other operation comes in between at any lock acquisition, each Dial that succeeds is accepted or closed, no connection is accepted twice and one address has one listener.")
	r.assume("sync.Cond.Signal may wake any of the goroutines that wait")
	x := p.newPipes(r)
	ts := x.ts
	a, b := ts.str("inproc://a"), ts.str("inproc://b")
	st0 := x.start()
	listen := func(st *State, addr *Term) []outcome { return x.exec(st, x.listen, []*Term{addr}, nil) }
	dial := func(st *State, addr *Term) []outcome { return x.exec(st, x.call, []*Term{addr}, nil) }
	accept := func(st *State, l *Term) []outcome { return x.on(st, l, "Accept") }
	// must: an operation that succeeds on one path
	must := func(what string, st *State, op func(*State, *Term) []outcome, v *Term) (*State, *Term) {
		if st == nil || v == nil {
			return nil, nil
		}
		return one(x.ok(op(st, v), what))
	}
	end := func(st *State, l *Term) *State { return x.first(x.closed(st, l)) }
	fails := func(what string, st *State, op func(*State, *Term) []outcome, v *Term) *State {
		if st == nil {
			return nil
		}
		return x.first(x.bad(op(st, v), what))
	}
	dead := func(what string, st *State, conn *Term) {
		if st == nil || conn == nil {
			return
		}
		y := st.Fork()
		buf := x.bytes(y, "dead", 2)
		x.bad(x.on(y, conn, "Read", buf), "Read on "+what)
		x.bad(x.on(y, conn, "Write", buf), "Write on "+what)
	}
	// waits: the operation gets no further
	stuck := func(what string, st *State, op func(*State, *Term) []outcome, v *Term) *State {
		if st == nil {
			return nil
		}
		var last *State
		for _, o := range op(st, v) {
			if o.res != nil {
				r.fail("early", "inproc", trail(o.st), "%s: %s does not wait", x.what, what)
				continue
			}
			last = o.st
		}
		return last
	}

	x.what = "without listener"
	fails("Dial", st0, dial, a)
	x.what = "with a listener"
	st, la := must("Listen", st0, listen, a)
	if st == nil {
		x.report(r)
		r.fail("listen", "inproc", nil, "no path of Listen succeeds")
		return
	}
	fails("Dial to another address", st, dial, b)
	stuck("Accept", st, accept, la)
	st = fails("a second Listen", st, listen, a)
	st, lb := must("Listen on another address", st, listen, b)
	both := st

	x.what = "with dialed connections"
	st, c1 := must("Dial", st, dial, a)
	st, c2 := must("Dial", st, dial, b)
	st, c3 := must("Dial", st, dial, a)
	if st != nil {
		// what is written before the Accept is not lost
		early := x.first(x.write(st, c3, "early", 2))
		y, s1 := must("Accept", early, accept, la)
		y, s3 := must("Accept", y, accept, la)
		y = x.meet(y, c1, s1, "the first connection and the first accepted")
		if y != nil {
			x.reads(y, s3, x.symbols("early", 2), []int{2}, "Read of what was written before Accept")
			stuck("a third Accept", y, accept, la)
		}
	}
	st, s2 := must("Accept on the other listener", st, accept, lb)
	st, s1 := must("Accept", st, accept, la)
	st, s3 := must("Accept", st, accept, la)
	st = x.meet(st, c1, s1, "the first connection")
	st = x.meet(st, c3, s3, "the second connection")
	st = x.meet(st, c2, s2, "the connection to the other listener")
	stuck("Accept", st, accept, la)
	stuck("Accept on the other listener", st, accept, lb)
	r.count("connections", 3)

	x.what = "after Close of the listener"
	st, c4 := must("Dial", st, dial, a)
	st, c5 := must("Dial", st, dial, b)
	st, c6 := must("Dial", st, dial, a)
	st = end(st, la)
	fails("Dial", st, dial, a)
	fails("Accept", st, accept, la)
	dead("a connection not accepted", st, c4)
	dead("another connection not accepted", st, c6)
	st = x.meet(st, c1, s1, "the first connection")
	st = x.meet(st, c2, s2, "the connection to the other listener")
	st, s5 := must("Accept on the other listener", st, accept, lb)
	st = x.meet(st, c5, s5, "the connection not accepted before")
	st = end(st, la)
	fails("Dial", st, dial, a)

	x.what = "with a new listener on the address"
	st, ln := must("Listen", st, listen, a)
	st, c7 := must("Dial", st, dial, a)
	fails("Accept on the old listener", st, accept, la)
	st = end(st, la)
	fails("a second Listen", st, listen, a)
	st, c8 := must("Dial", st, dial, a)
	st, s7 := must("Accept", st, accept, ln)
	st, s8 := must("Accept", st, accept, ln)
	st = x.meet(st, c7, s7, "the connection")
	st = x.meet(st, c8, s8, "the connection dialed after the old one was closed again")
	r.count("connections", 3)

	// what waits
	waiting := func(what string, wake func(*State) []*State, after func(st *State, res []*Term)) {
		x.what = what
		x.wake = wake
		outs := accept(both, la)
		x.wake = nil
		if len(outs) == 0 && len(x.problems) == 0 {
			r.fail("path", "inproc", nil, "%s: no path leads there", what)
		}
		for _, o := range outs {
			if o.res == nil {
				r.fail("stuck", "inproc", trail(o.st), "%s: Accept does not end", what)
				continue
			}
			after(o.st, o.res)
			r.count("Accepts that waited", 1)
		}
	}
	var dialed *Term
	dialNow := func(st *State) (out []*State) {
		st, dialed = must("Dial", st, dial, a)
		if st != nil {
			out = append(out, st)
		}
		return
	}
	met := func(st *State, res []*Term) {
		if x.isErr(st, res[1]) != 0 {
			r.fail("error", "inproc", trail(st), "%s: Accept fails", x.what)
			return
		}
		st.pins = append(st.pins[:len(st.pins):len(st.pins)], res[0], dialed)
		x.meet(st, dialed, res[0], "the accepted connection")
	}
	failed := func(st *State, res []*Term) {
		r.check(x.isErr(st, res[1]) == 1, "closed", "inproc", "%s: Accept fails", x.what)
	}
	// blocked: another Accept waits as well
	blocked := func(l *Term, then func(*State) []*State) func(*State) []*State {
		return func(st *State) (out []*State) {
			for _, o := range accept(st, l) {
				if o.res == nil {
					out = append(out, then(o.st)...)
				}
			}
			return
		}
	}
	waiting("an Accept waits and a connection is dialed", dialNow, met)
	waiting("an Accept waits and the listener is closed", func(st *State) []*State { return x.closed(st, la) }, failed)
	waiting("Accepts of two listeners wait and a connection is dialed", blocked(lb, dialNow), met)
	waiting("Accepts of two listeners wait and one is closed", blocked(lb, func(st *State) []*State { return x.closed(st, la) }), failed)
	waiting("two Accepts wait and the listener is closed", blocked(la, func(st *State) []*State { return x.closed(st, la) }), failed)

	x.what = "an Accept waits and a connection to the other listener is dialed"
	x.wake = func(st *State) (out []*State) {
		if st, _ = must("Dial", st, dial, b); st != nil {
			out = append(out, st)
		}
		return
	}
	stuck("Accept", both, accept, la)
	x.wake = nil

	// in between
	during := func(what string, from *State, op func(*State) []outcome, with func(*State) []*State, after func(st *State, res []*Term)) {
		if from == nil {
			return
		}
		x.what = what
		x.between, x.meanwhile = with, "the other operation"
		outs := op(from)
		x.between = nil
		r.count("points in between", x.points)
		x.points = 0
		for _, o := range outs {
			if o.st.props["between"] == nil {
				continue
			}
			after(o.st, o.res)
			r.count("operations in between", 1)
		}
	}
	keep := func(st *State, vs ...*Term) {
		st.pins = append(st.pins[:len(st.pins):len(st.pins)], vs...)
	}
	// what another operation returned is kept in the state
	note := func(outs []outcome, prop string) (sts []*State) {
		for _, o := range outs {
			if o.res == nil {
				continue
			}
			keep(o.st, o.res...)
			if x.isErr(o.st, o.res[len(o.res)-1]) == 0 {
				o.st.props[prop] = o.res[0]
			} else {
				o.st.props[prop] = ts.Nil
			}
			sts = append(sts, o.st)
		}
		return
	}
	during("two Listens on one address", st0, func(st *State) []outcome { return listen(st, a) }, func(st *State) []*State { return note(listen(st, a), "other") },
		func(st *State, res []*Term) {
			won := 0
			if res != nil && x.isErr(st, res[1]) == 0 {
				won++
			}
			if !st.props["other"].isNil() {
				won++
			}
			r.check(won == 1, "listeners", "inproc", "%s: one of them succeeds", x.what)
		})
	during("Dial while the listener is closed", both, func(st *State) []outcome { return dial(st, a) }, func(st *State) []*State { return x.closed(st, la) },
		func(st *State, res []*Term) {
			if res == nil {
				r.fail("waits", "inproc", trail(st), "%s: Dial waits", x.what)
				return
			}
			if x.isErr(st, res[1]) == 0 {
				keep(st, res...)
				dead("the connection", st, res[0])
			}
		})
	during("Close while a connection is dialed", both, func(st *State) []outcome { return x.on(st, la, "Close") }, func(st *State) []*State { return note(dial(st, a), "other") },
		func(st *State, res []*Term) {
			if v := st.props["other"]; !v.isNil() {
				dead("the connection", st, v)
			}
			fails("Dial", st, dial, a)
		})
	one1, d1 := must("Dial", both, dial, a)
	two, d2 := must("Dial", one1, dial, a)
	during("two Accepts at once", two, func(st *State) []outcome { return accept(st, la) }, func(st *State) []*State { return note(accept(st, la), "other") },
		func(st *State, res []*Term) {
			o := st.props["other"]
			if res == nil || x.isErr(st, res[1]) != 0 || o.isNil() {
				r.fail("accept", "inproc", trail(st), "%s: one of them fails", x.what)
				return
			}
			keep(st, res...)
			x.meet(x.meet(st, d1, o, "the first connection"), d2, res[0], "the second connection")
		})
	during("two Accepts at once for one connection", one1, func(st *State) []outcome { return accept(st, la) }, func(st *State) []*State { return note(accept(st, la), "other") },
		func(st *State, res []*Term) {
			o := st.props["other"]
			if res != nil && x.isErr(st, res[1]) == 0 && !o.isNil() {
				r.fail("twice", "inproc", trail(st), "%s: both succeed", x.what)
			}
		})
	during("two Dials at once", both, func(st *State) []outcome { return dial(st, a) }, func(st *State) []*State { return note(dial(st, a), "other") },
		func(st *State, res []*Term) {
			o := st.props["other"]
			if res == nil || x.isErr(st, res[1]) != 0 || o.isNil() {
				r.fail("dial", "inproc", trail(st), "%s: one of them fails", x.what)
				return
			}
			keep(st, res...)
			y, s1 := must("Accept", st, accept, la)
			y, s2 := must("Accept", y, accept, la)
			x.meet(x.meet(y, o, s1, "the first connection"), res[0], s2, "the second connection")
		})
	during("Listen while the old listener is closed again", end(both, la), func(st *State) []outcome { return listen(st, a) }, func(st *State) []*State { return x.closed(st, la) },
		func(st *State, res []*Term) {
			if res == nil || x.isErr(st, res[1]) != 0 {
				r.fail("listen", "inproc", trail(st), "%s: Listen fails", x.what)
				return
			}
			must("Dial", st, dial, a)
		})
	x.report(r)
	r.atLeast("connections", 6)
	r.atLeast("Accepts that waited", 5)
	r.atLeast("operations in between", 6)
}
