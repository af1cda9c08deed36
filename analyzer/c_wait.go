package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C04", checkC04)
	register("C09", checkC09)
}

// ioFuncs are the functions of a connection that read from or write to the
// transport connection, and the one that shakes hands.
func (p *Program) ioFuncs() map[*ssa.Function]bool {
	if p.ioFns != nil {
		return p.ioFns
	}
	ext := map[string]bool{"net.Conn.Read": true, "net.Conn.Write": true, "io.ReadFull": true, "io.CopyN": true, "io.Copy": true,
		"io.ReadAll": true, "io.ReadAtLeast": true, "net.Buffers.WriteTo": true, "io.Reader.Read": true, "io.Writer.Write": true, "io.WriteString": true, "encoding/binary.Read": true, "encoding/binary.Write": true}
	memo := map[*ssa.Function]int{}
	var io func(fn *ssa.Function) bool
	io = func(fn *ssa.Function) bool {
		if fn == nil {
			return false
		}
		if v, ok := memo[fn]; ok {
			return v == 1
		}
		memo[fn] = 0
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(*ssa.Call)
				if !ok {
					continue
				}
				var name string
				if c.Call.IsInvoke() {
					name = extName(c.Call.Method)
				} else if f := c.Call.StaticCallee(); f != nil {
					if o, ok := f.Object().(*types.Func); ok {
						name = extName(o)
					}
					if io(f) {
						memo[fn] = 1
						return true
					}
				}
				if ext[name] {
					memo[fn] = 1
					return true
				}
			}
		}
		return false
	}
	conn := p.mustType("Conn")
	p.ioFns = map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		if p.isOpen(fn) {
			p.ioFns[fn] = true
		}
		if r := fn.Signature.Recv(); r != nil && named(deref(r.Type())) == conn && io(fn) {
			p.ioFns[fn] = true
		}
	}
	if len(p.ioFns) < 4 {
		fatalf("found only %d functions that use a transport connection", len(p.ioFns))
	}
	return p.ioFns
}

// timeoutKey is the socket's field that WithTimeout sets.
func (p *Program) timeoutField() int {
	fn := p.mustFunc(p.Root, "WithTimeout")
	at := -1
	for _, a := range fn.AnonFuncs {
		for _, b := range a.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && named(deref(fa.X.Type())) == p.sockStruct() {
						at = fa.Field
					}
				}
			}
		}
	}
	if at < 0 {
		fatalf("anchor not found: the field that WithTimeout sets")
	}
	return at
}

// waits follows every wait on the way of an operation or goroutine.
type waits struct {
	p    *Program
	r    *Report
	f    *Flow
	key  string
	what string
	root *Term   // the context whose end must end every wait
	lim  *Term   // the timeout that must bound every wait, if any
	outs bool    // runs on a goroutine of its own
	own  []*Term // connections that only this operation knows need a watcher
	bad  bool
	n    int    // waits seen
	net  bool   // the goroutines of a networking transport
	base *State // the memory of the socket
	kids []kid
	cond map[*Term]bool // condition variables waited on
}

func (w *waits) fail(st *State, key string, ins ssa.Instruction, msg string, a ...any) {
	w.bad = true
	at := "-"
	if ins != nil {
		at = w.p.instrPos(ins)
	}
	w.r.fail(key+":"+w.key, at, st.Trace(), "%s %s", w.what, fmt.Sprintf(msg, a...))
}

// bounds: the end of what must bound the waits ends this context too.
func (w *waits) bounds(c *Term) bool {
	if !derives(c, w.root) {
		return false
	}
	if w.lim == nil {
		return true
	}
	for x := c; x != nil && x != w.root; {
		if x.op == "ctx" && len(x.args) == 2 && (x.args[1] == w.lim || x.args[1].op != "ctx" && x.args[1].has(w.lim) && strings.Contains(x.args[1].String(), "time.Time.Add")) {
			return true
		}
		if (x.op == "ctx" || x.op == "iface") && len(x.args) > 0 {
			x = x.args[0]
			continue
		}
		return false
	}
	return false
}

// check notes that the context was found not to have ended, with a lock held.
func (w *waits) check(st *State) {
	if st.props["held"] != nil {
		st.props["checked"] = st.ts().True
	}
}

// ended: from here on the context has ended.
func (w *waits) ended(st *State) bool { return st.props["ended"] != nil }

func (w *waits) end(st *State) *State {
	st.props["ended"] = st.ts().True
	delete(st.props, "checked")
	st.setCancelled(w.root)
	return st
}

// fork ends the context in a copy.
func (w *waits) late(st *State, ins ssa.Instruction) *State {
	n := st.Fork()
	n.note("%s: the context ends meanwhile", w.p.instrPos(ins))
	return w.end(n)
}

// closes are the connections that a function closes whenever it runs.
func (w *waits) closes(st *State, fnT *Term, at ssa.Instruction) map[*Term]bool {
	fn, free := w.f.calleeOf(fnT)
	if fn == nil || !w.f.hasBody(fn) {
		return nil
	}
	var args []*Term
	if fn.Signature.Recv() != nil && len(free) == 0 && fnT.op != "clos" {
		return nil
	}
	// apart from the run that is under way
	sub := *w.f
	sub.work, sub.visited, sub.Problem, sub.states, sub.stopped = nil, nil, nil, 0, false
	var all map[*Term]bool
	n := st.Fork()
	n.f = &sub
	for k := range n.props {
		delete(n.props, k)
	}
	closeFn := w.p.connMethod("Close")
	mark := func(st *State, v *Term) {
		v = throughIface(v)
		st.props["c"+fmt.Sprint(v.id)] = v
	}
	hook := func(st *State, ci *CallInfo) []Out {
		if ci.Fn == closeFn && closeFn != nil && !ci.Seen {
			ci.Seen = true
			mark(st, ci.Args[0])
			return []Out{{st, sub.ts.sym("closed:"+st.name(ci.Ins), ci.Ins.Common().Signature().Results().At(0).Type())}}
		}
		if ci.Ext == "context.Context.Done" {
			return nil
		}
		return nil
	}
	sub.c = Client{MaxDepth: 12, Call: hook, Model: hook,
		Event: func(st *State, ev *Event) {
			if ev.Kind == "closeconn" {
				mark(st, ev.Args[0])
			}
			if ev.Kind == "select" || ev.Kind == "recv" {
				ok := false
				for _, c := range ev.Args {
					if c.op == "done" && w.bounds(c.args[0]) {
						ok = true
					}
				}
				if !ok {
					st.props["other"] = sub.ts.True
				}
			}
			if ev.Kind == "selected" && (len(ev.Args) == 0 || ev.Args[0].op != "done") {
				// told that it is not needed any more
				st.props["told"] = sub.ts.True
			}
		},
		Return: func(st *State, res []*Term, ins ssa.Instruction) {
			if st.props["told"] != nil {
				return
			}
			m := map[*Term]bool{}
			if st.props["other"] == nil {
				for k, v := range st.props {
					if k[0] == 'c' {
						m[v] = true
					}
				}
			}
			if all == nil {
				all = m
				return
			}
			for k := range all {
				if !m[k] {
					delete(all, k)
				}
			}
		}}
	sub.RunKey("watch"+w.p.instrPos(at), n, fn, args, free)
	if len(sub.Problem) > 0 {
		return nil
	}
	return all
}

func (w *waits) cover(st *State, fnT *Term, at ssa.Instruction, by string) {
	for c := range w.closes(st, fnT, at) {
		st.props["cover:"+by+":"+fmt.Sprint(c.id)] = c
	}
}

func (w *waits) covered(st *State, c *Term) bool {
	c = throughIface(c)
	for k, v := range st.props {
		if strings.HasPrefix(k, "cover:") && v == c {
			return true
		}
	}
	return false
}

// io is a wait for the peer at the other end of the connection.
func (w *waits) io(st *State, ins ssa.Instruction, c *Term) {
	w.n++
	if w.covered(st, c) {
		return
	}
	if !w.outs {
		w.fail(st, "io", ins, "waits for a peer although nothing closes the connection when the time is up or the socket is closed")
		return
	}
	for _, o := range w.own {
		if o == throughIface(c) {
			w.fail(st, "io", ins, "waits for a peer although nothing closes the new connection when the socket is closed")
			return
		}
	}
	if v := st.props["new:"+fmt.Sprint(throughIface(c).id)]; v != nil {
		w.fail(st, "io", ins, "waits for a peer although nothing closes the new connection when the socket is closed")
	}
}

func (w *waits) call(st *State, ci *CallInfo) []Out {
	if ci.Seen {
		return nil
	}
	ts := w.f.ts
	sig := ci.Ins.Common().Signature()
	if w.ended(st) {
		st.setCancelled(w.root)
	}
	nm := st.name(ci.Ins)
	// outcomes of something that ends when what it works on is closed
	either := func(val func(st *State) *Term) []Out {
		res := sig.Results()
		mk := func(st *State, good bool) *Term {
			var vs []*Term
			for i := 0; i < res.Len(); i++ {
				t := res.At(i).Type()
				switch {
				case isErrType(t) && good:
					vs = append(vs, ts.Nil)
				case isErrType(t):
					e := ts.sym("err:"+nm, t)
					st.facts[ts.eq(e, ts.Nil)] = false
					vs = append(vs, e)
				case named(t) == w.p.mustType("Msg"):
					m := st.unknown("read:"+nm, t)
					e := m.args[w.p.msgField(isErrType)]
					st.facts[ts.eq(e, ts.Nil)] = good
					vs = append(vs, m)
				case good && val != nil && i == 0:
					vs = append(vs, val(st))
				default:
					vs = append(vs, st.unknown(fmt.Sprintf("io:%s#%d", nm, i), t))
				}
			}
			if len(vs) == 1 {
				return vs[0]
			}
			return ts.mk("agg", "tuple", res, vs...)
		}
		bad := st.Fork()
		bad.kill("io:" + nm)
		bad.note("%s: fails", w.p.instrPos(ci.Ins))
		if w.ended(st) {
			return []Out{{bad, mk(bad, false)}}
		}
		n := w.late(st, ci.Ins)
		n.kill("io:" + nm)
		st.kill("io:" + nm)
		return []Out{{n, mk(n, false)}, {bad, mk(bad, false)}, {st, mk(st, true)}}
	}
	if ci.Fn != nil && w.p.ioFuncs()[ci.Fn] {
		ci.Seen = true
		w.io(st, ci.Ins, ci.Args[0])
		return either(func(st *State) *Term {
			v := st.unknown("opened:"+nm, sig.Results().At(0).Type())
			st.facts[ts.eq(v, ts.Nil)] = false
			return v
		})
	}
	if k := makesConn(ci); k != "" {
		ci.Seen = true
		w.n++
		hasCtx := false
		for _, a := range ci.Args[1:] {
			if a.op == "ctx" || a.typ != nil && isNamed(a.typ, "context", "Context") {
				hasCtx = true
				if k == "conn" && !w.bounds(a) {
					w.fail(st, "dial", ci.Ins, "dials with a context that does not end with the socket's")
				}
			}
		}
		if !hasCtx && (ci.Meth.Name() != "Accept" || !w.outs) {
			w.fail(st, "dial", ci.Ins, "waits for a connection without heeding a context")
		}
		return either(func(st *State) *Term {
			v := ts.sym(k+":"+nm, sig.Results().At(0).Type())
			st.facts[ts.eq(v, ts.Nil)] = false
			if k == "conn" {
				st.props["new:"+fmt.Sprint(v.id)] = v
			}
			return v
		})
	}
	if w.net && ci.Meth != nil && (ci.Meth.Name() == "Recv" || ci.Meth.Name() == "Send" || ci.Meth.Name() == "SendMulti" || ci.Meth.Name() == "Dial") {
		// an operation of a socket whose context is made from the transport's
		ci.Seen = true
		w.n++
		return either(nil)
	}
	switch ci.Ext {
	case "context.Context.Err":
		if !derives(ci.Args[0], w.root) {
			return nil
		}
		ci.Seen = true
		e := ts.mk("newerr", "ctxerr", types.Universe.Lookup("error").Type(), ci.Args[0])
		if w.ended(st) || st.cancelled(ci.Args[0]) {
			if w.bounds(ci.Args[0]) {
				w.end(st)
			}
			return []Out{{st, e}}
		}
		if !w.bounds(ci.Args[0]) {
			return nil
		}
		n := st.Fork()
		n.note("%s: the context has ended", w.p.instrPos(ci.Ins))
		n.setCancelled(ci.Args[0])
		w.end(n)
		w.check(st)
		return []Out{{n, e}, {st, ts.Nil}}
	case "time.Sleep":
		if d, ok := st.subst(ci.Args[0]).intVal(); !ok || d > 100e6 {
			w.fail(st, "sleep", ci.Ins, "sleeps without heeding the context")
		}
	}
	if lockNames[ci.Ext] && !w.ended(st) && st.props["early"] == nil && st.inLoop() {
		ci.Seen = true
		st.kill("lock:" + nm)
		w.f.event(st, "lock", ci.Ins, ci.Args...)
		return []Out{{w.late(st, ci.Ins), nil}, {st, nil}}
	}
	return nil
}

// inLoop: what runs now may run again before the analysed function returns.
func (s *State) inLoop() bool {
	for fr := s.top; fr != nil; fr = fr.caller {
		if len(s.f.loopInfo(fr.fn).of[fr.blk]) > 0 {
			return true
		}
	}
	return false
}

func (w *waits) event(st *State, ev *Event) {
	if w.ended(st) {
		st.setCancelled(w.root)
	}
	switch ev.Kind {
	case "select":
		if !ev.Sel.Blocking {
			return
		}
		w.n++
		for _, c := range ev.Args {
			if c.op == "done" && w.bounds(c.args[0]) {
				return
			}
		}
		w.fail(st, "select", ev.Ins, "waits in a select that does not heed the %s", w.name())
	case "selected":
		if len(ev.Args) == 0 || ev.Args[0].op != "done" {
			if w.ended(st) {
				return
			}
			for _, s := range ev.Sel.States {
				if c := st.val(s.Chan); c.op == "done" && w.bounds(c.args[0]) && ev.Case < 0 {
					w.check(st)
				}
			}
			return
		}
		if w.bounds(ev.Args[0].args[0]) {
			w.end(st)
		}
	case "recv", "send":
		w.n++
		c := ev.Args[0]
		if ev.Kind == "recv" && c.op == "done" && w.bounds(c.args[0]) {
			w.end(st)
			return
		}
		if ev.Kind == "send" && w.outs && w.room(st, c) {
			return
		}
		w.fail(st, ev.Kind, ev.Ins, "waits on a channel without heeding the %s", w.name())
	case "lock", "unlock":
		d := int64(1)
		if ev.Kind == "unlock" {
			d = -1
		}
		n, _ := orZero(st, "held").intVal()
		if n += d; n > 0 {
			st.props["held"] = st.ts().integer(n)
		} else {
			delete(st.props, "held")
		}
		delete(st.props, "checked")
	case "wait":
		w.n++
		c := ev.Args[0]
		if w.outs && isNamed(deref(c.typ), "sync", "Cond") && !w.ended(st) && st.props["checked"] != nil {
			w.cond[c] = true
			delete(st.props, "checked")
			return
		}
		w.fail(st, "wait", ev.Ins, "waits for something that the end of the %s need not end", w.name())
	case "grpgo":
		if ev.Fn == nil || !w.f.hasBody(ev.Fn) {
			w.fail(st, "group", ev.Ins, "waits for a function that cannot be followed")
		}
	case "read", "write", "copyn":
		c := ev.Args[0]
		if ev.Kind == "copyn" {
			c = ev.Args[1]
		}
		if isNetConn(throughIface(c).typ) {
			w.io(st, ev.Ins, c)
		}
	case "afterfunc":
		if w.bounds(ev.Args[0]) {
			w.cover(st, ev.Args[1], ev.Ins, st.name(ev.Ins))
		}
		if w.outs {
			w.kid(st, ev.Args[1], nil, ev.Ins)
		}
	case "stop":
		for k := range st.props {
			if strings.HasPrefix(k, "cover:"+ev.Args[0].aux+":") {
				delete(st.props, k)
			}
		}
	case "go":
		w.cover(st, ev.Args[0], ev.Ins, "go")
		w.kid(st, ev.Args[0], ev.Args[1:], ev.Ins)
	}
}

// isNetConn: values of the type are transport connections.
func isNetConn(t types.Type) bool {
	if t == nil {
		return false
	}
	has := 0
	ms := types.NewMethodSet(t)
	for _, n := range []string{"Read", "Write", "SetReadDeadline", "RemoteAddr"} {
		if ms.Lookup(nil, n) != nil {
			has++
		}
	}
	return has == 4
}

// room: the only value sent on a buffered channel that was made for it.
func (w *waits) room(st *State, ch *Term) bool {
	return st.roomFor(ch) && !w.base.allocs[ch] && !st.inLoop()
}

func (w *waits) name() string {
	if w.lim != nil {
		return "send deadline"
	}
	return "socket's context"
}

// kid notes a goroutine that is started.
func (w *waits) kid(st *State, fnT *Term, args []*Term, ins ssa.Instruction) {
	fn, free := w.f.calleeOf(fnT)
	if fn == nil || !w.f.hasBody(fn) {
		return
	}
	n := st.Fork()
	n.top = nil
	for k := range n.props {
		if !strings.HasPrefix(k, "new:") {
			delete(n.props, k)
		}
	}
	n.escape(fnT)
	for _, a := range args {
		n.escape(a)
		delete(st.props, "new:"+fmt.Sprint(throughIface(a).id))
	}
	for _, a := range free {
		// what a variable it shares holds
		if v := st.heap[a]; v != nil {
			delete(st.props, "new:"+fmt.Sprint(throughIface(v).id))
		}
		delete(st.props, "new:"+fmt.Sprint(throughIface(a).id))
	}
	w.kids = append(w.kids, kid{n, fn, args, free, ins})
}

// loop: a loop that is gone through again although the context has ended.
func (w *waits) loop(st *State, head *ssa.BasicBlock) {
	if !w.ended(st) || w.f.finite(head) {
		return
	}
	var at ssa.Instruction
	for _, i := range head.Instrs {
		if i.Pos().IsValid() {
			at = i
			break
		}
	}
	if at == nil {
		at = head.Instrs[len(head.Instrs)-1]
	}
	w.fail(st, "loop", at, "may go round a loop for ever after the end of the %s", w.name())
}

// finite: something in the loop counts towards its end on every round.
func (f *Flow) finite(h *ssa.BasicBlock) bool {
	li := f.loopInfo(h.Parent())
	var latches []*ssa.BasicBlock
	for _, p := range h.Preds {
		if li.back[[2]int{p.Index, h.Index}] {
			latches = append(latches, p)
		}
	}
	in := func(b *ssa.BasicBlock) bool {
		if b == h {
			return true
		}
		for _, x := range li.of[b] {
			if x == h {
				return true
			}
		}
		return false
	}
	// counter: a value of the loop's head that moves in one direction
	counter := func(v ssa.Value) bool {
		if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
			if _, isC := b.Y.(*ssa.Const); isC {
				v = b.X
			}
		}
		ph, ok := v.(*ssa.Phi)
		if !ok || ph.Block() != h {
			return false
		}
		for i, p := range h.Preds {
			if !li.back[[2]int{p.Index, h.Index}] {
				continue
			}
			b, ok := ph.Edges[i].(*ssa.BinOp)
			if !ok || b.Op != token.ADD && b.Op != token.SUB || b.X != ssa.Value(ph) {
				return false
			}
			c, ok := b.Y.(*ssa.Const)
			if !ok || c.Value == nil || c.Int64() == 0 {
				return false
			}
		}
		return true
	}
	fixed := func(v ssa.Value) bool {
		ins, ok := v.(ssa.Instruction)
		if !ok {
			return true
		}
		if !in(ins.Block()) {
			return true
		}
		// a length that the loop reads anew is as good when what it is the length of is fixed
		if c, ok := v.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if x, ok := c.Call.Args[0].(ssa.Instruction); !ok || !in(x.Block()) {
					return true
				}
			}
		}
		return false
	}
	for _, b := range h.Parent().Blocks {
		if !in(b) || len(b.Instrs) == 0 {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || in(b.Succs[0]) && in(b.Succs[1]) {
			continue
		}
		dom := true
		for _, l := range latches {
			if !b.Dominates(l) {
				dom = false
			}
		}
		if !dom {
			continue
		}
		switch c := iff.Cond.(type) {
		case *ssa.BinOp:
			if counter(c.X) && fixed(c.Y) || counter(c.Y) && fixed(c.X) {
				return true
			}
		case *ssa.Extract:
			if _, ok := c.Tuple.(*ssa.Next); ok {
				return true
			}
		}
	}
	return false
}

func (w *waits) client() Client {
	return Client{MaxDepth: 24, RunGroups: true, Call: w.call, Model: w.call, Event: w.event, Loop: w.loop,
		Ready: func(st *State, ch *Term, send bool) int {
			if send && w.outs && w.room(st, ch) {
				return 1
			}
			if w.ended(st) && ch.op != "done" {
				return -1 // whoever is at the other end may have ended, too
			}
			return 0
		}}
}

func checkC09(p *Program, r *Report) {
	r.rule("for Send and SendMulti of every socket type, from the memory its constructor leaves: every wait on their paths is a select with a case for the end of a context made from the socket's with the configured timeout, or ends because a function that context runs at its end closes the connection waited on; no path goes round a loop again once that context has ended, unless the loop counts to a limit")
	r.rule("for Recv and Dial likewise with the socket's own context, and for the goroutine that shakes hands with an accepted connection; the transport is given such a context to dial with")
	r.assume("closing a connection ends what waits on it; a transport's Dial ends with its context; errgroup's Wait ends when its functions have; waits for mutexes are decided by C03")
	for _, s := range p.instances() {
		lim := s.st.loadPlain(s.sckCell(p.timeoutField()), structOf(p.sockStruct()).Field(p.timeoutField()).Type())
		root := s.st.loadPlain(s.sckCell(p.ctxField()), structOf(p.sockStruct()).Field(p.ctxField()).Type())
		for _, op := range []string{"Send", "SendMulti", "Recv", "Dial"} {
			w := &waits{p: p, r: r, f: s.f, root: root, key: s.name + ":" + op, what: op + " of a " + strings.TrimPrefix(s.name, "New") + " socket"}
			if strings.HasPrefix(op, "Send") {
				w.lim = lim
			}
			n := 0
			c := w.client()
			c.Return = func(st *State, res []*Term, ins ssa.Instruction) {
				n++
			}
			s.client(c)
			st := s.st.Fork()
			st.pins = append(st.pins, root, lim)
			s.run(st, "wait", op)
			r.problems(s.f, s.name+"."+op)
			if n == 0 {
				w.fail(st, "never", nil, "never returns")
			}
			if !w.bad {
				r.ok("%s: %d paths, %d waits", w.what, n, w.n)
			}
			r.count("operations", 1)
			r.count("waits", w.n)
		}
	}
	r.atLeast("operations", 48)
	r.atLeast("waits", 60)
}

func checkC04(p *Program, r *Report) {
	r.rule("likewise for the goroutines of a networking transport, whose sockets are made with its context, which Stop ends on every path")
	r.rule("for every goroutine that a socket starts (constructor, Dial, Listen, and the goroutines these start): every wait is a select with a case for the end of the socket's context, a wait for a connection or listener that Close closes or that a watcher closes when the context ends, or a wait for a condition that was checked with the context under the lock it is waited on with and that Close signals; once the context has ended no path waits again or goes round a loop again, unless the loop counts to a limit")
	r.assume("Close closes the listener and the connections of the socket (C05), which ends what waits on them; goroutines of internal/errgroup are decided by C34")
	for _, s := range p.instances() {
		root := s.st.loadPlain(s.sckCell(p.ctxField()), structOf(p.sockStruct()).Field(p.ctxField()).Type())
		conds := map[*Term]bool{}
		done := map[string]bool{}
		var kids []kid
		for _, k := range s.started {
			kids = append(kids, kid{s.st.Fork(), k.fn, k.args, k.free, k.ins})
		}
		for _, op := range []string{"Dial", "Listen"} {
			w := &waits{p: p, f: s.f, root: root, cond: conds, base: s.st}
			w.r = newReport("") // C09 decides these
			s.client(w.client())
			st := s.st.Fork()
			st.pins = append(st.pins, root)
			st.props["early"] = s.f.ts.True
			s.run(st, "start", op)
			r.problems(s.f, s.name+"."+op)
			kids = append(kids, w.kids...)
		}
		for len(kids) > 0 {
			k := kids[0]
			kids = kids[1:]
			id := p.fnName(k.fn) + "@" + p.instrPos(k.ins)
			if done[id] {
				continue
			}
			done[id] = true
			w := &waits{p: p, r: r, f: s.f, root: root, cond: conds, base: s.st, outs: true}
			w.key = s.name + ":" + p.fnName(k.fn)
			w.what = "the goroutine that runs " + p.fnName(k.fn)
			n := 0
			c := w.client()
			c.Return = func(st *State, res []*Term, ins ssa.Instruction) { n++ }
			s.client(c)
			k.st.pins = append(k.st.pins[:len(k.st.pins):len(k.st.pins)], root)
			k.st.kill("go")
			s.f.RunKey(fmt.Sprintf("go%d", len(done)), k.st, k.fn, k.args, k.free)
			r.problems(s.f, w.key)
			if n == 0 && !w.bad {
				w.fail(k.st, "never", k.ins, "never ends")
			}
			if !w.bad {
				r.ok("%s: %s: %d ends, %d waits", s.name, w.what, n, w.n)
			}
			r.count("goroutines", 1)
			r.count("waits", w.n)
			kids = append(kids, w.kids...)
		}
		p.checkWakes(r, s, conds)
		r.count("sockets", 1)
	}
	p.netGoroutines(r)
	r.atLeast("sockets", 12)
	r.atLeast("goroutines", 60)
	r.atLeast("networking goroutines", 2)
}

// netInst is a networking transport as New leaves it.
type netInst struct {
	f    *Flow
	st   *State
	recv *Term
	ctx  *Term // its context
	pkg  *types.Package
	T    *types.Named
	made []*Term // the contexts its sockets are made with
}

// netTransport analyses New of package networking.
func (p *Program) netTransport(r *Report) *netInst {
	x := &netInst{}
	for path, pk := range p.ByPath {
		if strings.HasSuffix(path, "/networking") {
			x.pkg = pk
		}
	}
	if x.pkg == nil {
		fatalf("package networking not found")
	}
	ctor := p.mustFunc(x.pkg, "New")
	x.T = named(deref(ctor.Signature.Results().At(0).Type()))
	if x.T == nil {
		fatalf("anchor not found: networking.New does not return a transport")
	}
	x.f = p.newFlow(Client{})
	ctors := map[*ssa.Function]bool{}
	for _, c := range p.socketCtors() {
		ctors[c] = true
	}
	ts := x.f.ts
	hook := func(st *State, ci *CallInfo) []Out {
		if ci.Seen || ci.Fn == nil || !ctors[ci.Fn] {
			return nil
		}
		ci.Seen = true
		x.made = append(x.made, ci.Args[0])
		v := ts.sym("socket:"+st.name(ci.Ins), ci.Fn.Signature.Results().At(0).Type())
		st.facts[ts.eq(v, ts.Nil)] = false
		return []Out{{st, v}}
	}
	x.f.c = Client{MaxDepth: 16, Call: hook, Model: hook, Return: func(st *State, res []*Term, ins ssa.Instruction) {
		n := st.Fork()
		n.top = nil
		n.trail = nil
		n.escape(res[0])
		n.pins = append(n.pins[:len(n.pins):len(n.pins)], res[0])
		if x.st == nil {
			x.st, x.recv = n, res[0]
		}
	}}
	st := x.f.newState()
	var args []*Term
	for _, pr := range ctor.Params {
		a := x.f.Param("param:"+pr.Name(), pr.Type())
		st.facts[ts.eq(a, ts.Nil)] = false
		args = append(args, a)
	}
	x.f.RunKey("new", st, ctor, args, nil)
	r.problems(x.f, "networking.New")
	if x.st == nil {
		fatalf("networking.New never returns")
	}
	u := structOf(x.T)
	for i := 0; i < u.NumFields(); i++ {
		if isNamed(u.Field(i).Type(), "context", "Context") {
			x.ctx = x.st.loadPlain(x.st.fa(types.NewPointer(x.T), x.recv, i), u.Field(i).Type())
		}
	}
	if x.ctx == nil {
		fatalf("anchor not found: the context of a networking transport")
	}
	return x
}

// method is an exported method of the transport.
func (x *netInst) method(name string) *ssa.Function {
	p := x.f.p
	sel := p.Prog.MethodSets.MethodSet(types.NewPointer(x.T)).Lookup(x.pkg, name)
	if sel == nil {
		fatalf("anchor not found: %s of a networking transport", name)
	}
	return p.Prog.MethodValue(sel)
}

// netGoroutines: the goroutines of a networking transport end with it.
func (p *Program) netGoroutines(r *Report) {
	x := p.netTransport(r)
	before := len(r.Findings)
	for _, c := range x.made {
		if !derives(c, x.ctx) {
			r.fail("net:sockets", "-", nil, "networking.New makes a socket with a context that does not end with the transport's")
		}
	}
	var kids []kid
	w := &waits{p: p, r: newReport(""), f: x.f, root: x.ctx, base: x.st, cond: map[*Term]bool{}, net: true}
	run := func(w *waits, key string, fn *ssa.Function, st *State, args, free []*Term, ret func(st *State, res []*Term, ins ssa.Instruction)) {
		c := w.client()
		c.Return = ret
		c.Inline = func(st *State, fn *ssa.Function) bool { return fnPkg(fn) == x.pkg }
		x.f.c = c
		x.f.Problem, x.f.stopped, x.f.states = nil, false, 0
		st.pins = append(st.pins[:len(st.pins):len(st.pins)], x.ctx)
		x.f.RunKey(key, st, fn, args, free)
		r.problems(x.f, p.fnName(fn))
	}
	ms := p.Prog.MethodSets.MethodSet(types.NewPointer(x.T))
	for i := 0; i < ms.Len(); i++ {
		fn := p.Prog.MethodValue(ms.At(i))
		if fn == nil || !ms.At(i).Obj().Exported() {
			continue
		}
		st := x.st.Fork()
		st.props["early"] = x.f.ts.True
		args := []*Term{x.recv}
		for _, pr := range fn.Params[1:] {
			args = append(args, x.f.Param("param:"+fn.Name()+"."+pr.Name(), pr.Type()))
		}
		run(w, "m", fn, st, args, nil, nil)
		kids = append(kids, w.kids...)
		w.kids = nil
	}
	done := map[string]bool{}
	for len(kids) > 0 {
		k := kids[0]
		kids = kids[1:]
		id := p.fnName(k.fn) + "@" + p.instrPos(k.ins)
		if done[id] {
			continue
		}
		done[id] = true
		w := &waits{p: p, r: r, f: x.f, root: x.ctx, base: x.st, cond: map[*Term]bool{}, net: true, outs: true}
		w.key = "net:" + p.fnName(k.fn)
		w.what = "the goroutine that runs " + p.fnName(k.fn)
		n := 0
		k.st.kill("go")
		run(w, fmt.Sprintf("go%d", len(done)), k.fn, k.st, k.args, k.free, func(st *State, res []*Term, ins ssa.Instruction) { n++ })
		if n == 0 && !w.bad {
			w.fail(k.st, "never", k.ins, "never ends")
		}
		if !w.bad {
			r.ok("networking: %s: %d ends, %d waits", w.what, n, w.n)
		}
		r.count("networking goroutines", 1)
		kids = append(kids, w.kids...)
	}
	// Stop ends the context
	fn := x.method("Stop")
	n := 0
	x.f.c = Client{MaxDepth: 16, Inline: func(st *State, fn *ssa.Function) bool { return fnPkg(fn) == x.pkg },
		Call: func(st *State, ci *CallInfo) []Out {
			if ci.Ext != "sync.Once.Do" {
				return nil
			}
			// the first time
			g, free := x.f.calleeOf(ci.Args[1])
			if g == nil || !x.f.hasBody(g) {
				return nil
			}
			x.f.inline(st, ci.Ins, g, nil, free, ci.Dfr, nil)
			return []Out{{St: st, Res: entered}}
		},
		Return: func(st *State, res []*Term, ins ssa.Instruction) {
			n++
			if !st.cancelled(x.ctx) {
				r.fail("net:stop", p.instrPos(ins), st.Trace(), "Stop of a networking transport may return without having ended its context")
			}
		}}
	x.f.c.Model = x.f.c.Call
	x.f.Problem, x.f.stopped, x.f.states = nil, false, 0
	x.f.RunKey("stop", x.st.Fork(), fn, []*Term{x.recv}, nil)
	r.problems(x.f, "Stop")
	if n == 0 {
		r.fail("net:stop", p.pos(fn.Pos()), nil, "Stop of a networking transport never returns")
	}
	if len(r.Findings) == before {
		r.ok("networking: Stop ends the context that %d sockets and %d goroutines heed", len(x.made), len(done))
	}
}

// checkWakes: Close wakes what waits for a condition.
func (p *Program) checkWakes(r *Report, s *sockInst, conds map[*Term]bool) {
	if len(conds) == 0 {
		return
	}
	var cs []*Term
	for c := range conds {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	ts := s.f.ts
	root := s.st.loadPlain(s.sckCell(p.ctxField()), structOf(p.sockStruct()).Field(p.ctxField()).Type())
	errT := types.Universe.Lookup("error").Type()
	bad, n := false, 0
	for _, c := range cs {
		L := ts.mk("fa", "sync.Cond.L", types.NewPointer(errT), c)
		lock := func(st *State) *Term { return throughIface(st.loadPlain(L, errT)) }
		s.client(Client{MaxDepth: 24, RunGroups: true,
			Event: func(st *State, ev *Event) {
				switch ev.Kind {
				case "lock":
					if throughIface(ev.Args[0]) == lock(st) {
						st.props["held"] = ts.True
						if st.props["cancelled"] != nil {
							st.props["seen"] = ts.True
						}
					}
				case "unlock":
					if throughIface(ev.Args[0]) == lock(st) {
						delete(st.props, "held")
					}
				case "cancel":
					if derives(root, ev.Args[0]) || ev.Args[0] == root {
						st.props["cancelled"] = ts.True
						if st.props["held"] != nil {
							st.props["seen"] = ts.True
						}
					}
				case "signal":
					if ev.Args[0] == c && st.props["seen"] != nil {
						st.props["woken"] = ts.True
					}
				}
			},
			Return: func(st *State, res []*Term, ins ssa.Instruction) {
				n++
				if st.props["cancelled"] != nil && st.props["woken"] == nil {
					bad = true
					r.fail("wake:"+s.name, p.instrPos(ins), st.Trace(), "Close of a %s socket may leave a goroutine waiting for %v: it does not signal it, or signals before a waiter that has checked the context is sure to wait", strings.TrimPrefix(s.name, "New"), c)
				}
			}})
		st := s.st.Fork()
		st.pins = append(st.pins, root, c)
		s.run(st, "close", "Close")
		r.problems(s.f, s.name+".Close")
	}
	if !bad {
		r.ok("%s: Close wakes what waits for %d conditions (%d paths)", s.name, len(cs), n)
	}
}
