package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C13", checkC13)
}

// connField is the name under which the engine knows a field of Conn.
func (p *Program) connField(i int) string {
	k := p.fieldKey(types.NewPointer(p.mustType("Conn")), i)
	return k.Owner + "." + k.Field
}

func (p *Program) wireField() int {
	return p.structField(p.mustType("Conn"), "the transport connection", func(v *types.Var) bool { return isNamed(v.Type(), "net", "Conn") })
}

// usesField: the functions that take the address of the field of a Conn.
func (p *Program) usesConnField(i int) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	T := p.mustType("Conn")
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch v := ins.(type) {
				case *ssa.FieldAddr:
					if named(deref(v.X.Type())) == T && v.Field == i {
						out[fn] = true
					}
				case *ssa.Field:
					if named(v.X.Type()) == T && v.Field == i {
						out[fn] = true
					}
				}
			}
		}
	}
	return out
}

// setOnce: the field of a Conn is only stored in a Conn just made.
func (p *Program) setOnce(i int) bool {
	T := p.mustType("Conn")
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				v, ok := ins.(*ssa.FieldAddr)
				if !ok || named(deref(v.X.Type())) != T || v.Field != i {
					continue
				}
				for _, u := range *v.Referrers() {
					switch u := u.(type) {
					case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr:
					case *ssa.Store:
						if _, ok := v.X.(*ssa.Alloc); !ok || u.Addr != ssa.Value(v) {
							return false
						}
					default:
						if _, ok := v.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Pointer); ok {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

// wireOps are the operations that may write to the transport connection of an
// established Conn: its exported methods, and whatever else gets at it without
// going through these or through Open.
func (p *Program) wireOps(uses map[*ssa.Function]bool) (ops []*ssa.Function, messages map[*ssa.Function]bool) {
	T := p.mustType("Conn")
	cut := map[*ssa.Function]bool{p.openFn(): true}
	messages = map[*ssa.Function]bool{}
	ms := p.Prog.MethodSets.MethodSet(types.NewPointer(T))
	for i := 0; i < ms.Len(); i++ {
		fn := p.Prog.MethodValue(ms.At(i))
		if fn == nil || !ms.At(i).Obj().Exported() || len(fn.Blocks) == 0 {
			continue
		}
		cut[fn] = true
		ops = append(ops, fn)
	}
	for _, n := range []string{"SendMsg", "SendCmd"} {
		m := p.connMethod(n)
		if m == nil {
			fatalf("anchor not found: %s of Conn", n)
		}
		messages[m] = true
	}
	// who reaches the wire otherwise
	memo := map[*ssa.Function]int{}
	var direct func(fn *ssa.Function) bool
	direct = func(fn *ssa.Function) bool {
		if memo[fn] != 0 {
			return memo[fn] == 1
		}
		memo[fn] = 2
		r := uses[fn]
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && !cut[g] && direct(g) {
						r = true
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			if direct(a) {
				r = true
			}
		}
		if r {
			memo[fn] = 1
		}
		return r
	}
	// what Open calls belongs to the handshake, unless something else calls it too
	called := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		if !direct(fn) && !cut[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					if _, ok := ins.(*ssa.Go); !ok {
						called[c.Common().StaticCallee()] = true
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			called[a] = true
		}
	}
	seen := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		if direct(fn) && !cut[fn] && !called[fn] {
			seen[fn] = true
			ops = append(ops, fn)
		}
	}
	for _, fn := range append(p.goTargets(), p.lateFuncs()...) {
		if direct(fn) && !cut[fn] && !seen[fn] {
			seen[fn] = true
			ops = append(ops, fn)
		}
	}
	sort.Slice(ops, func(i, j int) bool { return ops[i].String() < ops[j].String() })
	return ops, messages
}

// lateFuncs are the function literals that timers and contexts run.
func (p *Program) lateFuncs() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil || g.Name() != "AfterFunc" || len(g.Blocks) > 0 && g.Pkg != nil && g.Pkg.Pkg.Path() != "time" && g.Pkg.Pkg.Path() != "context" {
					continue
				}
				for _, a := range c.Common().Args {
					switch a := a.(type) {
					case *ssa.MakeClosure:
						out = append(out, a.Fn.(*ssa.Function))
					case *ssa.Function:
						out = append(out, a)
					}
				}
			}
		}
	}
	return out
}

var wireQuiet = map[string]bool{"Close": true, "LocalAddr": true, "RemoteAddr": true, "SetDeadline": true, "SetReadDeadline": true, "SetWriteDeadline": true, "Read": true,
	"ReadFull": true, "ReadAtLeast": true, "ReadAll": true, "NewReader": true, "LimitReader": true}

// holdRun: which locks protect the bytes of one message.
type holdRun struct {
	p      *Program
	r      *Report
	f      *Flow
	what   string
	common map[string]bool // locks that every operation so far held throughout; nil: no operation yet
	wrote  bool
	bad    bool
	sites  map[string]bool
	whole  map[string]bool // of this operation
	any    bool
	kids   []kid
}

const holdSep = "\x00"

// root is the object at the start of a chain of fields.
func lockRoot(a *Term) (*Term, string) {
	k := ""
	for a.op == "fa" || a.op == "fixed" {
		k = "." + a.aux[strings.LastIndex(a.aux, ".")+1:] + k
		a = a.args[0]
	}
	return a, k
}

func (h *holdRun) set(st *State, name string, m map[string]bool) {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	st.props[name] = h.f.ts.str(strings.Join(ks, holdSep))
}

func (h *holdRun) get(st *State, name string) map[string]bool {
	out := map[string]bool{}
	if v := st.props[name]; v != nil {
		s, _ := v.strVal()
		for _, k := range strings.Split(s, holdSep) {
			if k != "" {
				out[k] = true
			}
		}
	}
	return out
}

func lockKey(conn, a *Term) (string, bool) {
	b, k := lockRoot(throughIface(a))
	if b == conn {
		return "the connection's" + k, true
	}
	if b.op == "global" {
		return b.aux + k, true
	}
	return "", false
}

// wireOf: v is the transport connection of this Conn.
func wireOf(v *Term) *Term {
	v = throughIface(v)
	if v != nil && v.op == "wire" {
		return v.args[0]
	}
	return nil
}

func (h *holdRun) write(st *State, conn *Term, ins ssa.Instruction) {
	h.wrote = true
	h.sites[h.p.instrPos(ins)] = true
	held := map[string]bool{}
	if v := st.props["held"]; v != nil {
		for _, t := range v.args {
			if k, ok := lockKey(conn, t); ok {
				held[k] = true
			}
		}
	}
	cand := held
	name := fmt.Sprintf("cand:%d", conn.id)
	if st.props[name] != nil {
		old := h.get(st, name)
		cand = map[string]bool{}
		for k := range held {
			if old[k] {
				cand[k] = true
			}
		}
	}
	if len(cand) == 0 {
		h.bad = true
		if len(held) == 0 {
			h.r.fail("unlocked:"+h.what, h.p.instrPos(ins), st.Trace(), "%s writes to the connection without a lock that keeps other writers out", h.what)
		} else {
			h.r.fail("split:"+h.what, h.p.instrPos(ins), st.Trace(), "%s releases the lock between two writes of the same message or command", h.what)
		}
		return
	}
	h.set(st, name, cand)
	// what every operation has in common
	if !h.any {
		h.any = true
		h.whole = map[string]bool{}
		for k := range cand {
			h.whole[k] = true
		}
	}
	for k := range h.whole {
		if !cand[k] {
			delete(h.whole, k)
		}
	}
}

func (h *holdRun) event(st *State, ev *Event) {
	ts := h.f.ts
	switch ev.Kind {
	case "go", "grpgo", "afterfunc":
		fn, args, free := ev.Fn, []*Term(nil), []*Term(nil)
		v := ev.Args[0]
		if ev.Kind == "go" {
			args = ev.Args[1:]
		} else {
			v = ev.Args[1]
			fn = nil
		}
		if v.op == "clos" || fn == nil {
			fn, free = h.f.calleeOf(v)
		}
		if fn == nil || !h.f.hasBody(fn) {
			return
		}
		n := st.Fork()
		for k := range n.props {
			if k == "held" || strings.HasPrefix(k, "cand:") {
				delete(n.props, k)
			}
		}
		n.escape(v)
		for _, a := range args {
			n.escape(a)
		}
		n.pins = append(append(append(n.pins[:len(n.pins):len(n.pins)], v), args...), free...)
		h.kids = append(h.kids, kid{n, fn, args, free, ev.Ins})
	case "lock":
		if c, ok := ev.Ins.(ssa.CallInstruction); ok {
			if fn := c.Common().StaticCallee(); fn != nil && fn.Name() == "RLock" {
				return
			}
		}
		a := throughIface(ev.Args[0])
		var ls []*Term
		if v := st.props["held"]; v != nil {
			ls = v.args
		}
		for _, o := range ls {
			if o == a {
				return
			}
		}
		ls = append(ls[:len(ls):len(ls)], a)
		sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
		st.props["held"] = ts.mk("seq", "held", nil, ls...)
	case "unlock":
		a := throughIface(ev.Args[0])
		if v := st.props["held"]; v != nil {
			var ls []*Term
			for _, o := range v.args {
				if o != a {
					ls = append(ls, o)
				}
			}
			st.props["held"] = ts.mk("seq", "held", nil, ls...)
		}
		for name := range st.props {
			if !strings.HasPrefix(name, "cand:") {
				continue
			}
			b, k := lockRoot(a)
			key := b.aux + k
			if b.op != "global" {
				if name != fmt.Sprintf("cand:%d", b.id) {
					continue
				}
				key = "the connection's" + k
			}
			c := h.get(st, name)
			delete(c, key)
			h.set(st, name, c)
		}
	}
}

func checkC13(p *Program, r *Report) {
	r.rule("typestate of the writer lock: on every path of every operation that reaches the transport connection of an established Conn, for any message, security mechanism and socket type, each call that may write to it happens under a lock of that Conn (or a global one), and this lock is held without interruption from the first write of the message or command to the last")
	r.rule("one lock is common to all operations; a call of SendMsg or SendCmd by another operation is an operation of its own; goroutines that write are operations")
	r.assume("what Open writes is written before anybody else knows the Conn; io and net functions that are given the transport connection write to it unless they are known to read")
	wi := p.wireField()
	wire := p.connField(wi)
	T := p.mustType("Conn")
	fixed := map[string]bool{}
	u := T.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if _, ok := u.Field(i).Type().Underlying().(*types.Pointer); ok && p.setOnce(i) {
			fixed[p.connField(i)] = true
		}
	}
	if !p.setOnce(wi) {
		r.fail("wire-replaced", "-", nil, "the transport connection of a Conn is replaced after it was made")
	}
	ops, messages := p.wireOps(p.usesConnField(wi))
	h := &holdRun{p: p, r: r, sites: map[string]bool{}}
	first := ""
	for _, fn := range ops {
		f := p.newFlow(Client{})
		ts := f.ts
		h.f, h.what = f, fn.Name()
		if fn.Parent() != nil {
			h.what = fn.Parent().Name() + "$" + fn.Name()
		}
		h.wrote, h.bad, h.any = false, false, false
		hook := func(st *State, ci *CallInfo) []Out {
			if ci.Seen {
				return nil
			}
			ci.Seen = true
			if ci.Fn != nil && ci.Fn != fn && (messages[ci.Fn] || ci.Fn == p.openFn()) && !messages[fn] {
				nm := st.name(ci.Ins)
				st.kill("sent:" + nm)
				var res *Term
				if rt := ci.Ins.Common().Signature().Results(); rt.Len() == 1 {
					res = st.unknown(nm, rt.At(0).Type())
				} else if rt.Len() > 1 {
					res = st.unknown(nm, rt)
				}
				return []Out{{st, res}}
			}
			if ci.Fn != nil && f.hasBody(ci.Fn) {
				return nil
			}
			name := ci.Ext[strings.LastIndex(ci.Ext, ".")+1:]
			if ci.Meth != nil {
				name = ci.Meth.Name()
			}
			if name == "NewWriter" && len(ci.Args) == 1 && wireOf(ci.Args[0]) != nil {
				return []Out{{st, throughIface(ci.Args[0])}}
			}
			for i, a := range ci.Args {
				conn := wireOf(a)
				if conn == nil {
					continue
				}
				if wireQuiet[name] || (name == "CopyN" || name == "Copy") && i == 1 {
					continue
				}
				h.write(st, conn, ci.Ins)
			}
			return nil
		}
		f.c = Client{Call: hook, Model: hook, Event: h.event, MaxDepth: 24,
			Load: func(st *State, addr *Term, t types.Type) *Term {
				if addr.op == "fa" && addr.aux == wire && addr.args[0].op != "alloc" {
					return ts.mk("wire", "", t, addr.args[0])
				}
				if addr.op == "fa" && fixed[addr.aux] && addr.args[0].op != "alloc" {
					return ts.mk("fixed", addr.aux, t, addr.args[0])
				}
				return nil
			}}
		rets := 0
		f.c.Return = func(st *State, res []*Term, ins ssa.Instruction) { rets++ }
		st := p.initState(f, p.Root, true).Fork()
		args, free := f.params(st, fn)
		f.RunKey("whole", st, fn, args, free)
		r.problems(f, h.what)
		done := map[ssa.Instruction]int{}
		for len(h.kids) > 0 {
			k := h.kids[0]
			h.kids = h.kids[1:]
			if done[k.ins]++; done[k.ins] > 40 {
				continue
			}
			k.st.kill("go")
			f.Problem, f.stopped, f.states = nil, false, 0
			f.RunKey(fmt.Sprintf("go%d.%d", len(done), done[k.ins]), k.st, k.fn, k.args, k.free)
			r.problems(f, h.what)
		}
		r.count("operations", 1)
		r.count("paths", rets)
		if messages[fn] && (!h.wrote || rets == 0) {
			r.fail("nothing:"+h.what, p.pos(fn.Pos()), nil, "%s never writes anything", h.what)
		}
		if h.wrote && !h.bad {
			r.ok("%s: all of its writes happen while %s is held", h.what, strings.Join(keysOf(h.whole), ", "))
			if h.common == nil {
				h.common = h.whole
				first = h.what
			} else {
				n := map[string]bool{}
				for k := range h.common {
					if h.whole[k] {
						n[k] = true
					}
				}
				if len(n) == 0 {
					r.fail("lock:"+h.what, p.pos(fn.Pos()), nil, "%s writes under %s, other operations, such as %s, under %s", h.what, strings.Join(keysOf(h.whole), ", "), first, strings.Join(keysOf(h.common), ", "))
				} else {
					h.common = n
				}
			}
		}
	}
	r.count("write sites", len(h.sites))
	r.atLeast("write sites", 2)
	r.atLeast("operations", 8)
}

func keysOf(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
