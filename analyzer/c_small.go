package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C27", checkC27)
}

// crash says how an operation may panic in this state; "" if it cannot.
func (p *Program) crash(st *State, ev *Event) string {
	ts := st.ts()
	ge0 := func(t *Term) bool { return st.Prove(t) }
	switch ev.Kind {
	case "index":
		i, n := ev.Args[1], ev.Args[2]
		if !ge0(i) {
			return fmt.Sprintf("index %v may be negative", i)
		}
		if !ge0(ts.linComb(n, 1, i, -1, -1)) {
			return fmt.Sprintf("index %v may not be below the length %v", i, n)
		}
	case "slice":
		lo, hi, n := ev.Args[1], ev.Args[2], ev.Args[3]
		if !ge0(lo) {
			return fmt.Sprintf("slice bound %v may be negative", lo)
		}
		if !ge0(ts.sub(hi, lo)) {
			return fmt.Sprintf("slice bounds %v and %v may be out of order", lo, hi)
		}
		if given, _ := ev.Args[4].boolVal(); given && !ge0(ts.sub(n, hi)) {
			return fmt.Sprintf("slice bound %v may be beyond the length %v", hi, n)
		}
	case "need":
		if !ge0(ts.sub(st.lenOf(ev.Args[0]), ev.Args[1])) {
			return fmt.Sprintf("%v bytes are decoded from %v, which may be shorter", ev.Args[1], ev.Args[0])
		}
	case "div":
		if v, k := st.Eval(ts.eq(ev.Args[1], ts.Zero)); !k || v {
			return "division by what may be zero"
		}
	case "assert":
		if v, k := st.Eval(ev.Args[1]); !k || !v {
			return fmt.Sprintf("type assertion on %v may fail", ev.Args[0])
		}
	case "makeslice":
		for _, n := range ev.Args[:2] {
			if !ge0(n) {
				return fmt.Sprintf("allocation of %v elements may be negative", n)
			}
		}
	case "makechan":
		if !ge0(ev.Args[1]) {
			return "channel capacity may be negative"
		}
	case "mapupdate":
		if st.IsNil(ev.Args[0]) {
			return "write to a nil map"
		}
	case "nilderef":
		return "nil pointer is dereferenced"
	case "panic":
		return "panics"
	case "close":
		if st.IsNil(ev.Args[0]) {
			return "close of a nil channel"
		}
	}
	return ""
}

// readOnly: what v refers to is only ever read through v.
func readOnly(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef, *ssa.BinOp, *ssa.If, *ssa.Next:
			if n, ok := r.(*ssa.Next); ok && !readOnly(n, seen) {
				return false
			}
		case *ssa.Lookup, *ssa.Extract, *ssa.Range, *ssa.Phi, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Slice, *ssa.Field, *ssa.Index:
			w := r.(ssa.Value)
			if _, ok := w.Type().Underlying().(*types.Basic); ok {
				continue
			}
			if !readOnly(w, seen) {
				return false
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if _, ok := x.Type().Underlying().(*types.Basic); ok {
					continue
				}
				if !readOnly(x, seen) {
					return false
				}
			}
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" && b.Name() != "cap" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// constantGlobals are the globals whose contents never change after initialization.
func (p *Program) constantGlobals() map[string]bool {
	out := map[string]bool{}
	bad := map[string]bool{}
	for _, fn := range p.Funcs {
		if fn.Synthetic == "package initializer" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					n := p.globalName(g)
					u, ok := ins.(*ssa.UnOp)
					if ok && u.Op == token.MUL {
						if at, ok := u.Type().Underlying().(*types.Array); ok {
							if _, ok := at.Elem().Underlying().(*types.Basic); ok {
								continue // a copy
							}
						}
						if !readOnly(u, map[ssa.Value]bool{}) {
							bad[n] = true
						}
						continue
					}
					if v, ok := ins.(ssa.Value); ok {
						switch ins.(type) {
						case *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Slice:
							if readOnly(v, map[ssa.Value]bool{}) {
								continue
							}
						}
					}
					bad[n] = true
				}
			}
		}
	}
	for n := range p.globalsInfo() {
		if p.moduleGlobal(n) && !bad[n] {
			out[n] = true
		}
	}
	return out
}

// initState analyses the package initializer and yields memory as it leaves
// it. With onlyConst it keeps just what no function changes later.
func (p *Program) initState(f *Flow, pkg *types.Package, onlyConst bool) *State {
	var got []*State
	old := f.c
	defer func() { f.c = old }()
	f.c = Client{NoKill: true, Unroll: 64, MaxDepth: 24,
		Call: func(st *State, ci *CallInfo) []Out {
			if ci.Fn != nil && ci.Fn.Synthetic == "package initializer" && (ci.Fn.Pkg == nil || ci.Fn.Pkg.Pkg != pkg) {
				return []Out{{St: st}}
			}
			return nil
		},
		Load: func(st *State, addr *Term, t types.Type) *Term {
			if addr.op == "global" && len(addr.aux) > 6 && addr.aux[len(addr.aux)-6:] == "$guard" {
				return f.ts.Fals
			}
			return nil
		},
		Return: func(st *State, res []*Term, ins ssa.Instruction) {
			n := st.Fork()
			n.top = nil
			n.trail = nil
			got = append(got, n)
		}}
	initFn := p.Prog.Package(pkg).Func("init")
	st := f.newState()
	f.RunKey("init", st, initFn, nil, nil)
	if len(got) == 0 {
		fatalf("the initializer of %s never returns", pkg.Path())
	}
	s := got[0]
	if onlyConst {
		keep := p.constantGlobals()
		for a := range s.heap {
			if b := base(a); b.op == "global" && !keep[b.aux] {
				delete(s.heap, a)
			}
		}
	}
	return s
}

var zmtpTypes = []string{"PAIR", "PUB", "SUB", "REQ", "REP", "DEALER", "ROUTER", "PULL", "PUSH", "XPUB", "XSUB", "STREAM"}
var zmtpCompat = map[string][]string{
	"PAIR": {"PAIR"}, "PUB": {"SUB", "XSUB"}, "SUB": {"PUB", "XPUB"}, "REQ": {"REP", "ROUTER"},
	"REP": {"REQ", "DEALER"}, "DEALER": {"REP", "DEALER", "ROUTER"}, "ROUTER": {"REQ", "DEALER", "ROUTER"},
	"PULL": {"PUSH"}, "PUSH": {"PULL"}, "XPUB": {"SUB", "XSUB"}, "XSUB": {"PUB", "XPUB"}, "STREAM": {"STREAM"},
}

func checkC27(p *Program, r *Report) {
	r.rule("constant propagation of every pair of the twelve socket types, and of values different from all of them, through IsCompatible: every path returns the entry of the ZMTP table (false with a value that is no socket type) and none can panic")
	f := p.newFlow(Client{})
	base := p.initState(f, p.Root, true)
	T := p.mustType("SocketType")
	fn := p.mustMethod(T, "IsCompatible")
	tests := append(append([]string{}, zmtpTypes...), "?a", "?b")
	for _, a := range tests {
		for _, b := range tests {
			want := false
			for _, x := range zmtpCompat[a] {
				if x == b {
					want = true
				}
			}
			st := base.Fork()
			arg := func(n string) *Term {
				if n[0] != '?' {
					return f.ts.constant(constant.MakeString(n), T)
				}
				v := f.ts.sym("type:"+n, T)
				for _, k := range zmtpTypes {
					st.facts[f.ts.eq(v, f.ts.constant(constant.MakeString(k), T))] = false
				}
				return v
			}
			x, y := arg(a), arg(b)
			n, bad := 0, false
			f.c = Client{NoKill: true, Unroll: 40, MaxDepth: 24,
				Event: func(st *State, ev *Event) {
					if m := p.crash(st, ev); m != "" {
						bad = true
						r.fail("panic:"+a+":"+b, p.instrPos(ev.Ins), st.Trace(), "IsCompatible(%s, %s): %s", a, b, m)
					}
				},
				Return: func(st *State, res []*Term, ins ssa.Instruction) {
					n++
					if v, k := st.Eval(res[0]); !k || v != want {
						bad = true
						r.fail("pair:"+a+":"+b, p.instrPos(ins), st.Trace(), "IsCompatible(%s, %s) returns %v, the ZMTP table says %v", a, b, res[0], want)
					}
				}}
			f.states, f.Problem, f.stopped = 0, nil, false
			f.RunKey("c", st, fn, []*Term{x, y}, nil)
			r.problems(f, "IsCompatible")
			if n == 0 && !bad {
				r.fail("pair:"+a+":"+b, p.pos(fn.Pos()), nil, "IsCompatible(%s, %s) does not return", a, b)
			} else if !bad {
				r.ok("IsCompatible(%s, %s) = %v", a, b, want)
			}
			r.count("pairs", 1)
			r.count("paths", n)
		}
	}
	r.atLeast("pairs", 196)
}

func init() {
	register("C28", checkC28)
	register("C31", checkC31)
	register("C33", checkC33)
	register("C34", checkC34)
	register("C35", checkC35)
}

func (p *Program) constStr(name string) string {
	c, ok := p.Root.Scope().Lookup(name).(*types.Const)
	if !ok {
		fatalf("anchor not found: constant %s", name)
	}
	return constant.StringVal(c.Val())
}

// effect names what an event changes that others can see.
func effect(st *State, ev *Event) string {
	switch ev.Kind {
	case "mapupdate", "delete":
		if ev.Args[0].op == "mkmap" && !st.esc[ev.Args[0]] {
			return ""
		}
		return "changes a map"
	case "send":
		return "sends on a channel"
	case "selected":
		if ev.Case >= 0 && ev.Sel.States[ev.Case].Dir == types.SendOnly {
			return "sends on a channel"
		}
	case "write":
		return "writes to a connection"
	case "go":
		return "starts a goroutine"
	case "atomic:Store", "atomic:Add", "atomic:Swap", "atomic:CompareAndSwap", "atomic:And", "atomic:Or":
		return "changes an atomic"
	}
	return ""
}

func checkC28(p *Program, r *Report) {
	r.rule("for PUB and SUB sockets as constructed, every path through SetOption with an unknown name, a nil value, a value of another type or a negative high-water mark returns a non-nil error without writing memory others can see, changing a map, sending or panicking; with a valid name and value some path returns nil and every path that does has made a change")
	type opt struct {
		name string
		typ  types.Type
		neg  bool
	}
	socks := []struct {
		ctor string
		opts []opt
	}{
		{"NewPub", []opt{{p.constStr("OptionHWM"), types.Typ[types.Int], true}}},
		{"NewSub", []opt{{p.constStr("OptionSubscribe"), types.Typ[types.String], false}, {p.constStr("OptionUnsubscribe"), types.Typ[types.String], false}}},
	}
	for _, sk := range socks {
		for _, s := range p.instancesOf(p.mustFunc(p.Root, sk.ctor), false) {
			ts := s.f.ts
			fn := s.method("SetOption")
			anyT := fn.Params[2].Type()
			type kase struct {
				what  string
				setup func(st *State) (name, val *Term)
				valid bool
			}
			var ks []kase
			unknownVal := func(st *State) *Term { return s.f.Param("param:value", anyT) }
			ks = append(ks, kase{"an unknown name", func(st *State) (*Term, *Term) {
				n := ts.sym("param:name", types.Typ[types.String])
				for _, o := range sk.opts {
					st.facts[ts.eq(n, ts.str(o.name))] = false
				}
				return n, unknownVal(st)
			}, false})
			for _, o := range sk.opts {
				o := o
				ks = append(ks, kase{o.name + " and nil", func(st *State) (*Term, *Term) { return ts.str(o.name), ts.Nil }, false})
				ks = append(ks, kase{o.name + " and a value of another type", func(st *State) (*Term, *Term) {
					v := unknownVal(st)
					st.facts[ts.mk("is", types.TypeString(o.typ, nil), types.Typ[types.Bool], v)] = false
					st.facts[ts.eq(v, ts.Nil)] = false
					return ts.str(o.name), v
				}, false})
				val := ts.sym("param:v", o.typ)
				if o.neg {
					ks = append(ks, kase{o.name + " and a negative value", func(st *State) (*Term, *Term) {
						st.facts[ts.ge(ts.linComb(val, -1, nil, 0, -1))] = true
						return ts.str(o.name), st.iface(o.typ, val, anyT)
					}, false})
				}
				ks = append(ks, kase{o.name + " and a valid value", func(st *State) (*Term, *Term) {
					if o.neg {
						st.facts[ts.ge(val)] = true
					}
					return ts.str(o.name), st.iface(o.typ, val, anyT)
				}, true})
			}
			for _, k := range ks {
				st := s.st.Fork()
				name, val := k.setup(st)
				n, nils, bad := 0, 0, false
				fail := func(st *State, key, where, msg string) {
					bad = true
					r.fail(key+":"+sk.ctor+":"+k.what, where, st.Trace(), "SetOption of a %s socket with %s: %s", sk.ctor[3:], k.what, msg)
				}
				s.client(Client{
					Store: func(st *State, addr, v *Term, ins ssa.Instruction) {
						if !st.owned(addr) {
							if !k.valid {
								fail(st, "store", p.instrPos(ins), "changes "+addr.String())
							}
							st.props["effect"] = ts.True
						}
					},
					Event: func(st *State, ev *Event) {
						if m := p.crash(st, ev); m != "" {
							fail(st, "panic", p.instrPos(ev.Ins), m)
						}
						if m := effect(st, ev); m != "" {
							if !k.valid {
								fail(st, "effect", p.instrPos(ev.Ins), m)
							}
							st.props["effect"] = ts.True
						}
					},
					Return: func(st *State, res []*Term, ins ssa.Instruction) {
						n++
						may := st.mayBeNil(res[0])
						if !k.valid && may {
							fail(st, "nil", p.instrPos(ins), "may return no error")
						}
						if k.valid && may {
							nils++
							if st.props["effect"] == nil {
								fail(st, "noeffect", p.instrPos(ins), "may return no error without having changed anything")
							}
						}
					}})
				s.run(st, "opt", "SetOption", name, val)
				r.problems(s.f, sk.ctor+".SetOption")
				if n == 0 && !bad || k.valid && nils == 0 {
					fail(st, "never", p.pos(fn.Pos()), "has no path that succeeds")
				}
				if !bad {
					r.ok("SetOption of %s with %s: %d paths", sk.ctor[3:], k.what, n)
				}
				r.count("cases", 1)
				r.count("paths", n)
			}
		}
	}
	r.atLeast("cases", 11)
}

// goroutine names the goroutine under analysis when goroutines are analysed in place.
func (s *State) goroutine() string {
	for fr := s.top; fr != nil; fr = fr.caller {
		if fr.isGo {
			return fr.key
		}
	}
	return ""
}

func checkC31(p *Program, r *Report) {
	r.rule("typestate of each forwarding goroutine of Proxy: a message returned by Recv without error is the argument of the next Send, on the other socket, before the next Recv; a goroutine ends only after an error of Recv or Send, makes no further call after one, and hands that very error to the channel whose first value Proxy returns; the channel never blocks a direction that stops")
	fn := p.mustFunc(p.Root, "Proxy")
	f := p.newFlow(Client{})
	ts := f.ts
	st := f.newState()
	var args []*Term
	for i, pr := range fn.Params {
		a := f.Param("param:"+pr.Name(), pr.Type())
		_ = i
		st.facts[ts.eq(a, ts.Nil)] = false
		args = append(args, a)
	}
	st.facts[ts.eq(args[0], args[1])] = false
	name := func(t *Term) string {
		switch t {
		case args[0]:
			return "frontend"
		case args[1]:
			return "backend"
		}
		return ""
	}
	dirs := map[string]bool{}
	n, sent := 0, 0
	where := func(ci *CallInfo) string { return p.instrPos(ci.Ins) }
	f.c = Client{MaxDepth: 16, RunGo: true, NoKill: true, Unroll: 8,
		Call: func(st *State, ci *CallInfo) []Out {
			if ci.Meth == nil {
				return nil
			}
			g := st.goroutine()
			src := name(ci.Args[0])
			if src == "" {
				return nil
			}
			pend, failed := "pending:"+g, "failed:"+g
			switch ci.Meth.Name() {
			case "Recv":
				if st.props[failed] != nil {
					r.fail("after:"+src, where(ci), st.Trace(), "a direction goes on after an error: Recv on %s", src)
				}
				if st.props[pend] != nil {
					r.fail("dropped:"+src, where(ci), st.Trace(), "a message received is not forwarded before the next one is received from %s", src)
				}
				sig := ci.Meth.Type().(*types.Signature)
				mt := sig.Results().At(0).Type()
				et := sig.Results().At(1).Type()
				tup := func(a, b *Term) *Term { return ts.mk("agg", "tuple", sig.Results(), a, b) }
				bad := st.Fork()
				e := ts.sym("recverr:"+src+st.name(ci.Ins), et)
				bad.facts[ts.eq(e, ts.Nil)] = false
				bad.props[failed] = e
				m := ts.sym("msg:"+src+st.name(ci.Ins), mt)
				st.props[pend] = ts.mk("pair", src, nil, m)
				return []Out{{bad, tup(ts.sym("nomsg:"+src, mt), e)}, {st, tup(m, ts.Nil)}}
			case "Send", "SendMulti":
				et := ci.Meth.Type().(*types.Signature).Results().At(0).Type()
				sent++
				if st.props[failed] != nil {
					r.fail("after:"+src, where(ci), st.Trace(), "a direction goes on after an error: Send on %s", src)
				}
				pd := st.props[pend]
				if pd == nil {
					r.fail("invented:"+src, where(ci), st.Trace(), "a message that was not just received is sent on %s", src)
				} else {
					if pd.aux == src {
						r.fail("back:"+src, where(ci), st.Trace(), "a message received from %s is sent back on %s", src, src)
					}
					dirs[pd.aux] = true
					if !sameMsg(st, ci.Args[1], pd.args[0]) {
						r.fail("changed:"+src, where(ci), st.Trace(), "the message sent on %s is %v, not the one received", src, ci.Args[1])
					}
					if ci.Meth.Name() != "Send" {
						r.fail("multi:"+src, where(ci), st.Trace(), "a message is forwarded with %s", ci.Meth.Name())
					}
				}
				bad := st.Fork()
				e := ts.sym("senderr:"+src+st.name(ci.Ins), et)
				bad.facts[ts.eq(e, ts.Nil)] = false
				bad.props[failed] = e
				delete(bad.props, pend)
				delete(st.props, pend)
				return []Out{{bad, e}, {st, ts.Nil}}
			}
			return nil
		},
		Event: func(st *State, ev *Event) {
			g := st.goroutine()
			switch ev.Kind {
			case "go":
				r.count("goroutines", 1)
			case "send":
				if g == "" {
					return
				}
				if !st.roomFor(ev.Args[0]) {
					r.fail("blocks", p.instrPos(ev.Ins), st.Trace(), "a direction that stops may wait for ever to report its error")
				}
			}
			if m := p.crash(st, ev); m != "" && ev.Kind != "nilderef" {
				r.fail("panic", p.instrPos(ev.Ins), st.Trace(), "Proxy: %s", m)
			}
		},
		Return: func(st *State, res []*Term, ins ssa.Instruction) {
			n++
			ok := false
			for k, v := range st.props {
				if len(k) > 7 && k[:7] == "failed:" && v == res[0] {
					ok = true
				}
			}
			if !ok {
				r.fail("result", p.instrPos(ins), st.Trace(), "Proxy returns %v, which is not the error that stopped a direction", res[0])
			}
		}}
	f.RunKey("proxy", st, fn, args, nil)
	r.problems(f, "Proxy")
	r.check(dirs["frontend"], "dir:frontend", p.pos(fn.Pos()), "messages from the frontend are forwarded to the backend")
	r.check(dirs["backend"], "dir:backend", p.pos(fn.Pos()), "messages from the backend are forwarded to the frontend")
	r.check(n > 0, "returns", p.pos(fn.Pos()), "Proxy returns once a direction failed (%d paths)", n)
	r.count("forwarding calls", sent)
	r.count("paths", n)
	r.atLeast("goroutines", 2)
}

// sameMsg: a is the message b, whole.
func sameMsg(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	ts := st.ts()
	if v, k := st.Eval(ts.eq(a, b)); k && v {
		return true
	}
	if a.op == "agg" {
		if bt, ok := b.typ.Underlying().(*types.Struct); ok && bt.NumFields() == len(a.args) {
			for i := range a.args {
				if a.args[i] != st.field(b, b.typ, i) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// roomFor: a send on ch cannot block, as its buffer has room for one value per sender.
func (s *State) roomFor(ch *Term) bool {
	if ch.op != "mkchan" || len(ch.args) == 0 {
		return false
	}
	n := 0
	if q := s.chq(ch); q != nil {
		n = len(q.args)
	}
	c, ok := ch.args[0].intVal()
	return ok && c >= int64(n)+1
}

func checkC33(p *Program, r *Report) {
	r.rule("registration: on every path of RegisterTransport the table is written only if the name was looked up absent since the lock was last taken, with that name and transport, and nil is returned exactly then; no other code changes the table")
	r.rule("resolution: whenever Listen or Dial of a socket calls a transport, that transport is the table's entry for what precedes the only scheme separator of the endpoint, and the address is what that transport's Addr returned without error for what follows it; Listen and Dial return nil only after such a call succeeded")
	r.rule("defaults: after package initialization the table maps tcp, udp, ipc and inproc to transports whose Dial and Listen use network tcp, udp, unix and the inproc package")
	r.assume("a scheme separator is the substring \"://\"")
	reg := p.mustFunc(p.Root, "RegisterTransport")
	// registration
	f := p.newFlow(Client{})
	ts := f.ts
	name := f.Param("param:name", reg.Params[0].Type())
	tr := f.Param("param:trans", reg.Params[1].Type())
	n, adds := 0, 0
	var tables []*Term
	f.c = Client{MaxDepth: 16,
		Event: func(st *State, ev *Event) {
			switch ev.Kind {
			case "mapupdate":
				adds++
				m, k, v := ev.Args[0], ev.Args[1], ev.Args[2]
				tables = append(tables, m)
				_, ok := st.lookup(m, k, ev.Ins.(*ssa.MapUpdate).Map.Type().Underlying().(*types.Map).Elem())
				if b, kn := st.Eval(ok); !kn || b {
					r.fail("replace", p.instrPos(ev.Ins), st.Trace(), "the table is written for a name that may be registered")
				}
				if k != name || v != tr {
					r.fail("entry", p.instrPos(ev.Ins), st.Trace(), "the table gets the entry %v: %v", k, v)
				}
				st.props["added"] = ts.True
			case "delete":
				r.fail("delete", p.instrPos(ev.Ins), st.Trace(), "a registration is removed")
			}
		},
		Return: func(st *State, res []*Term, ins ssa.Instruction) {
			n++
			v, k := st.Eval(ts.eq(res[0], ts.Nil))
			if st.NonNil(res[0]) {
				v, k = false, true
			}
			if !k || v != (st.props["added"] != nil) {
				r.fail("result", p.instrPos(ins), st.Trace(), "RegisterTransport returns %v although the registration was made: %v", res[0], st.props["added"] != nil)
			}
		}}
	f.RunKey("reg", f.newState(), reg, []*Term{name, tr}, nil)
	r.problems(f, "RegisterTransport")
	r.check(adds > 0 && n > 1, "registers", p.pos(reg.Pos()), "RegisterTransport adds to the table (%d paths)", n)
	// other writers
	trT := reg.Params[1].Type()
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var m ssa.Value
				switch x := ins.(type) {
				case *ssa.MapUpdate:
					m = x.Map
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
						m = x.Call.Args[0]
					}
				}
				if m == nil {
					continue
				}
				mt, ok := m.Type().Underlying().(*types.Map)
				if !ok || !types.Identical(mt.Elem(), trT) {
					continue
				}
				r.count("table writes", 1)
				_, isU := ins.(*ssa.MapUpdate)
				r.check(isU && f.Fns[fn], "writer:"+p.fnName(fn), p.instrPos(ins), "the table of transports is written by RegisterTransport only (%s)", p.fnName(fn))
			}
		}
	}
	// resolution
	for _, op := range []string{"Listen", "Dial"} {
		s := p.instances()[0]
		ts := s.f.ts
		calls, nils, bad := 0, 0, false
		ep := s.f.Param("param:endpoint", types.Typ[types.String])
		sepN := func(st *State) *Term { return st.nsep(ep, ts.str("://")) }
		before, after := ts.mk("strbefore", "://", types.Typ[types.String], ep), ts.mk("strafter", "://", types.Typ[types.String], ep)
		isEntry := func(st *State, t *Term) bool {
			return t.op == "mv" && t.args[1] == before
		}
		s.client(Client{
			Call: func(st *State, ci *CallInfo) []Out {
				if ci.Meth != nil && ci.Meth.Name() == "Addr" && len(ci.Args) == 2 {
					sig := ci.Meth.Type().(*types.Signature)
					a := ts.mk("addrof", "", types.Typ[types.String], ci.Args[0], ci.Args[1])
					bad := st.Fork()
					e := ts.sym("addrerr:"+st.name(ci.Ins), sig.Results().At(1).Type())
					bad.facts[ts.eq(e, ts.Nil)] = false
					return []Out{{bad, ts.mk("agg", "tuple", sig.Results(), ts.sym("noaddr", types.Typ[types.String]), e)},
						{st, ts.mk("agg", "tuple", sig.Results(), a, ts.Nil)}}
				}
				if p.isDriverCall(ci) && ci.Meth != nil {
					calls++
					where := p.instrPos(ci.Ins)
					fail := func(key, f string, a ...any) {
						bad = true
						r.fail(op+":"+key, where, st.Trace(), op+" "+f, a...)
					}
					if v, k := st.Eval(ts.eq(sepN(st), ts.integer(1))); !k || !v {
						fail("separators", "uses a transport for an endpoint that may not have exactly one scheme separator")
					}
					if !isEntry(st, ci.Args[0]) {
						fail("transport", "uses a transport that is not the one registered for the endpoint's scheme: %v", ci.Args[0])
					} else if v, k := st.Eval(ts.mk("mok", ci.Args[0].aux, types.Typ[types.Bool], ci.Args[0].args...)); !k || !v {
						fail("present", "uses a transport that may not be registered")
					}
					ad := ci.Args[len(ci.Args)-1]
					if ad.op != "addrof" || !isEntry(st, ad.args[0]) || ad.args[1] != after {
						fail("address", "uses the address %v, not what the transport made of the endpoint's", ad)
					}
					sig := ci.Meth.Type().(*types.Signature)
					e := ts.sym("driverr:"+st.name(ci.Ins), sig.Results().At(1).Type())
					c := ts.sym("driver:"+st.name(ci.Ins), sig.Results().At(0).Type())
					n := st.Fork()
					n.facts[ts.eq(e, ts.Nil)] = false
					st.props["used"] = ts.True
					st.kill("driver:" + st.name(ci.Ins))
					n.kill("driver:" + st.name(ci.Ins))
					return []Out{{n, ts.mk("agg", "tuple", sig.Results(), c, e)}, {st, ts.mk("agg", "tuple", sig.Results(), c, ts.Nil)}}
				}
				if ci.Fn != nil && p.isOpen(ci.Fn) {
					sig := ci.Fn.Signature
					e := ts.sym("openerr:"+st.name(ci.Ins), sig.Results().At(1).Type())
					c := ts.sym("opened:"+st.name(ci.Ins), sig.Results().At(0).Type())
					n := st.Fork()
					n.facts[ts.eq(e, ts.Nil)] = false
					st.kill("open:" + st.name(ci.Ins))
					return []Out{{n, ts.mk("agg", "tuple", sig.Results(), ts.Nil, e)}, {st, ts.mk("agg", "tuple", sig.Results(), c, ts.Nil)}}
				}
				return nil
			},
			Return: func(st *State, res []*Term, ins ssa.Instruction) {
				if st.mayBeNil(res[0]) {
					nils++
					if st.props["used"] == nil {
						bad = true
						r.fail(op+":nothing", p.instrPos(ins), st.Trace(), "%s may succeed without having used a transport", op)
					}
				}
			}})
		s.run(s.st.Fork(), "ep", op, ep)
		r.problems(s.f, op)
		r.count("transport calls", calls)
		if !bad {
			r.check(calls > 0 && nils > 0, op+":reach", p.pos(s.method(op).Pos()), "%s uses the registered transport (%d calls on all paths)", op, calls)
		}
	}
	// defaults
	f2 := p.newFlow(Client{})
	base := p.initState(f2, p.Root, false)
	want := map[string]string{"tcp": "tcp", "udp": "udp", "ipc": "unix", "inproc": "inproc"}
	found := map[string]bool{}
	for a, v := range base.heap {
		if a.op != "mp" || !types.Identical(cellType(a), trT) {
			continue
		}
		nm, ok := a.args[1].strVal()
		if !ok || want[nm] == "" {
			r.fail("default:"+a.args[1].String(), "-", nil, "the transport registered for %v is not one of the defaults", a.args[1])
			continue
		}
		found[nm] = true
		if v.op != "iface" {
			r.fail("default:"+nm, "-", nil, "the transport registered for %q is %v, which is not understood", nm, v)
			continue
		}
		for _, op := range []string{"Dial", "Listen"} {
			p.checkDriver(r, f2, base, v, nm, want[nm], op)
		}
	}
	for nm := range want {
		r.check(found[nm], "default:"+nm, p.pos(reg.Pos()), "transport %q is registered at initialization", nm)
		r.count("default transports", 1)
	}
	r.atLeast("default transports", 4)
	r.atLeast("table writes", 1)
}

func throughIface(t *Term) *Term {
	for t.op == "as" || t.op == "iface" {
		t = t.args[0]
	}
	return t
}

// isOpen: the function that makes a connection out of a net.Conn.
func (p *Program) isOpen(fn *ssa.Function) bool {
	sig := fn.Signature
	return fn.Parent() == nil && sig.Recv() == nil && sig.Results().Len() == 2 && sig.Params().Len() > 0 &&
		isNamed(sig.Params().At(0).Type(), "net", "Conn") && named(deref(sig.Results().At(0).Type())) == p.lookupType("Conn") && p.lookupType("Conn") != nil
}

// checkDriver: Dial or Listen of a default transport uses the network it is registered for.
func (p *Program) checkDriver(r *Report, f *Flow, base *State, v *Term, name, network, op string) {
	ts := f.ts
	T := p.dynTypes[v.aux]
	sel := p.Prog.MethodSets.MethodSet(T).Lookup(nil, op)
	if sel == nil {
		r.fail("default:"+name+":"+op, "-", nil, "transport %q has no method %s", name, op)
		return
	}
	fn := p.Prog.MethodValue(sel)
	where := p.pos(fn.Pos())
	bad, n := false, 0
	fail := func(st *State, msg string, a ...any) {
		bad = true
		r.fail("default:"+name+":"+op, where, st.Trace(), fmt.Sprintf("%s of transport %q ", op, name)+msg, a...)
	}
	args := []*Term{v.args[0]}
	var addr *Term
	for _, pr := range fn.Params[1:] {
		a := f.Param("param:"+op+":"+pr.Name(), pr.Type())
		if isStr(pr.Type()) {
			addr = a
		}
		args = append(args, a)
	}
	f.c = Client{NoKill: true, MaxDepth: 12, Call: func(st *State, ci *CallInfo) []Out {
		net, ad := -1, -1
		switch ci.Ext {
		case "net.Listen", "net.Dial", "net.DialTimeout":
			net, ad = 0, 1
		case "net.Dialer.Dial":
			net, ad = 1, 2
		case "net.Dialer.DialContext", "net.ListenConfig.Listen":
			net, ad = 2, 3
		default:
			if ci.Meth != nil && (ci.Meth.Name() == "DialContext") {
				net, ad = 2, 3
			}
		}
		if net < 0 {
			if pk := ci.Fn; pk != nil && fnPkg(pk) != nil && fnPkg(pk).Name() == "inproc" && (pk.Name() == "Dial" || pk.Name() == "Listen" || pk.Name() == "DialContext") && pk != fn && ci.Meth == nil && st.top.depth == 0 {
				if network != "inproc" || pk.Name()[:4] != op[:4] {
					fail(st, "calls %s", p.fnName(pk))
				}
				has := false
				for _, x := range ci.Args {
					if x == addr {
						has = true
					}
				}
				if !has {
					fail(st, "does not pass on the address")
				}
				st.props["drv"] = ts.True
			}
			return nil
		}
		if s, ok := ci.Args[net].strVal(); !ok || s != network {
			fail(st, "uses network %v instead of %q", ci.Args[net], network)
		}
		if ci.Args[ad] != addr {
			fail(st, "uses address %v instead of the one given", ci.Args[ad])
		}
		st.props["drv"] = ts.True
		return nil
	}, Return: func(st *State, res []*Term, ins ssa.Instruction) {
		if st.mayBeNil(res[1]) {
			n++
			if st.props["drv"] == nil {
				fail(st, "may succeed without using the network")
			}
		}
	}}
	f.states, f.Problem, f.stopped = 0, nil, false
	f.RunKey("drv", base.Fork(), fn, args, nil)
	r.problems(f, op+" of transport "+name)
	if n == 0 && !bad {
		fail(base, "never succeeds")
	}
	if !bad {
		r.ok("%s of transport %q uses network %q", op, name, network)
	}
}

func checkC34(p *Program, r *Report) {
	var pkg *types.Package
	for path, pk := range p.ByPath {
		if pk.Name() == "errgroup" && path != p.ModPath {
			pkg = pk
		}
	}
	if pkg == nil {
		fatalf("anchor not found: the internal errgroup package")
	}
	G, ok := pkg.Scope().Lookup("Group").(*types.TypeName)
	if !ok {
		fatalf("anchor not found: errgroup.Group")
	}
	T := G.Type().(*types.Named)
	r.rule("for a group made by WithContext, the function that Go and TryGo hand to the underlying group is analysed path by path: when the context has ended it does not call the user's function and returns an error; otherwise it calls it at most once and returns nil only if the call returned nil; every wait of it also ends with the context, the user's function runs in a goroutine of its own, and that goroutine never waits to deliver its result; Wait returns what the underlying group's Wait returns")
	r.assume("golang.org/x/sync/errgroup runs each function once and Wait returns the first error")
	// the group as WithContext leaves it
	f := p.newFlow(Client{})
	ts := f.ts
	with := p.mustFunc(pkg, "WithContext")
	ctx := f.Param("param:ctx", with.Params[0].Type())
	st := f.newState()
	st.facts[ts.eq(ctx, ts.Nil)] = false
	var groups []*State
	var grp *Term
	f.c = Client{Return: func(st *State, res []*Term, ins ssa.Instruction) {
		n := st.Fork()
		n.top = nil
		grp = res[0]
		n.escape(grp)
		n.pins = append(n.pins, grp)
		n.kill("later")
		groups = append(groups, n)
	}}
	f.RunKey("with", st, with, []*Term{ctx}, nil)
	r.problems(f, "WithContext")
	if len(groups) != 1 {
		r.fail("with", p.pos(with.Pos()), nil, "WithContext has %d outcomes", len(groups))
		return
	}
	user := ts.sym("user:f", nil)
	type job struct {
		st   *State
		clos *Term
		grp  *Term
	}
	for _, op := range []string{"Go", "TryGo"} {
		fn := p.mustMethod(T, op)
		user.typ = fn.Params[1].Type()
		var jobs []job
		gave := 0
		g0 := groups[0].Fork()
		g0.facts[ts.eq(user, ts.Nil)] = false
		f.c = Client{MaxDepth: 12, Call: func(st *State, ci *CallInfo) []Out {
			if ci.Meth == nil && (ci.Ext == "golang.org/x/sync/errgroup.Group.Go" || ci.Ext == "golang.org/x/sync/errgroup.Group.TryGo") {
				n := st.Fork()
				n.top = nil
				n.pins = append(n.pins[:len(n.pins):len(n.pins)], ci.Args...)
				jobs = append(jobs, job{n, ci.Args[1], ci.Args[0]})
				st.props["given"] = ts.add(orZero(st, "given"), ts.integer(1))
				if op == "TryGo" {
					return []Out{{st, ts.sym("try", types.Typ[types.Bool])}}
				}
				return []Out{{st, nil}}
			}
			if ci.Clos == user {
				r.fail(op+":direct", p.instrPos(ci.Ins), st.Trace(), "%s calls the function itself", op)
			}
			return nil
		}, Return: func(st *State, res []*Term, ins ssa.Instruction) {
			gave++
			if k, ok := orZero(st, "given").intVal(); !ok || k != 1 {
				r.fail(op+":given", p.instrPos(ins), st.Trace(), "%s hands over %v functions instead of one", op, orZero(st, "given"))
			}
		}}
		f.RunKey(op, g0, fn, []*Term{grp, user}, nil)
		r.problems(f, op)
		r.check(gave > 0 && len(jobs) > 0, op+":hands", p.pos(fn.Pos()), "%s hands one function to the underlying group on all %d paths", op, gave)
		for _, j := range jobs {
			code, free := f.calleeOf(j.clos)
			if code == nil || len(code.Blocks) == 0 {
				r.fail(op+":unwrapped", p.pos(fn.Pos()), nil, "%s hands %v to the underlying group: it does not heed the context", op, j.clos)
				continue
			}
			p.checkGroupJob(r, f, op, j.st, code, free, user, ctx)
		}
	}
	// Wait
	wait := p.mustMethod(T, "Wait")
	n := 0
	f.c = Client{MaxDepth: 12, Call: func(st *State, ci *CallInfo) []Out {
		if ci.Meth == nil && ci.Ext == "golang.org/x/sync/errgroup.Group.Wait" {
			e := ts.sym("waited", wait.Signature.Results().At(0).Type())
			st.props["waited"] = ci.Args[0]
			return []Out{{st, e}}
		}
		return nil
	}, Return: func(st *State, res []*Term, ins ssa.Instruction) {
		n++
		if st.props["waited"] == nil || res[0] != ts.sym("waited", nil) {
			r.fail("wait", p.instrPos(ins), st.Trace(), "Wait returns %v instead of the result of the underlying group", res[0])
		}
	}}
	f.RunKey("wait", groups[0].Fork(), wait, []*Term{grp}, nil)
	r.problems(f, "Wait")
	r.check(n > 0, "wait:returns", p.pos(wait.Pos()), "Wait returns the underlying group's result (%d paths)", n)
}

func orZero(st *State, k string) *Term {
	if v := st.props[k]; v != nil {
		return v
	}
	return st.ts().Zero
}

func (p *Program) checkGroupJob(r *Report, f *Flow, op string, st0 *State, code *ssa.Function, free []*Term, user, ctx *Term) {
	ts := f.ts
	where := p.pos(code.Pos())
	for _, ended := range []bool{true, false} {
		st := st0.Fork()
		st.trail = nil
		if ended {
			st.setCancelled(ctx)
		}
		mode := op + ":running"
		if ended {
			mode = op + ":ended"
		}
		n, bad := 0, false
		fail := func(st *State, key, at, msg string, a ...any) {
			bad = true
			r.fail(mode+":"+key, at, st.Trace(), "the function that "+op+" runs "+msg, a...)
		}
		f.c = Client{MaxDepth: 12, RunGo: true, NoKill: true,
			Call: func(st *State, ci *CallInfo) []Out {
				if ci.Clos != user || ci.Meth != nil {
					return nil
				}
				at := p.instrPos(ci.Ins)
				if ended {
					fail(st, "called", at, "calls the user's function after the context has ended")
				}
				if st.goroutine() == "" {
					fail(st, "same", at, "calls the user's function without a goroutine: Wait waits for it even when the context ends")
				}
				if st.props["called"] != nil {
					fail(st, "twice", at, "may call the user's function more than once")
				}
				e := ts.sym("usererr", ci.Ins.Common().Signature().Results().At(0).Type())
				b := st.Fork()
				b.props["called"] = ts.str("failed")
				b.facts[ts.eq(e, ts.Nil)] = false
				st.props["called"] = ts.str("succeeded")
				return []Out{{b, e}, {st, ts.Nil}}
			},
			Event: func(st *State, ev *Event) {
				at := p.instrPos(ev.Ins)
				switch ev.Kind {
				case "send":
					if st.goroutine() != "" && !st.roomFor(ev.Args[0]) {
						fail(st, "stuck", at, "may leave the goroutine of the user's function waiting for ever to deliver its result")
					}
				case "recv":
					if ev.Args[0].op != "done" {
						fail(st, "wait", at, "waits on %v alone: the end of the context does not wake it", ev.Args[0])
					}
				case "select":
					if ev.Sel.Blocking {
						has := false
						for _, c := range ev.Args {
							if c.op == "done" && derives(c.args[0], ctx) {
								has = true
							}
						}
						if !has {
							fail(st, "select", at, "waits without heeding the context")
						}
					}
				case "wait":
					fail(st, "join", at, "waits for something that the end of the context does not end")
				}
				if m := p.crash(st, ev); m != "" && ev.Kind != "nilderef" {
					fail(st, "panic", at, "%s", m)
				}
			},
			Return: func(st *State, res []*Term, ins ssa.Instruction) {
				n++
				if !st.mayBeNil(res[0]) {
					return
				}
				if ended {
					fail(st, "nil", p.instrPos(ins), "may return no error although the context had ended")
				} else if c := st.props["called"]; c == nil {
					fail(st, "nocall", p.instrPos(ins), "may return no error without having called the user's function")
				} else if s, _ := c.strVal(); s != "succeeded" {
					fail(st, "lost", p.instrPos(ins), "may return no error although the user's function failed")
				}
			}}
		f.states, f.Problem, f.stopped = 0, nil, false
		f.RunKey("job", st, code, nil, free)
		r.problems(f, mode)
		if n == 0 && !bad {
			fail(st, "never", where, "never returns")
		}
		if !bad {
			r.ok("%s: %d paths of the function handed to the underlying group", mode, n)
		}
		r.count("paths", n)
	}
}

// derives: the context is c or made from it.
func derives(x, c *Term) bool {
	for x != nil {
		if x == c {
			return true
		}
		if (x.op == "ctx" || x.op == "iface") && len(x.args) > 0 {
			x = x.args[0]
			continue
		}
		return false
	}
	return false
}

func checkC35(p *Program, r *Report) {
	r.rule("information flow: on every path of NewCurveKeypair and AuthCurvePublic that returns no error, the public key returned depends on the secret key only through PublicKey of an ecdh.PrivateKey on curve X25519, and does depend on it; the secret key returned comes from ecdh GenerateKey or a key made of bytes read from crypto/rand")
	r.assume("functions of the standard library return values that depend on no more than their arguments")
	for _, name := range []string{"NewCurveKeypair", "AuthCurvePublic"} {
		fn := p.mustFunc(p.Root, name)
		f := p.newFlow(Client{})
		ts := f.ts
		st := f.newState()
		var args []*Term
		for _, pr := range fn.Params {
			args = append(args, ts.mk("secret", "argument "+pr.Name(), pr.Type()))
		}
		n, bad := 0, false
		// secretIn: the value holds secret data outside of public keys
		var secretIn func(t *Term) bool
		secretIn = func(t *Term) bool {
			if t.op == "public" {
				return false
			}
			if t.op == "secret" {
				return true
			}
			for _, a := range t.args {
				if secretIn(a) {
					return true
				}
			}
			return false
		}
		has := func(t *Term, op string) bool {
			return t.contains(func(x *Term) bool { return x.op == op })
		}
		full := func(st *State, v *Term) *Term {
			b := base(v)
			if isObj(b) {
				if c := st.props[fmt.Sprintf("mem%d", b.id)]; c != nil {
					return ts.mk("both", "", nil, v, c)
				}
				var cells []*Term
				for a, x := range st.heap {
					if base(a) == b {
						cells = append(cells, x)
					}
				}
				return ts.mk("both", "", nil, append(cells, v)...)
			}
			return v
		}
		var deep func(st *State, v *Term, d int) *Term
		deep = func(st *State, v *Term, d int) *Term {
			if d > 6 || v.op == "public" {
				return v
			}
			var as []*Term
			for _, a := range v.args {
				as = append(as, deep(st, a, d+1))
			}
			if isObj(v) || v.op == "slc" {
				as = append(as, full(st, v))
			}
			if len(as) == 0 {
				return v
			}
			return ts.mk("deep:"+v.op, v.aux, nil, as...)
		}
		curve := func(t *Term) bool {
			return t.contains(func(x *Term) bool { return x.op == "call:crypto/ecdh.X25519" })
		}
		f.c = Client{NoKill: true, MaxDepth: 12, Call: func(st *State, ci *CallInfo) []Out {
			if ci.Fn != nil && f.hasBody(ci.Fn) || ci.Ext == "" {
				return nil
			}
			res := ci.Ins.Common().Signature().Results()
			nm := st.name(ci.Ins)
			var as []*Term
			for _, a := range ci.Args {
				as = append(as, deep(st, a, 0))
			}
			var val *Term
			switch ci.Ext {
			case "errors.New", "fmt.Errorf", "errors.Is", "errors.As":
				return nil
			case "crypto/ecdh.Curve.GenerateKey":
				val = ts.mk("secret", "generated", res.At(0).Type())
				if !curve(as[0]) {
					bad = true
					r.fail(name+":curve", p.instrPos(ci.Ins), st.Trace(), "%s generates a key on %v, not X25519", name, ci.Args[0])
				}
				if !has(as[1], "rand") && !ci.Args[1].contains(func(x *Term) bool { return x.aux == "crypto/rand.Reader" }) {
					bad = true
					r.fail(name+":rand", p.instrPos(ci.Ins), st.Trace(), "%s draws its key from %v, not crypto/rand.Reader", name, ci.Args[1])
				}
			case "crypto/ecdh.Curve.NewPrivateKey":
				val = ts.mk("key", "", nil, as...)
				if !curve(as[0]) {
					bad = true
					r.fail(name+":curve", p.instrPos(ci.Ins), st.Trace(), "%s uses a key on %v, not X25519", name, ci.Args[0])
				}
			case "crypto/ecdh.PrivateKey.PublicKey":
				return []Out{{st, ts.mk("public", "", res.At(0).Type(), as...)}}
			case "crypto/rand.Read", "io.ReadFull":
				b := ci.Args[len(ci.Args)-1]
				if ci.Ext == "crypto/rand.Read" || ci.Args[0].contains(func(x *Term) bool { return x.aux == "crypto/rand.Reader" }) {
					st.props[fmt.Sprintf("mem%d", base(b).id)] = ts.mk("secret", "random", nil)
				}
				return nil
			default:
				if len(as) == 0 {
					val = ts.mk("call:"+ci.Ext, "", nil)
				} else {
					val = ts.mk("call:"+ci.Ext, "", nil, as...)
				}
				// memory the call may write to
				for i, a := range ci.Args {
					if b := base(a); isObj(b) {
						k := fmt.Sprintf("mem%d", b.id)
						var others []*Term
						for j, x := range as {
							if j != i {
								others = append(others, x)
							}
						}
						if old := st.props[k]; old != nil {
							others = append(others, old)
						}
						st.props[k] = ts.mk("both", "", nil, others...)
					}
				}
			}
			val.typ = nil
			mkv := func(i int) *Term {
				return ts.mk(val.op, fmt.Sprintf("%s#%d", val.aux, i), res.At(i).Type(), val.args...)
			}
			if val.op == "secret" {
				mkv = func(i int) *Term { return ts.mk("secret", val.aux, res.At(i).Type()) }
			}
			switch {
			case res.Len() == 0:
				return []Out{{st, nil}}
			case res.Len() == 1:
				return []Out{{st, mkv(0)}}
			}
			last := res.Len() - 1
			if types.Identical(res.At(last).Type(), types.Universe.Lookup("error").Type()) {
				b := st.Fork()
				e := ts.sym("err:"+nm, res.At(last).Type())
				b.facts[ts.eq(e, ts.Nil)] = false
				var v1, v2 []*Term
				for i := 0; i < last; i++ {
					v1 = append(v1, st.zero(res.At(i).Type()))
					v2 = append(v2, mkv(i))
				}
				return []Out{{b, ts.mk("agg", "tuple", res, append(v1, e)...)}, {st, ts.mk("agg", "tuple", res, append(v2, ts.Nil)...)}}
			}
			var vs []*Term
			for i := 0; i <= last; i++ {
				vs = append(vs, mkv(i))
			}
			return []Out{{st, ts.mk("agg", "tuple", res, vs...)}}
		}, Return: func(st *State, res []*Term, ins ssa.Instruction) {
			if !st.mayBeNil(res[len(res)-1]) {
				return
			}
			n++
			at := p.instrPos(ins)
			pub := deep(st, res[0], 0)
			if secretIn(pub) {
				bad = true
				r.fail(name+":reveals", at, st.Trace(), "the public key %s returns depends on the secret key itself: %v", name, res[0])
			}
			if !pub.contains(func(x *Term) bool { return x.op == "public" && has(x, "secret") }) {
				bad = true
				r.fail(name+":unrelated", at, st.Trace(), "the public key %s returns is not made from the secret key: %v", name, res[0])
			}
			if name == "NewCurveKeypair" {
				sec := deep(st, res[1], 0)
				if !secretIn(sec) {
					bad = true
					r.fail(name+":nosecret", at, st.Trace(), "the secret key %s returns does not come from the random source: %v", name, res[1])
				}
			}
		}}
		f.RunKey("key", st, fn, args, nil)
		r.problems(f, name)
		if n == 0 {
			r.fail(name+":never", p.pos(fn.Pos()), nil, "%s never succeeds", name)
		} else if !bad {
			r.ok("%s: %d successful paths", name, n)
		}
		r.count("successful paths", n)
	}
	r.atLeast("successful paths", 2)
}
