package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- globals

func (p *Program) globalName(g *ssa.Global) string {
	if g.Pkg == nil {
		return g.Name()
	}
	return g.Pkg.Pkg.Path() + "." + g.Name()
}

type globalInfo struct {
	written  bool // outside init, or in a way that is not understood
	val      ssa.Value
	elems    map[int64]constant.Value
	sentinel bool
}

func (p *Program) globalsInfo() map[string]*globalInfo {
	if p.globals != nil {
		return p.globals
	}
	p.globals = map[string]*globalInfo{}
	get := func(g *ssa.Global) *globalInfo {
		n := p.globalName(g)
		if p.globals[n] == nil {
			p.globals[n] = &globalInfo{elems: map[int64]constant.Value{}}
		}
		return p.globals[n]
	}
	for _, pk := range p.Prog.AllPackages() {
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok {
				get(g)
			}
		}
	}
	for _, fn := range p.Funcs {
		init := fn.Synthetic == "package initializer"
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					switch a := st.Addr.(type) {
					case *ssa.Global:
						gi := get(a)
						if !init || gi.val != nil {
							gi.written = true
						}
						gi.val = st.Val
						continue
					case *ssa.IndexAddr:
						if g, ok := a.X.(*ssa.Global); ok && init {
							i, ok1 := a.Index.(*ssa.Const)
							v, ok2 := st.Val.(*ssa.Const)
							if ok1 && ok2 && v.Value != nil {
								get(g).elems[i.Int64()] = v.Value
								continue
							}
							get(g).written = true
							continue
						}
					}
				}
				// an address that is taken may be written through
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch u := ins.(type) {
					case *ssa.UnOp:
					case *ssa.IndexAddr, *ssa.FieldAddr:
						for _, r := range *u.(ssa.Value).Referrers() {
							switch y := r.(type) {
							case *ssa.UnOp, *ssa.DebugRef:
							case *ssa.Store:
								if !init || y.Val == u.(ssa.Value) {
									get(g).written = true
								}
							default:
								get(g).written = true
							}
						}
					case *ssa.DebugRef:
					case *ssa.Store:
						if u.Addr != *op || u.Val == *op {
							get(g).written = true
						}
					default:
						get(g).written = true
					}
				}
			}
		}
	}
	for _, gi := range p.globals {
		if gi.written || gi.val == nil {
			continue
		}
		if c, ok := gi.val.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil {
				if o, ok := f.Object().(*types.Func); ok {
					switch extName(o) {
					case "errors.New", "fmt.Errorf":
						gi.sentinel = true
					}
				}
			}
		}
	}
	return p.globals
}

func (p *Program) globalWritten(name string) bool {
	gi := p.globalsInfo()[name]
	return gi == nil || gi.written
}

// sentinel: an error made once and never replaced.
func (p *Program) sentinel(name string) bool {
	gi := p.globalsInfo()[name]
	if gi == nil {
		return false
	}
	if gi.sentinel {
		return true
	}
	// of the standard library
	return !p.moduleGlobal(name) && (strings.HasPrefix(name, "io.E") || strings.HasPrefix(name, "io.Err") ||
		strings.HasPrefix(name, "context.Canceled") || strings.HasPrefix(name, "net.Err") || strings.HasPrefix(name, "os.Err"))
}

func (p *Program) moduleGlobal(name string) bool { return strings.HasPrefix(name, p.ModPath) }

func (p *Program) globalConst(name string) constant.Value {
	gi := p.globalsInfo()[name]
	if gi == nil || gi.written || gi.val == nil {
		return nil
	}
	if c, ok := gi.val.(*ssa.Const); ok {
		return c.Value
	}
	return nil
}

func (p *Program) globalElem(name string, i *Term) constant.Value {
	gi := p.globalsInfo()[name]
	n, ok := i.intVal()
	if gi == nil || gi.written || !ok {
		return nil
	}
	if v, ok := gi.elems[n]; ok {
		return v
	}
	if len(gi.elems) > 0 && gi.val == nil {
		// the rest of the array is zero
		return constant.MakeInt64(0)
	}
	return nil
}

// ---- calls

func (f *Flow) callParts(st *State, cc *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	if cc.IsInvoke() {
		r := st.val(cc.Value)
		args = append(args, r)
		for _, a := range cc.Args {
			args = append(args, st.val(a))
		}
		return f.ts.mk("method", cc.Method.Name(), cc.Method.Type(), r), args
	}
	for _, a := range cc.Args {
		args = append(args, st.val(a))
	}
	return st.val(cc.Value), args
}

func (f *Flow) method(T types.Type, m *types.Func) *ssa.Function {
	sel := f.p.Prog.MethodSets.MethodSet(T).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return f.p.Prog.MethodValue(sel)
}

// call analyses a call; false: the state ended or was replaced.
func (f *Flow) call(st *State, ins ssa.CallInstruction, fnT *Term, args []*Term, dfr bool) bool {
	cc := ins.Common()
	ci := &CallInfo{Ins: ins, Args: args, Clos: fnT, Dfr: dfr}
	var fn *ssa.Function
	var free []*Term
	switch {
	case cc.IsInvoke():
		ci.Meth = cc.Method
		ci.Ext = extName(cc.Method)
		r := args[0]
		f.event(st, "deref", ins, r)
		if st.IsNil(r) {
			f.event(st, "nilderef", ins, r)
			return false
		}
		st.Assume(f.ts.eq(r, f.ts.Nil), false)
		if r.op == "iface" {
			T := f.p.dynTypes[r.aux]
			if m := f.method(T, cc.Method); m != nil {
				fn = m
				args = append([]*Term{r.args[0]}, args[1:]...)
				ci.Args = args
			}
		} else if c, ok := f.model(st, ci); ok {
			return f.outs(st, ins, c, dfr)
		}
		if fn == nil && r.op != "iface" && f.c.Targets != nil {
			if fns := f.c.Targets(st, ci); fns != nil {
				return f.forkTargets(st, ins, ci, fns, args, dfr)
			}
		}
		if fn == nil && r.op != "iface" {
			if fns := f.closedInterface(cc); len(fns) > 0 {
				if f.c.Call != nil {
					if o := f.c.Call(st, ci); o != nil {
						return f.outs(st, ins, o, dfr)
					}
				}
				return f.forkTargets(st, ins, ci, fns, args, dfr)
			}
		}
	default:
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			return f.builtin(st, ins, b.Name(), args, dfr)
		}
		fn, free = f.calleeOf(fnT)
		if fn == nil {
			if st.IsNil(fnT) {
				f.event(st, "nilderef", ins, fnT)
				return false
			}
		}
	}
	return f.callFn(st, ins, ci, fn, free, args, dfr)
}

func (f *Flow) calleeOf(fnT *Term) (*ssa.Function, []*Term) {
	switch fnT.op {
	case "fn":
		return fnT.fn, nil
	case "clos":
		return fnT.fn, fnT.args
	}
	return nil, nil
}

// unwrap strips bound method and promoted method wrappers off for naming.
func realFn(fn *ssa.Function) *ssa.Function { return fn }

func (f *Flow) callFn(st *State, ins ssa.CallInstruction, ci *CallInfo, fn *ssa.Function, free, args []*Term, dfr bool) bool {
	ci.Fn = fn
	if fn != nil {
		if o, ok := fn.Object().(*types.Func); ok && ci.Meth == nil {
			ci.Ext = extName(o)
		} else if ok && len(fn.Blocks) == 0 {
			ci.Ext = extName(o)
		}
	}
	if f.c.Call != nil {
		if o := f.c.Call(st, ci); o != nil {
			return f.outs(st, ins, o, dfr)
		}
	}
	if fn == nil || !f.hasBody(fn) || f.p.isHelper(fn) {
		if o, ok := f.model(st, ci); ok {
			return f.outs(st, ins, o, dfr)
		}
	}
	if fn == nil || !f.hasBody(fn) {
		if fn == nil && !ins.Common().IsInvoke() {
			// a function value: of the module, unless the user may supply it
			t := f.p.targets(ins.Common())
			if len(t.Fns) > 0 && !t.User {
				return f.forkTargets(st, ins, ci, t.Fns, args, dfr)
			}
		}
		f.opaque(st, ins, ci)
		f.finish(st, ins, nil, dfr)
		return true
	}
	if f.c.Inline != nil && !f.c.Inline(st, fn) || st.top.depth >= f.c.MaxDepth || st.recursive(fn) {
		f.opaque(st, ins, ci)
		f.finish(st, ins, nil, dfr)
		return true
	}
	f.inline(st, ins, fn, args, free, dfr, nil)
	return true
}

// isHelper: of a package of the standard library that is analysed like the module.
func (p *Program) isHelper(fn *ssa.Function) bool {
	pk := fnPkg(fn)
	return pk != nil && p.helpers[pk.Path()]
}

func (f *Flow) hasBody(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	if f.p.isHelper(fn) {
		return true
	}
	if f.p.FuncSet[fn] || f.p.inModule(fn) {
		return true
	}
	return false
}

func (s *State) recursive(fn *ssa.Function) bool {
	n := 0
	for fr := s.top; fr != nil; fr = fr.caller {
		if fr.fn == fn {
			n++
		}
	}
	return n >= 2
}

// inline enters fn; hook turns its result into that of the call.
func (f *Flow) inline(st *State, ins ssa.CallInstruction, fn *ssa.Function, args, free []*Term, dfr bool, hook func(*State, *Term) *Term) {
	key := st.top.key + ">" + f.site(ins) + st.top.suffix(f, ins.Block())
	if dfr {
		key += "d"
	}
	f.enter(st, fn, args, free, ins, key)
	st.top.isDfr = dfr
	st.top.ret = hook
}

// Enter lets a client analyse fn in place of the call it was asked about.
func (f *Flow) Enter(st *State, ci *CallInfo, fn *ssa.Function, args, free []*Term, hook func(*State, *Term) *Term) []Out {
	f.inline(st, ci.Ins, fn, args, free, ci.Dfr, hook)
	return []Out{{St: st, Res: entered}}
}

var entered = &Term{op: "entered"}

func (f *Flow) outs(st *State, ins ssa.CallInstruction, outs []Out, dfr bool) bool {
	cont := false
	for i, o := range outs {
		if o.Res == entered {
			if o.St == st {
				cont = true
			} else {
				f.push(o.St)
			}
			continue
		}
		f.finish(o.St, ins, o.Res, dfr)
		if i == len(outs)-1 && o.St == st {
			cont = true
			continue
		}
		f.push(o.St)
	}
	return cont
}

// closedInterface: the implementations of an interface that only the module can implement.
func (f *Flow) closedInterface(cc *ssa.CallCommon) []*ssa.Function {
	n := named(cc.Value.Type())
	if n == nil || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), f.p.ModPath) || n.Obj().Exported() {
		return nil
	}
	return f.p.implementers(cc.Value.Type(), cc.Method)
}

func (f *Flow) forkTargets(st *State, ins ssa.CallInstruction, ci *CallInfo, fns []*ssa.Function, args []*Term, dfr bool) bool {
	var live []*State
	for i, fn := range fns {
		n := st
		if i < len(fns)-1 {
			n = st.Fork()
		}
		as := append([]*Term(nil), args...)
		if ins.Common().IsInvoke() && fn.Signature.Recv() != nil {
			T := fn.Signature.Recv().Type()
			as[0] = f.ts.mk("as", types.TypeString(T, nil), T, args[0])
		}
		c := *ci
		c.Args = as
		c.Meth = nil
		if f.callFn(n, ins, &c, fn, nil, as, dfr) {
			live = append(live, n)
		}
	}
	for _, n := range live {
		if n != st {
			f.push(n)
		}
	}
	for _, n := range live {
		if n == st {
			return true
		}
	}
	return false
}

// opaque: a call that is not analysed may do anything to what it can reach.
func (f *Flow) opaque(st *State, ins ssa.CallInstruction, ci *CallInfo) {
	for _, a := range ci.Args {
		st.escape(a)
	}
	st.escape(ci.Clos)
	for _, a := range ci.Args {
		b := base(a)
		if isObj(b) {
			for x := range st.heap {
				if base(x) == b && !st.frozen(x) {
					delete(st.heap, x)
				}
			}
		}
	}
	st.kill("call:" + st.name(ins))
}

// ---- built-in functions

func (f *Flow) builtin(st *State, ins ssa.CallInstruction, name string, args []*Term, dfr bool) bool {
	ts := f.ts
	var res *Term
	switch name {
	case "len":
		res = st.subst(st.lenOf(args[0]))
		if _, ok := ins.Common().Args[0].Type().Underlying().(*types.Chan); ok {
			res = ts.sym(st.name(ins), types.Typ[types.Int])
			if f.c.Queued != nil {
				if n := f.c.Queued(st, args[0], false); n != nil {
					res = n
				}
			}
		}
		if _, ok := ins.Common().Args[0].Type().Underlying().(*types.Map); ok && !args[0].isNil() {
			known := false
			if f.c.Range != nil {
				var ks []*Term
				if ks, _, known = f.c.Range(st, args[0]); known {
					res = ts.integer(int64(len(ks)))
				}
			}
			if !known {
				// it changes with the map
				res = ts.mk("len", "", types.Typ[types.Int], ts.sym("entries:"+st.name(ins), nil))
			}
		}
	case "cap":
		res = ts.mk("cap", "", types.Typ[types.Int], args[0])
		if _, ok := ins.Common().Args[0].Type().Underlying().(*types.Chan); ok {
			if args[0].op == "mkchan" {
				res = st.subst(args[0].args[0])
			}
			if f.c.Queued != nil {
				if n := f.c.Queued(st, args[0], true); n != nil {
					res = n
				}
			}
			break
		}
		st.facts[ts.ge(ts.sub(res, st.lenOf(args[0])))] = true
	case "append":
		typ := ins.Value().Type()
		elem := typ.Underlying().(*types.Slice).Elem()
		f.event(st, "append", ins, args...)
		var parts []*Term
		parts = append(parts, st.Parts(args[0], elem)...)
		if len(args) > 1 {
			src := args[1]
			if src.op == "const" || (src.typ != nil && isStr(src.typ)) {
				if str, ok := src.strVal(); !ok || str != "" {
					parts = append(parts, ts.mk("spread", "", nil, src))
				}
			} else {
				parts = append(parts, st.Parts(src, elem)...)
			}
		}
		if len(parts) == 1 && parts[0].op == "spread" && args[0].op != "nil" && args[0] == parts[0].args[0] {
			res = args[0]
		} else if len(parts) == 0 {
			res = args[0]
		} else {
			// too long to follow
			if len(parts) > max(40, f.c.Elements) {
				res = ts.sym(st.name(ins), typ)
			} else {
				res = st.seq(parts, typ)
			}
		}
	case "copy":
		dst, src := args[0], args[1]
		nd, ns := st.subst(st.lenOf(dst)), st.subst(st.lenOf(src))
		f.event(st, "copy", ins, dst, src)
		n := ts.sym(st.name(ins), types.Typ[types.Int])
		d, ok1 := nd.intVal()
		s, ok2 := ns.intVal()
		switch {
		case ok1 && ok2:
			n = ts.integer(min(d, s))
		case st.Prove(ts.sub(nd, ns)):
			n = ns
		case st.Prove(ts.sub(ns, nd)):
			n = nd
		default:
			st.facts[ts.ge(n)] = true
			st.facts[ts.ge(ts.sub(nd, n))] = true
			st.facts[ts.ge(ts.sub(ns, n))] = true
		}
		if k, ok := n.intVal(); ok && k <= maxAgg && k > 0 && dst.op == "slc" {
			if _, isC := dst.args[1].intVal(); isC {
				var vals []*Term
				for i := int64(0); i < k; i++ {
					vals = append(vals, st.elemOf(src, i))
				}
				for i := int64(0); i < k; i++ {
					st.Store(st.ia(dst, ts.integer(i), types.Typ[types.Byte]), types.Typ[types.Byte], vals[i])
				}
				res = n
				break
			}
		}
		var c *Term = src
		if src.op == "slc" {
			c = st.content(src, types.Typ[types.String])
		}
		st.writeRegion(dst, n, c, st.name(ins))
		res = n
	case "delete":
		m, k := args[0], args[1]
		f.event(st, "delete", ins, m, k)
		st.mapStore(m, k, nil, ins.Common().Args[0].Type().Underlying().(*types.Map).Elem(), false)
	case "close":
		f.event(st, "close", ins, args[0])
		st.kill("close:" + st.name(ins))
	case "panic":
		f.event(st, "panic", ins, args...)
		return false
	case "min", "max":
		res = ts.mk("call", name, ins.Value().Type(), args...)
	case "recover":
		res = ts.Nil
	case "print", "println":
	case "clear":
		st.killAll(args[0])
	case "ssa:wrapnilchk":
		res = args[0]
	default:
		f.problem("%s: built-in function %s is not modelled", f.p.instrPos(ins), name)
	}
	f.finish(st, ins, res, dfr)
	return true
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (s *State) elemOf(src *Term, i int64) *Term {
	ts := s.ts()
	if src.op == "slc" {
		return s.load(s.ia(src, ts.integer(i), types.Typ[types.Byte]), types.Typ[types.Byte])
	}
	return s.el(src, ts.integer(i), types.Typ[types.Byte])
}

func (s *State) killAll(m *Term) {
	for a := range s.heap {
		if len(a.args) > 0 && a.args[0] == m {
			delete(s.heap, a)
		}
	}
	s.heap[s.ts().mk("ct", "", nil, m)] = s.ts().sym("cleared", nil)
}

// ---- channels and goroutines

func (f *Flow) ready(st *State, ch *Term, send bool) int {
	if st.IsNil(ch) {
		return -1
	}
	if !send {
		if ch.op == "done" && st.cancelled(ch.args[0]) {
			return 1
		}
		if q := st.chq(ch); q != nil && len(q.args) > 0 {
			return 1
		}
		if f.runsGo() && ch.op == "mkchan" && !st.esc[ch] {
			if q := st.chq(ch); q == nil || len(q.args) == 0 {
				return -1
			}
		}
	}
	if f.c.Ready != nil {
		return f.c.Ready(st, ch, send)
	}
	return 0
}

// cancelled: the context is known to be done.
func (s *State) cancelled(ctx *Term) bool {
	for ctx != nil {
		if v, ok := s.facts[s.ts().mk("cancelled", "", types.Typ[types.Bool], ctx)]; ok && v {
			return true
		}
		if ctx.op == "iface" && len(ctx.args) == 1 {
			ctx = ctx.args[0]
			continue
		}
		if ctx.op == "ctx" && len(ctx.args) > 0 {
			ctx = ctx.args[0]
			continue
		}
		return false
	}
	return false
}

func (s *State) setCancelled(ctx *Term) {
	s.facts[s.ts().mk("cancelled", "", types.Typ[types.Bool], ctx)] = true
}

func (s *State) chq(ch *Term) *Term {
	return s.heap[s.ts().mk("chq", "", nil, ch)]
}

// received is the value got from ch.
func (f *Flow) received(st *State, ch *Term, name string, elem types.Type) (v, ok *Term) {
	ts := f.ts
	if ch.op == "done" {
		st.setCancelled(ch.args[0])
		return st.zero(elem), ts.Fals
	}
	if q := st.chq(ch); q != nil && len(q.args) > 0 {
		v := q.args[0]
		st.heap[ts.mk("chq", "", nil, ch)] = ts.mk("q", "", nil, q.args[1:]...)
		return v, ts.True
	}
	v = nil
	if f.c.RecvVal != nil {
		v = f.c.RecvVal(st, ch, elem)
	}
	if v == nil {
		v = st.unknown("recv:"+name, elem)
	}
	okT := ts.sym("recvok:"+name, types.Typ[types.Bool])
	if f.p.neverClosed(ch) || st.staysOpen(ch) {
		okT = ts.True
	}
	if f.c.RecvOk != nil {
		f.c.RecvOk(st, ch, v, okT)
	}
	return v, okT
}

func (f *Flow) recv(st *State, x *ssa.UnOp, ch *Term) bool {
	f.event(st, "recv", x, ch)
	r := f.ready(st, ch, false)
	if r < 0 {
		f.event(st, "blocked", x, ch)
		return false
	}
	nm := st.name(x)
	elem := x.X.Type().Underlying().(*types.Chan).Elem()
	if st.chq(ch) == nil {
		st.kill("recv:" + nm)
	}
	v, ok := f.received(st, ch, nm, elem)
	if x.CommaOk {
		st.set(x, f.ts.mk("agg", "tuple", x.Type(), v, ok))
	} else {
		st.set(x, v)
	}
	st.top.idx++
	return true
}

func (f *Flow) sent(st *State, ch, v *Term, nm string) {
	if f.runsGo() && ch.op == "mkchan" && !st.esc[ch] {
		q := st.chq(ch)
		var as []*Term
		if q != nil {
			as = q.args
		}
		st.heap[f.ts.mk("chq", "", nil, ch)] = f.ts.mk("q", "", nil, append(append([]*Term(nil), as...), v)...)
		return
	}
	st.escape(v)
}

func (f *Flow) send(st *State, x *ssa.Send, ch, v *Term) bool {
	f.event(st, "send", x, ch, v)
	if f.ready(st, ch, true) < 0 {
		f.event(st, "blocked", x, ch)
		return false
	}
	nm := st.name(x)
	f.sent(st, ch, v, nm)
	if !f.runsGo() {
		st.kill("send:" + nm)
	}
	st.top.idx++
	return true
}

func (f *Flow) sel(st *State, x *ssa.Select) bool {
	ts := f.ts
	nm := st.name(x)
	tup := x.Type().(*types.Tuple)
	if f.c.Event != nil {
		var chs []*Term
		for _, s := range x.States {
			chs = append(chs, st.val(s.Chan))
		}
		f.c.Event(st, &Event{Kind: "select", Ins: x, Args: chs, Sel: x, Case: -2})
	}
	type alt struct{ i, r int }
	var alts []alt
	sure := false
	for i, s := range x.States {
		r := f.ready(st, st.val(s.Chan), s.Dir == types.SendOnly)
		if r < 0 {
			continue
		}
		if r > 0 {
			sure = true
		}
		alts = append(alts, alt{i, r})
	}
	if !x.Blocking && !sure {
		alts = append(alts, alt{-1, 0})
	}
	if len(alts) == 0 {
		f.event(st, "blocked", x)
		return false
	}
	for j, a := range alts {
		n := st
		if j < len(alts)-1 {
			n = st.Fork()
		}
		res := make([]*Term, tup.Len())
		res[0] = ts.integer(int64(a.i))
		res[1] = ts.Fals
		ri := 2
		if a.i >= 0 {
			s := x.States[a.i]
			ch := n.val(s.Chan)
			n.note("%s: select case %s", f.p.instrPos(x), ch.show(2))
			if f.c.Event != nil {
				var ev []*Term
				ev = append(ev, ch)
				if s.Send != nil {
					ev = append(ev, n.val(s.Send))
				}
				f.c.Event(n, &Event{Kind: "selected", Ins: x, Args: ev, Sel: x, Case: a.i})
			}
			if s.Dir == types.SendOnly {
				f.sent(n, ch, n.val(s.Send), nm)
				if !f.runsGo() {
					n.kill(fmt.Sprintf("sel%d:%s", a.i, nm))
				}
			} else {
				if n.chq(ch) == nil {
					n.kill(fmt.Sprintf("sel%d:%s", a.i, nm))
				}
				v, ok := f.received(n, ch, fmt.Sprintf("%s#%d", nm, a.i), s.Chan.Type().Underlying().(*types.Chan).Elem())
				res[1] = ok
				k := ri
				for i2, s2 := range x.States {
					if s2.Dir == types.RecvOnly {
						if i2 == a.i {
							res[k] = v
						}
						k++
					}
				}
			}
		} else {
			n.note("%s: select default", f.p.instrPos(x))
			if f.c.Event != nil {
				f.c.Event(n, &Event{Kind: "selected", Ins: x, Sel: x, Case: -1})
			}
		}
		for k := range res {
			if res[k] == nil {
				res[k] = n.zero(tup.At(k).Type())
			}
		}
		n.set(x, ts.mk("agg", "tuple", x.Type(), res...))
		n.top.idx++
		if n != st {
			f.push(n)
		}
	}
	return true
}

func (f *Flow) runsGo() bool { return f.c.RunGo || f.c.RunGoIf != nil }

func (f *Flow) goStmt(st *State, x *ssa.Go) bool {
	fnT, args := f.callParts(st, &x.Call)
	fn, free := f.calleeOf(fnT)
	if x.Call.IsInvoke() && args[0].op == "iface" {
		fn = f.method(f.p.dynTypes[args[0].aux], x.Call.Method)
		args = append([]*Term{args[0].args[0]}, args[1:]...)
	}
	if f.c.Event != nil {
		f.c.Event(st, &Event{Kind: "go", Ins: x, Args: append([]*Term{fnT}, args...), Fn: fn})
	}
	if f.runsGo() && fn != nil && f.hasBody(fn) && (f.c.RunGoIf == nil || f.c.RunGoIf(st, fn)) && (f.c.Inline == nil || f.c.Inline(st, fn)) && !st.recursive(fn) {
		key := st.top.key + ">go" + f.site(x) + st.top.suffix(f, x.Block())
		f.enter(st, fn, args, free, x, key)
		st.top.isGo = true
		return true
	}
	st.escape(fnT)
	for _, a := range args {
		st.escape(a)
	}
	st.top.idx++
	return true
}

// ---- functions outside the module

// pureExt: the result depends on the arguments alone and nothing is changed.
var purePkgs = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "math": true, "path": true, "path/filepath": true}
var pureExt = map[string]bool{
	"bytes.Equal": true, "bytes.Compare": true, "bytes.HasPrefix": true, "bytes.HasSuffix": true, "bytes.IndexByte": true,
	"bytes.Contains": true, "bytes.TrimRight": true, "bytes.Index": true, "bytes.TrimSpace": true,
	"crypto/subtle.ConstantTimeCompare": true, "fmt.Sprintf": true, "fmt.Sprint": true, "errors.Unwrap": true,
	"context.Background": true, "context.TODO": true, "encoding/hex.EncodeToString": true, "encoding/hex.DecodeString": true,
	"net.JoinHostPort": true, "time.Duration.String": true, "time.Time.Add": true, "error.Error": true, "encoding/hex.DecodedLen": true, "encoding/hex.EncodedLen": true,
}

// quietExt: functions that change nothing of the module's and do not wait.
var quietPkgs = map[string]bool{"fmt": true, "log": true, "errors": true, "time": true, "os": true, "unicode": true, "runtime": true, "crypto/rand": true, "math/rand": true}

// model is the effect of a call that leaves the module.
func (f *Flow) model(st *State, ci *CallInfo) ([]Out, bool) {
	ts := f.ts
	ins := ci.Ins
	nm := st.name(ins)
	args := ci.Args
	one := func(r *Term) ([]Out, bool) { return []Out{{St: st, Res: r}}, true }
	var rt types.Type
	if v, ok := ins.(*ssa.Call); ok {
		rt = v.Type()
	} else {
		rt = ins.Common().Signature().Results()
		if t := rt.(*types.Tuple); t.Len() == 1 {
			rt = t.At(0).Type()
		}
	}
	errT := types.Universe.Lookup("error").Type()
	tuple := func(vs ...*Term) *Term { return ts.mk("agg", "tuple", rt, vs...) }
	if ci.Clos != nil && ci.Clos.op == "cancel" && ci.Meth == nil && ci.Fn == nil {
		f.event(st, "cancel", ins, ci.Clos.args[0])
		st.setCancelled(ci.Clos.args[0])
		return one(tuple())
	}
	if ci.Clos != nil && ci.Clos.op == "stopfn" {
		f.event(st, "stop", ins, ci.Clos)
		return one(ts.sym(nm, types.Typ[types.Bool]))
	}
	if ci.Ext == "" {
		return nil, false
	}
	if f.c.Model != nil {
		if o := f.c.Model(st, ci); o != nil {
			return o, true
		}
	}
	ext := ci.Ext
	switch ext {
	case "errors.New":
		return one(ts.mk("newerr", "new:"+nm, rt, args...))
	case "fmt.Errorf":
		var as []*Term
		wraps := false
		if s, ok := args[0].strVal(); ok && strings.Contains(s, "%w") {
			wraps = true
		}
		if len(args) > 1 {
			if es, ok := st.Elems(args[1], types.NewInterfaceType(nil, nil)); ok {
				as = es
			}
		}
		op := "errorf:"
		if wraps {
			op = "wrap:"
		}
		return one(ts.mk("newerr", op+nm, rt, as...))
	case "errors.Join":
		es, ok := st.Elems(args[0], types.NewInterfaceType(nil, nil))
		if !ok {
			break
		}
		joined := ts.mk("newerr", "wrap:"+nm, rt, es...)
		for _, e := range es {
			is := ts.eq(e, ts.Nil)
			v, known := st.Eval(is)
			if known && v {
				continue
			}
			if known {
				return one(joined)
			}
			n := st.Fork()
			if n.Assume(is, false) {
				f.finish(n, ins, joined, ci.Dfr)
				f.push(n)
			}
			if !st.Assume(is, true) {
				return []Out{}, true
			}
		}
		return one(ts.Nil)
	case "errors.Is":
		if args[0].isNil() {
			return one(ts.Fals)
		}
		if errIs(args[0], args[1]) {
			return one(ts.True)
		}
		return one(ts.mk("call", "errors.Is", rt, args...))
	case "errors.As":
		// the target is set where the error fits
		if args[0].isNil() {
			return one(ts.Fals)
		}
		ok := ts.mk("call", "errors.As", rt, args[0], ts.sym("as:"+targetName(args[1]), nil))
		tgt := args[1]
		if tgt.op == "iface" {
			tgt = tgt.args[0]
		}
		n := st.Fork()
		n.Assume(ok, false)
		st.Assume(ok, true)
		if pt, isP := tgt.typ.(*types.Pointer); isP {
			v := st.unknown("as:"+nm, pt.Elem())
			st.Store(tgt, pt.Elem(), v)
			st.facts[ts.eq(v, ts.Nil)] = false
		}
		return []Out{{St: n, Res: ts.Fals}, {St: st, Res: ts.True}}, true
	case "context.WithCancel", "context.WithTimeout", "context.WithDeadline", "context.WithCancelCause":
		as := args[:1]
		if strings.HasSuffix(ext, "Timeout") || strings.HasSuffix(ext, "Deadline") {
			as = args[:2]
		}
		c := ts.mk("ctx", nm, rt.(*types.Tuple).At(0).Type(), as...)
		delete(st.facts, ts.mk("cancelled", "", types.Typ[types.Bool], c))
		st.facts[ts.eq(c, ts.Nil)] = false
		f.event(st, "ctx", ins, c, args[0])
		return one(tuple(c, ts.mk("cancel", "", rt.(*types.Tuple).At(1).Type(), c)))
	case "context.WithValue", "context.WithoutCancel":
		c := ts.mk("ctx", nm, rt, args[0])
		st.facts[ts.eq(c, ts.Nil)] = false
		return one(c)
	case "context.Context.Done":
		return one(ts.mk("done", "", rt, args[0]))
	case "context.Context.Err":
		e := ts.mk("newerr", "ctxerr", errT, args[0])
		if st.cancelled(args[0]) {
			return one(e)
		}
		n := st.Fork()
		n.setCancelled(args[0])
		n.note("%s: the context is done", f.p.instrPos(ins))
		return []Out{{St: n, Res: e}, {St: st, Res: ts.Nil}}, true
	case "context.AfterFunc":
		f.event(st, "afterfunc", ins, args...)
		st.escape(args[1])
		return one(ts.mk("stopfn", nm, rt, args...))
	case "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock", "sync.Locker.Lock":
		st.kill("lock:" + nm)
		f.event(st, "lock", ins, args...)
		return one(nil)
	case "sync.Mutex.Unlock", "sync.RWMutex.Unlock", "sync.RWMutex.RUnlock", "sync.Locker.Unlock":
		f.event(st, "unlock", ins, args...)
		return one(nil)
	case "sync.Mutex.TryLock", "sync.RWMutex.TryLock":
		st.kill("lock:" + nm)
		return one(ts.sym(nm, types.Typ[types.Bool]))
	case "sync.Cond.Wait", "sync.WaitGroup.Wait":
		f.event(st, "wait", ins, args...)
		st.kill("wait:" + nm)
		return one(nil)
	case "sync.Cond.Signal", "sync.Cond.Broadcast":
		f.event(st, "signal", ins, args...)
		return one(nil)
	case "sync.WaitGroup.Add", "sync.WaitGroup.Done":
		return one(nil)
	case "sync.NewCond":
		t := ts.mk("alloc", nm, rt)
		st.allocs[t] = true
		st.Store(ts.mk("fa", "sync.Cond.L", types.NewPointer(errT), t), errT, args[0])
		return one(t)
	case "sync.Once.Do":
		fn, free := f.calleeOf(args[1])
		if fn != nil && f.hasBody(fn) && f.c.NoKill {
			key := fmt.Sprintf("once%d", args[0].id)
			if st.props[key] != nil {
				return one(nil)
			}
			st.props[key] = ts.True
			f.inline(st, ins, fn, nil, free, ci.Dfr, nil)
			return []Out{{St: st, Res: entered}}, true
		}
		if fn != nil && f.hasBody(fn) {
			n := st.Fork()
			n.kill("once:" + nm)
			if f.c.Event != nil {
				f.c.Event(n, &Event{Kind: "once", Ins: ins, Args: args, Fn: fn})
			}
			f.finish(n, ins, nil, ci.Dfr)
			f.push(n)
			st.kill("lock:" + nm)
			f.inline(st, ins, fn, nil, free, ci.Dfr, nil)
			return []Out{{St: st, Res: entered}}, true
		}
	}
	if strings.HasPrefix(ext, "sync/atomic.") {
		return f.atomicModel(st, ci, ext, nm, rt)
	}
	if strings.HasPrefix(ext, "bytes.Buffer.") || ext == "bytes.NewBuffer" || ext == "bytes.NewReader" || ext == "bytes.NewBufferString" || strings.HasPrefix(ext, "bytes.Reader.") {
		if o, ok := f.bufferModel(st, ci, ext, nm, rt); ok {
			return o, true
		}
	}
	if strings.HasPrefix(ext, "encoding/binary.bigEndian.") || strings.HasPrefix(ext, "encoding/binary.littleEndian.") || strings.HasPrefix(ext, "encoding/binary.ByteOrder.") {
		if o, ok := f.endianModel(st, ci, ext, nm, rt); ok {
			return o, true
		}
	}
	if strings.HasPrefix(ext, "golang.org/x/sync/errgroup.") {
		if o, ok := f.groupModel(st, ci, ext, nm, rt); ok {
			return o, true
		}
	}
	switch ext {
	case "io.ReadFull":
		f.event(st, "read", ins, args[0], args[1])
		n := st.Fork()
		n.kill("io:" + nm)
		st.kill("io:" + nm)
		ln := st.subst(st.lenOf(args[1]))
		k := ts.sym("nread:"+nm, types.Typ[types.Int])
		n.writeRegion(args[1], n.lenOf(args[1]), ts.sym("partial:"+nm, nil), nm)
		e := ts.sym("ioerr:"+nm, errT)
		n.facts[ts.eq(e, ts.Nil)] = false
		n.note("%s: the read fails", f.p.instrPos(ins))
		st.fill(args[1], ln, ts.sym("peer:"+nm, types.NewSlice(types.Typ[types.Byte])), nm)
		return []Out{{St: n, Res: tuple(k, e)}, {St: st, Res: tuple(ln, ts.Nil)}}, true
	case "net.Conn.Write", "io.Writer.Write", "net.Buffers.WriteTo":
		f.event(st, "write", ins, args...)
		n := st.Fork()
		n.kill("io:" + nm)
		st.kill("io:" + nm)
		e := ts.sym("ioerr:"+nm, errT)
		n.facts[ts.eq(e, ts.Nil)] = false
		n.note("%s: the write fails", f.p.instrPos(ins))
		var ln *Term = ts.sym("written:"+nm, types.Typ[types.Int])
		if ext != "net.Buffers.WriteTo" {
			ln = st.subst(st.lenOf(args[1]))
		}
		return []Out{{St: n, Res: tuple(ts.sym("written:"+nm, types.Typ[types.Int]), e)}, {St: st, Res: tuple(ln, ts.Nil)}}, true
	case "net.Conn.Read", "io.Reader.Read":
		f.event(st, "read", ins, args[0], args[1])
		k := ts.sym("nread:"+nm, types.Typ[types.Int])
		ln := st.subst(st.lenOf(args[1]))
		var out []Out
		n := st.Fork()
		for _, s := range []*State{n, st} {
			s.kill("io:" + nm)
			s.facts[ts.ge(k)] = true
			s.facts[ts.ge(ts.sub(ln, k))] = true
			s.writeRegion(args[1], ln, ts.sym("peer:"+nm, types.NewSlice(types.Typ[types.Byte])), nm)
			if s == n {
				e := ts.sym("ioerr:"+nm, errT)
				s.facts[ts.eq(e, ts.Nil)] = false
				out = append(out, Out{s, tuple(k, e)})
			} else {
				out = append(out, Out{s, tuple(k, ts.Nil)})
			}
		}
		return out, true
	case "io.CopyN":
		f.event(st, "copyn", ins, args...)
		buf := args[0]
		if buf.op == "iface" {
			buf = buf.args[0]
		}
		n := st.Fork()
		n.kill("io:" + nm)
		st.kill("io:" + nm)
		st0 := st.Fork()
		src := ts.sym("peer:"+nm, types.NewSlice(types.Typ[types.Byte]))
		sub := ts.mk("sub", "", types.NewSlice(types.Typ[types.Byte]), src, ts.Zero, args[2])
		st.bufAppend(buf, sub)
		n.bufSet(buf, ts.sym("partial:"+nm, types.NewSlice(types.Typ[types.Byte])))
		e := ts.sym("ioerr:"+nm, errT)
		n.facts[ts.eq(e, ts.Nil)] = false
		n.note("%s: the read fails", f.p.instrPos(ins))
		out := []Out{{St: n, Res: tuple(ts.sym("nread:"+nm, types.Typ[types.Int64]), e)}}
		if !st.Prove(args[2]) {
			// a negative number of bytes: nothing is read, without an error
			z := st0
			if z.Assume(ts.ge(args[2]), false) {
				out = append(out, Out{St: z, Res: tuple(ts.Zero, ts.Nil)})
			}
		}
		if st.Assume(ts.ge(args[2]), true) {
			out = append(out, Out{St: st, Res: tuple(args[2], ts.Nil)})
		}
		return out, true
	case "net.Conn.Close", "io.Closer.Close", "net.Listener.Close":
		f.event(st, "closeconn", ins, args...)
		return one(ts.sym("closeerr:"+nm, rt))
	case "os.Remove":
		f.event(st, "remove", ins, args...)
		return one(ts.sym(nm, rt))
	case "sort.Strings", "sort.Slice", "slices.Sort":
		if args[0].op == "iface" {
			args = []*Term{args[0].args[0]}
		}
		st.writeRegion(args[0], st.lenOf(args[0]), ts.sym("sorted:"+nm, nil), nm)
		return one(nil)
	}
	if o := f.bytesModel(st, ci, ext, nm, rt); o != nil {
		return o, true
	}
	if o := f.stringModel(st, ci, ext, nm, rt); o != nil {
		return o, true
	}
	pkg := ext[:max(0, strings.LastIndex(ext, "."))]
	if pureExt[ext] || purePkgs[pkg] || strings.HasPrefix(ext, "strings.") && !strings.Contains(ext, "Builder") && !strings.Contains(ext, "Reader") {
		var as []*Term
		for _, a := range args {
			if a.op == "slc" && a.typ != nil {
				if sl, ok := a.typ.Underlying().(*types.Slice); ok {
					if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
						a = st.content(a, types.Typ[types.String])
					} else if es, ok := st.Elems(a, sl.Elem()); ok {
						a = ts.mk("agg", "array", nil, es...)
					}
				}
			}
			as = append(as, a)
		}
		if c := foldPure(ts, ext, as, rt); c != nil {
			return one(c)
		}
		if t, ok := rt.(*types.Tuple); ok {
			var rs []*Term
			for i := 0; i < t.Len(); i++ {
				rs = append(rs, ts.mk("call", fmt.Sprintf("%s#%d", ext, i), t.At(i).Type(), as...))
			}
			return one(tuple(rs...))
		}
		return one(ts.mk("call", ext, rt, as...))
	}
	for q := range quietPkgs {
		if strings.HasPrefix(ext, q+".") {
			f.event(st, "ext", ins, args...)
			return one(st.unknown(nm, rt))
		}
	}
	return nil, false
}

// nsep counts the separators in v.
func (s *State) nsep(v, sep *Term) *Term {
	ts := s.ts()
	if a, ok := v.strVal(); ok {
		b, _ := sep.strVal()
		return ts.integer(int64(strings.Count(a, b)))
	}
	str, _ := sep.strVal()
	switch {
	case v.op == "strafter" && v.aux == str:
		return ts.linComb(s.nsep(v.args[0], sep), 1, nil, 0, -1)
	case v.op == "strbefore" && v.aux == str:
		return ts.Zero
	}
	n := ts.mk("strcount", str, types.Typ[types.Int], v)
	s.facts[ts.ge(n)] = true
	return n
}

// stringModel relates the ways to look for a fixed separator in a string.
func (f *Flow) stringModel(st *State, ci *CallInfo, ext, nm string, rt types.Type) []Out {
	ts := f.ts
	a := ci.Args
	switch ext {
	case "strings.Split", "strings.SplitN", "strings.Cut", "strings.Contains", "strings.Count", "strings.Index":
	default:
		return nil
	}
	sep, ok := a[1].strVal()
	if !ok || sep == "" {
		return nil
	}
	for i := 1; i < len(sep); i++ {
		if strings.HasPrefix(sep, sep[i:]) {
			return nil // may overlap with itself
		}
	}
	v := a[0]
	n := st.nsep(v, a[1])
	strT := types.Typ[types.String]
	before := ts.mk("strbefore", sep, strT, v)
	after := ts.mk("strafter", sep, strT, v)
	if c, ok := v.strVal(); ok {
		x, y, _ := strings.Cut(c, sep)
		before, after = ts.str(x), ts.str(y)
	}
	// with: the states in which the number of separators is 0, 1 or more
	with := func(at int, f func(s *State, k int) *Term) []Out {
		var outs []Out
		for k := 0; k <= at; k++ {
			s := st.Fork()
			if k == at {
				if !s.Assume(ts.ge(ts.linComb(n, 1, nil, 0, -int64(k))), true) {
					continue
				}
			} else if !s.Assume(ts.eq(n, ts.integer(int64(k))), true) {
				continue
			}
			outs = append(outs, Out{s, f(s, k)})
		}
		return outs
	}
	list := func(s *State, ln *Term, es ...*Term) *Term {
		o := ts.mk("alloc", nm, types.NewPointer(types.NewArray(strT, 1)))
		s.clearObj(o)
		s.allocs[o] = true
		delete(s.esc, o)
		for i, e := range es {
			s.heap[s.ia(o, ts.integer(int64(i)), strT)] = e
		}
		if _, ok := ln.intVal(); !ok {
			s.heap[ts.mk("ct", "", nil, o)] = ts.sym("rest:"+nm, nil)
		}
		return ts.mk("slc", "", rt, o, ts.Zero, ln)
	}
	switch ext {
	case "strings.Contains":
		return []Out{{st, ts.ge(ts.linComb(n, 1, nil, 0, -1))}}
	case "strings.Count":
		return []Out{{st, n}}
	case "strings.Cut":
		return with(1, func(s *State, k int) *Term {
			if k == 0 {
				return ts.mk("agg", "tuple", rt, v, ts.str(""), ts.Fals)
			}
			return ts.mk("agg", "tuple", rt, before, after, ts.True)
		})
	case "strings.Index":
		return with(1, func(s *State, k int) *Term {
			if k == 0 {
				return ts.integer(-1)
			}
			i := ts.mk("stridx", sep, types.Typ[types.Int], v)
			s.facts[ts.ge(i)] = true
			s.facts[ts.ge(ts.linComb(s.lenOf(v), 1, i, -1, -int64(len(sep))))] = true
			return i
		})
	case "strings.Split":
		return with(2, func(s *State, k int) *Term {
			switch k {
			case 0:
				return list(s, ts.integer(1), v)
			case 1:
				return list(s, ts.integer(2), before, after)
			}
			return list(s, ts.linComb(n, 1, nil, 0, 1), before)
		})
	case "strings.SplitN":
		if m, ok := a[2].intVal(); !ok || m != 2 {
			return nil
		}
		return with(1, func(s *State, k int) *Term {
			if k == 0 {
				return list(s, ts.integer(1), v)
			}
			return list(s, ts.integer(2), before, after)
		})
	}
	return nil
}

func targetName(t *Term) string {
	if t.op == "iface" {
		return t.aux
	}
	return t.show(2)
}

// errIs: the error certainly is (or wraps) the target.
func errIs(e, target *Term) bool {
	if e == target {
		return true
	}
	if e.op == "newerr" && strings.HasPrefix(e.aux, "wrap:") {
		for _, a := range e.args {
			if errIs(a, target) {
				return true
			}
		}
	}
	return false
}

func foldPure(ts *Terms, ext string, as []*Term, rt types.Type) *Term {
	var ss []string
	for _, a := range as {
		s, ok := a.strVal()
		if !ok {
			return nil
		}
		ss = append(ss, s)
	}
	switch ext {
	case "strings.HasPrefix":
		return ts.boolean(strings.HasPrefix(ss[0], ss[1]))
	case "strings.HasSuffix":
		return ts.boolean(strings.HasSuffix(ss[0], ss[1]))
	case "strings.Contains":
		return ts.boolean(strings.Contains(ss[0], ss[1]))
	case "strings.ToUpper":
		return ts.str(strings.ToUpper(ss[0]))
	case "strings.ToLower":
		return ts.str(strings.ToLower(ss[0]))
	case "strings.TrimSpace":
		return ts.str(strings.TrimSpace(ss[0]))
	case "strings.EqualFold":
		return ts.boolean(strings.EqualFold(ss[0], ss[1]))
	}
	return nil
}

// fill: the n bytes of dst are src, in order.
func (s *State) fill(dst, n, src *Term, name string) {
	ts := s.ts()
	if k, ok := n.intVal(); ok && k <= maxAgg && dst.op == "slc" {
		if _, isC := dst.args[1].intVal(); isC {
			for i := int64(0); i < k; i++ {
				s.Store(s.ia(dst, ts.integer(i), types.Typ[types.Byte]), types.Typ[types.Byte], s.el(src, ts.integer(i), types.Typ[types.Byte]))
			}
			return
		}
	}
	s.writeRegion(dst, n, src, name)
}

func (f *Flow) atomicModel(st *State, ci *CallInfo, ext, nm string, rt types.Type) ([]Out, bool) {
	ts := f.ts
	a := ci.Args
	m := ext[len("sync/atomic."):]
	one := func(r *Term) ([]Out, bool) { return []Out{{St: st, Res: r}}, true }
	addr := a[0]
	var ct types.Type
	if i := strings.LastIndex(m, "."); i >= 0 {
		// methods of the atomic types: the cell is the object itself
		m = m[i+1:]
		switch {
		case strings.Contains(ext, ".Bool."):
			ct = types.Typ[types.Bool]
		case strings.Contains(ext, ".Int32."):
			ct = types.Typ[types.Int32]
		case strings.Contains(ext, ".Int64."):
			ct = types.Typ[types.Int64]
		case strings.Contains(ext, ".Uint32."):
			ct = types.Typ[types.Uint32]
		case strings.Contains(ext, ".Uint64."):
			ct = types.Typ[types.Uint64]
		default:
			switch m {
			case "Load":
				ct = rt
			default:
				if len(a) > 1 {
					ct = ci.Ins.Common().Args[1].Type()
				}
			}
		}
		addr = ts.mk("fa", "sync/atomic.v", types.NewPointer(orInt(ct)), addr)
	} else {
		if p, ok := ci.Ins.Common().Args[0].Type().Underlying().(*types.Pointer); ok {
			ct = p.Elem()
		}
		for _, pre := range []string{"Load", "Store", "CompareAndSwap", "Swap", "Add"} {
			if strings.HasPrefix(m, pre) {
				m = pre
			}
		}
	}
	ct = orInt(ct)
	f.event(st, "atomic:"+m, ci.Ins, append([]*Term{addr}, a[1:]...)...)
	switch m {
	case "Load":
		return one(st.load(addr, ct))
	case "Store":
		if f.c.Store != nil {
			f.c.Store(st, addr, a[1], ci.Ins)
		}
		st.Store(addr, ct, a[1])
		return one(nil)
	case "Swap":
		old := st.load(addr, ct)
		if f.c.Store != nil {
			f.c.Store(st, addr, a[1], ci.Ins)
		}
		st.Store(addr, ct, a[1])
		return one(old)
	case "CompareAndSwap":
		old := st.load(addr, ct)
		c := ts.eq(old, a[1])
		v, k := st.Eval(c)
		var out []Out
		if !k || !v {
			n := st
			if !k {
				n = st.Fork()
			}
			n.Assume(c, false)
			out = append(out, Out{n, ts.Fals})
			if k {
				return out, true
			}
		}
		st.Assume(c, true)
		if f.c.Store != nil {
			f.c.Store(st, addr, a[2], ci.Ins)
		}
		st.Store(addr, ct, a[2])
		return append(out, Out{st, ts.True}), true
	case "Add":
		n := ts.add(st.load(addr, ct), a[1])
		if f.c.Store != nil {
			f.c.Store(st, addr, n, ci.Ins)
		}
		st.Store(addr, ct, n)
		return one(n)
	}
	return nil, false
}

func orInt(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Int]
	}
	return t
}

// ---- byte buffers

func (s *State) bufCell(b *Term) *Term {
	return s.ts().mk("obj", "buf", types.NewPointer(types.NewSlice(types.Typ[types.Byte])), b)
}

func (s *State) bufGet(b *Term) *Term {
	if v, ok := s.heap[s.bufCell(b)]; ok {
		return v
	}
	if s.owned(b) {
		return s.ts().Nil
	}
	return s.ts().mk("ld", s.epoch, types.NewSlice(types.Typ[types.Byte]), s.bufCell(b))
}

func (s *State) bufSet(b, v *Term) { s.heap[s.bufCell(b)] = v }

// snapshot of the bytes of a slice or string
func (s *State) bytesNow(v *Term) *Term {
	if v.op == "slc" {
		if es, ok := s.Elems(v, types.Typ[types.Byte]); ok {
			var parts []*Term
			for _, e := range es {
				parts = append(parts, s.ts().mk("elem", "", nil, e))
			}
			return s.seq(parts, types.NewSlice(types.Typ[types.Byte]))
		}
		return s.content(v, types.Typ[types.String])
	}
	return v
}

func (s *State) bufAppend(b, v *Term) {
	v = s.bytesNow(v)
	bt := types.Typ[types.Byte]
	parts := append(append([]*Term(nil), s.Parts(s.bufGet(b), bt)...), s.Parts(v, bt)...)
	if len(parts) == 0 {
		s.bufSet(b, s.ts().Nil)
		return
	}
	if len(parts) == 1 && parts[0].op == "spread" {
		s.bufSet(b, parts[0].args[0])
		return
	}
	s.bufSet(b, s.seq(parts, types.NewSlice(bt)))
}

func (f *Flow) bufferModel(st *State, ci *CallInfo, ext, nm string, rt types.Type) ([]Out, bool) {
	ts := f.ts
	a := ci.Args
	one := func(r *Term) ([]Out, bool) { return []Out{{St: st, Res: r}}, true }
	tuple := func(vs ...*Term) *Term { return ts.mk("agg", "tuple", rt, vs...) }
	m := ext[strings.LastIndex(ext, ".")+1:]
	if ext == "bytes.NewBuffer" || ext == "bytes.NewReader" || ext == "bytes.NewBufferString" {
		t := ts.mk("alloc", nm, rt)
		st.clearObj(t)
		st.allocs[t] = true
		delete(st.esc, t)
		st.bufSet(t, st.bytesNow(a[0]))
		return one(t)
	}
	if strings.HasPrefix(ext, "bytes.Reader.") {
		return nil, false
	}
	switch m {
	case "Write", "WriteString":
		f.event(st, "bufwrite", ci.Ins, a...)
		st.bufAppend(a[0], a[1])
		return one(tuple(st.lenOf(a[1]), ts.Nil))
	case "WriteByte":
		f.event(st, "bufwrite", ci.Ins, a...)
		st.bufAppend(a[0], st.seq([]*Term{ts.mk("elem", "", nil, a[1])}, types.NewSlice(types.Typ[types.Byte])))
		return one(ts.Nil)
	case "Bytes":
		return one(st.bufGet(a[0]))
	case "String":
		return one(ts.conv(types.NewSlice(types.Typ[types.Byte]), types.Typ[types.String], st.bufGet(a[0])))
	case "Len":
		return one(st.lenOf(st.bufGet(a[0])))
	case "Reset":
		st.bufSet(a[0], ts.Nil)
		return one(nil)
	case "Grow":
		f.event(st, "grow", ci.Ins, a...)
		return one(nil)
	}
	return nil, false
}

func (f *Flow) endianModel(st *State, ci *CallInfo, ext, nm string, rt types.Type) ([]Out, bool) {
	ts := f.ts
	a := ci.Args
	one := func(r *Term) ([]Out, bool) { return []Out{{St: st, Res: r}}, true }
	m := ext[strings.LastIndex(ext, ".")+1:]
	order := "be"
	if strings.Contains(ext, "little") {
		order = "le"
	}
	var w int64
	switch {
	case strings.HasSuffix(m, "64"):
		w = 8
	case strings.HasSuffix(m, "32"):
		w = 4
	case strings.HasSuffix(m, "16"):
		w = 2
	default:
		return nil, false
	}
	op := fmt.Sprintf("%s%d", order, w*8)
	bs := types.NewSlice(types.Typ[types.Byte])
	switch {
	case strings.HasPrefix(m, "Put"):
		f.event(st, "need", ci.Ins, a[1], ts.integer(w))
		v := ts.mk(op, "", bs, a[2])
		st.fill(a[1], ts.integer(w), v, nm)
		return one(nil)
	case strings.HasPrefix(m, "Uint"):
		f.event(st, "need", ci.Ins, a[1], ts.integer(w))
		var src *Term
		ok := true
		var es []*Term
		for i := int64(0); i < w; i++ {
			e := st.load(st.ia(a[1], ts.integer(i), types.Typ[types.Byte]), types.Typ[types.Byte])
			es = append(es, e)
			if e.op != "el" {
				ok = false
				continue
			}
			if n, isC := e.args[1].intVal(); !isC || n != i || e.args[0].op != op || src != nil && src != e.args[0] {
				ok = false
			}
			src = e.args[0]
		}
		if ok && src != nil {
			return one(src.args[0])
		}
		all := true
		var n uint64
		for i, e := range es {
			v, isC := e.intVal()
			if !isC {
				all = false
				break
			}
			if order == "be" {
				n = n<<8 | uint64(v&255)
			} else {
				n |= uint64(v&255) << (8 * i)
			}
		}
		if all {
			return one(ts.constant(constant.MakeUint64(n), rt))
		}
		return one(ts.mk("call", op, rt, es...))
	case strings.HasPrefix(m, "AppendUint"):
		v := ts.mk(op, "", bs, a[2])
		parts := append(append([]*Term(nil), st.Parts(a[1], types.Typ[types.Byte])...), ts.mk("spread", "", nil, v))
		return one(st.seq(parts, bs))
	}
	return nil, false
}

// groupModel: golang.org/x/sync/errgroup. Go runs the function, Wait returns
// an error exactly when one of them did.
func (f *Flow) groupModel(st *State, ci *CallInfo, ext, nm string, rt types.Type) ([]Out, bool) {
	ts := f.ts
	a := ci.Args
	one := func(r *Term) ([]Out, bool) { return []Out{{St: st, Res: r}}, true }
	m := ext[strings.LastIndex(ext, ".")+1:]
	key := func() string { return fmt.Sprintf("$grp%d", a[0].id) }
	switch m {
	case "WithContext":
		t := ts.mk("alloc", nm, rt.(*types.Tuple).At(0).Type())
		st.allocs[t] = true
		delete(st.props, fmt.Sprintf("$grp%d", t.id))
		c := ts.mk("ctx", nm, rt.(*types.Tuple).At(1).Type(), a[0])
		delete(st.facts, ts.mk("cancelled", "", types.Typ[types.Bool], c))
		st.facts[ts.eq(c, ts.Nil)] = false
		return one(ts.mk("agg", "tuple", rt, t, c))
	case "Go", "TryGo":
		fn, free := f.calleeOf(a[1])
		if f.c.Event != nil {
			f.c.Event(st, &Event{Kind: "grpgo", Ins: ci.Ins, Args: a, Fn: fn})
		}
		if !f.c.RunGo && !f.c.RunGroups || fn == nil || !f.hasBody(fn) {
			st.escape(a[1])
			st.props[key()] = ts.sym("unknown", nil)
			return one(st.unknown(nm, rt))
		}
		k := key()
		hook := func(s *State, res *Term) *Term {
			bad := ts.eq(res, ts.Nil)
			v, known := s.Eval(bad)
			switch {
			case known && v:
			case known:
				s.props[k] = ts.str("bad")
			default:
				n := s.Fork()
				if n.Assume(bad, false) {
					n.props[k] = ts.str("bad")
					f.finish(n, ci.Ins, ts.True, ci.Dfr)
					f.push(n)
				}
				s.Assume(bad, true)
			}
			return ts.True
		}
		f.inline(st, ci.Ins, fn, nil, free, ci.Dfr, hook)
		return []Out{{St: st, Res: entered}}, true
	case "Wait":
		k := key()
		st.kill("wait:" + nm)
		e := ts.sym("grperr:"+nm, rt)
		if v := st.props[k]; v != nil {
			delete(st.props, k)
			if s, _ := v.strVal(); s == "bad" {
				st.facts[ts.eq(e, ts.Nil)] = false
				return one(e)
			}
			return one(e)
		}
		return one(ts.Nil)
	case "SetLimit":
		return one(nil)
	}
	return nil, false
}

// neverClosed: no channel of this kind is closed anywhere in the module.
func (p *Program) neverClosed(ch *Term) bool {
	k, ok := chanField(p, ch)
	if !ok {
		return false
	}
	return !p.closedChans()[k]
}

// staysOpen: a channel that lies in fields whose channels are never closed.
func (s *State) staysOpen(ch *Term) bool {
	if ch.op != "mkchan" {
		return false
	}
	n := 0
	for a, v := range s.heap {
		if v != ch || a.op != "fa" {
			continue
		}
		n++
		i := strings.LastIndex(a.aux, ".")
		if s.f.p.closedChans()[FieldKey{a.aux[:i], a.aux[i+1:]}] {
			return false
		}
	}
	return n > 0
}

func chanField(p *Program, ch *Term) (FieldKey, bool) {
	if ch.op == "ld" && ch.args[0].op == "fa" {
		a := ch.args[0].aux
		i := strings.LastIndex(a, ".")
		return FieldKey{a[:i], a[i+1:]}, true
	}
	return FieldKey{}, false
}

// closedChans are the fields whose channels are closed somewhere.
func (p *Program) closedChans() map[FieldKey]bool {
	if p.chClosed != nil {
		return p.chClosed
	}
	p.chClosed = map[FieldKey]bool{}
	all := false
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				bi, ok := c.Common().Value.(*ssa.Builtin)
				if !ok || bi.Name() != "close" {
					continue
				}
				k, ok := originField(p, c.Common().Args[0], map[ssa.Value]bool{})
				if !ok {
					continue
				}
				p.chClosed[k] = true
			}
		}
	}
	_ = all
	return p.chClosed
}

// originField is the struct field a value was read from.
func originField(p *Program, v ssa.Value, seen map[ssa.Value]bool) (FieldKey, bool) {
	if seen[v] {
		return FieldKey{}, false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return p.fieldKey(fa.X.Type(), fa.Field), true
			}
		}
	case *ssa.Field:
		return p.fieldKey(x.X.Type(), x.Field), true
	case *ssa.ChangeType:
		return originField(p, x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if k, ok := originField(p, e, seen); ok {
				return k, true
			}
		}
	case *ssa.Extract:
		if n, ok := x.Tuple.(*ssa.Next); ok {
			return originField(p, n.Iter.(*ssa.Range).X, seen)
		}
		if l, ok := x.Tuple.(*ssa.Lookup); ok {
			return originField(p, l.X, seen)
		}
	case *ssa.Lookup:
		return originField(p, x.X, seen)
	case *ssa.Parameter:
		// the argument at the calls of the function
		fn := x.Parent()
		for i, pr := range fn.Params {
			if pr != x {
				continue
			}
			for _, g := range p.Funcs {
				for _, b := range g.Blocks {
					for _, ins := range b.Instrs {
						if c, ok := ins.(ssa.CallInstruction); ok && c.Common().StaticCallee() == fn {
							if k, ok := originField(p, c.Common().Args[i], seen); ok {
								return k, true
							}
						}
					}
				}
			}
		}
	}
	return FieldKey{}, false
}
