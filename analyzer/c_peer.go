package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C10", func(p *Program, r *Report) { p.checkPeer(r, false) })
	register("C11", func(p *Program, r *Report) { p.checkPeer(r, true) })
}

// peerRun analyses what handles data of a peer.
type peerRun struct {
	p      *Program
	r      *Report
	f      *Flow
	what   string
	alloc  bool // C11 instead of C10
	all    bool // every operation counts, not only those on the peer's data
	obs    int
	source map[*ssa.Function]bool // their results are what a peer sent
	recvs  []*ssa.Function        // functions that get hold of it
	hook   func(st *State, ci *CallInfo) []Out
}

// reservable is what may be set aside before anything was received.
const reservable = 1 << 24

// ofPeer: the value depends on what a peer sent, as far as that shows.
func ofPeer(t *Term) bool {
	return t.contains(func(x *Term) bool {
		switch x.op {
		case "dec":
			return true
		case "fa":
			// what is known of a connection's peer
			return x.aux == "zmq4.Conn.Peer"
		case "sym":
			for _, pre := range []string{"peer", "partial", "nread", "received"} {
				if strings.HasPrefix(x.aux, pre) {
					return true
				}
			}
			// what a loop has made of some bytes
			if strings.Contains(x.aux, ":loop") && x.typ != nil && bytesLike(x.typ) {
				return true
			}
		}
		return false
	})
}

func bytesLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok {
			return b.Kind() == types.Byte
		}
		return bytesLike(u.Elem())
	}
	return false
}

func (x *peerRun) event(st *State, ev *Event) {
	if x.alloc {
		x.reserve(st, ev)
		return
	}
	peer := x.all
	for _, a := range ev.Args {
		if a != nil && ofPeer(a) {
			peer = true
		}
	}
	switch ev.Kind {
	case "index", "slice", "need", "div", "assert", "makeslice", "makechan", "mapupdate":
		if !peer {
			return
		}
	case "panic":
	case "nilderef":
		if !x.all {
			return
		}
	default:
		return
	}
	x.obs++
	if msg := x.p.crash(st, ev); msg != "" {
		where := x.p.instrPos(ev.Ins)
		x.r.fail("crash:"+x.what+":"+where, where, st.Trace(), "%s: %s", x.what, msg)
	}
}

// reserve: the size of what is allocated.
func (x *peerRun) reserve(st *State, ev *Event) {
	var ns []*Term
	switch ev.Kind {
	case "makeslice":
		ns = ev.Args[:2]
	case "makechan", "grow":
		ns = ev.Args[1:2]
	default:
		return
	}
	for _, n := range ns {
		if n == nil || !x.all && !ofPeer(n) {
			continue
		}
		x.obs++
		n = st.subst(n)
		if x.bounded(st, n) {
			continue
		}
		where := x.p.instrPos(ev.Ins)
		x.r.fail("reserve:"+x.what+":"+where, where, st.Trace(), "%s: sets aside %v elements, which nothing that was received bounds", x.what, n)
	}
}

// bounded: by a constant, or by the sizes of what is in memory already.
func (x *peerRun) bounded(st *State, n *Term) bool {
	ts := x.f.ts
	if st.Prove(ts.linComb(n, -1, nil, 0, reservable)) {
		return true
	}
	for n.op == "conv" {
		n = n.args[0]
	}
	lens := map[*Term]bool{}
	for t, v := range st.facts {
		if t.op == "ge" && v || t.op == "eq0" && v {
			fm, _ := linOf(t.args[0])
			for a := range fm {
				if a.op == "len" || a.op == "cap" {
					lens[a] = true
				}
			}
		}
	}
	for a := range lens {
		if st.Prove(ts.linComb(a, 4, n, -1, reservable)) {
			return true
		}
	}
	m, k := linOf(n)
	if k > reservable {
		return false
	}
	rest := ts.integer(k)
	for a, c := range m {
		for a.op == "conv" {
			a = a.args[0]
		}
		if c < 0 {
			continue
		}
		if a.op == "len" || a.op == "cap" {
			if c > 4 {
				return false
			}
			continue
		}
		rest = ts.linComb(rest, 1, a, c, 0)
	}
	return st.Prove(ts.linComb(rest, -1, nil, 0, reservable))
}

// call yields what a peer sent.
func (x *peerRun) call(st *State, ci *CallInfo) []Out {
	if ci.Seen {
		return nil
	}
	nm := st.name(ci.Ins)
	if ci.Fn != nil && x.source[ci.Fn] || ci.Meth != nil && x.isRecv(ci) {
		ci.Seen = true
		st.kill("peer:" + nm)
		res := ci.Ins.Common().Signature().Results()
		var vs []*Term
		for i := 0; i < res.Len(); i++ {
			vs = append(vs, st.unknown(fmt.Sprintf("peer%d:%s", i, nm), res.At(i).Type()))
		}
		if len(vs) == 1 {
			return []Out{{st, vs[0]}}
		}
		return []Out{{st, x.f.ts.mk("agg", "tuple", res, vs...)}}
	}
	switch ci.Ext {
	case "encoding/json.Unmarshal", "encoding/json.Decoder.Decode", "encoding/gob.Decoder.Decode", "encoding/binary.Read":
		ci.Seen = true
		st.kill("peer:" + nm)
		tgt := throughIface(ci.Args[len(ci.Args)-1])
		pt, ok := tgt.typ.(*types.Pointer)
		if !ok {
			return nil
		}
		n := st.Fork()
		e := x.f.ts.sym("decode:"+nm, types.Universe.Lookup("error").Type())
		n.facts[x.f.ts.eq(e, x.f.ts.Nil)] = false
		for _, s := range []*State{n, st} {
			s.Store(tgt, pt.Elem(), s.unknown("peer json:"+nm, pt.Elem()))
		}
		return []Out{{n, e}, {st, x.f.ts.Nil}}
	}
	if ci.Meth != nil && implemented(ci.Meth, x.p.yields, x.recvs) {
		ci.Seen = true
		st.kill("peer:" + nm)
		for _, a := range ci.Args {
			if pt, ok := a.typ.(*types.Pointer); ok && x.p.peerData(pt.Elem()) {
				st.Store(a, pt.Elem(), st.unknown("peer into:"+nm, pt.Elem()))
			}
		}
		res := ci.Ins.Common().Signature().Results()
		v := st.unknown("peer out:"+nm, res)
		if res.Len() == 1 {
			v = st.unknown("peer out:"+nm, res.At(0).Type())
		}
		return []Out{{st, v}}
	}
	if x.hook != nil {
		return x.hook(st, ci)
	}
	return nil
}

func (x *peerRun) isRecv(ci *CallInfo) bool {
	return isSocketRecv(x.p, ci.Meth)
}

func isSocketRecv(p *Program, m *types.Func) bool {
	if m.Name() != "Recv" {
		return false
	}
	rt := m.Type().(*types.Signature).Recv().Type()
	return types.Identical(rt, p.mustType("Socket"))
}

// peerData: a channel of these carries what a peer sent.
func (p *Program) peerData(t types.Type) bool {
	msg, cmd := p.mustType("Msg"), p.mustType("Cmd")
	var has func(t types.Type, d int) bool
	has = func(t types.Type, d int) bool {
		if d > 3 {
			return false
		}
		if n := named(t); n == msg || n == cmd {
			return true
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
				return true
			}
			return has(u.Elem(), d+1)
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if has(u.Field(i).Type(), d+1) {
					return true
				}
			}
		}
		return false
	}
	return has(t, 0)
}

// sourceFns are the functions whose results are a message or command of a peer.
func (p *Program) sourceFns() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, fn := range p.connReaders() {
		out[fn] = true
	}
	out[p.connMethod("RecvCmd")] = true
	return out
}

// yields: what the function returns, or leaves in a buffer it is handed, may
// be data of a peer.
func (p *Program) yields(fn *ssa.Function) bool {
	sig := fn.Signature
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean == 0 || p.peerData(t) || bytesLike(t) {
			return true
		}
		if _, ok := t.Underlying().(*types.Map); ok {
			return true
		}
	}
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			if p.peerData(pt.Elem()) || bytesLike(pt.Elem()) {
				return true
			}
			continue
		}
		if _, ok := t.Underlying().(*types.Slice); ok && p.peerData(t) {
			return true
		}
	}
	return false
}

// receivers are the functions of the module that get hold of a peer's data,
// and those that call them.
func (p *Program) receivers(src map[*ssa.Function]bool) []*ssa.Function {
	in := map[*ssa.Function]bool{}
	hasSource := func(fn *ssa.Function) bool {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case ssa.CallInstruction:
					cc := x.Common()
					if cc.IsInvoke() {
						if isSocketRecv(p, cc.Method) {
							return true
						}
						switch extName(cc.Method) {
						case "net.Conn.Read", "io.Reader.Read":
							return true
						}
						continue
					}
					f := cc.StaticCallee()
					if f == nil {
						continue
					}
					if src[f] {
						return true
					}
					if o, ok := f.Object().(*types.Func); ok {
						switch extName(o) {
						case "io.ReadFull", "io.CopyN", "io.ReadAll", "io.Copy", "io.ReadAtLeast", "encoding/json.Unmarshal":
							return true
						}
					}
				case *ssa.FieldAddr:
					if st := structOf(x.X.Type()); st != nil && named(deref(x.X.Type())) == p.mustType("Conn") && st.Field(x.Field).Name() == "Peer" {
						return true
					}
				case *ssa.UnOp:
					if x.Op == token.ARROW && p.peerData(x.X.Type().Underlying().(*types.Chan).Elem()) {
						return true
					}
				case *ssa.Select:
					for _, s := range x.States {
						if s.Dir == types.RecvOnly && p.peerData(s.Chan.Type().Underlying().(*types.Chan).Elem()) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	var fns []*ssa.Function
	for _, fn := range p.Funcs {
		if len(fn.Blocks) > 0 && hasSource(fn) {
			in[fn] = true
		}
	}
	for again := true; again; {
		again = false
		for _, fn := range p.Funcs {
			if in[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					c, ok := ins.(*ssa.Call)
					if !ok || in[fn] {
						continue
					}
					if c.Common().IsInvoke() {
						if implemented(c.Common().Method, func(f *ssa.Function) bool { return in[f] && p.yields(f) }, p.Funcs) {
							in[fn], again = true, true
						}
						continue
					}
					if f := c.Common().StaticCallee(); f != nil && in[f] && p.yields(f) {
						in[fn], again = true, true
					}
				}
			}
		}
	}
	for fn := range in {
		if fn.Synthetic == "" {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	return fns
}

// implemented: a method of the module's interface that one of the functions
// implements.
func implemented(m *types.Func, by func(fn *ssa.Function) bool, fns []*ssa.Function) bool {
	it, ok := m.Type().(*types.Signature).Recv().Type().Underlying().(*types.Interface)
	if !ok || m.Pkg() == nil || len(fns) == 0 || !strings.HasPrefix(m.Pkg().Path(), fns[0].Pkg.Pkg.Path()) {
		return false
	}
	for _, fn := range fns {
		if fn.Name() == m.Name() && fn.Signature.Recv() != nil && by(fn) && types.Implements(fn.Signature.Recv().Type(), it) {
			return true
		}
	}
	return false
}

func (p *Program) checkPeer(r *Report, alloc bool) {
	if alloc {
		r.rule("on every path of the opening handshake (each mechanism, both roles, any socket type), of the readers of a connection, and of every function of the module that gets hold of a peer's data and of their callers, over arbitrary input: every allocation whose size depends on that input is shown to be at most %d elements, or at most a small multiple of the sizes of slices and strings that are in memory already", reservable)
		r.assume("io.CopyN and io.ReadAll into a buffer grow it with what arrives; encoding/json bounds its memory by its input")
	} else {
		r.rule("on every path of the opening handshake (each mechanism, both roles, any socket type), of the readers of a connection, and of every function of the module that gets hold of a peer's data and of their callers, over arbitrary input: every index, slice bound, decoded width, allocation size, divisor and single-value type assertion that involves that input is shown to be in range, no nil pointer or map is used, no panic is reached")
	}
	src := p.sourceFns()
	obs := 0
	fresh := func(what string, all bool) *peerRun {
		return &peerRun{p: p, r: r, what: what, alloc: alloc, all: all, source: src}
	}
	finish := func(x *peerRun, n, before int) {
		r.problems(x.f, x.what)
		r.count("functions analysed", 1)
		r.count("operations on peer data", x.obs)
		obs += x.obs
		if len(r.Findings) == before {
			r.ok("%s: %d operations, %d paths", x.what, x.obs, n)
		}
	}
	install := func(x *peerRun) {
		hook := x.call
		x.f.c.Call, x.f.c.Model = hook, hook
		x.f.c.Event = x.event
		x.f.c.MaxDepth = 24
		// what was received is only known to who received it
		x.f.c.Frozen = func(addr *Term) bool { return addr.op == "ia" && ofPeer(addr.args[0]) }
		x.f.c.RecvVal = func(st *State, ch *Term, et types.Type) *Term {
			if !p.peerData(et) {
				return nil
			}
			return st.unknown("peer chan:"+st.epoch, et)
		}
	}
	// the handshake
	for _, m := range p.mechanisms() {
		for _, server := range []bool{true, false} {
			before := len(r.Findings)
			x := fresh(fmt.Sprintf("Open with %s, server=%v", m.name, server), !alloc)
			h := p.newHandshake(r, m)
			x.f = h.f
			x.source = nil
			h.f.c = Client{}
			install(x)
			ts := h.f.ts
			open := p.openFn()
			base := p.initState(h.f, p.Root, true)
			st := h.st.Fork()
			for a, v := range base.heap {
				if _, ok := st.heap[a]; !ok {
					st.heap[a] = v
				}
			}
			rw := ts.sym("the wire", open.Params[0].Type())
			st.facts[ts.eq(rw, ts.Nil)] = false
			st.pins = append(st.pins, rw)
			sec := h.sec
			if sec.op != "iface" {
				sec = st.iface(m.T, sec, open.Params[1].Type())
			}
			args := []*Term{rw, sec}
			for _, pr := range open.Params[2:] {
				args = append(args, h.f.Param("param:"+pr.Name(), pr.Type()))
			}
			args[4] = ts.boolean(server)
			n, good := 0, 0
			h.f.c.Return = func(st *State, res []*Term, ins ssa.Instruction) {
				n++
				if st.mayBeNil(res[1]) {
					good++
				}
			}
			h.f.RunKey("open", st, open, args, nil)
			finish(x, n, before)
			if good == 0 || x.obs == 0 {
				r.fail("vacuous:"+x.what, p.pos(open.Pos()), nil, "%s never succeeds", x.what)
			}
		}
	}
	// the readers
	for _, fn := range append(p.connReaders(), p.connMethod("RecvCmd")) {
		for _, null := range []bool{true, false} {
			before := len(r.Findings)
			c, st := p.newConnRun(r, null)
			delete(st.facts, c.f.ts.eq(c.typ, c.f.ts.str("STREAM")))
			x := fresh(fn.Name(), !alloc)
			x.f = c.f
			x.source = nil
			x.hook = func(st *State, ci *CallInfo) []Out {
				o := c.call(st, ci)
				for _, v := range o {
					v.St.props["out"] = c.f.ts.mk("seq", "", bytesT)
				}
				st.props["out"] = c.f.ts.mk("seq", "", bytesT)
				return o
			}
			install(x)
			n := 0
			c.f.c.Return = func(st *State, res []*Term, ins ssa.Instruction) { n++ }
			c.f.RunKey("read", st, fn, []*Term{c.conn}, nil)
			finish(x, n, before)
			if n == 0 || x.obs == 0 {
				r.fail("vacuous:"+x.what, p.pos(fn.Pos()), nil, "%s never returns", x.what)
			}
		}
	}
	// whoever gets hold of the peer's data
	recvs := p.receivers(src)
	one := func(fn *ssa.Function, taint bool) {
		before := len(r.Findings)
		x := fresh(fn.String(), false)
		x.recvs = recvs
		x.f = p.newFlow(Client{})
		install(x)
		st := x.f.newState()
		var args []*Term
		for i, pr := range fn.Params {
			nm := "param:" + pr.Name()
			if taint && (bytesLike(pr.Type()) || named(pr.Type()) == p.mustType("Msg")) {
				nm = "peer's " + pr.Name()
			}
			v := x.f.Param(nm, pr.Type())
			if i == 0 && fn.Signature.Recv() != nil {
				if _, ok := pr.Type().Underlying().(*types.Pointer); ok {
					st.facts[x.f.ts.eq(v, x.f.ts.Nil)] = false
				}
			}
			st.pins = append(st.pins, v)
			args = append(args, v)
		}
		var free []*Term
		for _, fv := range fn.FreeVars {
			free = append(free, x.f.Free(fv))
		}
		n := 0
		x.f.c.Return = func(st *State, res []*Term, ins ssa.Instruction) { n++ }
		x.f.RunKey("fn", st, fn, args, free)
		finish(x, n, before)
	}
	seen := map[*ssa.Function]bool{}
	for _, fn := range recvs {
		if !src[fn] {
			seen[fn] = true
			one(fn, false)
		}
	}
	// what is handed a peer's data by the user or through an interface
	for _, T := range []types.Type{p.mustType("Msg"), types.NewPointer(p.mustType("Metadata")), types.NewPointer(p.mustType("Property")), p.mustType("SocketType")} {
		ms := p.Prog.MethodSets.MethodSet(T)
		for i := 0; i < ms.Len(); i++ {
			fn := p.Prog.MethodValue(ms.At(i))
			if fn == nil || !ms.At(i).Obj().Exported() || fn.Synthetic != "" || seen[fn] {
				continue
			}
			one(fn, true)
		}
	}
	for _, m := range p.mechanisms() {
		fn := p.methodOf(m.T, "Decrypt")
		if fn.Synthetic == "" {
			one(fn, true)
		}
	}
	r.atLeast("functions analysed", 25)
	if alloc {
		r.atLeast("operations on peer data", 5)
	} else {
		r.atLeast("operations on peer data", 100)
	}
}
