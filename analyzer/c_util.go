package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// stickyOf: the only value that is ever written to the field after
// construction, when that is a constant: once set it stays.
func (p *Program) stickyOf(addr *Term) constant.Value {
	if p.stick == nil {
		p.stick = p.computeSticky()
	}
	if addr.op == "fa" && addr.aux == "sync/atomic.v" {
		addr = addr.args[0]
	}
	if addr.op != "fa" {
		return nil
	}
	return p.stick[addr.aux]
}

func (p *Program) computeSticky() map[string]constant.Value {
	vals := map[string]constant.Value{}
	bad := map[string]bool{}
	add := func(k string, v ssa.Value) {
		c, ok := v.(*ssa.Const)
		if !ok || c.Value == nil {
			bad[k] = true
			return
		}
		if o, ok := vals[k]; ok && !constant.Compare(o, token.EQL, c.Value) {
			bad[k] = true
		}
		vals[k] = c.Value
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				fa, ok := ins.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				fk := p.fieldKey(fa.X.Type(), fa.Field)
				k := fk.Owner + "." + fk.Field
				fresh := false
				if _, ok := fa.X.(*ssa.Alloc); ok {
					fresh = true
				}
				for _, r := range *fa.Referrers() {
					switch u := r.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.FieldAddr:
						// parts of it
						if isAtomicType(deref(fa.Type())) {
							bad[k] = true
						}
					case *ssa.Store:
						if u.Addr != fa {
							bad[k] = true
						} else if !fresh {
							add(k, u.Val)
						}
					case ssa.CallInstruction:
						cc := u.Common()
						f := cc.StaticCallee()
						name := ""
						if f != nil {
							if o, ok := f.Object().(*types.Func); ok {
								name = extName(o)
							}
						}
						if !strings.HasPrefix(name, "sync/atomic.") {
							bad[k] = true
							continue
						}
						m := name[strings.LastIndex(name, ".")+1:]
						switch {
						case strings.HasPrefix(m, "Load"):
						case strings.HasPrefix(m, "Store"), strings.HasPrefix(m, "Swap"):
							add(k, cc.Args[1])
						case strings.HasPrefix(m, "CompareAndSwap"):
							add(k, cc.Args[2])
						default:
							bad[k] = true
						}
					default:
						bad[k] = true
					}
				}
			}
		}
	}
	for k := range bad {
		delete(vals, k)
	}
	return vals
}

func isAtomicType(t types.Type) bool {
	n := named(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync/atomic"
}

// ---- sockets

// sockStruct is the struct behind all sockets: what an Option configures.
func (p *Program) sockStruct() *types.Named {
	o := p.mustType("Option")
	sig, ok := o.Underlying().(*types.Signature)
	if !ok || sig.Params().Len() != 1 {
		fatalf("Option is not a function of one argument")
	}
	n := named(deref(sig.Params().At(0).Type()))
	if n == nil {
		fatalf("an Option does not configure a named type")
	}
	return n
}

// socketCtors are the exported functions that make a socket from a context and options.
func (p *Program) socketCtors() []*ssa.Function {
	it := p.mustType("Socket")
	opt := p.mustType("Option")
	var out []*ssa.Function
	scope := p.Root.Scope()
	for _, n := range scope.Names() {
		o, ok := scope.Lookup(n).(*types.Func)
		if !ok || !o.Exported() {
			continue
		}
		sig := o.Type().(*types.Signature)
		if sig.Results().Len() != 1 || !types.Identical(sig.Results().At(0).Type(), it) || sig.Params().Len() != 2 || !sig.Variadic() {
			continue
		}
		if isNamed(sig.Params().At(0).Type(), "context", "Context") && types.Identical(sig.Params().At(1).Type().(*types.Slice).Elem(), opt) {
			out = append(out, p.mustFunc(p.Root, n))
		}
	}
	if len(out) < 12 {
		fatalf("found only %d socket constructors", len(out))
	}
	return out
}

// optionFields are the fields of the socket that an Option sets.
func (p *Program) optionFields() map[string]bool {
	sck := p.sockStruct()
	out := map[string]bool{}
	for _, fn := range p.Funcs {
		sig := fn.Signature
		if sig.Params().Len() != 1 || sig.Results().Len() != 0 || sig.Recv() != nil {
			continue
		}
		if n := named(deref(sig.Params().At(0).Type())); n == nil || n != sck {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fa.X == ssa.Value(fn.Params[0]) {
						k := p.fieldKey(fa.X.Type(), fa.Field)
						out[k.Owner+"."+k.Field] = true
					}
				}
			}
		}
	}
	return out
}

// sockInst is a socket as its constructor leaves it, once others may use it.
type sockInst struct {
	ctor *ssa.Function
	name string
	f    *Flow
	st   *State
	recv *Term // the Socket interface value
	ctx  *Term
	typ  *Term // the value of the type field

	started []kid // the goroutines that the constructor starts
}

// instances analyses every constructor and yields the sockets they return.
func (p *Program) instances() []*sockInst {
	var out []*sockInst
	for _, ctor := range p.socketCtors() {
		out = append(out, p.instancesOf(ctor, false)...)
	}
	return out
}

// alone are the instances as long as no other goroutine runs.
func (p *Program) alone(names ...string) []*sockInst {
	var out []*sockInst
	for _, ctor := range p.socketCtors() {
		for _, n := range names {
			if ctor.Name() == "New"+n {
				out = append(out, p.instancesOf(ctor, true)...)
			}
		}
	}
	if len(out) < len(names) {
		fatalf("not all of the socket constructors %v were found", names)
	}
	return out
}

func (p *Program) instancesOf(ctor *ssa.Function, alone bool) []*sockInst {
	var out []*sockInst
	f := p.newFlow(Client{NoKill: alone, Zeros: alone})
	opts := p.optionFields()
	ctxT := ctor.Signature.Params().At(0).Type()
	ctx := f.ts.sym("param:ctx", ctxT)
	var started []kid
	f.c.Event = func(st *State, ev *Event) {
		if ev.Kind == "go" && ev.Fn != nil {
			k := kid{fn: ev.Fn, args: ev.Args[1:], ins: ev.Ins}
			if ev.Args[0].op == "clos" {
				k.free = ev.Args[0].args
			}
			started = append(started, k)
		}
	}
	f.c.Return = func(st *State, res []*Term, ins ssa.Instruction) {
		n := st.Fork()
		n.top = nil
		r := res[0]
		n.escape(r)
		// what the options may set
		for a := range n.heap {
			if a.op == "fa" && opts[a.aux] {
				v := f.ts.sym("option:"+a.aux, cellType(a))
				n.heap[a] = v
			}
		}
		n.pins = append(n.pins[:len(n.pins):len(n.pins)], r)
		n.kill("later")
		n.trail = nil
		out = append(out, &sockInst{ctor: ctor, name: ctor.Name(), f: f, st: n, recv: r, ctx: ctx})
	}
	st := f.newState()
	st.facts[f.ts.eq(ctx, f.ts.Nil)] = false
	f.RunKey("new", st, ctor, []*Term{ctx, f.ts.Nil}, nil)
	if len(f.Problem) > 0 {
		fatalf("%s: %s", ctor.Name(), f.Problem[0])
	}
	if len(out) == 0 {
		fatalf("%s never returns a socket", ctor.Name())
	}
	// one socket will do: the constructors do not branch on anything but their arguments
	if len(out) > 1 {
		seen := map[string]bool{}
		var u []*sockInst
		for _, s := range out {
			k := s.st.key("")
			if !seen[k] {
				seen[k] = true
				u = append(u, s)
			}
		}
		out = u
	}
	for _, s := range out {
		if s.recv.op != "iface" {
			fatalf("%s returns %v", ctor.Name(), s.recv)
		}
		s.f.c.Return = nil
		s.f.c.Event = nil
		s.started = started
	}
	return out
}

// client installs the hooks for what follows.
func (s *sockInst) client(c Client) {
	if c.MaxDepth == 0 {
		c.MaxDepth = 24
	}
	s.f.c = c
	s.f.Problem = nil
	s.f.stopped = false
	s.f.states = 0
}

// method finds a method of the socket's dynamic type.
func (s *sockInst) method(name string) *ssa.Function {
	T := s.f.p.dynTypes[s.recv.aux]
	sel := s.f.p.Prog.MethodSets.MethodSet(T).Lookup(s.f.p.Root, name)
	if sel == nil {
		fatalf("%s: %v has no method %s", s.name, T, name)
	}
	fn := s.f.p.Prog.MethodValue(sel)
	if fn == nil {
		fatalf("%s: no code for method %s", s.name, name)
	}
	return fn
}

// run analyses a method from a state, with unknown arguments unless given.
func (s *sockInst) run(st *State, key, name string, args ...*Term) {
	fn := s.method(name)
	as := []*Term{s.recv.args[0]}
	for i, pr := range fn.Params[1:] {
		if i < len(args) && args[i] != nil {
			as = append(as, args[i])
		} else {
			as = append(as, s.f.Param("param:"+name+"."+pr.Name(), pr.Type()))
		}
	}
	s.f.RunKey(key, st, fn, as, nil)
}

// sckAddr is the address of the embedded socket: the receiver itself or what its fields lead to.
func (s *sockInst) sckAddr() *Term {
	p := s.f.p
	sck := p.sockStruct()
	var find func(t *Term, typ types.Type, d int) *Term
	find = func(t *Term, typ types.Type, d int) *Term {
		if n := named(deref(typ)); n != nil && n == sck {
			return t
		}
		st, ok := deref(typ).Underlying().(*types.Struct)
		if !ok || d > 3 {
			return nil
		}
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			if n := named(deref(ft)); n == nil || n.Obj().Pkg() != p.Root {
				continue
			}
			if _, ok := deref(ft).Underlying().(*types.Struct); !ok {
				continue
			}
			fa := s.st.fa(types.NewPointer(deref(typ)), t, i)
			v := fa
			if _, ok := ft.Underlying().(*types.Pointer); ok {
				v = s.st.loadPlain(fa, ft)
			}
			if r := find(v, ft, d+1); r != nil {
				return r
			}
		}
		return nil
	}
	T := p.dynTypes[s.recv.aux]
	r := find(s.recv.args[0], T, 0)
	if r == nil {
		fatalf("%s: the socket does not contain a %s", s.name, sck.Obj().Name())
	}
	return r
}

// mayBeNil: the value is not known to be non-nil.
func (s *State) mayBeNil(t *Term) bool {
	if s.NonNil(t) {
		return false
	}
	v, k := s.Eval(s.ts().eq(t, s.ts().Nil))
	return !(k && !v)
}

// problems turns what could not be analysed into a failure.
func (r *Report) problems(f *Flow, what string) {
	for _, p := range f.Problem {
		r.fail("unanalysed:"+what, "-", nil, "%s: %s", what, p)
	}
}
