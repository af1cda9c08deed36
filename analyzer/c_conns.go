package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C29", checkC29)
}

// reaches: target can be reached from v through terms and the memory known in this state.
func (s *State) reaches(v, target *Term) bool {
	seen := map[*Term]bool{}
	var visit func(t *Term) bool
	visit = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		if t == target {
			return true
		}
		seen[t] = true
		if isObj(t) {
			for a, val := range s.heap {
				if base(a) == t && (visit(val) || a.op == "mp" && visit(a.args[1])) {
					return true
				}
			}
		}
		for _, x := range t.args {
			if visit(x) {
				return true
			}
		}
		return false
	}
	return visit(v)
}

// tracker follows resources from the call that made them to where they are
// closed or handed over. Props: res:<id> holds the resource.
type tracker struct {
	p    *Program
	r    *Report
	f    *Flow
	base *State // objects of this state belong to others
	key  string
	what string
	kids []kid
	done map[string]bool
	made int
	bad  bool
}

type kid struct {
	st   *State
	fn   *ssa.Function
	args []*Term
	free []*Term
	ins  ssa.Instruction
}

func (t *tracker) open(st *State, v *Term) {
	t.made++
	st.props[fmt.Sprintf("res:%d", v.id)] = v
}

func (t *tracker) live(st *State) (ks []string) {
	for k := range st.props {
		if strings.HasPrefix(k, "res:") {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return
}

func (t *tracker) close(st *State, v *Term) {
	v = throughIface(v)
	for _, k := range t.live(st) {
		if throughIface(st.props[k]) == v {
			delete(st.props, k)
		}
	}
	for _, k := range []string{"own:"} {
		for q := range st.props {
			if strings.HasPrefix(q, k) && throughIface(st.props[q]) == v {
				delete(st.props, q)
			}
		}
	}
}

// keep: v is stored where others find it.
func (t *tracker) keep(st *State, v *Term) {
	for _, k := range t.live(st) {
		if r := st.props[k]; st.reaches(v, r) {
			st.props["own:"+k[4:]] = r
			delete(st.props, k)
		}
	}
}

func (t *tracker) foreign(st *State, addr *Term) bool {
	b := base(addr)
	return !isObj(b) || t.base != nil && t.base.allocs[b]
}

func (t *tracker) store(st *State, addr, val *Term, ins ssa.Instruction) {
	if t.foreign(st, addr) {
		t.keep(st, val)
	}
}

func (t *tracker) event(st *State, ev *Event) {
	switch ev.Kind {
	case "mapupdate":
		if t.foreign(st, ev.Args[0]) {
			for _, a := range ev.Args[1:] {
				t.keep(st, a)
			}
		}
	case "closeconn":
		t.close(st, ev.Args[0])
	case "go":
		carries := false
		n := (*State)(nil)
		all := func() []string {
			var ks []string
			for k := range st.props {
				if strings.HasPrefix(k, "res:") || strings.HasPrefix(k, "own:lis") {
					ks = append(ks, k)
				}
			}
			sort.Strings(ks)
			return ks
		}()
		var moved []string
		for _, k := range all {
			for _, a := range ev.Args {
				if st.reaches(a, st.props[k]) {
					carries = true
					moved = append(moved, k)
					break
				}
			}
		}
		if !carries || ev.Fn == nil || !t.f.hasBody(ev.Fn) {
			return
		}
		n = st.Fork()
		n.top = nil
		for _, k := range all {
			delete(n.props, k)
		}
		for _, k := range moved {
			n.props[k] = st.props[k]
			if strings.HasPrefix(k, "res:") {
				delete(st.props, k)
			}
		}
		n.escape(ev.Args[0])
		for _, a := range ev.Args[1:] {
			n.escape(a)
		}
		free := []*Term(nil)
		if ev.Args[0].op == "clos" {
			free = ev.Args[0].args
		}
		t.kids = append(t.kids, kid{n, ev.Fn, ev.Args[1:], free, ev.Ins})
	}
}

// ended: a function that answers for resources returns.
func (t *tracker) ended(st *State, res []*Term, ins ssa.Instruction) {
	var e *Term
	if len(res) > 0 && isErrorType(res[len(res)-1].typ, res[len(res)-1]) {
		e = res[len(res)-1]
	}
	where := t.p.instrPos(ins)
	if e == nil || st.mayBeNil(e) {
		// success: whoever gets a result answers for it
		for _, v := range res {
			t.keep(st, v)
		}
	}
	for _, k := range t.live(st) {
		t.fail(st, "leak", where, fmt.Sprintf("%s is neither closed nor handed over when %s returns", st.props[k].show(2), t.what))
	}
	if e != nil && !st.mayBeNil(e) {
		for k, v := range st.props {
			if strings.HasPrefix(k, "own:") {
				t.fail(st, "kept", where, fmt.Sprintf("%s is kept although %s reports an error", v.show(2), t.what))
			}
		}
	}
}

func isErrorType(typ types.Type, v *Term) bool {
	if v.op == "nil" || v.op == "newerr" {
		return true
	}
	return typ != nil && types.Identical(typ, types.Universe.Lookup("error").Type())
}

func (t *tracker) fail(st *State, key, where, msg string) {
	t.bad = true
	t.r.fail(key+":"+t.key, where, st.Trace(), "%s: %s", t.what, msg)
}

// children analyses the goroutines that were given resources.
func (t *tracker) children(c Client, name string) {
	for len(t.kids) > 0 {
		k := t.kids[0]
		t.kids = t.kids[1:]
		sig := t.p.instrPos(k.ins) + lasting(k.st)
		if t.done[sig] {
			continue
		}
		t.done[sig] = true
		t.r.count("goroutines", 1)
		t.what = t.p.fnName(k.fn)
		t.key = name + ":" + t.what
		t.f.c = c
		t.f.Problem, t.f.stopped, t.f.states = nil, false, 0
		k.st.kill("go")
		t.f.RunKey(fmt.Sprintf("go%d", len(t.done)), k.st, k.fn, k.args, k.free)
		t.r.problems(t.f, t.what)
	}
}

// makesConn says what a call of an interface method of the transport yields.
func makesConn(ci *CallInfo) string {
	if ci.Meth == nil {
		return ""
	}
	sig := ci.Meth.Type().(*types.Signature)
	if sig.Results().Len() != 2 {
		return ""
	}
	r := sig.Results().At(0).Type()
	switch {
	case isNamed(r, "net", "Conn"):
		return "conn"
	case isNamed(r, "net", "Listener"):
		return "lis"
	}
	return ""
}

func checkC29(p *Program, r *Report) {
	r.rule("typestate of every connection and listener the transport yields (Dial, Listen, Accept): on each path to a return of Dial or Listen with an error it was closed and is not kept; on each path to a return without one, and to the end of each goroutine it was passed to, it was closed or stored in the socket; none is dropped in a loop. Likewise for every socket made by package networking")
	r.assume("net.Conn.Close and net.Listener.Close close what they are called on; a driver that returns an error returns no connection")
	for _, s := range p.instances() {
		for _, op := range []string{"Dial", "Listen"} {
			t := &tracker{p: p, r: r, f: s.f, base: s.st, done: map[string]bool{}}
			t.what = "New" + s.name[3:] + "." + op
			t.key = s.name + ":" + op
			ts := s.f.ts
			acc := 0
			mk := func(st *State, ci *CallInfo, kind string) []Out {
				sig := ci.Meth.Type().(*types.Signature)
				if kind == "conn" && ci.Meth.Name() == "Accept" {
					acc++
				}
				tup := func(a, b *Term) *Term { return ts.mk("agg", "tuple", sig.Results(), a, b) }
				if ls := t.live(st); ci.Meth.Name() == "Accept" && len(ls) > 0 {
					t.fail(st, "dropped", st.Where(), "the next connection is accepted while "+st.props[ls[0]].show(2)+" is neither closed nor handed over")
				}
				nm := st.name(ci.Ins)
				bad := st.Fork()
				bad.kill("drv:" + nm)
				st.kill("drv:" + nm)
				e := ts.sym("drverr:"+nm, sig.Results().At(1).Type())
				bad.facts[ts.eq(e, ts.Nil)] = false
				v := ts.sym(kind+":"+nm, sig.Results().At(0).Type())
				st.facts[ts.eq(v, ts.Nil)] = false
				t.made++
				st.props[fmt.Sprintf("res:%s%d", kind, v.id)] = v
				return []Out{{bad, tup(ts.Nil, e)}, {st, tup(v, ts.Nil)}}
			}
			hook := func(st *State, ci *CallInfo) []Out {
				if k := makesConn(ci); k != "" {
					return mk(st, ci, k)
				}
				return nil
			}
			c := Client{Call: hook, Model: hook, Store: t.store, Event: t.event, Return: t.ended, MaxDepth: 24}
			s.client(c)
			s.run(s.st.Fork(), "est", op)
			r.problems(s.f, t.what)
			made := t.made
			t.children(c, s.name)
			r.count("established", made)
			r.count("accepted", acc)
			if made == 0 {
				r.fail("none:"+t.key, p.pos(s.method(op).Pos()), nil, "%s of a %s socket never reaches the transport", op, s.name[3:])
			}
			if !t.bad {
				r.ok("%s of %s: %d connections or listeners, %d accepting calls, none left open on a failure", op, s.name[3:], made, acc)
			}
		}
		r.count("sockets", 1)
	}
	r.atLeast("sockets", 12)
	r.atLeast("accepted", 12)
	p.checkNetSockets(r)
}

// checkNetSockets: the sockets that package networking makes.
func (p *Program) checkNetSockets(r *Report) {
	var pkg *types.Package
	for path, pk := range p.ByPath {
		if strings.HasSuffix(path, "/networking") {
			pkg = pk
		}
	}
	if pkg == nil {
		fatalf("package networking not found")
	}
	ctors := map[*ssa.Function]bool{}
	for _, c := range p.socketCtors() {
		ctors[c] = true
	}
	sockT := p.mustType("Socket")
	total := 0
	for _, fn := range p.Funcs {
		if fnPkg(fn) != pkg || fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() || fn.Synthetic != "" {
			continue
		}
		f := p.newFlow(Client{})
		ts := f.ts
		t := &tracker{p: p, r: r, f: f, done: map[string]bool{}, what: p.fnName(fn), key: "networking:" + fn.Name()}
		call := func(st *State, ci *CallInfo) []Out {
			if ci.Fn != nil && ctors[ci.Fn] {
				v := ts.sym("socket:"+st.name(ci.Ins), sockT)
				st.facts[ts.eq(v, ts.Nil)] = false
				t.open(st, v)
				return []Out{{St: st, Res: v}}
			}
			if ci.Meth != nil && len(ci.Args) > 0 && ci.Meth.Name() == "Close" {
				t.close(st, ci.Args[0])
			}
			return nil
		}
		st := f.newState()
		var args []*Term
		for _, pr := range fn.Params {
			a := f.Param("param:"+pr.Name(), pr.Type())
			if _, ok := pr.Type().Underlying().(*types.Pointer); ok {
				st.facts[ts.eq(a, ts.Nil)] = false
			}
			args = append(args, a)
		}
		f.c = Client{Call: call, Store: t.store, Event: t.event, Return: t.ended, MaxDepth: 16,
			Inline: func(st *State, fn *ssa.Function) bool { return fnPkg(fn) == pkg }}
		f.RunKey("net", st, fn, args, nil)
		r.problems(f, t.what)
		total += t.made
		if t.made > 0 && !t.bad {
			r.ok("%s: the sockets it makes are closed when it fails", t.what)
		}
	}
	r.count("networking sockets", total)
	r.atLeast("networking sockets", 4)
}
