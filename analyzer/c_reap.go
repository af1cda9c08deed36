package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C17", checkC17)
	register("C18", checkC18)
}

// opened is a call of Open by a socket.
type opened struct {
	cb     *Term
	st     *State // when Open returned the connection
	where  string
	server bool
}

// joinRun follows a connection from the transport into a socket.
type joinRun struct {
	p    *Program
	s    *sockInst
	conn *Term // what Open returns

	opens []opened
	kids  []kid
	reg   map[*Term]bool // the cells of the socket that refer to the connection, and maps that have it as a key
	found map[string]int
	ret   func(j *joinRun, st *State, fn *ssa.Function, res []*Term, ins ssa.Instruction)
	event func(st *State, ev *Event)
	call  func(st *State, ci *CallInfo) []Out
	frz   func(addr *Term) bool
	load  func(st *State, addr *Term, t types.Type) *Term
	fail  bool // Open may fail
}

func (p *Program) newJoinRun(s *sockInst) *joinRun {
	j := &joinRun{p: p, s: s, reg: map[*Term]bool{}, found: map[string]int{}}
	j.conn = s.f.ts.sym("the new connection", types.NewPointer(p.mustType("Conn")))
	return j
}

func (j *joinRun) has(v *Term, d int) bool {
	if v == j.conn {
		return true
	}
	if d > 4 {
		return false
	}
	switch v.op {
	case "seq", "elem", "agg", "spread", "iface", "slc", "app", "concat", "fill", "maybe":
		for _, a := range v.args {
			if a != nil && j.has(a, d+1) {
				return true
			}
		}
	}
	return false
}

// inSocket: the address is in memory that the constructor made.
func (j *joinRun) inSocket(a *Term) bool { return j.s.st.allocs[base(a)] || base(a).op == "mkmap" }

func (j *joinRun) client() Client {
	ts := j.s.f.ts
	hook := func(st *State, ci *CallInfo) []Out {
		if ci.Seen {
			return nil
		}
		if j.call != nil {
			if o := j.call(st, ci); o != nil {
				return o
			}
			if ci.Seen {
				return nil
			}
		}
		ci.Seen = true
		nm := st.name(ci.Ins)
		if k := makesConn(ci); k != "" {
			sig := ci.Meth.Type().(*types.Signature)
			tup := func(a, b *Term) *Term { return ts.mk("agg", "tuple", sig.Results(), a, b) }
			bad := st.Fork()
			bad.kill("drv:" + nm)
			st.kill("drv:" + nm)
			e := ts.sym("drverr:"+nm, sig.Results().At(1).Type())
			bad.facts[ts.eq(e, ts.Nil)] = false
			v := ts.sym(k+":"+nm, sig.Results().At(0).Type())
			st.facts[ts.eq(v, ts.Nil)] = false
			if k == "lis" {
				st.props["made:lis"] = ts.True
			}
			return []Out{{bad, tup(ts.Nil, e)}, {st, tup(v, ts.Nil)}}
		}
		if ci.Fn == j.p.openFn() && !ci.Go {
			res := ci.Ins.Common().Signature().Results()
			st.kill("open:" + nm)
			bad := st.Fork()
			e := ts.sym("openerr:"+nm, res.At(1).Type())
			bad.facts[ts.eq(e, ts.Nil)] = false
			bad.props["refused"] = ts.True
			st.facts[ts.eq(j.conn, ts.Nil)] = false
			srv, _ := st.Eval(ci.Args[4])
			for _, a := range ci.Args {
				st.escape(a)
				bad.escape(a)
			}
			st.props["opened"] = ts.True
			j.opens = append(j.opens, opened{cb: ci.Args[5], st: st.Fork(), where: j.p.instrPos(ci.Ins), server: srv})
			return []Out{{bad, ts.mk("agg", "tuple", res, ts.Nil, e)}, {st, ts.mk("agg", "tuple", res, j.conn, ts.Nil)}}
		}
		return nil
	}
	return Client{Call: hook, Model: hook, MaxDepth: 24,
		Frozen: j.frz, Load: j.load,
		Store: func(st *State, addr, val *Term, ins ssa.Instruction) {
			if j.inSocket(addr) && j.has(val, 0) {
				j.reg[addr] = true
			}
		},
		Event: func(st *State, ev *Event) {
			if j.event != nil {
				j.event(st, ev)
			}
			switch ev.Kind {
			case "mapupdate":
				m := ev.Args[0]
				if m.op == "ld" && m.args[0].op == "fa" && j.inSocket(m.args[0]) && (j.has(ev.Args[1], 0) || j.has(ev.Args[2], 0)) {
					j.reg[m.args[0]] = true
				}
				for a, v := range st.heap {
					if v == m && a.op == "fa" && j.inSocket(a) && (j.has(ev.Args[1], 0) || j.has(ev.Args[2], 0)) {
						j.reg[a] = true
					}
				}
			case "go":
				if ev.Fn == nil {
					return
				}
				n := st.Fork()
				n.escape(ev.Args[0])
				for _, a := range ev.Args[1:] {
					n.escape(a)
				}
				free := []*Term(nil)
				if ev.Args[0].op == "clos" {
					free = ev.Args[0].args
				}
				j.kids = append(j.kids, kid{n, ev.Fn, ev.Args[1:], free, ev.Ins})
			}
		}}
}

// run analyses Dial or Listen and the goroutines on the way to the connection.
func (j *joinRun) run(op string, st *State, follow func(k kid) bool) []string {
	s := j.s
	var problems []string
	exec := func(key string, fn *ssa.Function, st *State, args, free []*Term) {
		c := j.client()
		c.Return = func(st *State, res []*Term, ins ssa.Instruction) {
			if j.ret != nil {
				j.ret(j, st, fn, res, ins)
			}
		}
		s.client(c)
		s.f.RunKey(key, st, fn, args, free)
		problems = append(problems, s.f.Problem...)
	}
	fn := s.method(op)
	args := []*Term{s.recv.args[0]}
	for _, pr := range fn.Params[1:] {
		args = append(args, s.f.Param("param:"+op+"."+pr.Name(), pr.Type()))
	}
	exec("join", fn, st, args, nil)
	done := map[string]bool{}
	for i := 0; i < len(j.kids); i++ {
		k := j.kids[i]
		sig := j.p.instrPos(k.ins) + fmt.Sprint(k.st.props["opened"] != nil)
		if done[sig] || !follow(k) {
			continue
		}
		done[sig] = true
		n := k.st.Fork()
		n.kill("go")
		exec(fmt.Sprintf("join%d", len(done)), k.fn, n, k.args, k.free)
	}
	return problems
}

// reaching: the functions from which one of the targets can be called.
func (p *Program) callsOpen(fn *ssa.Function) bool {
	return p.reaches(fn, map[*ssa.Function]bool{p.openFn(): true})
}

// discover finds the registries of the socket.
func (p *Program) discover(s *sockInst, r *Report) (*joinRun, bool) {
	j := p.newJoinRun(s)
	var problems []string
	for _, op := range []string{"Dial", "Listen"} {
		problems = append(problems, j.run(op, s.st.Fork(), func(k kid) bool { return p.callsOpen(k.fn) })...)
	}
	for _, m := range problems {
		r.fail("unanalysed:"+s.name, "-", nil, "%s: %s", s.name[3:], m)
	}
	return j, len(problems) == 0
}

// members are the connections that a registry lists.
func (s *sockInst) members(st *State, g *Term, of []*Term) (map[*Term]int, bool) {
	out := map[*Term]int{}
	v := st.loadPlain(g, cellType(g))
	if mt, ok := cellType(g).Underlying().(*types.Map); ok {
		for _, c := range of {
			_, has := st.lookup(v, c, mt.Elem())
			b, known := st.Eval(has)
			if !known {
				return nil, false
			}
			if b {
				out[c]++
			}
		}
		return out, true
	}
	sl, ok := cellType(g).Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	es, ok := st.Elems(v, sl.Elem())
	if !ok {
		return nil, false
	}
	for _, e := range es {
		out[e]++
	}
	return out, true
}

func memberNames(m map[*Term]int) string {
	var ks []string
	for c, n := range m {
		for i := 0; i < n; i++ {
			ks = append(ks, c.show(1))
		}
	}
	sort.Strings(ks)
	return "[" + strings.Join(ks, " ") + "]"
}

func sameMembers(a, b map[*Term]int) bool {
	if len(a) != len(b) {
		return false
	}
	for k, n := range a {
		if b[k] != n {
			return false
		}
	}
	return true
}

// regName names a registry for reports.
func regName(g *Term) string {
	if g.op == "fa" {
		return g.aux
	}
	if g.site != nil {
		return "the map made at " + g.site.Parent().Name()
	}
	return "a map of the socket"
}

// inRegistry: the cell is part of one of the registries that preset filled.
func (s *sockInst) inRegistry(regs map[*Term]bool, a *Term) bool {
	if regs[a] {
		return true
	}
	switch a.op {
	case "ia":
		return a.args[0].op == "alloc" && strings.HasPrefix(a.args[0].aux, "registry ")
	case "mp":
		return a.args[0].op == "mkmap" && strings.HasPrefix(a.args[0].aux, "registry ")
	}
	return false
}

// preset puts the connections into the registry; none of the others is in it.
func (s *sockInst) preset(st *State, g *Term, cs []*Term, others ...*Term) bool {
	ts := s.f.ts
	if mt, ok := cellType(g).Underlying().(*types.Map); ok {
		if named(deref(mt.Key())) != s.f.p.mustType("Conn") {
			return false
		}
		m := ts.mk("mkmap", fmt.Sprintf("registry %d", g.id), mt)
		st.clearObj(m)
		st.allocs[m] = true
		st.esc[m] = true
		st.heap[g] = m
		for _, c := range others {
			st.heap[ts.mk("mp", "", types.NewPointer(mt.Elem()), m, c)] = ts.mk("absent", "", nil)
		}
		for i, c := range cs {
			addr := ts.mk("mp", "", types.NewPointer(mt.Elem()), m, c)
			st.heap[addr] = ts.mk("maybe", "", nil, ts.sym(fmt.Sprintf("queue %d", i+1), mt.Elem()), ts.True)
		}
		return true
	}
	sl, ok := cellType(g).Underlying().(*types.Slice)
	if !ok || named(deref(sl.Elem())) != s.f.p.mustType("Conn") {
		return false
	}
	arr := ts.mk("alloc", fmt.Sprintf("registry %d", g.id), sl)
	st.clearObj(arr)
	st.allocs[arr] = true
	st.esc[arr] = true
	for i, c := range cs {
		st.heap[st.ia(arr, ts.integer(int64(i)), sl.Elem())] = c
	}
	st.heap[g] = ts.mk("slc", "", sl, arr, ts.Zero, ts.integer(int64(len(cs))))
	return true
}

// someConns are n connections that are known apart.
func (s *sockInst) someConns(st *State, names ...string) []*Term {
	ts := s.f.ts
	T := types.NewPointer(s.f.p.mustType("Conn"))
	var cs []*Term
	for _, n := range names {
		c := ts.sym("connection "+n, T)
		st.facts[ts.eq(c, ts.Nil)] = false
		for _, o := range cs {
			st.facts[ts.eq(o, c)] = false
		}
		cs = append(cs, c)
	}
	st.pins = append(st.pins[:len(st.pins):len(st.pins)], cs...)
	return cs
}

func sortedTerms(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// isLock: the event acquires or releases this lock.
func lockOf(ev *Event) *Term { return throughIface(ev.Args[0]) }

// noteLock keeps the set of held locks in the property "held".
func noteLock(st *State, ev *Event) {
	ts := st.ts()
	a := lockOf(ev)
	var ls []*Term
	if v := st.props["held"]; v != nil {
		for _, o := range v.args {
			if o != a {
				ls = append(ls, o)
			}
		}
	}
	if ev.Kind == "lock" {
		ls = append(ls, a)
		sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
	}
	if len(ls) == 0 {
		delete(st.props, "held")
		return
	}
	st.props["held"] = ts.mk("seq", "held", nil, ls...)
}

func holds(st *State, l *Term) bool {
	if v := st.props["held"]; v != nil {
		for _, o := range v.args {
			if o == l {
				return true
			}
		}
	}
	return false
}

// reaper is what C17 knows about the socket's way to get rid of connections.
type reaper struct {
	p    *Program
	s    *sockInst
	r    *Report
	bad  bool
	list *Term // the list of connections that were reported closed
	lock *Term // what guards it
	cond *Term // what the reaper waits on
	fn   *ssa.Function
	reg  []*Term
}

func (x *reaper) fail(st *State, key, where, msg string, a ...any) {
	x.bad = true
	var tr []string
	if st != nil {
		tr = st.Trace()
	}
	x.r.fail(key+":"+x.s.name, where, tr, "%s: %s", x.s.name[3:], fmt.Sprintf(msg, a...))
}

// callbacks analyses what runs when a connection is marked closed.
func (x *reaper) callbacks(j *joinRun) {
	ts := x.s.f.ts
	for _, o := range j.opens {
		fn, free := x.s.f.calleeOf(o.cb)
		if fn == nil || !x.s.f.hasBody(fn) {
			x.fail(o.st, "callback", o.where, "the function that is told of closed connections is unknown: %v", o.cb)
			continue
		}
		paths := 0
		st := o.st.Fork()
		st.kill("cb")
		stored := map[*Term]*Term{}
		x.s.client(Client{MaxDepth: 16,
			Frozen: func(addr *Term) bool { return addr == x.list },
			Event: func(st *State, ev *Event) {
				switch ev.Kind {
				case "lock", "unlock":
					noteLock(st, ev)
				case "signal":
					if st.props["listed"] != nil || st.props["held"] != nil {
						st.props["signalled"] = ev.Args[0]
					}
				}
			},
			Store: func(st *State, addr, val *Term, ins ssa.Instruction) {
				if j.inSocket(addr) && j.has(val, 0) {
					st.props["listed"] = addr
					if v := st.props["held"]; v != nil {
						stored[addr] = v
						st.props["under"] = v
					}
				}
			},
			Return: func(st *State, res []*Term, ins ssa.Instruction) {
				paths++
				a := st.props["listed"]
				if a == nil {
					x.fail(st, "unlisted", x.p.instrPos(ins), "a connection that was marked closed is not passed on to the reaper")
					return
				}
				if x.list == nil {
					x.list = a
				}
				if x.list != a {
					x.fail(st, "lists", x.p.instrPos(ins), "closed connections are put into %s and into %s", regName(a), regName(x.list))
				}
				u := st.props["under"]
				if u == nil {
					x.fail(st, "list-unlocked", x.p.instrPos(ins), "a closed connection is put into %s without a lock", regName(a))
					return
				}
				if x.lock == nil {
					x.lock = u.args[0]
				}
				ok := false
				for _, l := range u.args {
					ok = ok || l == x.lock
				}
				if !ok {
					x.fail(st, "list-locks", x.p.instrPos(ins), "closed connections are put into %s under different locks", regName(a))
				}
				sg := st.props["signalled"]
				if sg == nil {
					x.fail(st, "unsignalled", x.p.instrPos(ins), "the reaper is not told of the closed connection")
					return
				}
				if x.cond == nil {
					x.cond = sg
				}
				if x.cond != sg {
					x.fail(st, "conds", x.p.instrPos(ins), "closed connections are announced in different ways")
				}
			}})
		st.facts[ts.eq(j.conn, ts.Nil)] = false
		x.s.f.RunKey("cb", st, fn, []*Term{j.conn}, free)
		x.r.problems(x.s.f, x.s.name+":callback")
		x.r.count("callback paths", paths)
		if paths == 0 {
			x.fail(nil, "callback-never", o.where, "the function that is told of closed connections never returns")
		}
	}
	if x.list == nil || x.lock == nil {
		return
	}
	// earlier reports stay in the list
	for _, o := range j.opens {
		fn, free := x.s.f.calleeOf(o.cb)
		if fn == nil {
			continue
		}
		st := o.st.Fork()
		st.kill("cb2")
		cs := x.s.someConns(st, "reported earlier")
		st.facts[ts.eq(j.conn, cs[0])] = false
		if !x.s.preset(st, x.list, cs) {
			x.fail(st, "list-kind", o.where, "closed connections are not put into a list: %s", regName(x.list))
			return
		}
		want := map[*Term]int{cs[0]: 1, j.conn: 1}
		x.s.client(Client{MaxDepth: 16, Unroll: 16,
			Frozen: func(addr *Term) bool { return x.s.inRegistry(map[*Term]bool{x.list: true}, addr) },
			Return: func(st *State, res []*Term, ins ssa.Instruction) {
				m, ok := x.s.members(st, x.list, nil)
				if !ok || !sameMembers(m, want) {
					x.fail(st, "list-lost", x.p.instrPos(ins), "reporting a closed connection leaves %s in %s instead of %s", memberNames(m), regName(x.list), memberNames(want))
				}
			}})
		x.s.f.RunKey("cb2", st, fn, []*Term{j.conn}, free)
		x.r.problems(x.s.f, x.s.name+":callback2")
	}
}

// readsField: the function, or what it calls, loads the field.
func (p *Program) readsField(fn *ssa.Function, aux string, seen map[*ssa.Function]bool) bool {
	if fn == nil || seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch v := ins.(type) {
			case *ssa.FieldAddr:
				k := p.fieldKey(v.X.Type(), v.Field)
				if k.Owner+"."+k.Field == aux {
					return true
				}
			case ssa.CallInstruction:
				if _, isGo := ins.(*ssa.Go); !isGo && p.readsField(v.Common().StaticCallee(), aux, seen) {
					return true
				}
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		if p.readsField(a, aux, seen) {
			return true
		}
	}
	return false
}

// reaps follows the reaper while connections are reported closed.
func (x *reaper) reaps(k kid, name string, arrivals [][]string, without map[*Term]string) {
	s, ts := x.s, x.s.f.ts
	st := s.st.Fork()
	names := []string{"x", "a", "y", "b", "z", "c"}
	cs := s.someConns(st, names...)
	by := map[string]*Term{}
	for i, n := range names {
		by[n] = cs[i]
	}
	wires := map[*Term]string{}
	for n, c := range by {
		wires[throughIface(s.netConnOf(st, c))] = n
	}
	dead := map[string]bool{}
	for _, as := range arrivals {
		for _, n := range as {
			dead[n] = true
		}
	}
	regs := map[*Term]bool{}
	for _, g := range x.reg {
		var in []*Term
		for i, c := range cs {
			if without[g] != names[i] {
				in = append(in, c)
			}
		}
		if !s.preset(st, g, in, cs...) {
			x.fail(st, "registry-kind", "-", "the connections are kept in %s, which is neither a list nor a map of connections", regName(g))
			return
		}
		regs[g] = true
	}
	s.preset(st, x.list, nil)
	st.props["turn"] = ts.integer(0)
	arrive := func(st *State) {
		t, _ := st.props["turn"].intVal()
		st.props["turn"] = ts.integer(t + 1)
		if int(t) >= len(arrivals) {
			return
		}
		m := st.loadPlain(x.list, cellType(x.list))
		es, ok := st.Elems(m, cellType(x.list).Underlying().(*types.Slice).Elem())
		if !ok {
			x.fail(st, "list-unknown", st.Where(), "what the reaper leaves in %s is unknown: %v", regName(x.list), m)
			return
		}
		for _, n := range arrivals[t] {
			es = append(es, by[n])
		}
		s.preset(st, x.list, es)
	}
	idle, ended := 0, 0
	check := func(st *State, where string, left map[*Term]int) {
		t, _ := st.props["turn"].intVal()
		gone := map[string]bool{}
		for i := 0; i < int(t) && i < len(arrivals); i++ {
			for _, n := range arrivals[i] {
				if left[by[n]] == 0 {
					gone[n] = true
				}
			}
		}
		for _, g := range x.reg {
			want := map[*Term]int{}
			for _, n := range names {
				if !gone[n] && without[g] != n {
					want[by[n]] = 1
				}
			}
			got, ok := s.members(st, g, cs)
			if !ok {
				x.fail(st, "registry-unknown:"+regName(g), where, "what the reaper leaves in %s is unknown", regName(g))
			} else if !sameMembers(got, want) {
				x.fail(st, "registry:"+regName(g), where, "after the reaper dealt with some of the connections x a y b z c, %s has %s instead of %s", regName(g), memberNames(got), memberNames(want))
			}
		}
		for n := range gone {
			if st.props["closed:"+n] == nil {
				x.fail(st, "unclosed", where, "the reaper forgets connection %s without closing it", n)
			}
		}
		for n := range by {
			if st.props["closed:"+n] != nil && !dead[n] {
				x.fail(st, "closes-other", where, "the reaper closes connection %s, which nobody reported", n)
			}
		}
	}
	hook := func(st *State, ci *CallInfo) []Out {
		if ci.Seen {
			return nil
		}
		ci.Seen = true
		if ci.Ext != "sync.Cond.Wait" {
			return nil
		}
		where := x.p.instrPos(ci.Ins)
		if ci.Args[0] != x.cond {
			x.fail(st, "other-cond", where, "the reaper waits for something else than what closed connections are announced with")
			return []Out{}
		}
		if !holds(st, x.lock) {
			x.fail(st, "wait-unlocked", where, "the reaper waits without holding the lock of %s", regName(x.list))
			return []Out{}
		}
		left, ok := s.members(st, x.list, nil)
		if !ok || len(left) > 0 {
			x.fail(st, "asleep", where, "the reaper waits while %s has %s", regName(x.list), memberNames(left))
			return []Out{}
		}
		check(st, where, left)
		t, _ := st.props["turn"].intVal()
		if int(t) >= len(arrivals) {
			idle++
			return []Out{}
		}
		st.kill("wait:" + st.name(ci.Ins))
		arrive(st)
		return []Out{{st, nil}}
	}
	s.client(Client{MaxDepth: 16, Unroll: 64, Follow: 16, Call: hook, Model: hook,
		Frozen: func(addr *Term) bool {
			return addr == x.list || s.inRegistry(regs, addr)
		},
		Event: func(st *State, ev *Event) {
			switch ev.Kind {
			case "lock":
				noteLock(st, ev)
				if lockOf(ev) == x.lock {
					arrive(st)
				}
			case "unlock":
				noteLock(st, ev)
			case "closeconn":
				if n, ok := wires[throughIface(ev.Args[0])]; ok {
					st.props["closed:"+n] = ts.True
				}
			}
		},
		Store: func(st *State, addr, val *Term, ins ssa.Instruction) {
			if addr == x.list && !holds(st, x.lock) {
				x.fail(st, "take-unlocked", x.p.instrPos(ins), "the reaper changes %s without holding its lock", regName(x.list))
			}
		},
		Return: func(st *State, res []*Term, ins ssa.Instruction) {
			ended++
			ctx := s.sckCell(x.p.ctxField())
			if !st.cancelled(st.loadPlain(ctx, cellType(ctx))) {
				x.fail(st, "ends", x.p.instrPos(ins), "the reaper ends while the socket is open")
			}
		}})
	st.kill("go")
	s.f.RunKey("reap", st, x.fn, k.args, k.free)
	x.r.problems(s.f, s.name+":reaper")
	x.r.count("reaper paths", idle+ended)
	if idle == 0 && !x.bad {
		x.fail(nil, "never-idle:"+name, x.p.pos(x.fn.Pos()), "the reaper never gets to the end of the reported connections (%s)", name)
	}
}

// members that were added
func (x *reaper) joins(op string) {
	s := x.s
	j := x.p.newJoinRun(s)
	st := s.st.Fork()
	cs := s.someConns(st, "x", "y")
	regs := map[*Term]bool{}
	for _, g := range x.reg {
		if !s.preset(st, g, cs) {
			return
		}
		regs[g] = true
	}
	for _, c := range cs {
		st.facts[s.f.ts.eq(j.conn, c)] = false
	}
	all := append(cs[:2:2], j.conn)
	st.pins = append(st.pins[:len(st.pins):len(st.pins)], j.conn)
	want := map[*Term]int{cs[0]: 1, cs[1]: 1, j.conn: 1}
	added := 0
	j.frz = func(addr *Term) bool { return s.inRegistry(regs, addr) }
	j.event = func(st *State, ev *Event) {
		if ev.Kind == "closeconn" && throughIface(ev.Args[0]) == throughIface(s.netConnOf(st, j.conn)) {
			st.props["closed"] = s.f.ts.True
		}
	}
	j.ret = func(j *joinRun, st *State, fn *ssa.Function, res []*Term, ins ssa.Instruction) {
		if st.props["opened"] == nil || st.props["closed"] != nil {
			return
		}
		added++
		for _, g := range x.reg {
			got, ok := s.members(st, g, all)
			if !ok || !sameMembers(got, want) {
				x.fail(st, "join:"+op+":"+regName(g), x.p.instrPos(ins), "%s: a connection is added to x and y, and %s has %s", op, regName(g), memberNames(got))
			}
		}
	}
	for _, m := range j.run(op, st, func(k kid) bool { return x.p.callsOpen(k.fn) }) {
		x.fail(nil, "unanalysed", "-", "%s", m)
	}
	if added == 0 {
		x.fail(nil, "join-never:"+op, x.p.pos(s.method(op).Pos()), "%s never adds a connection", op)
	}
	x.r.count("joins", added)
	x.served(j, regs, cs)
}

// served: goroutines that serve the new connection forget that one only.
func (x *reaper) served(j *joinRun, regs map[*Term]bool, cs []*Term) {
	s := x.s
	readers := map[*ssa.Function]bool{}
	for _, fn := range x.p.connReaders() {
		readers[fn] = true
	}
	done := map[string]bool{}
	all := append(cs[:2:2], j.conn)
	for _, k := range j.kids {
		if k.st.props["opened"] == nil || x.p.callsOpen(k.fn) || k.fn == x.fn {
			continue
		}
		sig := x.p.instrPos(k.ins)
		if done[sig] {
			continue
		}
		done[sig] = true
		n := k.st.Fork()
		delete(n.props, "closed")
		for _, g := range x.reg {
			s.preset(n, g, all)
		}
		n.pins = append(append(append(n.pins[:len(n.pins):len(n.pins)], k.args...), k.free...), all...)
		for _, c := range cs {
			n.facts[s.f.ts.eq(j.conn, c)] = false
		}
		n.kill("go")
		hook := func(st *State, ci *CallInfo) []Out {
			if ci.Seen {
				return nil
			}
			ci.Seen = true
			if ci.Fn != nil && (readers[ci.Fn] || ci.Fn == x.p.connMethod("SendMsg") || ci.Fn == x.p.connMethod("SendCmd")) {
				nm := st.name(ci.Ins)
				st.kill("io:" + nm)
				rt := ci.Ins.Common().Signature().Results()
				var res *Term
				if rt.Len() == 1 {
					res = st.unknown("got:"+nm, rt.At(0).Type())
				} else {
					res = st.unknown("got:"+nm, rt)
				}
				return []Out{{st, res}}
			}
			return nil
		}
		s.client(Client{MaxDepth: 16, Call: hook, Model: hook, Unroll: 24,
			Frozen: func(addr *Term) bool { return s.inRegistry(regs, addr) },
			Return: func(st *State, res []*Term, ins ssa.Instruction) {
				for _, g := range x.reg {
					got, ok := s.members(st, g, all)
					if !ok {
						x.fail(st, "served-unknown:"+regName(g), x.p.instrPos(ins), "what the goroutine that runs %s leaves in %s is unknown", x.p.fnName(k.fn), regName(g))
						continue
					}
					for _, c := range cs {
						if got[c] != 1 {
							x.fail(st, "served:"+regName(g), x.p.instrPos(ins), "the goroutine that runs %s for the new connection leaves %s of the connections x, y and the new one in %s", x.p.fnName(k.fn), memberNames(got), regName(g))
						}
					}
				}
			}})
		s.f.RunKey("served", n, k.fn, k.args, k.free)
		x.r.problems(s.f, s.name+":"+x.p.fnName(k.fn))
		x.r.count("serving goroutines", 1)
	}
}

// started: whenever Dial or Listen succeeds, the reaper runs.
func (x *reaper) started(op string) {
	s, ts := x.s, x.s.f.ts
	j := x.p.newJoinRun(s)
	ok, viaFlag := 0, 0
	flags := map[*Term]bool{}
	type late struct {
		st  *State
		ins ssa.Instruction
	}
	var without []late
	j.event = func(st *State, ev *Event) {
		if ev.Kind == "once" && x.p.starts(ev.Fn, x.fn) {
			// done before: that run is one of the paths looked at here
			st.props["reaper"] = ts.True
			viaFlag++
		}
		if ev.Kind == "go" && ev.Fn == x.fn {
			st.props["reaper"] = ts.True
			for a, v := range st.heap {
				if j.inSocket(a) && v == ts.True && x.p.stickyOf(a) != nil {
					flags[a] = true
				}
			}
		}
	}
	fn := s.method(op)
	j.ret = func(j *joinRun, st *State, g *ssa.Function, res []*Term, ins ssa.Instruction) {
		if g != fn || len(res) == 0 || !st.Fork().Assume(ts.eq(res[0], ts.Nil), true) {
			return
		}
		ok++
		if st.props["reaper"] == nil {
			without = append(without, late{st.Fork(), ins})
		}
	}
	for _, m := range j.run(op, s.st.Fork(), func(k kid) bool { return false }) {
		x.fail(nil, "unanalysed", "-", "%s", m)
	}
	for _, w := range without {
		found := false
		for a := range flags {
			if v, known := w.st.Eval(w.st.loadPlain(a, cellType(a))); known && v {
				found = true
			}
		}
		if !found {
			x.fail(w.st, "unreaped:"+op, x.p.instrPos(w.ins), "%s succeeds without the reaper running", op)
		} else {
			viaFlag++
		}
	}
	if ok == 0 {
		x.fail(nil, "start-never:"+op, x.p.pos(fn.Pos()), "%s never succeeds", op)
	}
	x.r.count("reaper starts", ok)
}

func checkC17(p *Program, r *Report) {
	r.rule("for every socket type: the function given to Open as close callback, on every path, puts the connection into one list of the socket under one lock, keeps what is in it, and signals the condition that the reaper waits on")
	r.rule("the reaper, from a socket with six connections in all of its registries (the lists and maps of connections that Dial and accepting add to) of which some are reported closed before it starts, while it waits and while it works: whenever it waits, the list is empty, every reported connection was closed and is in no registry, and all others are in all of them; it ends only with the socket's context")
	r.rule("whenever Dial or Listen succeeds the reaper was started; a new connection is added to every registry and removes none; a goroutine that serves it removes no other connection from one")
	r.rule("the list of closed connections and the registries are accessed under their locks (lockset analysis)")
	fields := map[string]bool{}
	for _, s := range p.instances() {
		x := &reaper{p: p, s: s, r: r}
		j, ok := p.discover(s, r)
		if !ok {
			continue
		}
		if len(j.opens) < 2 {
			x.fail(nil, "opens", "-", "Dial and accepting do not both reach Open")
			continue
		}
		conns := s.sckCell(p.connsField())
		if !j.reg[conns] {
			x.fail(nil, "unregistered", "-", "new connections are not added to the socket's connections")
		}
		for _, g := range sortedTerms(j.reg) {
			x.reg = append(x.reg, g)
			if g.op == "fa" {
				fields[g.aux] = true
			}
		}
		x.callbacks(j)
		if x.list == nil || x.lock == nil || x.cond == nil {
			if !x.bad {
				x.fail(nil, "no-list", "-", "no list of closed connections was found")
			}
			continue
		}
		fields[x.list.aux] = true
		var rk kid
		for _, k := range j.kids {
			if !p.callsOpen(k.fn) && p.readsField(k.fn, x.list.aux, map[*ssa.Function]bool{}) {
				if x.fn != nil && x.fn != k.fn {
					x.fail(nil, "reapers", p.instrPos(k.ins), "two goroutines read %s", regName(x.list))
				}
				x.fn, rk = k.fn, k
			}
		}
		if x.fn == nil {
			x.fail(nil, "no-reaper", "-", "no goroutine that Dial or Listen start reads %s", regName(x.list))
			continue
		}
		x.started("Dial")
		x.started("Listen")
		x.reaps(rk, "before", [][]string{{"a", "b"}, {"c"}}, nil)
		x.reaps(rk, "waiting", [][]string{{}, {"a", "b"}, {"c"}}, nil)
		x.reaps(rk, "ends", [][]string{{"x", "c"}, {}, {"a", "y"}}, nil)
		for _, g := range x.reg {
			if g != conns {
				x.reaps(rk, "gone", [][]string{{"a", "b"}, {"c"}}, map[*Term]string{g: "a"})
			}
		}
		x.joins("Dial")
		x.joins("Listen")
		if !x.bad {
			r.ok("%s: %d registries, reaper %s", s.name[3:], len(x.reg), p.fnName(x.fn))
		}
		r.count("sockets", 1)
		r.count("registries", len(x.reg))
	}
	p.racesOf(r, fields)
	r.atLeast("sockets", 12)
	r.atLeast("registries", 30)
	r.atLeast("reaper paths", 40)
}

// racesOf reports the accesses to the fields that no common lock orders.
func (p *Program) racesOf(r *Report, fields map[string]bool) {
	rr := newReport("races")
	checkC01(p, rr)
	n := 0
	for _, f := range rr.Findings {
		ks := strings.Split(f.Key, ":")
		if len(ks) > 1 && fields[ks[1]] {
			n++
			r.fail(f.Key, f.Where, f.Trace, "%s", f.Msg)
		}
	}
	if n == 0 {
		r.ok("%d fields are accessed under their locks", len(fields))
	}
}

// dialFn is the method that dials for every socket.
func (p *Program) dialFn(s *sockInst) *ssa.Function {
	T := types.NewPointer(p.sockStruct())
	return p.methodOf(T, "Dial")
}

// optionField is the field that an exported option function of one argument sets.
func (p *Program) optionField(name string) string {
	fn := p.mustFunc(p.Root, name)
	for _, a := range fn.AnonFuncs {
		for _, b := range a.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						k := p.fieldKey(fa.X.Type(), fa.Field)
						return k.Owner + "." + k.Field
					}
				}
			}
		}
	}
	fatalf("anchor not found: the field that %s sets", name)
	return ""
}

func checkC18(p *Program, r *Report) {
	r.rule("for every socket type: on every path of the close callback of a dialed connection, a goroutine that dials the endpoint given to that Dial is started exactly if the option for automatic reconnection is set; the callback itself does not dial, wait or sleep")
	r.rule("the close callback of an accepted connection, the failing paths of Dial, and all other goroutines of the module dial nothing; Open neither calls nor stores the callback on a path on which it fails")
	opt := p.optionField("WithAutomaticReconnect")
	dials := map[*ssa.Function]bool{}
	fromCB := map[*ssa.Function]bool{}
	for _, s := range p.instances() {
		ts := s.f.ts
		dial := p.dialFn(s)
		dials[dial] = true
		x := &reaper{p: p, s: s, r: r}
		// Dial and accepting start no reconnection by themselves
		j := p.newJoinRun(s)
		for _, op := range []string{"Dial", "Listen"} {
			for _, m := range j.run(op, s.st.Fork(), func(k kid) bool { return p.callsOpen(k.fn) && !p.reaches(k.fn, map[*ssa.Function]bool{dial: true}) }) {
				x.fail(nil, "unanalysed", "-", "%s", m)
			}
		}
		for _, k := range j.kids {
			if p.reaches(k.fn, map[*ssa.Function]bool{dial: true}) {
				x.fail(k.st, "dials:"+p.fnName(k.fn), p.instrPos(k.ins), "Dial or Listen start a goroutine that dials by itself")
			}
		}
		dialed, accepted := 0, 0
		ep := s.f.Param("param:Dial."+s.method("Dial").Params[1].Name(), s.method("Dial").Params[1].Type())
		for _, o := range j.opens {
			fn, free := s.f.calleeOf(o.cb)
			if fn == nil || !s.f.hasBody(fn) {
				x.fail(o.st, "callback", o.where, "the function that is told of closed connections is unknown: %v", o.cb)
				continue
			}
			isDial := o.st.props["made:lis"] == nil
			if isDial {
				dialed++
			} else {
				accepted++
			}
			for _, on := range []bool{true, false} {
				var kids []kid
				load := func(st *State, addr *Term, t types.Type) *Term {
					if addr.op == "fa" && addr.aux == opt {
						return ts.boolean(on)
					}
					return nil
				}
				var hook func(st *State, ci *CallInfo) []Out
				inKid := false
				hook = func(st *State, ci *CallInfo) []Out {
					if ci.Seen {
						return nil
					}
					ci.Seen = true
					if ci.Fn == dial && !ci.Go {
						if !inKid {
							x.fail(st, "inline", p.instrPos(ci.Ins), "the connection is dialed again within the Send or Recv that noticed the loss")
						}
						if isDial && on && throughIface(ci.Args[0]) == s.sckAddr() && ci.Args[1] == ep {
							st.props["redialed"] = ts.True
						} else if isDial && on {
							x.fail(st, "endpoint", p.instrPos(ci.Ins), "a lost connection is dialed again with %v instead of its own endpoint", ci.Args[1])
						} else if !isDial {
							x.fail(st, "accepted", p.instrPos(ci.Ins), "an accepted connection that is lost leads to dialing")
						} else {
							x.fail(st, "off", p.instrPos(ci.Ins), "a lost connection is dialed again though automatic reconnection is off")
						}
						st.kill("dialed:" + st.name(ci.Ins))
						return []Out{{st, st.unknown("err:"+st.name(ci.Ins), types.Universe.Lookup("error").Type())}}
					}
					if k := makesConn(ci); k != "" || ci.Ext == "time.Sleep" {
						if !inKid {
							x.fail(st, "dial-inline", p.instrPos(ci.Ins), "the close callback itself calls %s", ci.Ext)
						}
					}
					return nil
				}
				event := func(st *State, ev *Event) {
					switch ev.Kind {
					case "go", "afterfunc":
						v := ev.Args[0]
						args := []*Term(nil)
						if ev.Kind == "go" {
							args = ev.Args[1:]
						} else {
							v = ev.Args[1]
						}
						g, fr := ev.Fn, []*Term(nil)
						if g == nil || v.op == "clos" {
							g, fr = s.f.calleeOf(v)
						}
						if g == nil || !s.f.hasBody(g) {
							return
						}
						if g == dial || p.reaches(g, map[*ssa.Function]bool{dial: true}) {
							fromCB[g] = true
							n := 0
							if st.props["again"] != nil {
								x.fail(st, "twice", p.instrPos(ev.Ins), "a lost connection is dialed again twice")
							}
							st.props["again"] = ts.True
							_ = n
							k := kid{st.Fork(), g, args, fr, ev.Ins}
							kids = append(kids, k)
						}
					case "recv", "select", "wait", "blocked":
						if !inKid {
							x.fail(st, "waits", p.instrPos(ev.Ins), "the close callback waits within the Send or Recv that noticed the loss")
						}
					}
				}
				paths := 0
				st := o.st.Fork()
				st.kill("cb")
				st.pins = append(st.pins[:len(st.pins):len(st.pins)], ep)
				s.client(Client{MaxDepth: 16, Call: hook, Model: hook, Event: event, Load: load,
					Return: func(st *State, res []*Term, ins ssa.Instruction) {
						paths++
						if isDial && on && st.props["again"] == nil && st.props["redialed"] == nil {
							x.fail(st, "no-reconnect", p.instrPos(ins), "a dialed connection that is lost is not dialed again though automatic reconnection is on")
						}
						if st.props["again"] != nil && !isDial {
							x.fail(st, "accepted", p.instrPos(ins), "an accepted connection that is lost leads to dialing")
						}
						if st.props["again"] != nil && !on {
							x.fail(st, "off", p.instrPos(ins), "a lost connection is dialed again though automatic reconnection is off")
						}
					}})
				s.f.RunKey("cb", st, fn, []*Term{j.conn}, free)
				r.problems(s.f, s.name+":callback")
				r.count("callback paths", paths)
				if paths == 0 {
					x.fail(nil, "callback-never", o.where, "the close callback never returns")
				}
				inKid = true
				done := map[string]bool{}
				for len(kids) > 0 {
					k := kids[0]
					kids = kids[1:]
					if done[p.instrPos(k.ins)] {
						continue
					}
					done[p.instrPos(k.ins)] = true
					if k.fn == dial {
						if throughIface(k.args[0]) != s.sckAddr() || k.args[1] != ep {
							x.fail(k.st, "endpoint", p.instrPos(k.ins), "a lost connection is dialed again with %v instead of its own endpoint", k.args[1])
						}
						r.count("reconnections", 1)
						continue
					}
					again := 0
					ctx := s.sckCell(p.ctxField())
					s.client(Client{MaxDepth: 16, Call: hook, Model: hook, Event: event, Load: load,
						Return: func(st *State, res []*Term, ins ssa.Instruction) {
							if st.props["redialed"] != nil {
								again++
								return
							}
							// a closed socket need not
							if st.cancelled(st.loadPlain(ctx, cellType(ctx))) {
								return
							}
							for a, v := range st.heap {
								if base(a) == s.sckAddr() && v == ts.True && p.stickyOf(a) != nil {
									return
								}
							}
							for c, v := range st.facts {
								if v && c.op == "ld" && len(c.args) > 0 && p.stickyOf(c.args[0]) != nil {
									return
								}
							}
							if on && isDial {
								x.fail(st, "gives-up", p.instrPos(ins), "the goroutine that is to dial again ends without")
							}
						}})
					k.st.kill("go")
					s.f.RunKey("again", k.st, k.fn, k.args, k.free)
					r.problems(s.f, s.name+":reconnection")
					r.count("reconnections", 1)
					if again == 0 && on && isDial {
						x.fail(nil, "never-again", p.instrPos(k.ins), "the goroutine that is to dial again never does")
					}
				}
			}
		}
		if dialed == 0 || accepted == 0 {
			x.fail(nil, "opens", "-", "Dial and accepting do not both reach Open (%d, %d)", dialed, accepted)
		}
		if !x.bad {
			r.ok("%s: dialed connections are dialed again, accepted ones are not", s.name[3:])
		}
		r.count("sockets", 1)
	}
	// nothing else dials in the background
	for _, fn := range append(p.goTargets(), p.lateFuncs()...) {
		if fn.Pkg != nil && fn.Pkg.Pkg != p.Root || fn.Pkg == nil && fnPkg(fn) != p.Root {
			continue
		}
		if !fromCB[fn] && (dials[fn] || p.reaches(fn, dials)) {
			r.fail("background:"+p.fnName(fn), p.pos(fn.Pos()), nil, "the goroutine that runs %s dials", p.fnName(fn))
		}
	}
	p.quietOpen(r)
	r.atLeast("sockets", 12)
	r.atLeast("reconnections", 12)
}

// quietOpen: a handshake that fails notifies nobody.
func (p *Program) quietOpen(r *Report) {
	open := p.openFn()
	f := p.newFlow(Client{})
	ts := f.ts
	st := p.initState(f, p.Root, true).Fork()
	args, _ := f.params(st, open)
	cb := args[len(args)-1]
	st.facts[ts.eq(cb, ts.Nil)] = false
	bad := false
	fails, succ := 0, 0
	hook := func(st *State, ci *CallInfo) []Out {
		if ci.Seen {
			return nil
		}
		ci.Seen = true
		if ci.Clos == cb {
			st.props["told"] = ts.True
			st.note("%s: the callback is called", p.instrPos(ci.Ins))
			return []Out{{st, nil}}
		}
		return nil
	}
	f.c = Client{MaxDepth: 24, Call: hook, Model: hook,
		Event: func(st *State, ev *Event) {
			if ev.Kind == "go" && len(ev.Args) > 0 && ev.Args[0] == cb {
				st.props["told"] = ts.True
			}
		},
		Return: func(st *State, res []*Term, ins ssa.Instruction) {
			if st.props["told"] != nil {
				bad = true
				r.fail("told", p.instrPos(ins), st.Trace(), "Open calls the close callback before the connection was handed out")
			}
			if n := st.Fork(); n.Assume(ts.eq(res[1], ts.Nil), false) {
				fails++
				for a, v := range st.heap {
					if v == cb && a.op == "fa" && st.esc[base(a)] {
						bad = true
						r.fail("kept", p.instrPos(ins), n.Trace(), "Open fails, but leaves the close callback in %s", regName(a))
					}
				}
			} else {
				succ++
			}
		}}
	f.RunKey("open", st, open, args, nil)
	r.problems(f, "Open")
	r.count("failing handshakes", fails)
	if fails == 0 || succ == 0 {
		r.fail("open-never", p.pos(open.Pos()), nil, "Open never fails or never succeeds (%d, %d)", fails, succ)
	}
	if !bad {
		r.ok("Open fails on %d paths without notifying anybody", fails)
	}
}

// starts: the function has a go statement for the other one.
func (p *Program) starts(fn, what *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					g := c.Common().StaticCallee()
					if _, ok := ins.(*ssa.Go); ok && g == what || visit(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return visit(fn)
}
