package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C05", checkC05)
}

// sckField finds the field of the socket struct that ok accepts.
func (p *Program) sckField(what string, ok func(v *types.Var) bool) int {
	st := p.sockStruct().Underlying().(*types.Struct)
	r := -1
	for i := 0; i < st.NumFields(); i++ {
		if ok(st.Field(i)) {
			if r >= 0 {
				fatalf("two fields of the socket look like %s", what)
			}
			r = i
		}
	}
	if r < 0 {
		fatalf("anchor not found: the field of the socket that holds %s", what)
	}
	return r
}

func (p *Program) connsField() int {
	return p.sckField("the connections", func(v *types.Var) bool { return v.Name() == "conns" })
}
func (p *Program) listenerField() int {
	return p.sckField("the listener", func(v *types.Var) bool { return isNamed(v.Type(), "net", "Listener") })
}
func (p *Program) ctxField() int {
	return p.sckField("the context", func(v *types.Var) bool { return isNamed(v.Type(), "context", "Context") })
}

// sckCell is the address of a field of the instance's socket.
func (s *sockInst) sckCell(i int) *Term {
	return s.st.fa(types.NewPointer(s.f.p.sockStruct()), s.sckAddr(), i)
}

// connList is a list of n connections nobody else knows.
func (s *sockInst) connList(st *State, n int) (*Term, []*Term) {
	ts := s.f.ts
	T := types.NewPointer(s.f.p.mustType("Conn"))
	var cs []*Term
	for i := 0; i < n; i++ {
		c := ts.sym("conn:"+string(rune('a'+i)), T)
		st.facts[ts.eq(c, ts.Nil)] = false
		for _, o := range cs {
			st.facts[ts.eq(o, c)] = false
		}
		cs = append(cs, c)
	}
	var parts []*Term
	for _, c := range cs {
		parts = append(parts, ts.mk("elem", "", nil, c))
	}
	return st.seq(parts, types.NewSlice(T)), cs
}

// netConnOf is the transport connection inside c.
func (s *sockInst) netConnOf(st *State, c *Term) *Term {
	T := s.f.p.mustType("Conn")
	u := T.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if isNamed(u.Field(i).Type(), "net", "Conn") {
			return st.loadPlain(st.fa(types.NewPointer(T), c, i), u.Field(i).Type())
		}
	}
	fatalf("anchor not found: the transport connection of a Conn")
	return nil
}

var lockNames = map[string]bool{"sync.Mutex.Lock": true, "sync.RWMutex.Lock": true, "sync.RWMutex.RLock": true, "sync.Locker.Lock": true}

func checkC05(p *Program, r *Report) {
	r.rule("Close from the socket as constructed, with a listener or without and three connections: on every path that finds the socket open and returns, the socket's context was cancelled, the listener and the connections were closed, the connections and the listener were read no earlier than the critical section that marks the socket closed, and only the path of the endpoint stored with the listener is removed, if it is an ipc endpoint and there is a listener")
	r.rule("Dial, Listen and the goroutines they start, with the socket marked closed at any acquisition of a lock of the socket after the connection or listener was made: what was made is closed when they end")
	r.rule("the field that names the removed file is written only where the listener is stored, with the endpoint given")
	r.assume("net.Conn.Close and net.Listener.Close close what they are called on; exclusion by the socket's lock is decided by C01")
	sckPtr := types.NewPointer(p.sockStruct())
	st0 := p.sockStruct().Underlying().(*types.Struct)
	for _, s := range p.instances() {
		ts := s.f.ts
		name := s.name[3:]
		conns, lis, ctx := s.sckCell(p.connsField()), s.sckCell(p.listenerField()), s.sckCell(p.ctxField())
		sck := s.sckAddr()
		bad := false
		var closing []map[*Term]*Term
		epCells := map[*Term]bool{}
		for _, withLis := range []bool{false, true} {
			st := s.st.Fork()
			list, cs := s.connList(st, 3)
			var l *Term = ts.Nil
			if withLis {
				l = ts.sym("listener", cellType(lis))
				st.facts[ts.eq(l, ts.Nil)] = false
			}
			ctxV := st.loadPlain(ctx, cellType(ctx))
			fail := func(st *State, key, where, f string, a ...any) {
				bad = true
				r.fail("close:"+s.name+":"+key, where, st.Trace(), "Close of a "+name+" socket "+f, a...)
			}
			sticky := func(st *State, where string) {
				n := st.Fork()
				n.kill("closing")
				m := map[*Term]*Term{}
				for a, v := range n.heap {
					if base(a) == sck && p.stickyOf(a) != nil && !n.frozen(a) && v.isConst() {
						m[a] = v
					}
				}
				closing = append(closing, m)
			}
			n, open := 0, 0
			s.client(Client{Unroll: 8, RunGroups: true,
				Load: func(st *State, addr *Term, t types.Type) *Term {
					switch addr {
					case conns, lis:
						if _, own := st.heap[addr]; own && addr == conns {
							return nil // Close emptied it
						}
						st.props["read"] = ts.True
						if addr == conns {
							return list
						}
						return l
					}
					if base(addr) == sck && p.stickyOf(addr) != nil && !st.frozen(addr) && st.heap[addr] == nil {
						if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&(types.IsBoolean|types.IsInteger) != 0 {
							return st.zero(t)
						}
					}
					return nil
				},
				Event: func(st *State, ev *Event) {
					switch ev.Kind {
					case "unlock":
						if st.props["read"] != nil {
							sticky(st, p.instrPos(ev.Ins))
							delete(st.props, "read")
						}
					case "closeconn":
						x := throughIface(ev.Args[0])
						st.props["closed:"+x.String()] = x
					case "remove":
						x := ev.Args[0]
						var ep *Term
						x.walk(func(y *Term) {
							if y.op == "ld" && base(y.args[0]) == sck {
								ep = y
							}
						})
						switch {
						case !withLis:
							fail(st, "remove", p.instrPos(ev.Ins), "removes a file although it does not listen")
						case ep == nil:
							fail(st, "remove", p.instrPos(ev.Ins), "removes %v, which is not the endpoint it listens on", x)
						default:
							epCells[ep.args[0]] = true
							if !strings.Contains(x.String(), "ipc://") && !st.ipcOnly(ep) {
								fail(st, "remove", p.instrPos(ev.Ins), "removes %v without knowing that the endpoint is an ipc one", x)
							}
							if x == ep {
								fail(st, "remove", p.instrPos(ev.Ins), "removes %v, which includes the scheme", x)
							}
						}
					}
					if m := p.crash(st, ev); m != "" {
						fail(st, "panic", p.instrPos(ev.Ins), "may panic: %s", m)
					}
				},
				Return: func(st *State, res []*Term, ins ssa.Instruction) {
					n++
					where := p.instrPos(ins)
					if st.props["read"] != nil {
						sticky(st, where)
					}
					open++
					if !st.cancelled(ctxV) {
						fail(st, "ctx", where, "returns without having cancelled its context")
					}
					if withLis && st.props["closed:"+l.String()] == nil {
						fail(st, "listener", where, "returns without having closed its listener")
					}
					for _, c := range cs {
						if st.props["closed:"+throughIface(s.netConnOf(st, c)).String()] == nil {
							fail(st, "conns", where, "returns without having closed every connection")
						}
					}
				}})
			s.run(st, "close", "Close")
			r.problems(s.f, s.name+".Close")
			r.count("paths of Close", n)
			if open == 0 {
				fail(st, "never", p.pos(s.method("Close").Pos()), "never returns")
			}
		}
		if len(closing) == 0 {
			r.fail("unread:"+s.name, p.pos(s.method("Close").Pos()), nil, "Close of a %s socket never looks at its connections", name)
			continue
		}
		// what is known for certain to be set once Close has looked
		sure := closing[0]
		for _, m := range closing[1:] {
			for a, v := range sure {
				if m[a] != v {
					delete(sure, a)
				}
			}
		}
		if !bad {
			r.ok("Close of %s: context cancelled, listener and connections closed", name)
		}
		var cells []*Term
		for a := range sure {
			cells = append(cells, a)
		}
		sort.Slice(cells, func(i, j int) bool { return cells[i].id < cells[j].id })
		if len(cells) == 0 {
			r.fail("unmarked:"+s.name, p.pos(s.method("Close").Pos()), nil, "Close of a %s socket looks at its connections before it is marked closed", name)
			continue
		}
		for _, op := range []string{"Dial", "Listen"} {
			t := &tracker{p: p, r: r, f: s.f, base: s.st, done: map[string]bool{}}
			t.what = s.name + "." + op
			t.key = s.name + ":" + op
			injected := 0
			mk := func(st *State, ci *CallInfo, kind string) []Out {
				sig := ci.Meth.Type().(*types.Signature)
				nm := st.name(ci.Ins)
				st.kill("drv:" + nm)
				v := ts.sym(kind+":"+nm, sig.Results().At(0).Type())
				st.facts[ts.eq(v, ts.Nil)] = false
				t.made++
				st.props["res:"+kind+nm] = v
				return []Out{{st, ts.mk("agg", "tuple", sig.Results(), v, ts.Nil)}}
			}
			hook := func(st *State, ci *CallInfo) []Out {
				if k := makesConn(ci); k != "" {
					return mk(st, ci, k)
				}
				if ci.Fn != nil && p.isOpen(ci.Fn) {
					// the handshake: made, or failed
					sig := ci.Fn.Signature
					nm := st.name(ci.Ins)
					n := st.Fork()
					n.kill("open:" + nm)
					e := ts.sym("openerr:"+nm, sig.Results().At(1).Type())
					n.facts[ts.eq(e, ts.Nil)] = false
					st.kill("open:" + nm)
					CT := sig.Results().At(0).Type()
					c := ts.mk("alloc", "opened:"+nm, CT)
					st.clearObj(c)
					st.allocs[c] = true
					u := deref(CT).Underlying().(*types.Struct)
					for i := 0; i < u.NumFields(); i++ {
						fa := st.fa(CT, c, i)
						if isNamed(u.Field(i).Type(), "net", "Conn") {
							st.heap[fa] = ci.Args[0]
						} else {
							st.Store(fa, u.Field(i).Type(), st.unknown("opened:"+nm+"."+u.Field(i).Name(), u.Field(i).Type()))
						}
					}
					return []Out{{n, ts.mk("agg", "tuple", sig.Results(), ts.Nil, e)}, {st, ts.mk("agg", "tuple", sig.Results(), c, ts.Nil)}}
				}
				if lockNames[ci.Ext] && base(ci.Args[0]) == sck && st.props["closing"] == nil && len(t.live(st)) > 0 {
					nm := st.name(ci.Ins)
					st.kill("lock:" + nm)
					s.f.event(st, "lock", ci.Ins, ci.Args...)
					n := st.Fork()
					n.note("%s: the socket was closed meanwhile", p.instrPos(ci.Ins))
					n.props["closing"] = ts.True
					for _, a := range cells {
						n.heap[a] = sure[a]
					}
					injected++
					return []Out{{n, nil}, {st, nil}}
				}
				return nil
			}
			store := func(st *State, addr, val *Term, ins ssa.Instruction) {
				t.store(st, addr, val, ins)
				if epCells[addr] {
					if op != "Listen" || len(t.kids) > 0 || !val.has(s.f.ts.sym("param:Listen.ep", val.typ)) && val.op != "sym" {
						t.fail(st, "endpoint", p.instrPos(ins), "the endpoint whose file Close removes is set to "+val.String())
					}
					st.props["epset"] = val
				}
			}
			ended := func(st *State, res []*Term, ins ssa.Instruction) {
				for _, v := range res {
					t.keep(st, v)
				}
				if st.props["closing"] == nil {
					return
				}
				for k, v := range st.props {
					if strings.HasPrefix(k, "own:") {
						t.fail(st, "late", p.instrPos(ins), v.show(2)+" is kept by a socket that is closed")
					}
					if strings.HasPrefix(k, "res:") {
						t.fail(st, "leak", p.instrPos(ins), v.show(2)+" is left open when the socket was closed meanwhile")
					}
				}
			}
			c := Client{Call: hook, Model: hook, Store: store, Event: t.event, Return: ended, MaxDepth: 24}
			s.client(c)
			s.run(s.st.Fork(), "late", op)
			r.problems(s.f, t.what)
			t.children(c, s.name)
			r.count("late points", injected)
			if injected == 0 {
				r.fail("unlocked:"+t.key, p.pos(s.method(op).Pos()), nil, "%s of a %s socket never takes the socket's lock after establishing", op, name)
			}
			if !t.bad {
				r.ok("%s of %s: what is established while the socket is closed is closed (%d points)", op, name, injected)
			}
		}
		r.count("sockets", 1)
		_ = sckPtr
		_ = st0
	}
	r.atLeast("sockets", 12)
}

// ipcOnly: the endpoint is known to begin with ipc://
func (s *State) ipcOnly(ep *Term) bool {
	ok := false
	for t, v := range s.facts {
		if v && t.has(ep) && t.contains(func(y *Term) bool {
			if c, isS := y.strVal(); isS {
				return strings.HasPrefix(c, "ipc")
			}
			return false
		}) {
			ok = true
		}
	}
	return ok
}
