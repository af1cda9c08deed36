package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C06", checkC06)
}

// touches names what an event or external call does to the network or a queue.
func touches(f *Flow, st *State, ev *Event) string {
	switch ev.Kind {
	case "send":
		return "sends on a channel"
	case "recv":
		if ev.Args[0].op != "done" {
			return "receives from a channel"
		}
	case "selected":
		if ev.Case >= 0 && ev.Args[0].op != "done" {
			return "uses a channel"
		}
	case "go":
		return "starts a goroutine"
	case "read", "copyn":
		return "reads from the network"
	case "write":
		return "writes to the network"
	}
	return ""
}

// isTransport: an interface of package transport, or anything that dials or listens.
func (p *Program) isDriverCall(ci *CallInfo) bool {
	if ci.Meth == nil {
		switch ci.Ext {
		case "net.Dial", "net.Listen", "net.DialTimeout", "net.Dialer.Dial", "net.Dialer.DialContext", "net.ListenConfig.Listen":
			return true
		}
		return false
	}
	if ci.Meth.Name() != "Dial" && ci.Meth.Name() != "Listen" {
		return false
	}
	sig := ci.Meth.Type().(*types.Signature)
	if sig.Results().Len() != 2 {
		return false
	}
	r := sig.Results().At(0).Type()
	return isNamed(r, "net", "Conn") || isNamed(r, "net", "Listener")
}

func checkC06(p *Program, r *Report) {
	r.rule("for every socket constructor: run Close abstractly from the socket as constructed; from each state in which it returns, with all that other goroutines may have changed forgotten except fields that are only ever set to one constant and contexts known to be done, every path through Send, SendMulti, Recv, Listen, Dial and Close returns a non-nil error before any driver call, network access, channel operation or go statement")
	r.assume("net.Listener.Close and net.Conn.Close return; functions outside the module do not reopen the socket")
	ops := []string{"Send", "SendMulti", "Recv", "Listen", "Dial", "Close"}
	for _, s := range p.instances() {
		var closed []*State
		s.client(Client{Unroll: 0, Return: func(st *State, res []*Term, ins ssa.Instruction) {
			n := st.Fork()
			n.top = nil
			n.kill("closed")
			closed = append(closed, n)
		}})
		s.run(s.st.Fork(), "close", "Close")
		r.problems(s.f, s.name+".Close")
		if len(closed) == 0 {
			r.fail("never:"+s.name, "-", nil, "%s: Close has no path that returns", s.name)
			continue
		}
		// states that agree on what lasts need no second look
		seen := map[string]bool{}
		for _, c := range closed {
			c.trail = nil
			k := lasting(c)
			if seen[k] {
				continue
			}
			seen[k] = true
			for _, op := range ops {
				bad := false
				failAt := func(st *State, key, where, msg string) {
					bad = true
					r.fail("closed:"+s.name+":"+op+":"+key, where, st.Trace(), "%s of a %s socket that is closed %s", op, strings.TrimPrefix(s.name, "New"), msg)
				}
				n := 0
				s.client(Client{
					Call: func(st *State, ci *CallInfo) []Out {
						if p.isDriverCall(ci) {
							failAt(st, "driver", st.Where(), "reaches the transport")
						}
						return nil
					},
					Event: func(st *State, ev *Event) {
						if op == "Close" && (ev.Kind == "recv" || ev.Kind == "selected") {
							return
						}
						if m := touches(s.f, st, ev); m != "" {
							failAt(st, ev.Kind, p.instrPos(ev.Ins), m)
						}
					},
					Return: func(st *State, res []*Term, ins ssa.Instruction) {
						n++
						if st.mayBeNil(res[len(res)-1]) {
							failAt(st, "nil", p.instrPos(ins), "may return without an error ("+res[len(res)-1].String()+")")
						}
					}})
				s.run(c.Fork(), "op", op)
				r.problems(s.f, s.name+"."+op)
				r.count("paths", n)
				r.count("functions", len(s.f.Fns))
				if n == 0 && !bad {
					failAt(c, "noreturn", p.pos(s.method(op).Pos()), "has no path that returns")
				}
				if !bad {
					r.ok("%s.%s on a closed socket fails on all %d paths", s.name, op, n)
				}
			}
		}
		r.count("sockets", 1)
	}
	r.atLeast("sockets", 12)
}

// lasting describes the part of a state that other goroutines cannot change.
func lasting(s *State) string {
	n := s.Fork()
	for t := range n.facts {
		if t.op != "cancelled" {
			delete(n.facts, t)
		}
	}
	var b strings.Builder
	b.WriteString(n.key(""))
	for t := range n.facts {
		b.WriteString(t.String())
	}
	return b.String()
}
