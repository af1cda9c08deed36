package main

import (
	"fmt"
	"go/types"
)

func init() { register("C39", checkC39) }

// marks are scenes about the high-water mark.
type marks struct {
	*scene
	r    *Report
	what string
}

// set gives the socket the option.
func (x *marks) set(sts []*State, n *Term) (out []*State) {
	ts := x.ts
	for _, st := range sts {
		v := st.iface(types.Typ[types.Int], n, types.NewInterfaceType(nil, nil))
		for _, o := range x.do(st, "SetOption", ts.str(x.p.constStr("OptionHWM")), v) {
			if o.res == nil {
				x.r.fail("waits", "Pub", trail(o.st), "%s: SetOption waits", x.what)
				continue
			}
			if x.isErr(o.st, o.res[0]) != 0 {
				x.r.fail("rejected", "Pub", trail(o.st), "%s: SetOption fails", x.what)
				continue
			}
			out = append(out, o.st)
		}
	}
	return
}

// joined connects one more subscriber to everything.
func (x *marks) joined(sts []*State, accept bool) (out []*State) {
	for _, st := range sts {
		var next []*State
		if accept {
			next = x.accept(st)
		} else {
			next = x.dial([]*State{st})
		}
		for _, y := range next {
			cs := x.conns(y)
			out = append(out, x.tell(y, [2]*Term{cs[len(cs)-1], x.control(1, x.none())})...)
		}
	}
	return
}

// burst sends k messages while no subscriber's queue is emptied; then each
// has got the first ones, as many as its mark says.
func (x *marks) burst(sts []*State, k int, keep []int) (out []*State) {
	if len(sts) == 0 && len(x.problems) == 0 {
		x.r.fail("path", x.s.name[3:], nil, "%s: no path leads to the subscribers", x.what)
	}
	for _, st := range sts {
		n := len(x.wrote(st))
		var ms []*Term
		cur := []*State{st}
		for i := 0; i < k; i++ {
			fs := x.list(x.frame(fmt.Sprintf("m%d", i+1)), x.frame(fmt.Sprintf("m%d.2", i+1)))
			ms = append(ms, fs)
			op := "Send"
			if i%2 == 1 {
				op = "SendMulti"
			}
			var next []*State
			for _, s := range cur {
				for _, o := range x.do(s, op, x.message(fmt.Sprintf("m%d", i+1), fs)) {
					switch {
					case o.res == nil:
						x.r.fail("send-waits", x.s.name[3:], trail(o.st), "%s: %s waits", x.what, op)
					case x.isErr(o.st, o.res[0]) != 0:
						x.r.fail("send-fails", x.s.name[3:], trail(o.st), "%s: %s fails", x.what, op)
					default:
						next = append(next, o.st)
					}
				}
			}
			cur = next
		}
		x.r.count("bursts", 1)
		for _, y := range x.serve(cur) {
			got := map[*Term][]*Term{}
			for _, w := range x.wrote(y)[n:] {
				got[w.args[0]] = append(got[w.args[0]], y.field(w.args[1], w.args[1].typ, x.frames))
			}
			ok := true
			for i, conn := range x.conns(y) {
				want := k
				if keep[i] >= 0 && keep[i] < k {
					want = keep[i]
				}
				g := got[conn]
				if len(g) != want {
					x.r.fail("kept", x.s.name[3:], trail(y), "%s: of %d messages sent while a subscriber does not read it gets %d, not %d", x.what, k, len(g), want)
					ok = false
					continue
				}
				for j := range g {
					if !x.same(y, g[j], ms[j]) {
						x.r.fail("which", x.s.name[3:], trail(y), "%s: message %d that a subscriber gets is not the one sent as number %d", x.what, j+1, j+1)
						ok = false
					}
				}
			}
			if ok {
				x.r.ok("%s: %d messages", x.what, k)
				out = append(out, y)
			}
		}
	}
	return
}

// stalled: the subscriber never reads, while all goroutines go on; no more
// messages than the mark wait in channels.
func (x *marks) stalled(sts []*State, n int) {
	for _, st := range sts {
		x.stuck = map[*Term]bool{}
		for _, conn := range x.conns(st) {
			x.stuck[conn] = true
		}
		cur := []*State{st}
		for i := 0; i < 2*n+3; i++ {
			var next []*State
			for _, s := range cur {
				for _, o := range x.do(s, "Send", x.message("m", x.frame(fmt.Sprintf("m%d", i)))) {
					if o.res == nil {
						x.r.fail("send-waits", x.s.name[3:], trail(o.st), "%s and a subscriber that does not read: Send waits", x.what)
						continue
					}
					next = append(next, x.serve([]*State{o.st})...)
				}
			}
			cur = next
		}
		for _, y := range cur {
			sum := 0
			for a, v := range y.heap {
				if a.op == "chq" {
					sum += len(v.args)
				}
			}
			x.r.count("stalled subscribers", 1)
			x.r.check(sum <= n, "queued", x.s.name[3:], "%s and a subscriber that does not read, %d messages wait", x.what, sum)
		}
		x.stuck = nil
	}
}

func checkC39(p *Program, r *Report) {
	r.rule("From the states of a PUB socket after SetOption(HWM, n), n = 1, 2, 3, and one or two subscribers that connected after it, computed by dataflow from the constructor's: of n+2 messages sent while the goroutines that empty the queues do not run, every path keeps exactly the first n for each subscriber and drops the rest, without waiting or failing; they are then written in order, and as many fit again. While a subscriber never reads and all goroutines run, at most n messages wait in channels. A later SetOption counts for the subscribers that connect after it.")
	r.rule("For an arbitrary n the queue of a subscriber is a channel with exactly the capacity n; without SetOption, for PUB and XPUB, with 1000.")
	r.assume("a send on a channel finds it full exactly when it holds as many values as its capacity; a mark of 0 is not looked at")
	one := func(s *sockInst) *marks { return &marks{scene: p.newPubScene(s), r: r} }
	limit := func(x *marks) {
		x.full = func(st *State, ch *Term) bool {
			if ch.op != "mkchan" {
				return false
			}
			n, ok := st.subst(ch.args[0]).intVal()
			return ok && int64(x.queued(st, ch)) >= n
		}
	}
	for _, s := range p.alone("Pub") {
		for n := int64(1); n <= 3; n++ {
			x := one(s)
			limit(x)
			x.what = fmt.Sprintf("with a mark of %d", n)
			sts := x.set([]*State{x.start()}, x.ts.integer(n))
			a := x.joined(sts, false)
			k := int(n) + 2
			x.burst(x.burst(a, k, []int{int(n)}), k, []int{int(n)})
			x.stalled(a, int(n))
			x.what = fmt.Sprintf("with a mark of %d and two subscribers", n)
			both := x.joined(a, false)
			x.burst(both, int(n), []int{int(n), int(n)})
			x.burst(both, k, []int{int(n), int(n)})
			x.what = fmt.Sprintf("with a mark of %d, then %d, and a subscriber after each", n, 4-n)
			x.burst(x.joined(x.set(a, x.ts.integer(4-n)), false), 5, []int{int(n), int(4 - n)})
			x.what = fmt.Sprintf("with a mark set to %d and then to %d before the subscriber", 4-n, n)
			x.burst(x.joined(x.set(x.set([]*State{x.start()}, x.ts.integer(4-n)), x.ts.integer(n)), false), 5, []int{int(n)})
			x.what = fmt.Sprintf("with a mark of %d and a subscriber that connects to the socket", n)
			var up []*State
			for _, st := range sts {
				for _, o := range x.do(st, "Listen") {
					if o.res != nil && x.isErr(o.st, o.res[0]) == 0 {
						up = append(up, o.st)
					}
				}
			}
			x.burst(x.joined(up, true), k, []int{int(n)})
			x.report(r)
		}
		// any mark
		x := one(s)
		st := x.start()
		n := x.ts.sym("mark", types.Typ[types.Int])
		st.Assume(x.ts.ge(x.ts.linComb(n, 1, nil, 0, -1)), true)
		st.pins = append(st.pins[:len(st.pins):len(st.pins)], n)
		x.what = "with any mark"
		x.capacity(x.joined(x.set([]*State{st}, n), false), n)
		x.report(r)
	}
	for _, s := range p.alone("Pub", "XPub") {
		x := one(s)
		limit(x)
		x.what = "with the mark that is the default"
		sts := x.joined([]*State{x.start()}, false)
		x.burst(sts, 4, []int{-1})
		x.capacity(sts, x.ts.integer(1000))
		x.report(r)
	}
	r.atLeast("bursts", 20)
	r.atLeast("stalled subscribers", 3)
	r.atLeast("capacities", 3)
}

// capacity: the channel that a message waits in has this capacity.
func (x *marks) capacity(sts []*State, want *Term) {
	where := x.s.name[3:]
	for _, st := range sts {
		for _, o := range x.do(st, "Send", x.message("m", x.frame("m"))) {
			if o.res == nil {
				x.r.fail("send-waits", where, trail(o.st), "%s: Send waits", x.what)
				continue
			}
			for a, v := range o.st.heap {
				if a.op != "chq" || len(v.args) == 0 || a.args[0].op != "mkchan" {
					continue
				}
				got := o.st.subst(a.args[0].args[0])
				x.r.count("capacities", 1)
				if v, known := o.st.Eval(x.ts.eq(got, want)); !known || !v {
					x.r.fail("capacity", where, trail(o.st), "%s: the queue of a subscriber has room for %s messages, not %s", x.what, got, want)
				} else {
					x.r.ok("%s: capacity", x.what)
				}
			}
		}
	}
}
