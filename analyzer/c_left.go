package main

import "fmt"

func init() { register("C41", checkC41) }

// goesOn: a message sent is written to a connection that is left, once to each
// that gets it, and to no other.
func (x *order) goesOn(st *State, tag string, left []*Term) (out []*State) {
	where := x.s.name[3:]
	for k, m := range []string{"Send", "SendMulti"} {
		ms := x.three(fmt.Sprint(tag, k), 2)
		if x.s.name == "NewRouter" {
			id := x.bytesOf(x.identity(st, left[0]))
			ms[0].msg = x.message("routed:"+ms[0].name, append([]*Term{id}, x.framesOf(ms[0].frames)...)...)
		}
		n := len(x.wrote(st))
		outs := x.do(st, m, ms[0].msg)
		if len(outs) == 0 && len(x.problems) == 0 {
			x.r.fail("send-path", where, nil, "%s: %s has no path", x.what, m)
		}
		for _, o := range outs {
			switch {
			case o.res == nil:
				x.r.fail("send-waits", where, trail(o.st), "%s, %s waits although there is a connection", x.what, m)
				continue
			case x.isErr(o.st, o.res[0]) != 0:
				x.r.fail("send-fails", where, trail(o.st), "%s, %s fails although there is a connection", x.what, m)
				continue
			}
			for _, y := range x.serve([]*State{o.st}) {
				seen := map[*Term]int{}
				for _, w := range x.wrote(y)[n:] {
					seen[w.args[0]]++
				}
				bad := ""
				for conn, k := range seen {
					isLeft := false
					for _, l := range left {
						isLeft = isLeft || l == conn
					}
					if !isLeft {
						bad = "is written to a connection that was lost"
					} else if k > 1 {
						bad = "is written more than once to a connection"
					}
				}
				if len(seen) == 0 {
					bad = "is written to no connection"
				}
				if x.s.name == "NewRouter" && bad == "" && seen[left[0]] == 0 {
					bad = "is not written to the peer it is for"
				}
				if (x.s.name == "NewPub" || x.s.name == "NewXPub") && bad == "" && len(seen) != len(left) {
					bad = "is not written to every subscriber that is left"
				}
				if bad != "" {
					x.r.fail("send-where", where, trail(y), "%s, the message given to %s %s", x.what, m, bad)
					continue
				}
				x.r.ok("%s: %s: %s", where, x.what, m)
				if k == 0 {
					out = append(out, y)
				}
			}
		}
	}
	return
}

// comes: what the connections send is received.
func (x *order) comes(st *State, tag string, left []*Term) {
	var all [][]sentMsg
	for i, conn := range left {
		ms := x.three(fmt.Sprint(tag, i), 2, 3)
		all = append(all, ms)
		st = x.scripts(st, conn, ms)
	}
	sts := x.serve([]*State{st})
	if len(sts) == 0 && len(x.problems) == 0 {
		x.r.fail("path", x.s.name[3:], nil, "%s, nothing is read", x.what)
	}
	for _, y := range sts {
		x.drain(y, all)
	}
}

// subscribe: the connections ask for everything.
func (x *order) subscribe(st *State, conns ...*Term) []*State {
	if x.s.name != "NewPub" && x.s.name != "NewXPub" {
		return []*State{st}
	}
	var ms [][2]*Term
	for _, conn := range conns {
		ms = append(ms, [2]*Term{conn, x.control(1, x.none())})
	}
	return x.tell(st, ms...)
}

// again: a connection made now.
func (x *order) again(st *State) []*State {
	sts := x.dial([]*State{st})
	if len(sts) == 0 && len(x.problems) == 0 {
		x.r.fail("again", x.s.name[3:], nil, "%s, no other connection can be made", x.what)
	}
	return sts
}

// losses: the connections of the socket get lost, and new ones are made.
func (x *order) losses(st0 *State, use func(st *State, tag string, left []*Term)) {
	cs := x.conns(st0)
	for i := range cs {
		for _, a := range x.lose(st0, cs[i]) {
			x.r.count("losses", 1)
			x.what = "after the loss of one of two connections"
			use(a, "left", []*Term{cs[1-i]})
			for _, b := range x.again(a) {
				bc := x.conns(b)
				nw := bc[len(bc)-1]
				for _, b := range x.subscribe(b, nw) {
					x.what = "after the loss of one of two connections, and a new one"
					use(b, "new", []*Term{cs[1-i], nw})
					if x.s.name == "NewRouter" {
						use(b, "new", []*Term{nw, cs[1-i]})
					}
				}
			}
			for _, b := range x.lose(a, cs[1-i]) {
				for _, d := range x.again(b) {
					dc := x.conns(d)
					nw := dc[len(dc)-1]
					for _, d := range x.subscribe(d, nw) {
						x.what = "after the loss of all connections, and a new one"
						use(d, "only", []*Term{nw})
					}
				}
			}
		}
	}
}

func checkC41(p *Program, r *Report) {
	r.rule("From the states of each socket with two connections, computed by dataflow from its constructor's: one of them reports that it is broken and the goroutines that handle it run; on every path after that a message given to Send or SendMulti is written, without waiting and without an error, to connections that are left, at most once to each, and to none that was lost (ROUTER: to the peer named; PUB and XPUB: to every subscriber left).")
	r.rule("In the same states what the peers that are left send is received, each message once and in order, and so are messages read from a connection before it was lost. The same holds after another connection was made, and after all were lost and one was made again.")
	r.assume("a broken connection reports it (C16); operations and losses do not overlap; reads and writes of a connection as in C12 and C13; REQ and REP are left to C23")
	for _, s := range p.alone("Pull", "Sub", "XSub", "Dealer", "Router", "Pair", "XPub") {
		x := p.newOrder(r, s)
		for _, st := range x.dial(x.dial([]*State{x.start()})) {
			r.count("states that receive", 1)
			x.losses(st, x.comes)
			// read, and then lost
			cs := x.conns(st)
			ms := x.three("early", 2)
			for _, y := range x.serve([]*State{x.scripts(st, cs[0], ms)}) {
				for _, z := range x.lose(y, cs[0]) {
					x.what = "after the loss of the connection a message was read from"
					x.drain(z, [][]sentMsg{ms})
				}
			}
		}
		x.report(r)
	}
	for _, s := range p.alone("Push", "Dealer", "Pair", "Router", "Pub", "XPub", "XSub") {
		x := p.newOrder(r, s)
		for i := 0; i < 3 && s.name == "NewRouter"; i++ {
			x.ident[i] = x.word(x.s.st, fmt.Sprintf("identity%d", i))
		}
		for _, st := range x.dial(x.dial([]*State{x.start()})) {
			if s.name == "NewRouter" {
				x.equal(st, x.ident[0], x.ident[1], false)
				x.equal(st, x.ident[0], x.ident[2], false)
				x.equal(st, x.ident[1], x.ident[2], false)
			}
			for _, y := range x.subscribe(st, x.conns(st)...) {
				r.count("states that send", 1)
				x.losses(y, func(st *State, tag string, left []*Term) {
					sts := x.goesOn(st, tag, left)
					x.what += ", another message"
					for _, z := range sts {
						x.goesOn(z, tag+"more", left)
					}
				})
			}
		}
		x.report(r)
	}
	r.atLeast("states that receive", 7)
	r.atLeast("states that send", 7)
	r.atLeast("losses", 28)
}
