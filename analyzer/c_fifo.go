package main

import (
	"fmt"
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C40", checkC40) }

// fifo runs operations of the queue next to the list they stand for.
type fifo struct {
	*scene
	r    *Report
	recv *Term
	st   *State
	want []*Term
	n    int // pushed so far
	ops  map[string]*ssa.Function
	what string
	bad  bool
	long bool
	// the other states an operation can lead to
	others []*State
}

// op runs one operation; there is one way it can go.
func (x *fifo) op(name string, args ...*Term) []*Term {
	if x.bad {
		return nil
	}
	fn := x.ops[name]
	outs := x.exec(x.st, fn, append([]*Term{x.recv}, args...), nil)
	x.r.count("operations", 1)
	if len(x.problems) > 0 {
		x.bad = true
		return nil
	}
	x.others = nil
	if x.long && len(outs) > 1 && name != "Len" && name != "Peek" {
		// it depends on something that is not followed, such as the capacity
		// of a list; the short sequences look at every way
		x.bad = true
		x.r.assume("long sequences are looked at as far as what the operations do is determined by what was done before")
		return nil
	}
	if !x.long && len(outs) > 1 && len(outs[0].res) == 0 && outs[0].res != nil {
		for _, o := range outs[1:] {
			if o.res != nil {
				x.others = append(x.others, o.st)
			}
		}
		outs = outs[:1]
	}
	if len(outs) != 1 || outs[0].res == nil {
		x.bad = true
		switch {
		case len(outs) == 0:
			x.r.fail("ends", x.p.pos(fn.Pos()), trail(x.st), "%s, %s does not return", x.what, name)
		case outs[0].res == nil:
			x.r.fail("waits", x.p.pos(fn.Pos()), trail(outs[0].st), "%s, %s waits", x.what, name)
		default:
			x.r.fail("ways", x.p.pos(fn.Pos()), trail(outs[1].st), "%s, what %s does is not determined by what was done before", x.what, name)
		}
		return nil
	}
	x.st = outs[0].st
	x.st.trail = nil
	return outs[0].res
}

func (x *fifo) check() {
	res := x.op("Len")
	if x.bad {
		return
	}
	if n, ok := x.st.subst(res[0]).intVal(); !ok || n != int64(len(x.want)) {
		x.bad = true
		x.r.fail("len", x.p.pos(x.ops["Len"].Pos()), trail(x.st), "%s, Len returns %s, not %d", x.what, x.st.subst(res[0]).show(2), len(x.want))
		return
	}
	res = x.op("Peek")
	if x.bad {
		return
	}
	v, known := x.st.Eval(res[1])
	if !known || v != (len(x.want) > 0) {
		x.bad = true
		x.r.fail("peek-ok", x.p.pos(x.ops["Peek"].Pos()), trail(x.st), "%s, Peek reports %s with %d messages in the queue", x.what, res[1].show(2), len(x.want))
		return
	}
	if !v {
		return
	}
	got, want := x.st.field(res[0], res[0].typ, x.frames), x.st.field(x.want[0], x.want[0].typ, x.frames)
	if !x.same(x.st, got, want) {
		x.bad = true
		x.r.fail("peek", x.p.pos(x.ops["Peek"].Pos()), trail(x.st), "%s, Peek returns the message with %s, not the oldest one", x.what, x.show(x.st, got))
	}
}

func (x *fifo) push() {
	name := fmt.Sprint(x.n)
	x.n++
	m := x.message(name, x.frame(name))
	x.op("Push", m)
	x.want = append(x.want[:len(x.want):len(x.want)], m)
}

func (x *fifo) pop() {
	x.op("Pop")
	x.want = x.want[1:]
}

// sizes are the numbers in the code of the queue, at which it may change what
// it does.
func (x *fifo) sizes() []int {
	seen := map[int]bool{}
	for _, fn := range x.ops {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, o := range ins.Operands(nil) {
					k, ok := (*o).(*ssa.Const)
					if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
						continue
					}
					if n, ok := constant.Int64Val(k.Value); ok && n > 3 && n <= 2048 {
						seen[int(n)] = true
					}
				}
			}
		}
	}
	var out []int
	for n := 4; n <= 2048; n++ {
		if seen[n] {
			out = append(out, n)
		}
	}
	return out
}

func checkC40(p *Program, r *Report) {
	r.rule("From the queue that NewQueue returns, by dataflow: after every sequence of up to six of Push, Pop and Init, and after sequences that go past the sizes of its parts (each integer constant in its code) by filling, emptying and refilling, Len returns the number of messages pushed and not popped, and Peek the oldest of these, with arbitrary contents; on an empty queue Peek reports that there is none; Pop of a queue that is not empty returns.")
	r.assume("operations do not overlap; Pop of an empty queue is not done (it panics by design)")
	ctor := p.Prog.Package(p.Root).Func("NewQueue")
	if ctor == nil {
		fatalf("anchor not found: NewQueue")
	}
	f := p.newFlow(Client{NoKill: true, Zeros: true})
	base := p.initState(f, p.Root, false)
	s := &sockInst{name: "NewQueue", f: f, st: base}
	x := &fifo{scene: p.newScene(s), r: r, ops: map[string]*ssa.Function{}}
	T := ctor.Signature.Results().At(0).Type()
	ms := p.Prog.MethodSets.MethodSet(T)
	for _, n := range []string{"Push", "Pop", "Peek", "Len", "Init"} {
		sel := ms.Lookup(p.Root, n)
		if sel == nil {
			fatalf("anchor not found: method %s of %s", n, types.TypeString(T, nil))
		}
		x.ops[n] = p.Prog.MethodValue(sel)
	}
	x.adjust = func(cl *Client) { cl.Unroll, cl.Elements = 5000, 5000 }
	outs := x.exec(x.start(), ctor, nil, nil)
	if len(outs) != 1 || len(outs[0].res) != 1 {
		x.report(r)
		r.fail("new", p.pos(ctor.Pos()), nil, "NewQueue does not return one queue")
		return
	}
	x.recv = outs[0].res[0]
	fresh := outs[0].st
	fresh.pins = append(fresh.pins, x.recv)
	reset := func(what string) {
		x.st, x.want, x.n, x.bad, x.what = fresh, nil, 0, false, what
	}
	done := func() {
		if !x.bad {
			r.ok("%s: the messages and their number are right", x.what)
			r.count("sequences", 1)
		}
	}
	// all short sequences
	type node struct {
		st   *State
		want []*Term
		n    int
		path string
	}
	level := []node{{st: fresh}}
	for d := 0; d <= 6; d++ {
		var next []node
		for _, nd := range level {
			reset("after " + nd.path)
			x.st, x.want, x.n = nd.st, nd.want, nd.n
			x.check()
			if x.bad {
				continue
			}
			done()
			if d == 6 {
				continue
			}
			for _, op := range []string{"Push", "Pop", "Init"} {
				if op == "Pop" && len(nd.want) == 0 || op == "Init" && d > 3 {
					continue
				}
				reset("after " + nd.path + " " + op)
				x.st, x.want, x.n = nd.st, nd.want, nd.n
				switch op {
				case "Push":
					x.push()
				case "Pop":
					x.pop()
				case "Init":
					x.op("Init")
					x.want = nil
				}
				if !x.bad {
					for _, st := range append(x.others, x.st) {
						if len(next) < 1200 {
							next = append(next, node{st, x.want, x.n, nd.path + " " + op})
						}
					}
				}
			}
		}
		level = next
	}
	x.long = true
	sizes := x.sizes()
	r.count("sizes", len(sizes))
	for _, k := range sizes {
		for _, script := range [][]int{{k - 1, 1 - k}, {k, -k}, {k + 1, -k - 1, 2, -2}, {k, 1 - k, k, -1, -k}, {2*k + 1, -k, k, -2*k - 1, 3, -3}} {
			reset(fmt.Sprintf("after pushes and pops %v", script))
			for _, n := range script {
				for ; n > 0 && !x.bad; n-- {
					x.push()
					if n < 3 || len(x.want)%k < 2 || len(x.want)%k == k-1 {
						x.check()
					}
				}
				for ; n < 0 && !x.bad; n++ {
					x.pop()
					x.check()
				}
			}
			done()
		}
		reset(fmt.Sprintf("after %d pushes and Init", k+1))
		for n := 0; n <= k && !x.bad; n++ {
			x.push()
		}
		x.op("Init")
		x.want = nil
		x.check()
		x.push()
		x.check()
		if !x.bad {
			x.pop()
		}
		x.check()
		done()
	}
	x.report(r)
	r.atLeast("sequences", 100)
}
