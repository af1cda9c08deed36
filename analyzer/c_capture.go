package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// captures looks at the local variables that function literals share with the
// function around them, where the literal runs at the same time.
type captures struct {
	p        *Program
	launched map[*ssa.Parameter]int // parameters that are run in a goroutine: 1 yes, 2 no
	joins    map[*ssa.Function]int
}

// launches: the call runs the value in a goroutine of its own.
func (x *captures) launches(ci ssa.CallInstruction, v ssa.Value) bool {
	if _, ok := ci.(*ssa.Go); ok {
		return ci.Common().Value == v || x.given(ci, v)
	}
	c := ci.Common()
	fn := c.StaticCallee()
	if fn == nil {
		return false
	}
	if fn.Pkg != nil && !x.p.inModule(fn) {
		path := fn.Pkg.Pkg.Path()
		switch {
		case strings.HasSuffix(path, "/errgroup") && (fn.Name() == "Go" || fn.Name() == "TryGo"),
			path == "sync" && fn.Name() == "Go",
			fn.Name() == "AfterFunc" && (path == "time" || path == "context"):
			return x.given(ci, v)
		}
		return false
	}
	for i, a := range c.Args {
		if a == v && i < len(fn.Params) && x.runs(fn.Params[i]) {
			return true
		}
	}
	return false
}

func (x *captures) given(ci ssa.CallInstruction, v ssa.Value) bool {
	for _, a := range ci.Common().Args {
		if a == v {
			return true
		}
	}
	return false
}

// runs: the function given as this parameter is run in a goroutine.
func (x *captures) runs(pr *ssa.Parameter) bool {
	if s := x.launched[pr]; s != 0 {
		return s == 1
	}
	x.launched[pr] = 2
	if x.starts(pr, map[ssa.Value]bool{}) {
		x.launched[pr] = 1
	}
	return x.launched[pr] == 1
}

// starts: the value is run in a goroutine of its own.
func (x *captures) starts(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	for _, u := range *v.Referrers() {
		switch i := u.(type) {
		case ssa.CallInstruction:
			if x.launches(i, v) {
				return true
			}
			// a function that wraps it: what it returns runs it
			if c, ok := i.(*ssa.Call); ok && i.Common().Value != v && isFuncType(c.Type()) && x.starts(c, seen) {
				return true
			}
		case *ssa.Store:
			if a, ok := i.Addr.(*ssa.Alloc); ok && i.Val == v && x.starts(a, seen) {
				return true
			}
		case *ssa.UnOp:
			if i.Op == token.MUL && x.starts(i, seen) {
				return true
			}
		case *ssa.MakeClosure:
			// a literal that calls it
			if !x.starts(i, seen) {
				continue
			}
			for k, b := range i.Bindings {
				if b == v && x.called(i.Fn.(*ssa.Function).FreeVars[k]) {
					return true
				}
			}
		case *ssa.ChangeType, *ssa.Phi:
			if x.starts(i.(ssa.Value), seen) {
				return true
			}
		}
	}
	return false
}

func isFuncType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Signature)
	return ok
}

func (x *captures) called(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, u := range *v.Referrers() {
		switch i := u.(type) {
		case ssa.CallInstruction:
			if i.Common().Value == v {
				return true
			}
		case *ssa.UnOp:
			if x.called(i) {
				return true
			}
		}
	}
	return false
}

// orders: the instruction may wait for the goroutine, or exclude it.
func (x *captures) orders(ins ssa.Instruction) bool {
	switch i := ins.(type) {
	case *ssa.Select, *ssa.Send:
		return true
	case *ssa.UnOp:
		return i.Op == token.ARROW
	case *ssa.Call:
		c := i.Common()
		if c.Method != nil {
			return c.Method.Name() == "Wait" || strings.HasPrefix(c.Method.Name(), "Lock")
		}
		fn := c.StaticCallee()
		if fn == nil {
			return false
		}
		switch fn.Name() {
		case "Wait", "Lock", "RLock", "TryLock", "Do":
			return true
		}
		return x.p.inModule(fn) && x.joinsIn(fn)
	}
	return false
}

// waits: as orders, but of the functions called only those that are given what
// they wait for, or that return with a lock held.
func (x *captures) waits(ins ssa.Instruction) bool {
	if !x.orders(ins) {
		return false
	}
	i, ok := ins.(*ssa.Call)
	if !ok || i.Common().Method != nil {
		return true
	}
	fn := i.Common().StaticCallee()
	switch fn.Name() {
	case "Wait", "Lock", "RLock", "TryLock", "Do":
		return true
	}
	for _, a := range i.Common().Args {
		if _, ok := a.Type().Underlying().(*types.Chan); ok {
			return true
		}
		if n := named(deref(a.Type())); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
			return true
		}
	}
	lock, unlock := false, false
	for _, b := range fn.Blocks {
		for _, y := range b.Instrs {
			c, ok := y.(ssa.CallInstruction)
			if !ok {
				continue
			}
			name := ""
			if m := c.Common().Method; m != nil {
				name = m.Name()
			} else if f := c.Common().StaticCallee(); f != nil {
				name = f.Name()
			}
			lock = lock || name == "Lock" || name == "RLock"
			unlock = unlock || name == "Unlock" || name == "RUnlock"
		}
	}
	return lock && !unlock
}

func (x *captures) joinsIn(fn *ssa.Function) bool {
	if s := x.joins[fn]; s != 0 {
		return s == 1
	}
	x.joins[fn] = 2
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if x.orders(ins) {
				x.joins[fn] = 1
				return true
			}
		}
	}
	return false
}

// after yields the instructions that may run after the one given without
// anything that orders them, while the variable is the same.
func (x *captures) after(from ssa.Instruction, v *ssa.Alloc, visit func(ssa.Instruction)) {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, at int)
	walk = func(b *ssa.BasicBlock, at int) {
		for ; at < len(b.Instrs); at++ {
			ins := b.Instrs[at]
			if ins == ssa.Instruction(v) || x.orders(ins) {
				return
			}
			visit(ins)
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				walk(s, 0)
			}
		}
	}
	for i, ins := range from.Block().Instrs {
		if ins == from {
			walk(from.Block(), i+1)
		}
	}
}

// uses are the reads and writes of the variable in the function, and in the
// literals that it calls itself; guarded if something orders them before.
func (x *captures) uses(addr ssa.Value) (reads, writes []ssa.Instruction) {
	if addr.Referrers() == nil {
		return
	}
	for _, u := range *addr.Referrers() {
		switch i := u.(type) {
		case *ssa.UnOp:
			if i.Op == token.MUL {
				reads = append(reads, i)
			}
		case *ssa.Store:
			if i.Addr == addr {
				writes = append(writes, i)
			}
		}
	}
	return
}

// free: nothing orders the instruction with what other goroutines do: it can
// be reached from the start of its function without waiting for anything.
func (x *captures) free(ins ssa.Instruction) bool {
	fn := ins.Parent()
	seen := map[*ssa.BasicBlock]bool{fn.Blocks[0]: true}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		for _, y := range b.Instrs {
			if y == ins {
				return true
			}
			if x.waits(y) {
				return false
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(fn.Blocks[0])
}

// sharer is a literal that runs in a goroutine and uses a variable.
type sharer struct {
	mk            *ssa.MakeClosure
	reads, writes []ssa.Instruction
	at            []ssa.Instruction
}

// sharedLocals is the part of C01 for variables of a function. It yields the
// literals that were looked at.
func (p *Program) sharedLocals(r *Report) map[*ssa.Function]bool {
	x := &captures{p: p, launched: map[*ssa.Parameter]int{}, joins: map[*ssa.Function]int{}}
	done := map[*ssa.Function]bool{}
	n := 0
	for _, fn := range p.Funcs {
		byVar := map[*ssa.Alloc][]sharer{}
		var vars []*ssa.Alloc
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				mk, ok := ins.(*ssa.MakeClosure)
				if !ok || !x.starts(mk, map[ssa.Value]bool{}) {
					continue
				}
				lit := mk.Fn.(*ssa.Function)
				done[lit] = true
				for k, bd := range mk.Bindings {
					v, ok := bd.(*ssa.Alloc)
					if !ok {
						continue
					}
					n++
					s := sharer{mk: mk, at: x.launchesOf(mk)}
					rs, ws := x.uses(lit.FreeVars[k])
					for _, i := range rs {
						if x.free(i) {
							s.reads = append(s.reads, i)
						}
					}
					for _, i := range ws {
						if x.free(i) {
							s.writes = append(s.writes, i)
						}
					}
					if len(s.reads)+len(s.writes) == 0 {
						continue
					}
					if byVar[v] == nil {
						vars = append(vars, v)
					}
					byVar[v] = append(byVar[v], s)
				}
			}
		}
		is := func(l []ssa.Instruction, i ssa.Instruction) bool {
			for _, y := range l {
				if y == i {
					return true
				}
			}
			return false
		}
		for _, v := range vars {
			vr, vw := x.uses(v)
			for _, s := range byVar[v] {
				fail := func(at ssa.Instruction, what string, other ssa.Instruction) {
					r.fail("local:"+p.fnName(fn)+":"+v.Comment, p.instrPos(at), []string{p.instrPos(s.mk) + ": runs in a goroutine of its own", p.instrPos(other) + ": uses it there"},
						"%s of %s %s while a goroutine that uses it may be running", v.Comment, p.fnName(fn), what)
				}
				for _, at := range s.at {
					x.after(at, v, func(i ssa.Instruction) {
						switch {
						case is(vw, i):
							fail(i, "is written", append(s.reads, s.writes...)[0])
						case is(vr, i) && len(s.writes) > 0:
							fail(i, "is read", s.writes[0])
						}
						for _, o := range byVar[v] {
							if is(o.at, i) && len(s.writes)+len(o.writes) > 0 && (len(s.writes) > 0 || len(s.reads) > 0) {
								fail(i, "is used by a second goroutine", append(append([]ssa.Instruction{}, s.writes...), s.reads...)[0])
							}
						}
					})
				}
			}
		}
	}
	r.count("variables shared with goroutines", n)
	return done
}

// apart: both functions belong to one function and its goroutines, which
// sharedLocals has looked at.
func apart(done map[*ssa.Function]bool, a, b *ssa.Function) bool {
	owner := func(f *ssa.Function) *ssa.Function {
		if done[f] {
			return f.Parent()
		}
		return f
	}
	return (done[a] || done[b]) && owner(a) == owner(b)
}

// launchesOf are the calls that start the literal.
func (x *captures) launchesOf(mk *ssa.MakeClosure) (out []ssa.Instruction) {
	seen := map[ssa.Value]bool{}
	var follow func(v ssa.Value)
	follow = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch i := u.(type) {
			case ssa.CallInstruction:
				if x.launches(i, v) {
					out = append(out, i)
				} else if c, ok := i.(*ssa.Call); ok && c.Call.Value != v && isFuncType(c.Type()) {
					follow(c)
				}
			case *ssa.Store:
				if a, ok := i.Addr.(*ssa.Alloc); ok && i.Val == v {
					follow(a)
				}
			case *ssa.UnOp:
				if i.Op == token.MUL {
					follow(i)
				}
			case *ssa.ChangeType, *ssa.Phi:
				follow(i.(ssa.Value))
			}
		}
	}
	follow(mk)
	return
}
