package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", checkC01)
	register("C02", checkC02)
	register("C03", checkC03)
	dbgCmds["ls"] = func(p *Program, args []string) {
		ls := p.lockset()
		fmt.Println("roots", len(ls.roots), "contexts", ls.contexts, "accesses", len(ls.accesses), "waits", len(ls.waits))
		for _, pr := range ls.problems {
			fmt.Println("PROBLEM", pr.kind, pr.class, p.fnName(pr.fn), pr.pos, pr.msg)
		}
		for _, k := range sortedKeys(ls.edges) {
			e := ls.edges[k]
			fmt.Println("EDGE", k, e.pos, p.fnName(e.fn))
		}
		for _, w := range ls.waits {
			var h []string
			for k := range w.held {
				h = append(h, k)
			}
			sort.Strings(h)
			fmt.Println("WAIT", w.kind, w.desc, "owner", w.owner, p.fnName(w.fn), p.instrPos(w.ins), "held", h)
		}
		for _, c := range ls.conflicts() {
			fmt.Println("CONFLICT", c.loc, "|", p.fnName(c.a.fn), p.instrPos(c.a.ins), mustKey(c.a.locks), c.a.async, "|", c.b.write, p.fnName(c.b.fn), p.instrPos(c.b.ins), mustKey(c.b.locks), c.b.async)
		}
		byLoc := map[string][]lsAccess{}
		for _, a := range ls.accesses {
			byLoc[a.loc] = append(byLoc[a.loc], a)
		}
		for _, l := range sortedKeys(byLoc) {
			fmt.Println("LOC", l)
			seen := map[string]bool{}
			for _, a := range byLoc[l] {
				s := fmt.Sprintf("    w=%v at=%v %s %s locks=%s async=%s", a.write, a.atomic, p.fnName(a.fn), p.instrPos(a.ins), mustKey(a.locks), a.async)
				if !seen[s] {
					seen[s] = true
					fmt.Println(s)
				}
			}
		}
	}
}

// conflicts: pairs of accesses to one location, at least one a write, with no
// common lock that orders them.
type conflict struct {
	loc  string
	a, b lsAccess
}

func ordered(a, b lsAccess) bool {
	if a.atomic && b.atomic {
		return true
	}
	for k, m := range a.locks {
		if n, ok := b.locks[k]; ok {
			// the writer must hold it exclusively
			if a.write && m != 'W' || b.write && n != 'W' {
				continue
			}
			return true
		}
	}
	return false
}

func (ls *Lockset) conflicts() []conflict {
	byLoc := map[string][]lsAccess{}
	for _, a := range ls.accesses {
		byLoc[a.loc] = append(byLoc[a.loc], a)
	}
	var out []conflict
	for _, l := range sortedKeys(byLoc) {
		as := byLoc[l]
		seen := map[string]bool{}
		for _, a := range as {
			if !a.write {
				continue
			}
			for _, b := range as {
				if ordered(a, b) {
					continue
				}
				k := fmt.Sprintf("%p|%p", a.ins, b.ins)
				if seen[k] {
					continue
				}
				seen[k] = true
				out = append(out, conflict{l, a, b})
			}
		}
	}
	return out
}

// lateTimer: the other access runs in a timer callback made by the same type's
// code, which stops the timer (or waits for the callback) before its access.
func (ls *Lockset) timerOrdered(c conflict) bool {
	p := ls.p
	cb, other := c.a, c.b
	if cb.async != "time.AfterFunc" {
		cb, other = c.b, c.a
	}
	if cb.async != "time.AfterFunc" || other.async != "" {
		return false
	}
	// the other access must follow a call of Timer.Stop on every path
	return ls.afterStop(p, other.fn, other.ins)
}

func (ls *Lockset) afterStop(p *Program, fn *ssa.Function, ins ssa.Instruction) bool {
	stop := func(b *ssa.BasicBlock, upto ssa.Instruction) bool {
		for _, i := range b.Instrs {
			if i == upto {
				return false
			}
			if c, ok := i.(ssa.CallInstruction); ok {
				switch extOf(p, c.Common()) {
				case "time.Timer.Stop":
					return true
				}
				for _, t := range p.targets(c.Common()).Fns {
					if callsStop(p, t, 0) {
						return true
					}
				}
			}
			if iff, ok := i.(*ssa.If); ok && timerNilTest(iff.Cond) {
				return true
			}
		}
		return false
	}
	// search backwards for a path from the entry without a stop
	seen := map[*ssa.BasicBlock]bool{}
	var back func(b *ssa.BasicBlock, upto ssa.Instruction) bool
	back = func(b *ssa.BasicBlock, upto ssa.Instruction) bool {
		if stop(b, upto) {
			return true
		}
		if seen[b] && upto == nil {
			return true
		}
		seen[b] = true
		if len(b.Preds) == 0 {
			return false
		}
		for _, q := range b.Preds {
			if !back(q, nil) {
				return false
			}
		}
		return true
	}
	return back(ins.Block(), ins)
}

func callsStop(p *Program, fn *ssa.Function, depth int) bool {
	if depth > 3 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok {
				if extOf(p, c.Common()) == "time.Timer.Stop" {
					return true
				}
				for _, t := range p.targets(c.Common()).Fns {
					if callsStop(p, t, depth+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

// timerNilTest: the condition compares a *time.Timer with nil: on its other
// branch there is no timer.
func timerNilTest(v ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	return ok && (b.Op == token.NEQ || b.Op == token.EQL) && isNamed(deref(b.X.Type()), "time", "Timer")
}

func lockList(m map[string]byte) string {
	if len(m) == 0 {
		return "no lock"
	}
	var out []string
	for _, k := range sortedKeys(m) {
		if m[k] == 'R' {
			out = append(out, k+" (read)")
		} else {
			out = append(out, k)
		}
	}
	return strings.Join(out, ", ")
}

func (ls *Lockset) unresolved(r *Report) {
	for _, pr := range ls.problems {
		if pr.kind == "unresolved" || pr.kind == "trylock" {
			r.fail(pr.kind+":"+ls.p.fnName(pr.fn), pr.pos, nil, "%s: %s", ls.p.fnName(pr.fn), pr.msg)
		}
	}
}

func checkC01(p *Program, r *Report) {
	r.rule("every two accesses to one shared location (field of a shared type, package variable, captured variable), one of them a write, are both atomic or hold a common lock (exclusively for the write), unless the object cannot be reached by another goroutine yet; the locks held are the meet over all paths and all calling contexts, from every exported function, go statement and callback")
	r.assume("locks and locations are identified by type and field, not by object: an access under another object's lock of the same class is taken as ordered")
	r.assume("exported fields set by the user, and methods of a Security called by the user on a connection in use, are not analysed")
	r.assume("objects are published by stores to reachable objects, channel sends, go statements and calls; sync, sync/atomic, context, errgroup and time behave as documented")
	r.rule("a local variable that a function literal run in a goroutine of its own captures is not written (nor read, if the literal writes it) after the goroutine was started, unless the two wait for, exclude or tell each other in between; and no two goroutines started in a loop write the same variable")
	local := p.sharedLocals(r)
	ls := p.lockset()
	ls.unresolved(r)
	byLoc := map[string]map[bool]int{}
	for _, a := range ls.accesses {
		if byLoc[a.loc] == nil {
			byLoc[a.loc] = map[bool]int{}
		}
		byLoc[a.loc][a.write]++
	}
	bad := map[string]bool{}
	for _, c := range ls.conflicts() {
		if ls.timerOrdered(c) {
			continue
		}
		if strings.HasPrefix(c.loc, "local ") && apart(local, c.a.fn, c.b.fn) {
			continue
		}
		bad[c.loc] = true
		kind := "read"
		if c.b.write {
			kind = "write"
		}
		r.fail("race:"+c.loc+":"+p.fnName(c.a.fn)+":"+p.fnName(c.b.fn), p.instrPos(c.a.ins),
			[]string{
				fmt.Sprintf("write in %s at %s, reached from %s, holding %s", p.fnName(c.a.fn), p.instrPos(c.a.ins), c.a.root, lockList(c.a.locks)),
				fmt.Sprintf("%s in %s at %s, reached from %s, holding %s", kind, p.fnName(c.b.fn), p.instrPos(c.b.ins), c.b.root, lockList(c.b.locks)),
			}, "%s is written while it may be accessed elsewhere: no common lock orders the write in %s and the %s in %s", c.loc, p.fnName(c.a.fn), kind, p.fnName(c.b.fn))
	}
	mutable := 0
	for _, l := range sortedKeys(byLoc) {
		if bad[l] {
			continue
		}
		if byLoc[l][true] > 0 {
			mutable++
			r.ok("%s: %d writes and %d reads ordered", l, byLoc[l][true], byLoc[l][false])
		} else {
			r.ok("")
		}
	}
	r.count("shared locations", len(byLoc))
	r.count("mutable shared locations", mutable)
	r.count("accesses", len(ls.accesses))
	r.count("entry points", len(ls.roots))
	r.count("functions", len(ls.visited))
	r.count("calling contexts", ls.contexts)
	r.atLeast("mutable shared locations", 20)
	r.atLeast("accesses", 1000)
	r.atLeast("entry points", 150)
}

func checkC02(p *Program, r *Report) {
	r.rule("no path acquires a lock class that may be held already (also for reading); the graph 'held when acquired' over all calling contexts has no cycle; every lock taken on a path is released before the entry point returns, and only locks that are held are released")
	r.assume("locks are identified by type and field: nesting two objects' locks of one class counts as taking the lock twice")
	ls := p.lockset()
	ls.unresolved(r)
	for _, pr := range ls.problems {
		switch pr.kind {
		case "reacquire", "leak", "unlock":
			r.fail(pr.kind+":"+pr.class+":"+p.fnName(pr.fn), pr.pos, nil, "%s: %s", p.fnName(pr.fn), pr.msg)
		}
	}
	// cycles
	succ := map[string][]string{}
	for _, k := range sortedKeys(ls.edges) {
		e := ls.edges[k]
		succ[e.from] = append(succ[e.from], e.to)
	}
	for _, k := range sortedKeys(ls.edges) {
		e := ls.edges[k]
		if path := reach(succ, e.to, e.from); path != nil {
			var tr []string
			full := append([]string{e.from}, path...)
			for i := 0; i+1 < len(full); i++ {
				x := ls.edges[full[i]+" -> "+full[i+1]]
				tr = append(tr, fmt.Sprintf("%s (taken at %s) is held when %s takes %s at %s, reached from %s", x.from, x.fromSite, p.fnName(x.fn), x.to, x.pos, x.root))
			}
			r.fail("cycle:"+k, e.pos, tr, "lock order cycle: %s", strings.Join(full, " -> "))
		} else {
			r.ok("%s at %s", k, e.pos)
		}
	}
	n := 0
	for _, c := range sortedKeys(ls.acquires) {
		n += len(ls.acquires[c])
		r.ok("%s: taken at %d places, always released", c, len(ls.acquires[c]))
	}
	r.count("lock classes", len(ls.acquires))
	r.count("acquisition sites", n)
	r.count("lock order edges", len(ls.edges))
	r.count("entry points", len(ls.roots))
	r.count("calling contexts", ls.contexts)
	r.atLeast("lock classes", 10)
	r.atLeast("acquisition sites", 25)
	r.atLeast("entry points", 150)
}

func reach(succ map[string][]string, from, to string) []string {
	prev := map[string]string{from: ""}
	q := []string{from}
	for len(q) > 0 {
		x := q[0]
		q = q[1:]
		if x == to {
			var out []string
			for y := x; ; y = prev[y] {
				out = append([]string{y}, out...)
				if y == from {
					return out
				}
			}
		}
		for _, y := range succ[x] {
			if _, ok := prev[y]; !ok {
				prev[y] = x
				q = append(q, y)
			}
		}
	}
	return nil
}

// ownIO: a wait that is the input or output of a stream object of the type S itself.
func (ls *Lockset) ownIO(w *lsWait, s string) bool {
	switch w.kind {
	case "stream I/O":
		return w.owner == s
	case "select", "channel receive", "channel send":
		return len(w.chans) > 0 && ls.allOwned(w.chans, s)
	}
	return false
}

// allOwned: the channels are fields of s or of structs that s contains.
func (ls *Lockset) allOwned(chans []string, s string) bool {
	for _, c := range chans {
		if c == "" || strings.HasPrefix(c, "var ") || strings.HasPrefix(c, "local ") || strings.HasPrefix(c, "ext ") {
			return false
		}
		if o := ownerType(c); o != s && !ls.p.contains(s, o) {
			return false
		}
	}
	return true
}

// contains: structs of the type named s have a field of the struct type named o.
func (p *Program) contains(s, o string) bool {
	for _, n := range p.allNamed() {
		if p.typeName(n) != s {
			continue
		}
		st := structOf(n)
		for i := 0; st != nil && i < st.NumFields(); i++ {
			if m := named(st.Field(i).Type()); m != nil && p.typeName(m) == o {
				if _, ptr := st.Field(i).Type().(*types.Pointer); !ptr {
					return true
				}
			}
		}
	}
	return false
}

// serializers: the locks every one of whose critical sections is there to do
// I/O on the lock's own object.
func (ls *Lockset) serializers() map[string]bool {
	io := map[string]map[string]bool{}
	for i := range ls.waits {
		w := &ls.waits[i]
		for l, m := range w.held {
			if !ls.ownIO(w, ownerType(l)) {
				continue
			}
			if io[l] == nil {
				io[l] = map[string]bool{}
			}
			for s := range m.sites {
				io[l][s] = true
			}
		}
	}
	out := map[string]bool{}
	for l, sites := range ls.acquires {
		ok := len(sites) > 0
		for s := range sites {
			if !io[l][s] {
				ok = false
			}
		}
		if ok {
			out[l] = true
		}
	}
	return out
}

// streamImpl: fn is a method of a type that implements net.Conn (or a helper of one, by receiver).
func (ls *Lockset) streamTypes() map[string]bool {
	out := map[string]bool{}
	it := netType(ls.p, "Conn")
	for _, n := range ls.p.allNamed() {
		if !types.IsInterface(n) && it != nil && types.Implements(types.NewPointer(n), it) {
			out[ls.p.typeName(n)] = true
		}
	}
	return out
}

// timerDone: waiting for a timer callback that does nothing but signal its end.
func (ls *Lockset) timerDone(w *lsWait) bool {
	if w.kind != "channel receive" || len(w.chans) != 1 {
		return false
	}
	for _, c := range ls.closes {
		if c.ch != w.chans[0] || c.async != "time.AfterFunc" {
			continue
		}
		// the callback must neither wait nor lock
		root := c.root
		ok := true
		for _, v := range ls.waits {
			if v.root == root {
				ok = false
			}
		}
		if ls.locksIn[root] {
			ok = false
		}
		if ok {
			return true
		}
	}
	return false
}

func checkC03(p *Program, r *Report) {
	r.rule("at every point that waits for a peer, a user callback or another goroutine (stream I/O, accept, dial, channel operations without default, condition variables, joins, sleeps, calls of user functions) no lock may be held on any path from any entry point, except a lock all of whose critical sections do I/O on the object the lock belongs to, and that only during such I/O (a user callback never)")
	r.assume("Close, SetDeadline and address methods of net.Conn and net.Listener do not wait for the peer; loggers, os.Remove and the random source do not wait")
	r.assume("waiting, in a deadline timer's Set, for the timer callback that has already fired is not a wait for another party")
	ls := p.lockset()
	ls.unresolved(r)
	ser := ls.serializers()
	streams := ls.streamTypes()
	kinds := map[string]int{}
	sites := map[string]bool{}
	for i := range ls.waits {
		w := &ls.waits[i]
		kinds[w.kind]++
		sites[w.kind+" "+p.instrPos(w.ins)] = true
		for _, l := range sortedKeys(w.held) {
			m := w.held[l]
			if ls.timerDone(w) {
				continue
			}
			if ser[l] {
				if ls.ownIO(w, ownerType(l)) {
					continue
				}
				// the I/O itself, inside an implementation of net.Conn
				if w.kind != "user callback" && len(w.chans) > 0 {
					in := false
					for t := range streams {
						if ls.allOwned(w.chans, t) {
							in = true
						}
					}
					if in {
						continue
					}
				}
			}
			r.fail("held:"+l+":"+w.kind+":"+p.fnName(w.fn), p.instrPos(w.ins),
				[]string{fmt.Sprintf("%s may be held, taken at %s", l, strings.Join(sortedKeys(m.sites), ", ")),
					fmt.Sprintf("%s waits (%s) in %s at %s, reached from %s", w.kind, w.desc, p.fnName(w.fn), p.instrPos(w.ins), w.root)},
				"%s may be held during a %s (%s) in %s", l, w.kind, w.desc, p.fnName(w.fn))
		}
	}
	for _, s := range sortedKeys(sites) {
		r.ok("%s", s)
	}
	for k, n := range kinds {
		r.count("waits: "+k, n)
	}
	r.count("wait sites", len(sites))
	r.count("serializing locks", len(ser))
	r.sample("serializing locks: %s", strings.Join(sortedKeys(ser), ", "))
	r.count("entry points", len(ls.roots))
	r.count("calling contexts", ls.contexts)
	r.atLeast("wait sites", 20)
	r.atLeast("waits: stream I/O", 5)
	r.atLeast("waits: select", 5)
	r.atLeast("waits: user callback", 1)
	r.atLeast("entry points", 150)
}
