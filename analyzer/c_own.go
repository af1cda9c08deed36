package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C24", checkC24) }

// Ownership of the memory of frames: where the bytes and the frame lists that
// are written, handed out or kept come from. The analysis follows values
// backwards over SSA, through calls, results, parameters, captured variables,
// fields and channels.

type memKind int

const (
	memFresh  memKind = iota // made at an instruction
	memParam                 // a parameter, or what it points to (at)
	memFree                  // what a captured variable holds
	memField                 // held by a field
	memGlobal                // held by a package variable
	memChan                  // received from a channel, or taken out of a container of messages
)

// memory is where memory comes from, seen from the function that is looked at.
// level 0 is the memory of a list (or of bytes), level 1 that of its elements.
type memory struct {
	kind  memKind
	at    ssa.Instruction // memFresh: where it is made, or the call that makes it
	raw   ssa.Instruction // memFresh: where it is made
	v     ssa.Value       // memParam, memFree
	point bool            // memParam: what the parameter points to
	field FieldKey
	elem  string // memChan: the type of what the channel carries
	part  bool   // memFresh: one of several pieces of memory, maybe another one each time
	level int
}

type memQuery struct {
	out   map[memory]bool
	seen  map[memKey]bool
	depth int
}

type memKey struct {
	v     ssa.Value
	level int
	addr  bool
	elems bool
}

type owns struct {
	p       *Program
	r       *Report
	callers map[*ssa.Function][]ssa.CallInstruction
	makers  map[*ssa.Function][]*ssa.MakeClosure
	stores  map[FieldKey][]*ssa.Store
	sends   []memSend
	msg     *types.Named
	steps   int
}

// memSend is what is put on a channel.
type memSend struct {
	key  FieldKey // the field the channel is held by, if that is known
	elem string
	val  ssa.Value
	ins  ssa.Instruction
}

// channel is the field that holds a channel and what the channel carries.
func (o *owns) channel(v ssa.Value) (k FieldKey, elem string) {
	ct, ok := v.Type().Underlying().(*types.Chan)
	if !ok {
		return
	}
	elem = ct.Elem().String()
	if x, ok := v.(*ssa.ChangeType); ok {
		v = x.X
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if f, _, ok := o.holder(u.X); ok {
			k = f
		}
	}
	return
}

// received is memory that comes out of a channel or another container.
func (o *owns) received(from ssa.Value, level int) memory {
	m := memory{kind: memChan, level: level}
	switch x := from.(type) {
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			m.field, m.elem = o.channel(x.X)
		}
	case *ssa.Extract:
		if sel, ok := x.Tuple.(*ssa.Select); ok {
			n := 2
			for _, st := range sel.States {
				if st.Dir == types.RecvOnly {
					if n == x.Index {
						m.field, m.elem = o.channel(st.Chan)
					}
					n++
				}
			}
			break
		}
		return o.received(x.Tuple, level)
	}
	return m
}

func newOwns(p *Program, r *Report) *owns {
	o := &owns{p: p, r: r, callers: map[*ssa.Function][]ssa.CallInstruction{}, makers: map[*ssa.Function][]*ssa.MakeClosure{}, stores: map[FieldKey][]*ssa.Store{}, msg: p.mustType("Msg")}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case ssa.CallInstruction:
					for _, f := range p.targets(x.Common()).Fns {
						o.callers[f] = append(o.callers[f], x)
					}
				case *ssa.MakeClosure:
					f := x.Fn.(*ssa.Function)
					o.makers[f] = append(o.makers[f], x)
				case *ssa.Send:
					if o.depth(x.X.Type()) > 0 {
						k, e := o.channel(x.Chan)
						o.sends = append(o.sends, memSend{k, e, x.X, x})
					}
				case *ssa.Select:
					for _, st := range x.States {
						if st.Dir == types.SendOnly && o.depth(st.Send.Type()) > 0 {
							k, e := o.channel(st.Chan)
							o.sends = append(o.sends, memSend{k, e, st.Send, x})
						}
					}
				case *ssa.Store:
					if o.depth(x.Val.Type()) > 0 {
						if k, _, ok := o.holder(x.Addr); ok {
							o.stores[k] = append(o.stores[k], x)
						}
					}
				}
			}
		}
	}
	return o
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

// depth: 1 for bytes, 2 for lists of bytes and what contains them.
func (o *owns) depth(t types.Type) int { return o.depthOf(t, 0) }
func (o *owns) depthOf(t types.Type, n int) int {
	if t == nil || n > 4 {
		return 0
	}
	if isByteSlice(t) {
		return 1
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if isByteSlice(u.Elem()) {
			return 2
		}
	case *types.Array:
		return o.depthOf(u.Elem(), n+1)
	case *types.Struct:
		d := 0
		for i := 0; i < u.NumFields(); i++ {
			if k := o.depthOf(u.Field(i).Type(), n+1); k > d {
				d = k
			}
		}
		return d
	}
	return 0
}

// holder is the field or package variable of a lasting object that an address
// is in; root is where the address starts.
func (o *owns) holder(addr ssa.Value) (k FieldKey, root ssa.Value, ok bool) {
	var first *ssa.FieldAddr
	v := addr
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			first = x
			v = x.X
			continue
		case *ssa.IndexAddr:
			if _, arr := deref(x.X.Type()).Underlying().(*types.Array); arr {
				v = x.X
				continue
			}
			return k, x, false
		case *ssa.Phi:
			if len(x.Edges) > 0 && first == nil {
				return k, x, false
			}
		}
		break
	}
	switch x := v.(type) {
	case *ssa.Global:
		return FieldKey{"", o.p.globalName(x)}, v, true
	case *ssa.Alloc:
		return k, v, false
	}
	if first == nil {
		return k, v, false
	}
	st := structOf(first.X.Type())
	n := named(deref(first.X.Type()))
	if st == nil || n == nil || n == o.msg {
		return k, v, false
	}
	return FieldKey{n.String(), st.Field(first.Field).Name()}, v, true
}

func (o *owns) query(depth int) *memQuery {
	return &memQuery{out: map[memory]bool{}, seen: map[memKey]bool{}, depth: depth}
}

// of is where the memory of v comes from.
func (o *owns) of(v ssa.Value, level int) map[memory]bool {
	q := o.query(0)
	o.collect(v, level, q)
	return q.out
}

func (q *memQuery) add(m memory) { q.out[m] = true }

func (o *owns) fresh(ins ssa.Instruction, level int, q *memQuery) {
	if level == 0 {
		q.add(memory{kind: memFresh, at: ins, raw: ins})
		return
	}
	o.elems(ins, q)
}

// collect follows a value back.
func (o *owns) collect(v ssa.Value, level int, q *memQuery) {
	k := memKey{v: v, level: level}
	if v == nil || q.seen[k] || level > 1 {
		return
	}
	q.seen[k] = true
	o.steps++
	switch x := v.(type) {
	case *ssa.Parameter:
		if o.depth(x.Type()) > level {
			q.add(memory{kind: memParam, v: x, level: level})
		}
	case *ssa.FreeVar:
		q.add(memory{kind: memFree, v: x, level: level})
	case *ssa.MakeSlice:
		o.fresh(x, level, q)
	case *ssa.Alloc:
		o.fresh(x, level, q)
	case *ssa.Convert:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			o.fresh(x, level, q)
		} else {
			o.collect(x.X, level, q)
		}
	case *ssa.ChangeType:
		o.collect(x.X, level, q)
	case *ssa.ChangeInterface:
		o.collect(x.X, level, q)
	case *ssa.MakeInterface:
		o.collect(x.X, level, q)
	case *ssa.TypeAssert:
		o.collect(x.X, level, q)
	case *ssa.Phi:
		for _, e := range x.Edges {
			o.collect(e, level, q)
		}
	case *ssa.Slice:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
			o.collect(x.X, level, q)
			break
		}
		// a slice of an array
		if level == 1 {
			o.content(x.X, 0, q)
			break
		}
		if k, root, ok := o.holder(x.X); ok {
			q.add(memory{kind: memField, field: k, level: 0})
		} else if al, ok := root.(*ssa.Alloc); ok {
			o.fresh(al, 0, q)
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if o.depth(x.Type()) > 0 {
				o.content(x.X, level, q)
			}
		case token.ARROW:
			q.add(o.received(x, level))
		}
	case *ssa.Field:
		o.collect(x.X, level, q)
	case *ssa.Index:
		o.collect(x.X, level, q)
	case *ssa.Lookup:
		q.add(memory{kind: memChan, level: level})
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			o.result(t, x.Index, level, q)
		case *ssa.TypeAssert:
			o.collect(t.X, level, q)
		default:
			q.add(o.received(x, level))
		}
	case *ssa.Call:
		o.result(x, 0, level, q)
	}
}

// content follows what an address holds.
func (o *owns) content(addr ssa.Value, level int, q *memQuery) {
	k := memKey{v: addr, level: level, addr: true}
	if q.seen[k] || level > 1 {
		return
	}
	q.seen[k] = true
	if x, ok := addr.(*ssa.IndexAddr); ok {
		if s, ok := x.X.Type().Underlying().(*types.Slice); ok {
			if _, fixed := x.Index.(*ssa.Const); isByteSlice(s.Elem()) && !fixed {
				sub := o.query(q.depth)
				sub.seen = q.seen
				o.collect(x.X, level+1, sub)
				for m := range sub.out {
					m.part = m.kind == memFresh
					q.add(m)
				}
			} else if isByteSlice(s.Elem()) {
				o.collect(x.X, level+1, q)
			} else {
				q.add(memory{kind: memChan, level: level}) // a list of messages
			}
			return
		}
	}
	if ph, ok := addr.(*ssa.Phi); ok {
		for _, e := range ph.Edges {
			o.content(e, level, q)
		}
		return
	}
	f, root, ok := o.holder(addr)
	if ok {
		// what is received through a channel, or is local, is not lasting
		switch x := root.(type) {
		case *ssa.Extract:
			switch x.Tuple.(type) {
			case *ssa.Select, *ssa.UnOp, *ssa.Lookup, *ssa.Next:
				q.add(o.received(x, level))
				return
			}
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				q.add(o.received(x, level))
				return
			}
		}
		q.add(memory{kind: memField, field: f, level: level})
		return
	}
	if o.pooled(root) {
		q.add(memory{kind: memField, field: FieldKey{"sync.Pool", "pool"}, level: level})
		return
	}
	switch x := root.(type) {
	case *ssa.IndexAddr:
		if x != addr {
			// a field of an element of a list
			q.add(memory{kind: memChan, level: level})
		}
	case *ssa.Alloc:
		o.storesTo(x, level, q)
	case *ssa.Parameter:
		o.storesTo(x, level, q)
		q.add(memory{kind: memParam, v: x, point: true, level: level})
	case *ssa.FreeVar:
		o.storesTo(x, level, q)
		q.add(memory{kind: memFree, v: x, level: level})
	case *ssa.Phi:
		for _, e := range x.Edges {
			o.content(e, level, q)
		}
	case *ssa.Call:
		// a pointer to something a function made
		for _, f := range o.p.targets(x.Common()).Fns {
			o.inner(f, x, q, func(s *memQuery) {
				for _, b := range f.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) > 0 {
						o.content(ret.Results[0], level, s)
					}
				}
			})
		}
	}
}

// storesTo follows what is stored to a variable, also by the functions that
// get its address.
func (o *owns) storesTo(addr ssa.Value, level int, q *memQuery) {
	k := memKey{v: addr, level: level, addr: true, elems: true}
	if q.seen[k] {
		return
	}
	q.seen[k] = true
	refs := addr.Referrers()
	if refs == nil {
		return
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == addr && o.depth(x.Val.Type()) > level {
				o.collect(x.Val, level, q)
			}
		case *ssa.FieldAddr:
			if x.X == addr {
				if o.depth(deref(x.Type())) > level {
					o.storesTo(x, level, q)
				}
			}
		case *ssa.IndexAddr:
			if _, arr := deref(x.X.Type()).Underlying().(*types.Array); arr && x.X == addr && o.depth(deref(x.Type())) > level {
				o.storesTo(x, level, q)
			}
		case *ssa.MakeClosure:
			f := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == addr && i < len(f.FreeVars) {
					fv := f.FreeVars[i]
					o.inner(f, x, q, func(s *memQuery) { o.storesTo(fv, level, s) })
				}
			}
		case ssa.CallInstruction:
			cc := x.Common()
			for _, f := range o.p.targets(cc).Fns {
				for i, a := range argsOf(cc) {
					if a == addr && i < len(f.Params) {
						pr := f.Params[i]
						if o.depth(deref(pr.Type())) > level {
							o.inner(f, x, q, func(s *memQuery) { o.storesTo(pr, level, s) })
						}
					}
				}
			}
		}
	}
}

func argsOf(cc *ssa.CallCommon) []ssa.Value {
	if cc.IsInvoke() {
		return append([]ssa.Value{cc.Value}, cc.Args...)
	}
	return cc.Args
}

// inner looks into a function that is called (or made) at an instruction, and
// puts what it finds in terms of the caller.
func (o *owns) inner(f *ssa.Function, at ssa.Instruction, q *memQuery, run func(s *memQuery)) {
	if q.depth > 8 {
		return
	}
	s := o.query(q.depth + 1)
	run(s)
	var args []ssa.Value
	if c, ok := at.(ssa.CallInstruction); ok {
		args = argsOf(c.Common())
	}
	for m := range s.out {
		switch m.kind {
		case memFresh:
			m.at = at
			q.add(m)
		case memParam:
			pr := m.v.(*ssa.Parameter)
			if pr.Parent() != f || args == nil {
				q.add(m)
				continue
			}
			for i, x := range f.Params {
				if x == pr && i < len(args) {
					if m.point {
						o.content(args[i], m.level, q)
					} else {
						o.collect(args[i], m.level, q)
					}
				}
			}
		case memFree:
			done := false
			for _, mc := range o.makers[f] {
				if mc.Parent() == at.Parent() {
					for i, fv := range f.FreeVars {
						if fv == m.v {
							o.content(mc.Bindings[i], m.level, q)
							done = true
						}
					}
				}
			}
			if !done {
				q.add(m)
			}
		default:
			q.add(m)
		}
	}
}

// elems follows the elements of a list made at an instruction.
func (o *owns) elems(base ssa.Instruction, q *memQuery) {
	v, _ := base.(ssa.Value)
	k := memKey{v: v, elems: true}
	if q.seen[k] {
		return
	}
	q.seen[k] = true
	if al, ok := base.(*ssa.Alloc); ok {
		o.content(al, 0, q)
	}
	is := func(x ssa.Value) bool {
		for m := range o.of(x, 0) {
			if m.kind == memFresh && m.at == base {
				return true
			}
		}
		return false
	}
	for _, b := range base.Parent().Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok && isByteSlice(x.Val.Type()) {
					if _, sl := ia.X.Type().Underlying().(*types.Slice); sl && is(ia.X) {
						o.collect(x.Val, 0, q)
					}
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "copy" && o.depth(x.Call.Args[0].Type()) == 2 && is(x.Call.Args[0]) {
					o.collect(x.Call.Args[1], 1, q)
				}
			}
		}
	}
}

// clipped: appending to it never writes to its memory.
func clipped(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Slice:
		return x.Max != nil && x.High != nil && sameValue(x.Max, x.High)
	case *ssa.ChangeType:
		return clipped(x.X)
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			if o := f.Origin(); o != nil {
				f = o
			}
			return f.Pkg != nil && f.Pkg.Pkg.Path() == "slices" && f.Name() == "Clip"
		}
	}
	return false
}

func sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	ca, ok1 := a.(*ssa.Const)
	cb, ok2 := b.(*ssa.Const)
	if ok1 && ok2 {
		return ca.Value != nil && cb.Value != nil && ca.Value.String() == cb.Value.String()
	}
	switch x := a.(type) {
	case *ssa.Field:
		y, ok := b.(*ssa.Field)
		return ok && x.Field == y.Field && sameValue(x.X, y.X)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameValue(x.X, y.X)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == token.MUL && y.Op == token.MUL && sameValue(x.X, y.X)
	}
	la, ok1 := a.(*ssa.Call)
	lb, ok2 := b.(*ssa.Call)
	if ok1 && ok2 {
		x, ok1 := la.Call.Value.(*ssa.Builtin)
		y, ok2 := lb.Call.Value.(*ssa.Builtin)
		return ok1 && ok2 && x.Name() == "len" && y.Name() == "len" && sameValue(la.Call.Args[0], lb.Call.Args[0])
	}
	return false
}

// extFull is the name of a function outside the module, generic ones included.
func extFull(cc *ssa.CallCommon, t CallTargets) string {
	if f := cc.StaticCallee(); f != nil {
		if o := f.Origin(); o != nil {
			f = o
		}
		if x, ok := f.Object().(*types.Func); ok {
			return extName(x)
		}
	}
	return extName(t.Ext)
}

// partOf: functions whose result is part of their first argument.
var partOf = map[string]bool{
	"bytes.TrimSpace": true, "bytes.Trim": true, "bytes.TrimLeft": true, "bytes.TrimRight": true, "bytes.TrimPrefix": true, "bytes.TrimSuffix": true,
	"bytes.CutPrefix": true, "bytes.CutSuffix": true, "bytes.Cut": true, "bytes.Split": true, "bytes.SplitN": true, "bytes.Fields": true,
	"slices.Delete": true, "slices.Clip": true, "slices.Grow": true, "slices.Insert": true, "slices.Replace": true, "slices.Compact": true,
}

// result follows a result of a call.
func (o *owns) result(c *ssa.Call, i, level int, q *memQuery) {
	cc := c.Common()
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		if bi.Name() != "append" {
			return
		}
		if level == 0 {
			q.add(memory{kind: memFresh, at: c, raw: c})
			if !clipped(cc.Args[0]) {
				o.collect(cc.Args[0], 0, q)
			}
			return
		}
		o.collect(cc.Args[0], 1, q)
		o.collect(cc.Args[1], 1, q)
		o.elems(c, q)
		return
	}
	t := o.p.targets(cc)
	if level == 1 {
		o.elems(c, q)
	}
	if len(t.Fns) == 0 {
		switch name := extFull(cc, t); {
		case name == "bytes.Buffer.Bytes" || name == "bytes.Buffer.Next" || name == "bytes.Buffer.AvailableBuffer":
			if k, root, ok := o.holder(cc.Args[0]); ok {
				q.add(memory{kind: memField, field: k, level: level})
			} else if al, ok := root.(*ssa.Alloc); ok {
				o.fresh(al, 0, q)
			} else if pr, ok := root.(*ssa.Parameter); ok {
				q.add(memory{kind: memParam, v: pr, point: true, level: level})
			} else {
				q.add(memory{kind: memFresh, at: c, raw: c})
				o.content(root, level, q)
			}
		case name == "bufio.Reader.Peek" || name == "bufio.Reader.ReadSlice" || name == "bufio.Scanner.Bytes" || name == "bufio.Reader.ReadLine":
			q.add(memory{kind: memField, field: FieldKey{"bufio.Reader", "buffer"}, level: level})
		case name == "sync.Pool.Get":
			q.add(memory{kind: memField, field: FieldKey{"sync.Pool", "pool"}, level: level})
		case partOf[name]:
			o.collect(cc.Args[0], level, q)
		case name == "slices.Clone":
			if level == 0 {
				q.add(memory{kind: memFresh, at: c, raw: c})
			} else {
				o.collect(cc.Args[0], 1, q)
			}
		default:
			if level == 0 {
				q.add(memory{kind: memFresh, at: c, raw: c})
			}
		}
		return
	}
	for _, f := range t.Fns {
		o.inner(f, c, q, func(s *memQuery) {
			for _, b := range f.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(ret.Results) {
					o.collect(ret.Results[i], level, s)
				}
			}
		})
	}
}

// ---- uses

// memSource is what memory turns out to be in the end.
type memSource struct {
	kind  string // "fresh", "again", "user", "field", "global", "chan", "other"
	raw   ssa.Instruction
	param *ssa.Parameter
	field FieldKey
	elem  string
	level int
}

// isUsers: the parameter is memory of the library's user.
func (o *owns) isUsers(pr *ssa.Parameter) bool {
	fn := pr.Parent()
	ob, ok := fn.Object().(*types.Func)
	if !ok || !ob.Exported() || o.depth(pr.Type()) == 0 {
		return false
	}
	sig := ob.Type().(*types.Signature)
	switch ob.Name() {
	case "Read", "ReadFrom", "ReadFull":
		return false
	}
	if sig.Recv() == nil {
		return true
	}
	n := named(sig.Recv().Type())
	if n == nil {
		return false
	}
	if n.Obj().Exported() {
		return true
	}
	switch ob.Name() {
	case "Send", "SendMulti", "Write":
		return true
	}
	return false
}

// resolve follows memory up the callers of the function.
func (o *owns) resolve(ms map[memory]bool, v ssa.Value, at ssa.Instruction) map[memSource]bool {
	out := map[memSource]bool{}
	type item struct {
		m  memory
		v  ssa.Value
		at ssa.Instruction
	}
	seen := map[item]bool{}
	var work []item
	push := func(ms map[memory]bool, v ssa.Value, at ssa.Instruction) {
		for m := range ms {
			it := item{m, v, at}
			if !seen[it] {
				seen[it] = true
				work = append(work, it)
			}
		}
	}
	push(ms, v, at)
	for len(work) > 0 && len(seen) < 20000 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		m := it.m
		switch m.kind {
		case memFresh:
			k := "fresh"
			if !m.part && m.at.Parent() == it.at.Parent() && (o.again(it.at, it.v, m.at) || carried(it.at, m.at)) {
				k = "again"
			}
			out[memSource{kind: k, raw: m.raw}] = true
		case memField:
			out[memSource{kind: "field", field: m.field, level: m.level}] = true
		case memGlobal:
			out[memSource{kind: "global", field: m.field, level: m.level}] = true
		case memChan:
			out[memSource{kind: "chan", field: m.field, elem: m.elem, level: m.level}] = true
		case memParam:
			pr := m.v.(*ssa.Parameter)
			if o.isUsers(pr) && !m.point {
				out[memSource{kind: "user", param: pr, level: m.level}] = true
			}
			idx := -1
			for i, x := range pr.Parent().Params {
				if x == pr {
					idx = i
				}
			}
			for _, c := range o.callers[pr.Parent()] {
				args := argsOf(c.Common())
				if idx < 0 || idx >= len(args) {
					continue
				}
				q := o.query(0)
				if m.point {
					o.content(args[idx], m.level, q)
				} else {
					o.collect(args[idx], m.level, q)
				}
				push(q.out, args[idx], c)
			}
		case memFree:
			fv := m.v.(*ssa.FreeVar)
			for _, mc := range o.makers[fv.Parent()] {
				for i, x := range fv.Parent().FreeVars {
					if x == fv {
						q := o.query(0)
						o.content(mc.Bindings[i], m.level, q)
						push(q.out, mc.Bindings[i], mc)
					}
				}
			}
		}
	}
	return out
}

// empty: made without room for a byte.
func empty(ins ssa.Instruction) bool {
	switch x := ins.(type) {
	case *ssa.Alloc:
		a, ok := deref(x.Type()).Underlying().(*types.Array)
		return ok && a.Len() == 0
	case *ssa.MakeSlice:
		c, ok := x.Cap.(*ssa.Const)
		return ok && c.Int64() == 0
	}
	return false
}

// again: the instruction can run twice with the same memory in v, which is made
// at the other one.
func (o *owns) again(use ssa.Instruction, v ssa.Value, made ssa.Instruction) bool {
	ub, mb := use.Block(), made.Block()
	if ub == mb {
		return false
	}
	ph := phiOf(v)
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock) bool
	visit = func(b *ssa.BasicBlock) bool {
		for _, s := range b.Succs {
			if ph != nil && ph.Block() == s {
				// v may get another value here
				same := false
				for i, e := range ph.Edges {
					if s.Preds[i] == b && (e == ssa.Value(ph) || o.holds(e, made)) {
						same = true
					}
				}
				if !same {
					continue
				}
			}
			if s == ub {
				return true
			}
			if s == mb || seen[s] {
				continue
			}
			seen[s] = true
			if visit(s) {
				return true
			}
		}
		return false
	}
	return visit(ub)
}

// chain: the values whose memory v may share without a phi in between.
func chain(v ssa.Value) (out []ssa.Value) {
	for v != nil {
		out = append(out, v)
		switch x := v.(type) {
		case *ssa.Slice:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && !clipped(x.Call.Args[0]) {
				v = x.Call.Args[0]
				continue
			}
		}
		break
	}
	return
}

// carried: the list appended to at made may still be the one that was handed
// out at use before.
func carried(use ssa.Instruction, made ssa.Instruction) bool {
	v, ok := made.(*ssa.Call)
	if !ok || len(chain(v)) < 2 {
		return false
	}
	meets := func(v ssa.Value, in map[ssa.Value]bool) bool {
		for _, x := range chain(v) {
			if in[x] {
				return true
			}
		}
		return false
	}
	key := func(b *ssa.BasicBlock, in map[ssa.Value]bool) string {
		var ks []string
		for k := range in {
			ks = append(ks, k.Name())
		}
		sort.Strings(ks)
		return fmt.Sprint(b.Index, ks)
	}
	seen := map[string]bool{}
	var visit func(b *ssa.BasicBlock, in map[ssa.Value]bool) bool
	visit = func(b *ssa.BasicBlock, in map[ssa.Value]bool) bool {
		for _, s := range b.Succs {
			next := map[ssa.Value]bool{}
			for k := range in {
				if ins, ok := k.(ssa.Instruction); !ok || ins.Block() != s {
					next[k] = true
				}
			}
			for _, ins := range s.Instrs {
				ph, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				for i, e := range ph.Edges {
					if s.Preds[i] == b && meets(e, in) {
						next[ph] = true
					}
				}
			}
			if s == v.Block() && meets(v, next) {
				return true
			}
			if len(next) == 0 || seen[key(s, next)] {
				continue
			}
			seen[key(s, next)] = true
			if visit(s, next) {
				return true
			}
		}
		return false
	}
	in := map[ssa.Value]bool{}
	for _, x := range chain(v) {
		in[x] = true
	}
	return visit(use.Block(), in)
}

// pooled: the pointer comes from a sync.Pool.
func (o *owns) pooled(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.TypeAssert:
			v = x.X
			continue
		case *ssa.Extract:
			v = x.Tuple
			continue
		case *ssa.Phi:
			for _, e := range x.Edges {
				if _, loop := e.(*ssa.Phi); !loop && o.pooled(e) {
					return true
				}
			}
		case *ssa.Call:
			return extFull(x.Common(), o.p.targets(x.Common())) == "sync.Pool.Get"
		}
		return false
	}
}

func (o *owns) holds(v ssa.Value, made ssa.Instruction) bool {
	for m := range o.of(v, 0) {
		if m.kind == memFresh && m.at == made {
			return true
		}
	}
	return false
}

func phiOf(v ssa.Value) *ssa.Phi {
	switch x := v.(type) {
	case *ssa.Phi:
		return x
	case *ssa.Slice:
		return phiOf(x.X)
	case *ssa.ChangeType:
		return phiOf(x.X)
	}
	return nil
}

// memWrite is an operation that writes to memory.
type memWrite struct {
	ins  ssa.Instruction
	dst  ssa.Value
	what string
	addr bool // dst is the address of the list
}

// writesOf are the operations of a function that write to bytes or lists.
func (o *owns) writesOf(fn *ssa.Function) (out []memWrite) {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
					if _, sl := ia.X.Type().Underlying().(*types.Slice); sl && o.depth(ia.X.Type()) > 0 {
						out = append(out, memWrite{ins, ia.X, "assigns to an element of", false})
					}
				}
			case ssa.CallInstruction:
				cc := x.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "copy", "clear":
						if o.depth(cc.Args[0].Type()) > 0 {
							out = append(out, memWrite{ins, cc.Args[0], "copies over", false})
						}
					case "append":
						if o.depth(cc.Args[0].Type()) > 0 && !clipped(cc.Args[0]) {
							out = append(out, memWrite{ins, cc.Args[0], "appends in place to", false})
						}
					}
					continue
				}
				t := o.p.targets(cc)
				name := extFull(cc, t)
				args := argsOf(cc)
				w := func(i int, what string) {
					if i < len(args) && o.depth(args[i].Type()) > 0 {
						out = append(out, memWrite{ins, args[i], what, false})
					}
				}
				switch {
				case name == "io.ReadFull" || name == "io.ReadAtLeast":
					w(1, "reads into")
				case strings.HasSuffix(name, ".Read") && (name == "io.Reader.Read" || name == "net.Conn.Read" || strings.HasPrefix(name, "bufio.") || strings.HasPrefix(name, "bytes.")):
					w(1, "reads into")
				case name == "crypto/rand.Read" || name == "encoding/hex.Encode" || name == "encoding/hex.Decode" || name == "crypto/subtle.XORBytes" || name == "crypto/subtle.ConstantTimeCopy":
					w(0, "writes to")
					if name == "crypto/subtle.ConstantTimeCopy" {
						w(1, "writes to")
					}
				case strings.HasPrefix(name, "encoding/binary.") && strings.Contains(name, ".Put"), strings.HasPrefix(name, "encoding/binary.") && strings.Contains(name, ".Append"):
					w(1, "writes to")
				case strings.HasSuffix(name, ".XORKeyStream") || strings.HasSuffix(name, ".CryptBlocks") || strings.HasSuffix(name, "crypto/cipher.Block.Encrypt") || strings.HasSuffix(name, "crypto/cipher.Block.Decrypt"):
					w(1, "writes to")
				case name == "slices.Reverse" || name == "slices.Sort" || name == "slices.Delete" || name == "slices.Insert" || name == "slices.Replace" || name == "slices.SortFunc" || name == "bytes.NewBuffer":
					w(0, "may write to")
				case name == "net.Buffers.WriteTo" || name == "net.Buffers.Read":
					if _, ok := args[0].Type().Underlying().(*types.Pointer); ok {
						out = append(out, memWrite{ins, args[0], "uses up", true})
					}
				}
			}
		}
	}
	return
}

func (s memSource) String() string {
	switch s.kind {
	case "user":
		return fmt.Sprintf("the %s given to %s", s.param.Name(), s.param.Parent().Name())
	case "field", "global":
		return s.field.String()
	}
	return s.kind
}

func sorted(ms map[memSource]bool) []memSource {
	var out []memSource
	for m := range ms {
		out = append(out, m)
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if a.kind != b.kind {
			return a.kind < b.kind
		}
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		if a.raw != nil && b.raw != nil {
			return a.raw.Pos() < b.raw.Pos()
		}
		return false
	})
	return out
}

func checkC24(p *Program, r *Report) {
	r.rule("Origin of memory, followed backwards over SSA through results, parameters, captured variables, fields and channels: every message put on a channel or returned by an exported method consists of memory made for it (not held by a field or package variable, and not made before a loop that hands it out again).")
	r.rule("No operation that writes to bytes or to a list of frames (assignment, copy, append in place, reads, encoders, net.Buffers) writes to memory that comes from a parameter of an exported function, or that is held by a field and comes from such a parameter or from a received message.")
	r.rule("The bytes given to a Write method are not put in a field, a container or on a channel; what Clone, Bytes and NewMsgFromString return is not memory they were given.")
	r.assume("functions outside the module write to their arguments and keep them only as documented; a net.Conn, Security or io.Writer of the user keeps to its contract; PUB, XPUB and REP queue the caller's frames until they are written.")
	o := newOwns(p, r)
	short := func(fn *ssa.Function) string { return fn.RelString(p.Root) }
	// a message, or a struct in which only a message has bytes
	isMsgs := func(t types.Type) bool {
		if types.Identical(t, o.msg) {
			return true
		}
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			return false
		}
		found := false
		for j := 0; j < u.NumFields(); j++ {
			if types.Identical(u.Field(j).Type(), o.msg) {
				found = true
			} else if o.depth(u.Field(j).Type()) > 0 {
				return false
			}
		}
		return found
	}

	// what is handed out
	delivered := map[ssa.Instruction]bool{}
	hand := func(v ssa.Value, at ssa.Instruction, what string) {
		r.count("messages handed out", 1)
		for level := 0; level < 2; level++ {
			if o.depth(v.Type()) <= level {
				continue
			}
			for _, s := range sorted(o.resolve(o.of(v, level), v, at)) {
				part := "frames"
				if level == 0 && o.depth(v.Type()) == 2 {
					part = "frame list"
				}
				switch s.kind {
				case "fresh":
					delivered[s.raw] = true
				case "again":
					r.fail("again:"+short(at.Parent()), p.instrPos(at), []string{fmt.Sprintf("%s: made here", p.instrPos(s.raw))}, "%s %s whose %s it may hand out again: the memory is made only once", short(at.Parent()), what, part)
					continue
				case "field", "global":
					r.fail("kept:"+short(at.Parent())+":"+s.field.String(), p.instrPos(at), nil, "%s %s whose %s are held by %s as well", short(at.Parent()), what, part, s.field)
					continue
				}
				r.ok("%s: %s: %s", p.instrPos(at), part, s)
			}
		}
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Send:
					if o.depth(x.X.Type()) > 0 && (isMsgs(x.X.Type()) || isByteSlice(x.X.Type())) {
						hand(x.X, x, "passes on a message")
					}
				case *ssa.Select:
					for _, s := range x.States {
						if s.Dir == types.SendOnly && (isMsgs(s.Send.Type()) || isByteSlice(s.Send.Type())) {
							hand(s.Send, x, "passes on a message")
						}
					}
				case *ssa.Return:
					ob, ok := fn.Object().(*types.Func)
					if !ok || !ob.Exported() || ob.Type().(*types.Signature).Recv() == nil {
						continue
					}
					for _, v := range x.Results {
						if isMsgs(v.Type()) {
							hand(v, x, "returns a message")
						}
					}
				}
			}
		}
	}
	r.atLeast("messages handed out", 12)

	// what is written to
	type visit struct {
		s    memSource
		kept bool
	}
	var bad func(s memSource, kept bool, seen map[visit]bool) (string, bool)
	bad = func(s memSource, kept bool, seen map[visit]bool) (string, bool) {
		if seen[visit{s, kept}] {
			return "", false
		}
		seen[visit{s, kept}] = true
		switch s.kind {
		case "user":
			return s.String(), true
		case "fresh", "again":
			if kept && delivered[s.raw] {
				return "(part of) a received message", true
			}
		case "field", "global":
			for _, st := range o.stores[s.field] {
				for _, t := range sorted(o.resolve(o.of(st.Val, s.level), st.Val, st)) {
					if w, ok := bad(t, true, seen); ok {
						return w + ", held by " + s.field.String(), true
					}
				}
			}
		case "chan":
			for _, x := range o.sends {
				if s.elem != x.elem || s.field != x.key && s.field != (FieldKey{}) && x.key != (FieldKey{}) || o.depth(x.val.Type()) <= s.level {
					continue
				}
				for _, t := range sorted(o.resolve(o.of(x.val, s.level), x.val, x.ins)) {
					if w, ok := bad(t, kept, seen); ok {
						return w, true
					}
				}
			}
		}
		return "", false
	}
	for _, fn := range p.Funcs {
		for _, w := range o.writesOf(fn) {
			r.count("writes to bytes and lists", 1)
			q := o.query(0)
			if w.addr {
				o.content(w.dst, 0, q)
			} else {
				o.collect(w.dst, 0, q)
			}
			fine := true
			for _, s := range sorted(o.resolve(q.out, w.dst, w.ins)) {
				if what, ok := bad(s, false, map[visit]bool{}); ok {
					fine = false
					r.fail("write:"+short(fn)+":"+s.String(), p.instrPos(w.ins), nil, "%s %s %s", short(fn), w.what, what)
				}
			}
			if fine {
				r.ok("%s: own memory", p.instrPos(w.ins))
			}
		}
	}
	r.atLeast("writes to bytes and lists", 20)

	// what is put in a list
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				x, ok := ins.(*ssa.Store)
				if !ok || !isByteSlice(x.Val.Type()) {
					continue
				}
				if _, ok := x.Addr.(*ssa.IndexAddr); !ok {
					continue
				}
				r.count("elements put in lists", 1)
				fine := true
				for m := range o.of(x.Val, 0) {
					if m.kind == memFresh && !m.part && m.at.Parent() == fn && o.again(x, x.Val, m.at) && !empty(m.raw) {
						fine = false
						r.fail("shared:"+short(fn), p.instrPos(x), []string{fmt.Sprintf("%s: made here", p.instrPos(m.raw))}, "%s puts the same memory in a list of frames again and again", short(fn))
					}
				}
				if fine {
					r.ok("%s: not put in twice", p.instrPos(x))
				}
			}
		}
	}

	// what is kept
	keep := func(v ssa.Value, at ssa.Instruction) {
		r.count("values kept", 1)
		fine := true
		for level := 0; level < 2; level++ {
			if o.depth(v.Type()) <= level {
				continue
			}
			for _, s := range sorted(o.resolve(o.of(v, level), v, at)) {
				if s.kind == "user" && s.param.Parent().Name() == "Write" && isByteSlice(s.param.Type()) {
					fine = false
					r.fail("keeps:"+short(at.Parent()), p.instrPos(at), nil, "%s keeps %s after it returned", short(at.Parent()), s)
				}
			}
		}
		if fine {
			r.ok("%s: not the caller's", p.instrPos(at))
		}
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					if _, _, ok := o.holder(x.Addr); ok && o.depth(x.Val.Type()) > 0 {
						keep(x.Val, x)
					}
				case *ssa.MapUpdate:
					if o.depth(x.Value.Type()) > 0 {
						keep(x.Value, x)
					}
				case *ssa.Send:
					if o.depth(x.X.Type()) > 0 {
						keep(x.X, x)
					}
				case *ssa.Select:
					for _, s := range x.States {
						if s.Dir == types.SendOnly && o.depth(s.Send.Type()) > 0 {
							keep(s.Send, x)
						}
					}
				}
			}
		}
	}

	// copies
	for _, name := range []string{"Clone", "Bytes", "NewMsgFromString"} {
		var fn *ssa.Function
		if name == "NewMsgFromString" {
			fn = p.mustFunc(p.Root, name)
		} else {
			fn = p.methodOf(o.msg, name)
		}
		if fn == nil {
			r.fail("unanalysed:"+name, "-", nil, "%s not found", name)
			continue
		}
		n := 0
		for _, b := range fn.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			for level := 0; level < o.depth(ret.Results[0].Type()); level++ {
				for m := range o.of(ret.Results[0], level) {
					n++
					if m.kind != memFresh {
						r.fail("copy:"+name, p.instrPos(ret), nil, "%s returns memory that is not its own", name)
					} else {
						r.ok("%s: made in %s", p.instrPos(m.raw), name)
					}
				}
			}
		}
		r.count("origins of results of "+name, n)
		r.atLeast("origins of results of "+name, 1)
	}
	r.count("values followed", o.steps)
}
