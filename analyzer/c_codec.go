package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C30", checkC30)
}

// titled is the name as it goes over the wire.
func titled(ts *Terms, v *Term) *Term {
	if s, ok := v.strVal(); ok {
		b := []byte(s)
		word := false
		for i, c := range b {
			letter := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
			if letter && !word && c >= 'a' {
				b[i] = c - 32
			}
			word = letter || word && (c >= '0' && c <= '9' || c == '\'')
		}
		return ts.str(string(b))
	}
	if v.op == "call" && v.aux == "title" {
		return v
	}
	return ts.mk("call", "title", types.Typ[types.String], v)
}

// codec analyses functions that turn values into bytes and back.
type codec struct {
	*connRun
	st *State
}

func (p *Program) newCodec(r *Report) *codec {
	f := p.newFlow(Client{})
	c := &connRun{p: p, r: r, f: f, sect: f.ts.str("NULL")}
	o := &codec{connRun: c}
	st := p.initState(f, p.Root, true).Fork()
	c.rw = f.ts.sym("the wire", p.openFn().Params[0].Type())
	st.facts[f.ts.eq(c.rw, f.ts.Nil)] = false
	f.c.Call, f.c.Model = o.call, o.call
	f.c.Unroll, f.c.MaxDepth, f.c.Follow = 72, 24, 8
	st.props["out"] = f.ts.mk("seq", "", bytesT)
	st.pins = []*Term{c.rw}
	o.st = st
	c.bad = func(st *State, key, where, msg string) { r.fail(key, where, st.Trace(), "%s", msg) }
	return o
}

func (o *codec) call(st *State, ci *CallInfo) []Out {
	if ci.Seen {
		return nil
	}
	if strings.HasSuffix(ci.Ext, "text/cases.Caser.String") {
		ci.Seen = true
		return []Out{{st, titled(o.f.ts, st.asStr(ci.Args[1]))}}
	}
	return o.connRun.call(st, ci)
}

func (o *codec) same(st *State, a, b *Term) bool {
	return o.sameBytes(st, st.normBytes([]*Term{sp(o.f.ts, st.bytesNow(a))}), st.normBytes([]*Term{sp(o.f.ts, st.bytesNow(b))}))
}

// property is the encoding of a name and a value.
func (o *codec) property(st *State, k, v *Term) []*Term {
	ts := o.f.ts
	t := titled(ts, k)
	return []*Term{el(ts, st.lenOf(t)), sp(ts, t), sp(ts, ts.mk("be32", "", bytesT, st.lenOf(v))), sp(ts, v)}
}

// wireForm splits the lengths into single bytes, as a decoder sees them.
func (o *codec) wireForm(in []*Term) []*Term {
	ts := o.f.ts
	var wire []*Term
	for _, p := range in {
		if p.op == "spread" && p.args[0].op == "be32" {
			for i := int64(0); i < 4; i++ {
				wire = append(wire, el(ts, ts.mk("el", "", byteT, p.args[0], ts.integer(i))))
			}
			continue
		}
		wire = append(wire, p)
	}
	return wire
}

func (o *codec) run(key string, fn *ssa.Function, args []*Term, ret func(st *State, res []*Term, ins ssa.Instruction)) {
	o.f.Problem, o.f.stopped, o.f.states = nil, false, 0
	o.f.c.Return = ret
	o.f.RunKey(key, o.st.Fork(), fn, args, nil)
	o.r.problems(o.f, key)
}

func (p *Program) methodOf(T types.Type, name string) *ssa.Function {
	n := named(deref(T))
	sel := p.Prog.MethodSets.MethodSet(T).Lookup(n.Obj().Pkg(), name)
	if sel == nil {
		fatalf("anchor not found: method %s of %s", name, n.Obj().Name())
	}
	return p.Prog.MethodValue(sel)
}

func checkC30(p *Program, r *Report) {
	r.rule("the greeting that Open writes, for both roles and every mechanism, is 64 bytes: 0xFF, 8 bytes, 0x7F, version 3.0, the mechanism's name padded with zeros to 20 bytes, the server flag, zeros; Open takes the peer's server flag from byte 32; what greeting.write writes is what greeting.read reads, field by field")
	r.rule("Property.Read writes the length of the name in one byte, the name, the length of the value in four big-endian bytes and the value, reports that many bytes, and succeeds on no path where the name is longer than 255 bytes or the buffer too short; Property.Write yields from such bytes, whatever follows them, the name, the value and their size")
	r.rule("Metadata.MarshalZMTP of the socket type and the identity is their properties under these names; Metadata.UnmarshalZMTP of properties stores each value under its name, where Open looks up the socket type")
	r.assume("cases.Title leaves the socket type's and the identity's names as they are")
	n0 := len(r.Findings)
	p.greetingLayout(r)
	if len(r.Findings) == n0 {
		r.ok("the greeting is written and read with the layout of the specification")
	}
	n0 = len(r.Findings)
	p.greetingTrip(r)
	if len(r.Findings) == n0 {
		r.ok("greeting.write and greeting.read use the same places")
	}
	n0 = len(r.Findings)
	p.propertyCodec(r)
	if len(r.Findings) == n0 {
		r.ok("Property.Read and Property.Write use the same encoding")
	}
	n0 = len(r.Findings)
	p.metadataCodec(r)
	if len(r.Findings) == n0 {
		r.ok("metadata is marshalled and unmarshalled under the same names")
	}
	r.atLeast("paths", 20)
	r.atLeast("greetings", 12)
}

func (p *Program) greetingLayout(r *Report) {
	for _, mech := range []string{"NULL", "PLAIN", "CURVE"} {
		for _, server := range []bool{true, false} {
			for _, flag := range []int64{0, 1} {
				o, st := p.newOpenRun(r, mech, server)
				ts := o.f.ts
				o.peerT = ts.str("DEALER")
				seen := map[*Term]bool{}
				n := o.runOpen(st, ts.str("DEALER"), o.greeting(map[int]int64{32: flag, 33: 1 - flag, 31: 0}, mech), func(st *State, conn *Term, ins ssa.Instruction) {
					r.count("paths", 1)
					T := p.mustType("Conn")
					u := T.Underlying().(*types.Struct)
					for i := 0; i < u.NumFields(); i++ {
						if u.Field(i).Name() != "Peer" {
							continue
						}
						pu := u.Field(i).Type().Underlying().(*types.Struct)
						for j := 0; j < pu.NumFields(); j++ {
							if pu.Field(j).Name() != "Server" {
								continue
							}
							v := st.Load(st.fa(types.NewPointer(u.Field(i).Type()), st.fa(types.NewPointer(T), conn, i), j), pu.Field(j).Type())
							if b, k := st.Eval(v); !k || b != (flag == 1) {
								r.fail("flag", p.instrPos(ins), st.Trace(), "Open takes the server flag of a peer that sent %d for %v", flag, v)
							}
						}
					}
					out := st.normBytes(st.props["out"].args)
					if seen[st.props["out"]] {
						return
					}
					seen[st.props["out"]] = true
					if len(out) != 64 {
						r.fail("size", p.instrPos(ins), st.Trace(), "the greeting is %s instead of 64 bytes", showParts(out))
						return
					}
					for i, b := range out {
						want := int64(0)
						switch {
						case b.op != "elem":
							r.fail("size", p.instrPos(ins), st.Trace(), "the greeting is %s instead of 64 bytes", showParts(out))
							return
						case i == 0:
							want = 0xFF
						case i == 9:
							want = 0x7F
						case i < 9:
							continue
						case i == 10:
							want = 3
						case i == 32:
							if v, ok := b.args[0].intVal(); ok && (v == 0 || server && v == 1) {
								continue
							}
						case i >= 12 && i-12 < len(mech):
							want = int64(mech[i-12])
						}
						if v, ok := st.subst(b.args[0]).intVal(); !ok || v != want {
							r.fail(fmt.Sprintf("byte:%d", i), p.instrPos(ins), st.Trace(), "byte %d of the greeting for mechanism %s is %v instead of %d", i, mech, b.args[0], want)
						}
					}
				})
				r.count("greetings", 1)
				if n == 0 {
					r.fail("greeting:"+mech, p.pos(p.openFn().Pos()), nil, "Open never succeeds with mechanism %s", mech)
				}
			}
		}
	}
	// anything else is no server flag
	o, st := p.newOpenRun(r, "NULL", true)
	o.peerT = o.f.ts.str("DEALER")
	n := o.runOpen(st, o.f.ts.str("DEALER"), o.greeting(map[int]int64{32: 2}, "NULL"), func(st *State, conn *Term, ins ssa.Instruction) {
		r.fail("flag2", p.instrPos(ins), st.Trace(), "Open accepts 2 for the peer's server flag")
	})
	_ = n
}

// greetingTrip: what is written is read back.
func (p *Program) greetingTrip(r *Report) {
	G := p.mustType("greeting")
	pt := types.NewPointer(G)
	write, read := p.methodOf(pt, "write"), p.methodOf(pt, "read")
	o := p.newCodec(r)
	ts := o.f.ts
	g := ts.sym("greeting sent", pt)
	o.st.facts[ts.eq(g, ts.Nil)] = false
	o.st.pins = append(o.st.pins, g)
	want := leaves(o.st, g, G)
	var names []string
	for n, v := range want {
		names = append(names, n)
		o.st.pins = append(o.st.pins, v)
	}
	_ = names
	var out *Term
	var wst *State
	wr := 0
	o.run("write", write, []*Term{g, o.rw}, func(st *State, res []*Term, ins ssa.Instruction) {
		if !st.Assume(ts.eq(res[0], ts.Nil), true) {
			return
		}
		wr++
		out, wst = ts.mk("seq", "", bytesT, st.normBytes(st.props["out"].args)...), st.Fork()
	})
	if wr == 0 {
		r.fail("write", p.pos(write.Pos()), nil, "greeting.write never succeeds")
		return
	}
	if n, ok := wst.lenOf(out).intVal(); !ok || n != 64 {
		r.fail("write", p.pos(write.Pos()), nil, "greeting.write writes %v instead of 64 bytes", wst.lenOf(out))
		return
	}
	rd := 0
	b := ts.mk("alloc", "greeting received", pt)
	o.st.allocs[b] = true
	o.st.props["in"] = out
	o.run("read", read, []*Term{b, o.rw}, func(st *State, res []*Term, ins ssa.Instruction) {
		if !st.Assume(ts.eq(res[0], ts.Nil), true) {
			return
		}
		rd++
		r.count("paths", 1)
		got := leaves(st, b, G)
		for n, w := range want {
			if strings.Contains(n, "_") {
				continue
			}
			if v, k := st.Eval(ts.eq(got[n], w)); !k || !v {
				r.fail("field:"+n, p.instrPos(ins), st.Trace(), "greeting.read yields %v as %s where greeting.write was given %v", got[n], n, w)
			}
		}
	})
	if rd == 0 {
		r.fail("read", p.pos(read.Pos()), nil, "greeting.read never succeeds")
	}
}

// leaves are the basic values in a struct.
func leaves(st *State, addr *Term, T types.Type) map[string]*Term {
	out := map[string]*Term{}
	var walk func(a *Term, t types.Type, name string)
	walk = func(a *Term, t types.Type, name string) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(st.fa(types.NewPointer(t), a, i), u.Field(i).Type(), name+"."+u.Field(i).Name())
			}
		case *types.Array:
			for i := int64(0); i < u.Len(); i++ {
				walk(st.ia(a, st.ts().integer(i), u.Elem()), u.Elem(), fmt.Sprintf("%s[%d]", name, i))
			}
		default:
			out[name] = st.Load(a, t)
		}
	}
	walk(addr, T, "")
	return out
}

func (p *Program) propertyCodec(r *Report) {
	T := p.mustType("Property")
	enc, dec := p.methodOf(T, "Read"), p.methodOf(types.NewPointer(T), "Write")
	u := T.Underlying().(*types.Struct)
	ki, vi := -1, -1
	for i := 0; i < u.NumFields(); i++ {
		switch u.Field(i).Name() {
		case "K":
			ki = i
		case "V":
			vi = i
		}
	}
	if ki < 0 || vi < 0 {
		fatalf("anchor not found: Property.K and Property.V")
	}
	// Read
	for _, exact := range []bool{true, false} {
		o := p.newCodec(r)
		ts := o.f.ts
		k, v := ts.sym("the name", types.Typ[types.String]), ts.sym("the value", types.Typ[types.String])
		prop := make([]*Term, u.NumFields())
		for i := range prop {
			prop[i] = o.st.zero(u.Field(i).Type())
		}
		prop[ki], prop[vi] = k, v
		t := titled(ts, k)
		size := ts.add(ts.add(o.st.lenOf(t), o.st.lenOf(v)), ts.integer(5))
		st := o.st
		st.facts[ts.ge(o.st.lenOf(t))] = true
		st.facts[ts.ge(o.st.lenOf(v))] = true
		st.facts[ts.ge(ts.linComb(o.st.lenOf(v), -1, nil, 0, 1<<32-1))] = true
		n := size
		if !exact {
			n = ts.sym("the size of the buffer", types.Typ[types.Int])
			st.facts[ts.ge(n)] = true
		}
		arr := ts.mk("alloc", "buffer", types.NewPointer(types.NewArray(byteT, -1)))
		st.allocs[arr] = true
		buf := ts.mk("slc", "", bytesT, arr, ts.Zero, n)
		st.pins = append(st.pins, k, v, arr, n, t)
		good := 0
		o.run("Property.Read", enc, []*Term{ts.mk("agg", p.typeName(T), T, prop...), buf}, func(st *State, res []*Term, ins ssa.Instruction) {
			r.count("paths", 1)
			// io.EOF says that all was read
			if st.NonNil(res[1]) && !isEOF(res[1]) {
				return
			}
			good++
			where := p.instrPos(ins)
			if !st.Prove(ts.linComb(st.lenOf(t), -1, nil, 0, 255)) {
				r.fail("long name", where, st.Trace(), "Property.Read succeeds with a name that may be longer than 255 bytes")
			}
			if !st.Prove(ts.sub(n, size)) {
				r.fail("short", where, st.Trace(), "Property.Read succeeds with a buffer that may be shorter than the property")
			}
			if d := st.subst(ts.sub(res[0], size)); !st.isZero(d) {
				r.fail("count", where, st.Trace(), "Property.Read reports %v bytes instead of %v", res[0], size)
			}
			if !exact {
				return
			}
			got := st.normBytes([]*Term{sp(ts, st.bytesNow(buf))})
			want := st.normBytes(o.property(st, k, v))
			if !o.sameBytes(st, got, want) {
				r.fail("encode", where, st.Trace(), "Property.Read writes %s instead of %s", showParts(got), showParts(want))
			}
		})
		if good == 0 {
			r.fail("never", p.pos(enc.Pos()), nil, "Property.Read never succeeds")
		}
	}
	// Write
	for _, rest := range []bool{false, true} {
		o := p.newCodec(r)
		ts := o.f.ts
		st := o.st
		k, v := ts.sym("the name", types.Typ[types.String]), ts.sym("the value", types.Typ[types.String])
		k = titled(ts, k)
		st.facts[ts.ge(ts.linComb(st.lenOf(k), -1, nil, 0, 255))] = true
		st.facts[ts.ge(ts.linComb(st.lenOf(v), -1, nil, 0, 1<<32-1))] = true
		in := o.wireForm(o.property(st, k, v))
		if rest {
			in = append(in, sp(ts, ts.sym("what follows", bytesT)))
		}
		data := st.seq(in, bytesT)
		b := ts.mk("alloc", "property", types.NewPointer(T))
		st.allocs[b] = true
		st.pins = append(st.pins, k, v, data, b)
		good := 0
		size := ts.add(ts.add(st.lenOf(k), st.lenOf(v)), ts.integer(5))
		o.run("Property.Write", dec, []*Term{b, data}, func(st *State, res []*Term, ins ssa.Instruction) {
			r.count("paths", 1)
			if st.NonNil(res[1]) {
				return
			}
			good++
			where := p.instrPos(ins)
			for _, f := range []struct {
				i    int
				want *Term
			}{{ki, k}, {vi, v}} {
				got := st.Load(st.fa(types.NewPointer(T), b, f.i), types.Typ[types.String])
				if !o.same(st, got, f.want) {
					r.fail("decode:"+u.Field(f.i).Name(), where, st.Trace(), "Property.Write yields %v as %s instead of %v", got, u.Field(f.i).Name(), f.want)
				}
			}
			if d := st.subst(ts.sub(res[0], size)); !st.isZero(d) {
				r.fail("decoded count", where, st.Trace(), "Property.Write reports %v bytes instead of %v", res[0], size)
			}
		})
		if good == 0 {
			r.fail("never decodes", p.pos(dec.Pos()), nil, "Property.Write never succeeds on a property")
		}
	}
}

func isEOF(t *Term) bool {
	return t.op == "newerr" && strings.HasSuffix(t.aux, "io.EOF") || t.op == "ld" && len(t.args) > 0 && t.args[0].op == "global" && strings.HasSuffix(t.args[0].aux, "io.EOF")
}

func (p *Program) metadataCodec(r *Report) {
	T := p.mustType("Metadata")
	enc, dec := p.methodOf(T, "MarshalZMTP"), p.methodOf(types.NewPointer(T), "UnmarshalZMTP")
	str := types.Typ[types.String]
	names := []string{"Socket-Type", "Identity"}
	for _, order := range [][2]int{{0, 1}, {1, 0}} {
		o := p.newCodec(r)
		ts := o.f.ts
		st := o.st
		vals := []*Term{ts.sym("the socket type", str), ts.sym("the identity", str)}
		var ks, vs, want []*Term
		for _, i := range order {
			ks, vs = append(ks, ts.str(names[i])), append(vs, vals[i])
			st.facts[ts.ge(ts.linComb(st.lenOf(vals[i]), -1, nil, 0, 255))] = true
			want = append(want, o.property(st, ts.str(names[i]), vals[i])...)
		}
		md := ts.sym("the metadata", T)
		st.pins = append(append(st.pins, md), vals...)
		o.f.c.Range = func(st *State, m *Term) ([]*Term, []*Term, bool) { return ks, vs, m == md }
		good := 0
		o.run("MarshalZMTP", enc, []*Term{md}, func(st *State, res []*Term, ins ssa.Instruction) {
			r.count("paths", 1)
			if st.NonNil(res[1]) {
				return
			}
			good++
			got := st.normBytes([]*Term{sp(ts, st.bytesNow(res[0]))})
			w := st.normBytes(want)
			if !o.sameBytes(st, got, w) {
				r.fail("marshal", p.instrPos(ins), st.Trace(), "MarshalZMTP yields %s instead of %s", showParts(got), showParts(w))
			}
		})
		if good == 0 {
			r.fail("never marshals", p.pos(enc.Pos()), nil, "MarshalZMTP never succeeds")
		}
		// and back
		o = p.newCodec(r)
		ts = o.f.ts
		st = o.st
		vals = []*Term{ts.sym("the socket type", str), ts.sym("the identity", str)}
		var in []*Term
		for _, i := range order {
			st.facts[ts.ge(ts.linComb(st.lenOf(vals[i]), -1, nil, 0, 255))] = true
			in = append(in, o.wireForm(o.property(st, ts.str(names[i]), vals[i]))...)
		}
		cell := ts.mk("alloc", "metadata", types.NewPointer(T))
		m := ts.mk("mkmap", "metadata", T)
		st.allocs[cell], st.allocs[m] = true, true
		st.Store(cell, T, m)
		data := st.seq(in, bytesT)
		st.pins = append(append(st.pins, cell, m, data), vals...)
		good = 0
		o.run("UnmarshalZMTP", dec, []*Term{cell, data}, func(st *State, res []*Term, ins ssa.Instruction) {
			r.count("paths", 1)
			if st.NonNil(res[0]) {
				return
			}
			good++
			for i, n := range names {
				v, ok := st.lookup(st.Load(cell, T), ts.str(n), str)
				if b, k := st.Eval(ok); !k || !b || !o.same(st, v, vals[i]) {
					r.fail("unmarshal:"+n, p.instrPos(ins), st.Trace(), "UnmarshalZMTP yields %v under %q instead of %v", v, n, vals[i])
				}
			}
		})
		if good == 0 {
			r.fail("never unmarshals", p.pos(dec.Pos()), nil, "UnmarshalZMTP never succeeds")
		}
	}
	// what a connection announces
	o, st := p.newOpenRun(r, "NULL", true)
	ts := o.f.ts
	o.peerT = ts.str("DEALER")
	n := 0
	o.onHs = func(st *State, ci *CallInfo) {
		n++
		T := p.mustType("Conn")
		u := T.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() != "Meta" {
				continue
			}
			m := st.Load(st.fa(types.NewPointer(T), ci.Args[1], i), u.Field(i).Type())
			v, ok := st.lookup(m, ts.str("Socket-Type"), str)
			if b, k := st.Eval(ok); !k || !b || !o.sameBytes(st, st.normBytes([]*Term{sp(ts, v)}), st.normBytes([]*Term{sp(ts, ts.str("DEALER"))})) {
				r.fail("announce:type", st.Where(), st.Trace(), "a DEALER announces %v as its socket type", v)
			}
			v, ok = st.lookup(m, ts.str("Identity"), str)
			if b, k := st.Eval(ok); !k || !b || !v.contains(func(t *Term) bool { return t.op == "sym" && t.aux == "identity" }) {
				r.fail("announce:id", st.Where(), st.Trace(), "a connection announces %v as its identity", v)
			}
		}
	}
	o.runOpen(st, ts.str("DEALER"), o.greeting(nil, "NULL"), func(st *State, conn *Term, ins ssa.Instruction) {})
	if n == 0 {
		r.fail("announce", p.pos(p.openFn().Pos()), nil, "Open never shakes hands")
	}
}
