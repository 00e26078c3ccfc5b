package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// exec analyses one instruction. It returns the guard under which the execution goes on after it.
func (ip *Interp) exec(fr *frame, in ssa.Instruction, st *State, g BDD) BDD {
	set := func(v ssa.Value, t *Term) {
		if t == nil {
			t = ip.Fresh("nothing", 0)
		}
		if t.ty == nil && t.op != OConst && t.op != ONil && t.op != OBool {
			t.ty = v.Type()
		}
		fr.env[v] = t
	}
	val := func(v ssa.Value) *Term { return ip.value(fr, v) }
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		a := ip.intern(&Term{op: OAlloc, s: fmt.Sprintf("%s %s#%d", fnName(fr.fn), x.Comment, ip.ctx(fr.ctx, fmt.Sprintf("a%p", x))), ty: x.Type()})
		st.m[a] = ip.Zero(x.Type().Underlying().(*types.Pointer).Elem())
		set(x, a)
	case *ssa.FieldAddr:
		f := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(x.Field)
		set(x, ip.extend(val(x.X), f.Name(), nil, x.Type()))
	case *ssa.Field:
		f := x.X.Type().Underlying().(*types.Struct).Field(x.Field)
		set(x, ip.Sel(val(x.X), f.Name(), f.Type()))
	case *ssa.IndexAddr:
		b, i := val(x.X), val(x.Index)
		ip.bound(fr, &bound{kind: "index", in: x, x: ip.deref(st, b), i: i, guard: g})
		set(x, ip.extend(b, "", i, x.Type()))
	case *ssa.Index:
		b, i := val(x.X), val(x.Index)
		b = ip.deref(st, b)
		ip.bound(fr, &bound{kind: "index", in: x, x: b, i: i, guard: g})
		set(x, ip.Elem(b, i, x.Type()))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			p := val(x.X)
			t := ip.load(st, p, x.Type())
			set(x, t)
		case token.NOT:
			set(x, ip.Bool(ip.Not(ip.ToBDD(val(x.X)))))
		case token.SUB:
			set(x, ip.Bin(token.SUB, ip.Int(0), val(x.X)))
		case token.XOR:
			set(x, ip.intern(&Term{op: OBin, s: "^", a: []*Term{val(x.X), val(x.X)}}))
		case token.ARROW:
			ip.effect(fr, "call", "receive", []*Term{val(x.X)}, st, g, x.Pos(), nil, nil)
			set(x, ip.Fresh("recv", ip.ctx(fr.ctx, fmt.Sprintf("r%p", x))))
		}
	case *ssa.Store:
		p, v := val(x.Addr), val(x.Val)
		if gl := globalCell(p); gl != nil && !ip.anyIniting() {
			ip.effect(fr, "store", gl.s, []*Term{p, v}, st, g, x.Pos(), nil, nil)
		}
		if ip.onStore != nil {
			ip.onStore(fr, p, v, st, g, x.Pos())
		}
		ip.store(st, p, v)
	case *ssa.BinOp:
		set(x, ip.binop(x, val(x.X), val(x.Y), st))
	case *ssa.Convert:
		set(x, ip.convert(x, val(x.X), st))
	case *ssa.MultiConvert:
		set(x, val(x.X))
	case *ssa.ChangeType:
		set(x, val(x.X))
	case *ssa.ChangeInterface:
		set(x, val(x.X))
	case *ssa.SliceToArrayPointer:
		set(x, val(x.X))
	case *ssa.MakeInterface:
		v := val(x.X)
		set(x, ip.Iface(x.X.Type(), v))
	case *ssa.TypeAssert:
		v := val(x.X)
		is := ip.IsType(v, x.AssertedType)
		r := ip.Assert(v, x.AssertedType)
		if x.CommaOk {
			fr.env[x] = ip.Tuple(r, ip.Bool(is))
		} else {
			ok := ip.decide(g, is)
			ip.bound(fr, &bound{kind: "assertion", in: x, x: v, typ: x.AssertedType, guard: g})
			set(x, r)
			if ok == False {
				return False
			}
		}
	case *ssa.Extract:
		set(x, ip.extract(val(x.Tuple), x.Index))
	case *ssa.Lookup:
		m := val(x.X)
		m = ip.deref(st, m)
		k := val(x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			ip.bound(fr, &bound{kind: "index", in: x, x: m, i: k, guard: g})
			set(x, ip.Elem(m, k, x.Type()))
			break
		}
		if m.ty == nil {
			m.ty = x.X.Type()
		}
		elem := x.X.Type().Underlying().(*types.Map).Elem()
		zero := ip.Zero(elem)
		v, ok := ip.Lookup(m, ip.resolveKey(k, st), zero)
		if x.CommaOk {
			fr.env[x] = ip.Tuple(v, ip.Bool(ok))
		} else {
			set(x, v)
		}
	case *ssa.MapUpdate:
		m, k, v := val(x.Map), val(x.Key), val(x.Value)
		if gl := globalCell(m); gl != nil && !ip.anyIniting() {
			ip.effect(fr, "store", gl.s, []*Term{m, k, v}, st, g, x.Pos(), nil, nil)
		}
		if ip.onStore != nil {
			ip.onStore(fr, ip.extend(m, "", k, nil), v, st, g, x.Pos())
		}
		ip.modify(st, m, func(old *Term) *Term { return ip.MapUpd(old, ip.resolveKey(k, st), v) })
	case *ssa.MakeMap:
		a := ip.intern(&Term{op: OAlloc, s: fmt.Sprintf("%s map#%d", fnName(fr.fn), ip.ctx(fr.ctx, fmt.Sprintf("a%p", x))), ty: x.Type()})
		st.m[a] = ip.intern(&Term{op: OMapEmpty, ty: x.Type()})
		set(x, a)
	case *ssa.MakeSlice:
		a := ip.intern(&Term{op: OAlloc, s: fmt.Sprintf("%s slice#%d", fnName(fr.fn), ip.ctx(fr.ctx, fmt.Sprintf("a%p", x))), ty: x.Type()})
		n := val(x.Len)
		st.m[a] = ip.makeList(n, x.Type())
		set(x, a)
	case *ssa.MakeChan:
		set(x, ip.intern(&Term{op: OAlloc, s: fmt.Sprintf("%s chan#%d", fnName(fr.fn), ip.ctx(fr.ctx, fmt.Sprintf("a%p", x))), ty: x.Type()}))
	case *ssa.Slice:
		set(x, ip.slice(fr, x, st, g))
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		t := &Term{op: OClosure, fn: fn, ty: x.Type()}
		for _, b := range x.Bindings {
			t.a = append(t.a, val(b))
		}
		t = ip.intern(t)
		if ip.wantIdx {
			ip.closures = append(ip.closures, t)
		}
		set(x, t)
	case *ssa.Range:
		over := ip.Simp(ip.deref(st, val(x.X)), g)
		rng := func(m *Term) *Term { return ip.intern(&Term{op: OCall, s: "range", a: []*Term{m}}) }
		known := over.op == OGamma
		for i := 0; known && i < len(over.a); i++ {
			_, ok := constKeys(over.a[i])
			known = ok || ip.Empty(over.a[i]) == True
		}
		if known {
			set(x, ip.mapGamma(over, rng))
		} else {
			set(x, rng(over))
		}
	case *ssa.Next:
		fr.env[x] = ip.next(fr, x, val(x.Iter), st)
	case *ssa.Call:
		r, g2 := ip.call(fr, x, x.Common(), st, g)
		if x.Type() != nil {
			if tt, ok := x.Type().(*types.Tuple); ok && tt.Len() != 1 {
				fr.env[x] = r
				if r == nil {
					fr.env[x] = ip.Tuple()
				}
			} else {
				set(x, r)
			}
		}
		return g2
	case *ssa.Defer:
		d := deferred{g: g, in: x}
		for _, a := range x.Call.Args {
			d.args = append(d.args, val(a))
		}
		d.fn = val(x.Call.Value)
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			gd := ip.And(g, d.g)
			if gd == False {
				continue
			}
			s2 := st.clone()
			n := len(ip.effects)
			_, gd2 := ip.callWith(fr, d.in, &d.in.Call, d.fn, d.args, s2, gd)
			for _, e := range ip.effects[n:] {
				e.Defer = true
			}
			rest := ip.And(g, ip.Not(d.g))
			var es []*edge
			if gd2 != False {
				es = append(es, &edge{g: gd2, st: s2})
			}
			if rest != False {
				es = append(es, &edge{g: rest, st: st.clone()})
			}
			if len(es) == 0 {
				return False
			}
			st.m = ip.mergeStates(es).m
			g = ip.Or(gd2, rest)
		}
	case *ssa.Go:
		var args []*Term
		for _, a := range x.Call.Args {
			args = append(args, val(a))
		}
		ip.effect(fr, "go", "go", args, st, g, x.Pos(), nil, nil)
		fn := val(x.Call.Value)
		ip.callWith(fr, x, &x.Call, fn, args, st, g)
	case *ssa.Send:
		ip.effect(fr, "call", "send", []*Term{val(x.Chan), val(x.X)}, st, g, x.Pos(), nil, nil)
	case *ssa.Select:
		ip.effect(fr, "call", "select", nil, st, g, x.Pos(), nil, nil)
		t := []*Term{}
		n := ip.ctx(fr.ctx, fmt.Sprintf("s%p", x))
		tt := x.Type().(*types.Tuple)
		for i := 0; i < tt.Len(); i++ {
			t = append(t, ip.Fresh(fmt.Sprintf("select%d", i), n))
		}
		fr.env[x] = ip.Tuple(t...)
	default:
		panic(undecided{fmt.Sprintf("instruction %T in %s", in, fnName(fr.fn))})
	}
	return g
}

func globalCell(p *Term) *Term {
	switch p.op {
	case OGlobal:
		return p
	case OAddr:
		return globalCell(p.a[0])
	case OSel, OElem, OLookup:
		return globalCell(p.a[0])
	case ORoot:
		if strings.HasPrefix(p.s, "global ") {
			return p
		}
	}
	return nil
}

func (ip *Interp) anyIniting() bool {
	for _, b := range ip.initing {
		if b {
			return true
		}
	}
	return false
}

func (ip *Interp) makeList(n *Term, t types.Type) *Term {
	if k, ok := n.int(); ok && k >= 0 && k <= 64 {
		sl, ok := t.Underlying().(*types.Slice)
		if ok {
			items := make([]*Term, k)
			for i := range items {
				items[i] = ip.Zero(sl.Elem())
			}
			l := ip.List(items...)
			return l
		}
	}
	return ip.intern(&Term{op: OCall, s: "make", a: []*Term{n}, ty: t})
}

// resolveKey makes struct keys comparable.
func (ip *Interp) resolveKey(k *Term, st *State) *Term { return k }

func (ip *Interp) MapUpd(m, k, v *Term) *Term {
	if k.op == OGamma {
		return ip.mapGamma(k, func(x *Term) *Term { return ip.MapUpd(m, x, v) })
	}
	// The same key again.
	if m.op == OMapUpd && m.a[1] == k {
		return ip.MapUpd(m.a[0], k, v)
	}
	if m.op == OMapUpd && m.a[1].isConst() && k.isConst() {
		// Constant keys in order.
		if m.a[1].k.ExactString() > k.k.ExactString() {
			return ip.MapUpd(ip.MapUpd(m.a[0], k, v), m.a[1], m.a[2])
		}
	}
	return ip.intern(&Term{op: OMapUpd, a: []*Term{m, k, v}, ty: m.ty})
}

// modify replaces the content of the cell of a slice or map.
func (ip *Interp) modify(st *State, p *Term, f func(*Term) *Term) {
	switch p.op {
	case OGamma:
		for i, q := range p.a {
			old := st.clone()
			ip.modify(st, q, f)
			for c, nv := range st.m {
				if ov, ok := old.m[c]; !ok || ov != nv {
					st.m[c] = ip.Gamma([]BDD{p.g[i], ip.Not(p.g[i])}, []*Term{nv, ip.content(old, c)})
				}
			}
		}
	case ONil:
	case OIface:
		ip.modify(st, p.a[0], f)
	case OAddr:
		ip.store(st, p, f(ip.load(st, p, nil)))
	default:
		st.m[p] = f(ip.content(st, p))
	}
}

// bound notes a use of an index, or another operation that can fail at run time.
func (ip *Interp) bound(fr *frame, b *bound) {
	if ip.wantIdx {
		b.fn, b.active, b.dom = fr.fn, append([]*Loop{}, ip.active...), map[*Loop]*Term{}
		for _, l := range ip.active {
			if l.cond != True && l.cond != 0 {
				b.guard = ip.And(b.guard, l.cond)
			}
			b.dom[l] = l.domain
		}
		// An exit of a loop uses its index.
		for _, t := range []*Term{b.i, b.lo, b.hi} {
			if t != nil {
				mentions(t, func(x *Term) bool {
					if x.op == OIdx && b.dom[x.loop] == nil {
						b.dom[x.loop] = x.loop.domain
					}
					return false
				})
			}
		}
		ip.bounds = append(ip.bounds, b)
	}
}

func (ip *Interp) binop(x *ssa.BinOp, a, b *Term, st *State) *Term {
	switch x.Op {
	case token.EQL:
		return ip.Bool(ip.eqVals(a, b, st))
	case token.NEQ:
		return ip.Bool(ip.Not(ip.eqVals(a, b, st)))
	case token.LSS:
		return ip.Bool(ip.Lt(a, b))
	case token.GTR:
		return ip.Bool(ip.Lt(b, a))
	case token.LEQ:
		return ip.Bool(ip.Not(ip.Lt(b, a)))
	case token.GEQ:
		return ip.Bool(ip.Not(ip.Lt(a, b)))
	case token.ADD:
		if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			return ip.Concat(a, b)
		}
	case token.AND:
		if ip.isBoolTerm(a) {
			return ip.Bool(ip.And(ip.ToBDD(a), ip.ToBDD(b)))
		}
	case token.OR:
		if ip.isBoolTerm(a) {
			return ip.Bool(ip.Or(ip.ToBDD(a), ip.ToBDD(b)))
		}
	}
	return ip.Bin(x.Op, a, b)
}

func (ip *Interp) eqVals(a, b *Term, st *State) BDD {
	// Slices and maps are only compared with nil: what matters is the value, not the content.
	return ip.Eq(a, b)
}

func (ip *Interp) convert(x *ssa.Convert, v *Term, st *State) *Term {
	to, _ := x.Type().Underlying().(*types.Basic)
	from, _ := x.X.Type().Underlying().(*types.Basic)
	if to != nil && from != nil {
		if to.Info()&types.IsString != 0 && from.Info()&types.IsInteger != 0 {
			if n, ok := v.int(); ok {
				return ip.Str(string(rune(n)))
			}
			return ip.intern(&Term{op: OCall, s: "string", a: []*Term{v}, ty: x.Type()})
		}
		if v.op == OConst && to.Info()&types.IsFloat != 0 {
			return ip.Const(constant.ToFloat(v.k))
		}
		if v.op == OConst && to.Info()&types.IsInteger != 0 && from.Info()&types.IsFloat != 0 {
			return ip.Const(constant.ToInt(v.k))
		}
		return v
	}
	if to != nil && to.Info()&types.IsString != 0 {
		return ip.deref(st, v) // []byte or []rune
	}
	if sl, ok := x.Type().Underlying().(*types.Slice); ok && from != nil && from.Info()&types.IsString != 0 {
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
			return ip.intern(&Term{op: OCall, s: "runes", a: []*Term{v}, ty: x.Type()})
		}
	}
	return v
}

func (ip *Interp) extract(t *Term, i int) *Term {
	switch t.op {
	case OTuple:
		if i < len(t.a) {
			return t.a[i]
		}
	case OGamma:
		return ip.mapGamma(t, func(y *Term) *Term { return ip.extract(y, i) })
	case OCall:
		return ip.res(t, i, nil)
	}
	return ip.Fresh(fmt.Sprintf("extract %d of %d", i, t.id), 0)
}

func (ip *Interp) res(call *Term, i int, ty types.Type) *Term {
	return ip.withFact(ip.intern(&Term{op: ORes, a: []*Term{call}, n: i, ty: ty}))
}

func (ip *Interp) slice(fr *frame, x *ssa.Slice, st *State, g BDD) *Term {
	b := ip.value(fr, x.X)
	var lo, hi *Term
	if x.Low != nil {
		lo = ip.value(fr, x.Low)
	}
	if x.High != nil {
		hi = ip.value(fr, x.High)
	}
	if al, ok := x.X.(*ssa.Alloc); ok {
		switch al.Comment {
		case "varargs", "slicelit", "makeslice":
			c := ip.content(st, b)
			if l, ok := ip.listOf(c); ok {
				c = ip.List(l...)
			}
			r := ip.Slice(c, lo, hi)
			if al.Comment == "makeslice" {
				a := ip.intern(&Term{op: OAlloc, s: b.s + " slice", ty: x.Type()})
				st.m[a] = r
				return a
			}
			return r
		}
	}
	if lo == nil && hi == nil {
		return b
	}
	c := ip.deref(st, b)
	ip.bound(fr, &bound{kind: "slice", in: x, x: c, lo: lo, hi: hi, guard: g})
	return ip.Slice(c, lo, hi)
}

// next is the next element of a map or string that is ranged over.
func (ip *Interp) next(fr *frame, x *ssa.Next, iter *Term, st *State) *Term {
	if iter.op == OGamma {
		return ip.mapGamma(iter, func(t *Term) *Term { return ip.next(fr, x, t, st) })
	}
	if n := len(ip.conc); n > 0 && ip.conc[n-1].hdr == x.Block() && iter.op == OCall && iter.s == "range" && !x.IsString {
		info, m := ip.conc[n-1], iter.a[0]
		if ks, ok := constKeys(m); ok {
			if ip.mapReverse {
				slices.Reverse(ks)
			}
			if info.it >= len(ks) {
				return ip.Tuple(ip.falseT, ip.nilT, ip.nilT)
			}
			k := ks[info.it]
			v, _ := ip.Lookup(m, k, ip.nilT)
			return ip.Tuple(ip.trueT, k, v)
		}
	}
	if iter.op == OCall && iter.s == "range" && ip.Empty(iter.a[0]) == True {
		return ip.Tuple(ip.falseT, ip.nilT, ip.nilT)
	}
	if iter.op != OCall || iter.s != "range" || len(ip.active) == 0 {
		return ip.Tuple(ip.Fresh("next", ip.ctx(fr.ctx, fmt.Sprintf("n%p", x))), ip.Fresh("nextk", ip.ctx(fr.ctx, fmt.Sprintf("n%p", x))), ip.Fresh("nextv", ip.ctx(fr.ctx, fmt.Sprintf("n%p", x))))
	}
	info := ip.active[len(ip.active)-1]
	m := iter.a[0]
	if dbgLoops {
		fmt.Println("range", ip.pos(x.Pos()), trunc(ip.Show(m), 3000))
	}
	tt := x.Type().(*types.Tuple)
	more := ip.ToBDD(ip.intern(&Term{op: OAtomNext, loop: info}))
	if x.IsString {
		info.domain = m
		i := ip.intern(&Term{op: OIdx, loop: info, ty: types.Typ[types.Int]})
		return ip.Tuple(ip.Bool(more), i, ip.Elem(m, i, types.Typ[types.Rune]))
	}
	info.isMap = true
	info.mapDom = m
	var kt types.Type = tt.At(1).Type()
	if mt, ok := underMap(m.ty); ok {
		kt = mt.Key()
	}
	k := ip.intern(&Term{op: OKey, loop: info, ty: kt})
	var zero *Term
	if mt, ok := underMap(m.ty); ok {
		zero = ip.Zero(mt.Elem())
	} else {
		zero = ip.nilT
	}
	v, _ := ip.Lookup(m, k, zero)
	return ip.Tuple(ip.Bool(more), k, v)
}

// constKeys are the keys of a map of which all entries are known.
func constKeys(m *Term) ([]*Term, bool) {
	var ks []*Term
	for m.op == OMapUpd {
		if !m.a[1].isConst() && m.a[1].op != OAlloc {
			return nil, false
		}
		ks = append(ks, m.a[1])
		m = m.a[0]
	}
	if m.op != OMapEmpty && m.op != ONil || len(ks) == 0 {
		return nil, false
	}
	slices.Reverse(ks)
	return ks, true
}

func underMap(t types.Type) (*types.Map, bool) {
	if t == nil {
		return nil, false
	}
	m, ok := t.Underlying().(*types.Map)
	return m, ok
}

// branch analyses alternatives and merges what they leave.
func (ip *Interp) branch(st *State, g BDD, gs []BDD, f func(i int, st *State, g BDD) (*Term, BDD)) (*Term, BDD) {
	var es []*edge
	var rs []*Term
	out := False
	for i := range gs {
		gi := ip.And(g, gs[i])
		if gi == False || ip.decide(g, gs[i]) == False {
			continue
		}
		s := st.clone()
		r, g2 := f(i, s, gi)
		if g2 == False {
			continue
		}
		es = append(es, &edge{g: g2, st: s})
		rs = append(rs, r)
		out = ip.Or(out, g2)
	}
	if len(es) == 0 {
		return ip.Fresh("unreachable", 0), False
	}
	st.m = ip.mergeStates(es).m
	var rg []BDD
	var rv []*Term
	for i, e := range es {
		if rs[i] != nil {
			rg = append(rg, ip.Restrict(e.g, out))
			rv = append(rv, rs[i])
		}
	}
	if len(rv) == 0 {
		return nil, out
	}
	return ip.mergeVals(rg, rv), out
}

// Calls

func (ip *Interp) call(fr *frame, in ssa.CallInstruction, c *ssa.CallCommon, st *State, g BDD) (*Term, BDD) {
	var args []*Term
	for _, a := range c.Args {
		args = append(args, ip.value(fr, a))
	}
	return ip.callWith(fr, in, c, ip.value(fr, c.Value), args, st, g)
}

func (ip *Interp) callWith(fr *frame, in ssa.CallInstruction, c *ssa.CallCommon, fn *Term, args []*Term, st *State, g BDD) (*Term, BDD) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return ip.builtin(fr, in, b.Name(), c, args, st, g)
	}
	if c.IsInvoke() {
		return ip.invoke(fr, in, c, fn, args, st, g)
	}
	return ip.apply(fr, in, fn, args, c.Signature(), st, g)
}

func (ip *Interp) invoke(fr *frame, in ssa.CallInstruction, c *ssa.CallCommon, recv *Term, args []*Term, st *State, g BDD) (*Term, BDD) {
	recv = ip.Simp(recv, g)
	switch recv.op {
	case OGamma:
		return ip.branch(st, g, recv.g, func(i int, s *State, gi BDD) (*Term, BDD) {
			return ip.invoke(fr, in, c, recv.a[i], args, s, gi)
		})
	case OIface:
		if m := ip.p.Prog.LookupMethod(recv.typ, c.Method.Pkg(), c.Method.Name()); m != nil {
			return ip.apply(fr, in, ip.intern(&Term{op: OClosure, fn: m}), append([]*Term{recv.a[0]}, args...), m.Signature, st, g)
		}
	}
	name := short(c.Method.FullName())
	return ip.external(fr, in, name, nil, append([]*Term{recv}, args...), c.Signature(), st, g)
}

func (ip *Interp) onStack(fr *frame, fn *ssa.Function) bool {
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			return true
		}
	}
	return false
}

// activations counts the activations of a function that have not ended.
func (ip *Interp) activations(fr *frame, fn *ssa.Function) int {
	n := 0
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			n++
		}
	}
	return n
}

func pkgPathOf(fn *ssa.Function) string {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func (ip *Interp) apply(fr *frame, in ssa.CallInstruction, fn *Term, args []*Term, sig *types.Signature, st *State, g BDD) (*Term, BDD) {
	fn = ip.Simp(fn, g)
	switch fn.op {
	case OGamma:
		return ip.branch(st, g, fn.g, func(i int, s *State, gi BDD) (*Term, BDD) {
			return ip.apply(fr, in, fn.a[i], args, sig, s, gi)
		})
	case OIface:
		return ip.apply(fr, in, fn.a[0], args, sig, st, g)
	case OClosure:
		f := fn.fn
		name := fnName(f)
		path := pkgPathOf(f)
		mod := inModule(path)
		if ip.hook != nil {
			if r, ok := ip.hook(ip.mkCall(fr, in, name, f, args, sig, st, g)); ok {
				return r, g
			}
		}
		if ip.opaque[name] || (mod && f.Blocks == nil) {
			return ip.unknown(fr, in, "opaque", name, args, sig, st, g)
		}
		inl := mod || (f.Synthetic != "" && f.Blocks != nil)
		if !inl && (path == "slices" || path == "maps" || path == "cmp") && f.Blocks != nil {
			if !modelled(name) {
				inl = true
			}
		}
		if !inl || f.Blocks == nil {
			return ip.external(fr, in, name, f, args, sig, st, g)
		}
		if n := ip.activations(fr, f); n > 0 {
			if n >= max(1, ip.recLimit) {
				if ip.mustEnd {
					panic(undecided{fmt.Sprintf("the analysis may not end: %s calls itself %d times", name, n)})
				}
				return ip.unknown(fr, in, "opaque", name, args, sig, st, g)
			}
			if ip.decide(True, ip.strengthen(g, g)) == False {
				return ip.Fresh("unreachable", 0), False
			}
		}
		if fr.depth > 60 {
			panic(undecided{"calls are nested too deeply at " + ip.pos(posOf(in))})
		}
		ip.ncalls++
		res, ns, g2 := ip.evalFunc(f, args, fn.a, st, g, ip.ctx(fr.ctx, fmt.Sprintf("c%p.%s", in, f.String())), fr)
		if g2 == False {
			return ip.Fresh("unreachable", 0), False
		}
		st.m = ns.m
		switch len(res) {
		case 0:
			return nil, g2
		case 1:
			return res[0], g2
		}
		return ip.Tuple(res...), g2
	case ONil:
		return ip.Fresh("unreachable", 0), False
	}
	// A function value that is not known.
	return ip.dynamic(fr, in, fn, args, sig, st, g)
}

func (ip *Interp) dynamic(fr *frame, in ssa.CallInstruction, fn *Term, args []*Term, sig *types.Signature, st *State, g BDD) (*Term, BDD) {
	if ip.hook != nil {
		c := ip.mkCall(fr, in, "dyn", nil, append([]*Term{fn}, args...), sig, st, g)
		if r, ok := ip.hook(c); ok {
			return r, g
		}
	}
	return ip.unknown(fr, in, "dyn", "dyn", append([]*Term{fn}, args...), sig, st, g)
}

func (ip *Interp) mkCall(fr *frame, in ssa.CallInstruction, name string, fn *ssa.Function, args []*Term, sig *types.Signature, st *State, g BDD) *Call {
	c := &Call{Name: name, Fn: fn, Raw: args, St: st, G: g, Sig: sig, Pos: posOf(in), frame: fr, In: in}
	return c
}

func (c *Call) resolved(ip *Interp) []*Term {
	if c.Args == nil {
		for _, a := range c.Raw {
			c.Args = append(c.Args, ip.Simp(ip.resolve(a, c.St), c.G))
		}
	}
	return c.Args
}

// result builds the value of a call of which only the name and the arguments are known.
func (ip *Interp) result(name string, args []*Term, inst int, sig *types.Signature) *Term {
	t := &Term{op: OCall, s: name, a: args, n: inst}
	n := 0
	if sig != nil {
		n = sig.Results().Len()
	}
	if n == 1 {
		t.ty = sig.Results().At(0).Type()
	}
	call := ip.withFact(ip.intern(t))
	if n <= 1 {
		return call
	}
	if call.op == OTuple {
		return call
	}
	var rs []*Term
	for i := 0; i < n; i++ {
		rs = append(rs, ip.res(call, i, sig.Results().At(i).Type()))
	}
	return ip.Tuple(rs...)
}

func (ip *Interp) unknown(fr *frame, in ssa.CallInstruction, kind, name string, args []*Term, sig *types.Signature, st *State, g BDD) (*Term, BDD) {
	inst := ip.ctx(fr.ctx, fmt.Sprintf("u%p.%s", in, name))
	e := ip.effect(fr, kind, name, args, st, g, posOf(in), nil, sig)
	e.Result = ip.result(name, e.Args, inst, sig)
	if ip.havoc != nil {
		ip.havoc(e, st)
	}
	return e.Result, g
}

// pure is a call without effects: equal arguments give equal results.
func (ip *Interp) pure(fr *frame, in ssa.CallInstruction, name string, args []*Term, sig *types.Signature, st *State, g BDD) (*Term, BDD) {
	ra := make([]*Term, len(args))
	for i, a := range args {
		ra[i] = ip.Simp(ip.resolve(a, st), g)
	}
	r := ip.result(name, ra, 0, sig)
	if sig != nil {
		if n := sig.Results().Len(); n > 0 && types.Identical(sig.Results().At(n-1).Type(), errType) && !nonNilCalls[name] {
			e := ip.effect(fr, "pure", name, args, st, g, posOf(in), r, sig)
			_ = e
		}
	}
	return r, g
}

func (ip *Interp) builtin(fr *frame, in ssa.CallInstruction, name string, c *ssa.CallCommon, args []*Term, st *State, g BDD) (*Term, BDD) {
	switch name {
	case "len":
		return ip.Len(ip.deref(st, args[0])), g
	case "cap":
		return ip.intern(&Term{op: OCall, s: "cap", a: []*Term{ip.deref(st, args[0])}, ty: types.Typ[types.Int]}), g
	case "append":
		x := ip.deref(st, args[0])
		if len(args) == 1 {
			return args[0], g
		}
		y := ip.deref(st, args[1])
		if _, ok := c.Args[1].Type().Underlying().(*types.Basic); ok {
			y = ip.intern(&Term{op: OCall, s: "bytes", a: []*Term{y}})
		}
		r := ip.Append(x, y)
		if r.ty == nil {
			r.ty = c.Args[0].Type()
		}
		return r, g
	case "copy":
		src := ip.deref(st, args[1])
		ip.modify(st, args[0], func(old *Term) *Term {
			if ip.Len(old) == ip.Len(src) {
				return src
			}
			return ip.intern(&Term{op: OCall, s: "copied", a: []*Term{old, src}, ty: old.ty})
		})
		return ip.Fresh("copied", ip.ctx(fr.ctx, fmt.Sprintf("k%p", in))), g
	case "delete":
		if gl := globalCell(args[0]); gl != nil && !ip.anyIniting() {
			ip.effect(fr, "store", gl.s, args, st, g, posOf(in), nil, nil)
		}
		ip.modify(st, args[0], func(old *Term) *Term {
			return ip.intern(&Term{op: OMapDel, a: []*Term{old, args[1]}, ty: old.ty})
		})
		return nil, g
	case "clear":
		if gl := globalCell(args[0]); gl != nil && !ip.anyIniting() {
			ip.effect(fr, "store", gl.s, args, st, g, posOf(in), nil, nil)
		}
		ip.modify(st, args[0], func(old *Term) *Term {
			if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
				return ip.intern(&Term{op: OMapEmpty, ty: old.ty})
			}
			return ip.intern(&Term{op: OCall, s: "cleared", a: []*Term{old}, ty: old.ty})
		})
		return nil, g
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			lt := ip.Lt(y, r)
			if name == "max" {
				lt = ip.Lt(r, y)
			}
			r = ip.Gamma([]BDD{lt, ip.Not(lt)}, []*Term{y, r})
		}
		return r, g
	case "print", "println":
		return nil, g
	case "panic":
		ip.effect(fr, "panic", "panic", args, st, g, posOf(in), nil, nil)
		return nil, False
	case "recover":
		return ip.Fresh("recover", ip.ctx(fr.ctx, fmt.Sprintf("k%p", in))), g
	case "close":
		ip.effect(fr, "call", "close", args, st, g, posOf(in), nil, nil)
		return nil, g
	case "ssa:wrapnilchk":
		return args[0], g
	}
	return ip.pure(fr, in, "builtin "+name, args, c.Signature(), st, g)
}

// callback analyses a function value that is called any number of times, by one generic call.
func (ip *Interp) callback(fr *frame, in ssa.CallInstruction, what string, fn *Term, mkArgs func(info *Loop) []*Term, st *State, g BDD) (*Loop, *Term, BDD) {
	if fn.op == OIface {
		fn = fn.a[0]
	}
	info := ip.loopInfo(fmt.Sprintf("cb%d/%p", fr.ctx, in))
	info.fn = fr.fn
	info.pos = posOf(in)
	info.call = what
	if len(ip.active) > 0 {
		info.parent = ip.active[len(ip.active)-1]
	}
	var r *Term
	gout := g
	exits := ip.symLoop(info, st.clone(), g, func(s *State) ([]*edge, []*edge) {
		var g2 BDD
		s0 := s.clone()
		r, g2 = ip.apply(fr, in, fn, mkArgs(info), nil, s, g)
		var backs []*edge
		if g2 != False {
			backs = append(backs, &edge{g: g2, st: s})
		}
		gout = ip.Or(g2, g)
		return []*edge{{g: g, st: s0, normal: true}}, backs
	})
	if len(exits) > 0 {
		st.m = ip.mergeStates(exits).m
	}
	info.ret = r
	return info, r, gout
}

// posOf is the position of a call. Calls that a rule makes have none.
func posOf(in ssa.CallInstruction) token.Pos {
	if in == nil {
		return token.NoPos
	}
	return in.Pos()
}
