package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"path"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Terms are the symbolic values of the value-flow analysis. They are hash-consed, so equal values are the same pointer.
// A pointer and what it points to are the same term, apart from memory that was allocated during the analysis.

type Op uint8

const (
	OConst    Op = iota // k
	ONil                // nil
	OBool               // b: a boolean as a guard
	OZero               // zero value of a struct or array type
	ORoot               // named input
	OSel                // field s of a[0]
	OElem               // element a[1] of a[0]
	OIdx                // index of the current iteration of loop
	OKey                // key of the current iteration of loop over a map
	OLookup             // a[0][a[1]] of a map
	OAssert             // a[0].(typ)
	OCall               // call s of args, inst distinguishes impure calls
	ORes                // result n of a call a[0]
	OBin                // a[0] s a[1]
	OConcat             // string concatenation
	OGamma              // a[i] under g[i]
	OStruct             // a[0] updated with names[i] = a[i+1]
	OList               // list with known elements
	OAppend             // a[0] with the elements a[1:]
	OSpread             // a[0] with all elements of a[1]
	OUpd                // a[0] with element a[1] = a[2]
	OSlice              // a[0][a[1]:a[2]]
	OMapEmpty           // empty map
	OMapUpd             // a[0] with key a[1] = a[2]
	OMapDel             // a[0] without key a[1]
	OMapMerge           // a[0] with every entry of a[1]
	OLoopVar            // value of a loop-carried variable at the start of an iteration, or at the end of the loop
	OClosure            // fn with bindings a
	OAlloc              // memory allocated at a site in a context
	OAddr               // address within cell a[0]: names are fields, or "[]" for an index in a[i]
	OGlobal             // address of a global
	OIface              // a[0] as an interface value with dynamic type typ
	OTuple              // several values
	OFresh              // anything
	OAtomEq             // atom a[0] == a[1]
	OAtomLt             // atom a[0] < a[1]
	OAtomIs             // atom a[0] has dynamic type typ
	OAtomOk             // atom a[1] is a key of a[0]
	OAtomEx             // atom: some iteration of loop satisfies exit s
	OAtomNext           // atom: loop has a further iteration
	OAtomVal            // atom: boolean value a[0]
	OSorted             // a[0] sorted (by a[1] if given)
	OReversed           // a[0] reversed
)

type Term struct {
	id    int
	op    Op
	s     string
	k     constant.Value
	typ   types.Type
	a     []*Term
	names []string
	g     []BDD
	b     BDD
	n     int
	fn    *ssa.Function
	loop  *Loop

	ty types.Type // static type, if known (not part of the identity)
}

// Loop describes a loop that is analysed by one generic iteration.
type Loop struct {
	id     int
	key    string
	parent *Loop
	pos    token.Pos
	fn     *ssa.Function

	cond   BDD   // condition of the header in the iteration
	domain *Term // what it ranges over in full, if recognised
	mapDom *Term // map it ranges over
	isMap  bool
	call   string // callback loops: the higher-order function

	vars   map[string]*LoopVar
	mod    map[*Term]bool // cells that an iteration modifies
	noMod  map[*Term]bool
	invPhi map[string]bool
	exits  map[string]BDD // early exits and flags: condition within the iteration
	entry  BDD
	ret    *Term // callback loops: what the function returns
	hdr    *ssa.BasicBlock
	it     int
}

type LoopVar struct {
	name       string
	cell       *Term
	init, step *Term
	typ        types.Type
}

type internKey string

type In struct {
	*bddMgr
	terms  map[internKey]*Term
	nterm  int
	atoms  []*Term       // variable -> atom
	atomV  map[*Term]int // atom -> variable
	eqIdx  map[*Term][]*Term
	isIdx  map[*Term][]*Term
	ltIdx  map[*Term][]*Term
	fact   func(*Term) *Term
	fcache map[*Term]*Term
	nilT   *Term
	trueT  *Term
	falseT *Term
	active []*Loop // loops being analysed

	affix func(x, p *Term, prefix bool) BDD // whether a string starts or ends with another

	strings map[*Term]string
}

func newIn() *In {
	in := &In{bddMgr: newBDD(), terms: map[internKey]*Term{}, atomV: map[*Term]int{}, eqIdx: map[*Term][]*Term{}, isIdx: map[*Term][]*Term{}, ltIdx: map[*Term][]*Term{}, fcache: map[*Term]*Term{}, strings: map[*Term]string{}}
	in.nilT = in.intern(&Term{op: ONil})
	in.trueT = in.intern(&Term{op: OBool, b: True})
	in.falseT = in.intern(&Term{op: OBool, b: False})
	return in
}

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, nil)
}

func (in *In) intern(t *Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%s|%d|%d", t.op, t.s, t.n, t.b)
	if t.k != nil {
		sb.WriteString("|k" + t.k.Kind().String() + t.k.ExactString())
	}
	if t.typ != nil {
		sb.WriteString("|t" + typeKey(t.typ))
	}
	for _, a := range t.a {
		if a == nil {
			sb.WriteString("|_")
		} else {
			sb.WriteString("|" + strconv.Itoa(a.id))
		}
	}
	for i, n := range t.names {
		sb.WriteString("|n" + strconv.Itoa(i) + n)
	}
	for _, g := range t.g {
		sb.WriteString("|g" + strconv.Itoa(int(g)))
	}
	if t.fn != nil {
		fmt.Fprintf(&sb, "|f%p", t.fn)
	}
	if t.loop != nil {
		sb.WriteString("|l" + strconv.Itoa(t.loop.id))
	}
	k := internKey(sb.String())
	if old, ok := in.terms[k]; ok {
		if old.ty == nil {
			old.ty = t.ty
		}
		return old
	}
	in.nterm++
	t.id = in.nterm
	in.terms[k] = t
	return t
}

// withFact applies the assumptions of the scenario to a new term.
func (in *In) withFact(t *Term) *Term {
	if in.fact == nil {
		return t
	}
	if r, ok := in.fcache[t]; ok {
		return r
	}
	r := in.fact(t)
	if r == nil {
		r = t
	}
	in.fcache[t] = r
	return r
}

func (in *In) Const(v constant.Value) *Term {
	if v.Kind() == constant.Bool {
		if constant.BoolVal(v) {
			return in.trueT
		}
		return in.falseT
	}
	return in.intern(&Term{op: OConst, k: v})
}
func (in *In) Str(s string) *Term  { return in.Const(constant.MakeString(s)) }
func (in *In) Int(i int64) *Term   { return in.Const(constant.MakeInt64(i)) }
func (in *In) Bool(b BDD) *Term    { return in.intern(&Term{op: OBool, b: b}) }
func (in *In) Root(s string) *Term { return in.intern(&Term{op: ORoot, s: s}) }
func (in *In) RootT(s string, t types.Type) *Term {
	return in.intern(&Term{op: ORoot, s: s, ty: t})
}
func (in *In) Fresh(s string, n int) *Term { return in.intern(&Term{op: OFresh, s: s, n: n}) }
func (in *In) List(items ...*Term) *Term {
	return in.intern(&Term{op: OList, a: append([]*Term{}, items...)})
}
func (in *In) Tuple(items ...*Term) *Term {
	return in.intern(&Term{op: OTuple, a: append([]*Term{}, items...)})
}

func isStruct(t types.Type) (*types.Struct, bool) {
	if t == nil {
		return nil, false
	}
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

func (in *In) Zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return in.falseT
		case u.Info()&types.IsString != 0:
			return in.Str("")
		case u.Info()&types.IsInteger != 0:
			return in.Int(0)
		case u.Info()&types.IsFloat != 0:
			return in.Const(constant.ToFloat(constant.MakeInt64(0)))
		}
		return in.nilT
	case *types.Struct:
		return in.intern(&Term{op: OZero, typ: t, ty: t})
	case *types.Array:
		return in.intern(&Term{op: OZero, typ: t, ty: t})
	}
	return in.nilT
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isNil() bool   { return t.op == ONil }
func (t *Term) str() (string, bool) {
	if t != nil && t.op == OConst && t.k.Kind() == constant.String {
		return constant.StringVal(t.k), true
	}
	return "", false
}
func (t *Term) int() (int64, bool) {
	if t != nil && t.op == OConst && t.k.Kind() == constant.Int {
		return constant.Int64Val(t.k)
	}
	return 0, false
}

// mapGamma applies f to every alternative of a merged value.
func (in *In) mapGamma(t *Term, f func(*Term) *Term) *Term {
	out := make([]*Term, len(t.a))
	for i, a := range t.a {
		out[i] = f(a)
	}
	return in.Gamma(t.g, out)
}

// Gamma is the value that is ts[i] under gs[i].
func (in *In) Gamma(gs []BDD, ts []*Term) *Term {
	var fg []BDD
	var ft []*Term
	add := func(g BDD, t *Term) {
		if g == False {
			return
		}
		for i := range ft {
			if ft[i] == t {
				fg[i] = in.Or(fg[i], g)
				return
			}
		}
		fg = append(fg, g)
		ft = append(ft, t)
	}
	for i, t := range ts {
		if t == nil {
			continue
		}
		if t.op == OGamma {
			for j, x := range t.a {
				add(in.And(gs[i], t.g[j]), x)
			}
		} else {
			add(gs[i], t)
		}
	}
	if len(ft) == 0 {
		return in.Fresh("unreachable", 0)
	}
	if len(ft) == 1 {
		return ft[0]
	}
	// Values that are never defined on some path don't matter there.
	allBool, anyBool := true, false
	for _, t := range ft {
		if t.op == OBool {
			anyBool = true
		} else {
			allBool = false
		}
	}
	if allBool || (anyBool && func() bool {
		for _, t := range ft {
			if t.op != OBool && !in.isBoolTerm(t) {
				return false
			}
		}
		return true
	}()) {
		r := False
		for i, t := range ft {
			r = in.Or(r, in.And(fg[i], in.ToBDD(t)))
		}
		return in.Bool(r)
	}
	// Merge structures piece by piece.
	if r := in.mergeShape(fg, ft); r != nil {
		return r
	}
	// Canonical order.
	idx := make([]int, len(ft))
	for i := range idx {
		idx[i] = i
	}
	sort.Slice(idx, func(i, j int) bool { return ft[idx[i]].id < ft[idx[j]].id })
	g2 := make([]BDD, len(ft))
	t2 := make([]*Term, len(ft))
	for i, j := range idx {
		g2[i], t2[i] = fg[j], ft[j]
	}
	var ty types.Type
	for _, t := range t2 {
		if t.ty != nil {
			ty = t.ty
		}
	}
	return in.intern(&Term{op: OGamma, a: t2, g: g2, ty: ty})
}

func structBase(t *Term) *Term {
	if t.op == OStruct {
		return t.a[0]
	}
	return t
}

func (in *In) mergeShape(gs []BDD, ts []*Term) *Term {
	// Structs over the same base.
	base := structBase(ts[0])
	same := true
	for _, t := range ts {
		if structBase(t) != base {
			same = false
			break
		}
	}
	if same {
		names := map[string]bool{}
		for _, t := range ts {
			for _, n := range t.names {
				names[n] = true
			}
		}
		if len(names) > 0 && (base.op != OAddr) {
			var order []string
			for n := range names {
				order = append(order, n)
			}
			sort.Strings(order)
			r := base
			for _, n := range order {
				vals := make([]*Term, len(ts))
				for i, t := range ts {
					vals[i] = in.Sel(t, n, nil)
				}
				r = in.With(r, n, in.Gamma(gs, vals))
			}
			return r
		}
	}
	// Lists of the same length.
	if ts[0].op == OList || ts[0].op == OAppend {
		n := len(ts[0].a)
		ok := true
		for _, t := range ts {
			if t.op != ts[0].op || len(t.a) != n || (t.op == OAppend && t.a[0] != ts[0].a[0]) {
				ok = false
				break
			}
		}
		if ok && n > 0 {
			items := make([]*Term, n)
			for i := 0; i < n; i++ {
				vals := make([]*Term, len(ts))
				for j, t := range ts {
					vals[j] = t.a[i]
				}
				items[i] = in.Gamma(gs, vals)
			}
			return in.intern(&Term{op: ts[0].op, a: items})
		}
	}
	// Interface values with the same dynamic type.
	if ts[0].op == OIface {
		ok := true
		for _, t := range ts {
			if t.op != OIface || !types.Identical(t.typ, ts[0].typ) {
				ok = false
				break
			}
		}
		if ok {
			vals := make([]*Term, len(ts))
			for i, t := range ts {
				vals[i] = t.a[0]
			}
			return in.Iface(ts[0].typ, in.Gamma(gs, vals))
		}
	}
	if ts[0].op == OMapUpd || ts[0].op == OUpd {
		ok := true
		for _, t := range ts {
			if t.op != ts[0].op || t.a[0] != ts[0].a[0] || t.a[1] != ts[0].a[1] {
				ok = false
				break
			}
		}
		if ok {
			vals := make([]*Term, len(ts))
			for i, t := range ts {
				vals[i] = t.a[2]
			}
			return in.intern(&Term{op: ts[0].op, a: []*Term{ts[0].a[0], ts[0].a[1], in.Gamma(gs, vals)}})
		}
	}
	return nil
}

func (in *In) isBoolTerm(t *Term) bool {
	if t.op == OBool {
		return true
	}
	if t.ty != nil {
		if b, ok := t.ty.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			return true
		}
	}
	return false
}

func (in *In) Iface(t types.Type, x *Term) *Term {
	if x.op == OAssert && types.Identical(x.typ, t) {
		return x.a[0]
	}
	return in.intern(&Term{op: OIface, typ: t, a: []*Term{x}})
}

// Sel is field f of x.
func (in *In) Sel(x *Term, f string, ty types.Type) *Term {
	switch x.op {
	case OStruct:
		for i, n := range x.names {
			if n == f {
				return x.a[i+1]
			}
		}
		return in.Sel(x.a[0], f, ty)
	case OZero:
		if st, ok := isStruct(x.typ); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == f {
					return in.Zero(st.Field(i).Type())
				}
			}
		}
		return in.Fresh("zero."+f, 0)
	case OGamma:
		return in.mapGamma(x, func(y *Term) *Term { return in.Sel(y, f, ty) })
	case OIface:
		return in.Sel(x.a[0], f, ty)
	case ONil:
		return in.Fresh("nil deref", 0)
	}
	if ty == nil {
		ty = fieldType(x.ty, f)
	}
	return in.withFact(in.intern(&Term{op: OSel, s: f, a: []*Term{x}, ty: ty}))
}

func fieldType(t types.Type, f string) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if st, ok := isStruct(t); ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == f {
				return st.Field(i).Type()
			}
		}
	}
	return nil
}

// With is x with field f = v.
func (in *In) With(x *Term, f string, v *Term) *Term {
	if x.op == OStruct {
		names := append([]string{}, x.names...)
		a := append([]*Term{}, x.a...)
		for i, n := range names {
			if n == f {
				a[i+1] = v
				return in.normStruct(a[0], names, a[1:])
			}
		}
		names = append(names, f)
		a = append(a, v)
		return in.normStruct(a[0], names, a[1:])
	}
	return in.normStruct(x, []string{f}, []*Term{v})
}

func (in *In) normStruct(base *Term, names []string, vals []*Term) *Term {
	type nv struct {
		n string
		v *Term
	}
	var l []nv
	for i, n := range names {
		if in.Sel(base, n, nil) == vals[i] {
			continue
		}
		l = append(l, nv{n, vals[i]})
	}
	if len(l) == 0 {
		return base
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n < l[j].n })
	t := &Term{op: OStruct, a: []*Term{base}, ty: base.ty}
	for _, x := range l {
		t.names = append(t.names, x.n)
		t.a = append(t.a, x.v)
	}
	return in.intern(t)
}

// Elem is element i of x.
func (in *In) Elem(x, i *Term, ty types.Type) *Term {
	switch x.op {
	case OList:
		if n, ok := i.int(); ok {
			if n >= 0 && int(n) < len(x.a) {
				return x.a[n]
			}
			return in.Fresh("out of range", 0)
		}
	case OGamma:
		return in.mapGamma(x, func(y *Term) *Term { return in.Elem(y, i, ty) })
	case OUpd:
		if x.a[1] == i {
			return x.a[2]
		}
		c := in.Eq(x.a[1], i)
		if c == False {
			return in.Elem(x.a[0], i, ty)
		}
		return in.Gamma([]BDD{c, in.Not(c)}, []*Term{x.a[2], in.Elem(x.a[0], i, ty)})
	case OZero:
		if at, ok := x.typ.Underlying().(*types.Array); ok {
			return in.Zero(at.Elem())
		}
	case OSlice:
		if x.a[1] != nil {
			return in.Elem(x.a[0], in.Bin(token.ADD, x.a[1], i), ty)
		}
		return in.Elem(x.a[0], i, ty)
	case OIface:
		return in.Elem(x.a[0], i, ty)
	case OConst:
		if s, ok := x.str(); ok {
			if n, ok := i.int(); ok && n >= 0 && int(n) < len(s) {
				return in.Int(int64(s[n]))
			}
		}
	case OConcat:
		if s, ok := x.a[0].str(); ok {
			if n, ok := i.int(); ok && n >= 0 && int(n) < len(s) {
				return in.Int(int64(s[n]))
			}
		}
	}
	if i.op == OGamma {
		return in.mapGamma(i, func(j *Term) *Term { return in.Elem(x, j, ty) })
	}
	if ty == nil && x.ty != nil {
		switch u := x.ty.Underlying().(type) {
		case *types.Slice:
			ty = u.Elem()
		case *types.Array:
			ty = u.Elem()
		}
	}
	return in.withFact(in.intern(&Term{op: OElem, a: []*Term{x, i}, ty: ty}))
}

// Upd is x with element i = v.
func (in *In) Upd(x, i, v *Term) *Term {
	if x.op == OList {
		if n, ok := i.int(); ok && n >= 0 && int(n) < len(x.a) {
			a := append([]*Term{}, x.a...)
			a[n] = v
			return in.List(a...)
		}
	}
	if x.op == OZero {
		if at, ok := x.typ.Underlying().(*types.Array); ok && at.Len() <= 256 {
			items := make([]*Term, at.Len())
			for j := range items {
				items[j] = in.Zero(at.Elem())
			}
			return in.Upd(in.List(items...), i, v)
		}
	}
	if x.op == OUpd && x.a[1] == i {
		x = x.a[0]
	}
	if in.Elem(x, i, nil) == v {
		return x
	}
	return in.intern(&Term{op: OUpd, a: []*Term{x, i, v}, ty: x.ty})
}

func (in *In) listOf(x *Term) ([]*Term, bool) {
	switch x.op {
	case OList:
		return x.a, true
	case ONil:
		return nil, true
	case OZero:
		if at, ok := x.typ.Underlying().(*types.Array); ok && at.Len() <= 256 {
			items := make([]*Term, at.Len())
			for j := range items {
				items[j] = in.Zero(at.Elem())
			}
			return items, true
		}
	}
	return nil, false
}

// Append is x with all elements of y.
func (in *In) Append(x, y *Term) *Term {
	if y.op == OGamma {
		return in.mapGamma(y, func(z *Term) *Term { return in.Append(x, z) })
	}
	if x.op == OGamma {
		return in.mapGamma(x, func(z *Term) *Term { return in.Append(z, y) })
	}
	items, ok := in.listOf(y)
	if ok {
		if len(items) == 0 {
			return x
		}
		if base, ok := in.listOf(x); ok {
			return in.List(append(append([]*Term{}, base...), items...)...)
		}
		if x.op == OAppend {
			return in.intern(&Term{op: OAppend, a: append(append([]*Term{}, x.a...), items...), ty: x.ty})
		}
		return in.intern(&Term{op: OAppend, a: append([]*Term{x}, items...), ty: x.ty})
	}
	if b, ok := in.listOf(x); ok && len(b) == 0 {
		return y
	}
	if y.op == OAppend {
		return in.Append(in.Append(x, y.a[0]), in.List(y.a[1:]...))
	}
	return in.intern(&Term{op: OSpread, a: []*Term{x, y}, ty: x.ty})
}

// Slice is x[lo:hi].
func (in *In) Slice(x, lo, hi *Term) *Term {
	if lo != nil {
		if n, ok := lo.int(); ok && n == 0 {
			lo = nil
		}
	}
	if lo == nil && hi == nil {
		return x
	}
	if x.isNil() && hi != nil {
		if n, ok := hi.int(); ok && n == 0 {
			return x
		}
	}
	if x.op == OGamma {
		return in.mapGamma(x, func(y *Term) *Term { return in.Slice(y, lo, hi) })
	}
	if lo != nil && lo.op == OGamma {
		return in.mapGamma(lo, func(y *Term) *Term { return in.Slice(x, y, hi) })
	}
	if hi != nil && hi.op == OGamma {
		return in.mapGamma(hi, func(y *Term) *Term { return in.Slice(x, lo, y) })
	}
	l, lok := int64(0), true
	if lo != nil {
		l, lok = lo.int()
	}
	if s, ok := x.str(); ok && lok {
		h, hok := int64(len(s)), true
		if hi != nil {
			h, hok = hi.int()
		}
		if hok && l >= 0 && l <= h && h <= int64(len(s)) {
			return in.Str(s[l:h])
		}
	}
	if x.op == OList && lok {
		h, hok := int64(len(x.a)), true
		if hi != nil {
			h, hok = hi.int()
		}
		if hok && l >= 0 && l <= h && h <= int64(len(x.a)) {
			return in.List(x.a[l:h]...)
		}
	}
	if x.op == OConcat && lok && hi == nil {
		if s, ok := x.a[0].str(); ok && l <= int64(len(s)) {
			return in.Concat(append([]*Term{in.Str(s[l:])}, x.a[1:]...)...)
		}
	}
	return in.withFact(in.intern(&Term{op: OSlice, a: []*Term{x, lo, hi}, ty: x.ty}))
}

// Len is len(x).
func (in *In) Len(x *Term) *Term {
	switch x.op {
	case OList:
		return in.Int(int64(len(x.a)))
	case ONil, OMapEmpty:
		return in.Int(0)
	case OConst:
		if s, ok := x.str(); ok {
			return in.Int(int64(len(s)))
		}
	case OZero:
		if at, ok := x.typ.Underlying().(*types.Array); ok {
			return in.Int(at.Len())
		}
	case OAppend:
		return in.Bin(token.ADD, in.Len(x.a[0]), in.Int(int64(len(x.a)-1)))
	case OSpread:
		return in.Bin(token.ADD, in.Len(x.a[0]), in.Len(x.a[1]))
	case OUpd, OSorted, OReversed:
		return in.Len(x.a[0])
	case OGamma:
		return in.mapGamma(x, in.Len)
	case OIface:
		return in.Len(x.a[0])
	case OCall:
		if x.s == "make" {
			return x.a[0]
		}
	case OSlice:
		hi := x.a[2]
		if hi == nil {
			hi = in.Len(x.a[0])
		}
		if x.a[1] == nil {
			return hi
		}
		return in.Bin(token.SUB, hi, x.a[1])
	}
	return in.withFact(in.intern(&Term{op: OCall, s: "len", a: []*Term{x}}))
}

// Concat is string concatenation.
func (in *In) Concat(items ...*Term) *Term {
	var out []*Term
	for i, x := range items {
		if x.op == OGamma {
			pre := append([]*Term{}, items[:i]...)
			post := append([]*Term{}, items[i+1:]...)
			return in.mapGamma(x, func(y *Term) *Term {
				return in.Concat(append(append(append([]*Term{}, pre...), y), post...)...)
			})
		}
	}
	for _, x := range items {
		parts := []*Term{x}
		if x.op == OConcat {
			parts = x.a
		}
		for _, p := range parts {
			if s, ok := p.str(); ok {
				if s == "" {
					continue
				}
				if len(out) > 0 {
					if s0, ok := out[len(out)-1].str(); ok {
						out[len(out)-1] = in.Str(s0 + s)
						continue
					}
				}
			}
			out = append(out, p)
		}
	}
	switch len(out) {
	case 0:
		return in.Str("")
	case 1:
		return out[0]
	}
	return in.intern(&Term{op: OConcat, a: out, ty: types.Typ[types.String]})
}

// Bin is an arithmetic operation.
func (in *In) Bin(op token.Token, x, y *Term) *Term {
	if x.op == OGamma {
		return in.mapGamma(x, func(z *Term) *Term { return in.Bin(op, z, y) })
	}
	if y.op == OGamma {
		return in.mapGamma(y, func(z *Term) *Term { return in.Bin(op, x, z) })
	}
	if x.isConst() && y.isConst() && x.k.Kind() != constant.Unknown && y.k.Kind() != constant.Unknown {
		defer func() { recover() }()
		if op == token.QUO && x.k.Kind() == constant.Int {
			if n, ok := y.int(); ok && n != 0 {
				return in.Const(constant.BinaryOp(x.k, token.QUO_ASSIGN, y.k))
			}
		} else if op == token.SHL || op == token.SHR {
			if n, ok := y.int(); ok {
				return in.Const(constant.Shift(x.k, op, uint(n)))
			}
		} else {
			return in.Const(constant.BinaryOp(x.k, op, y.k))
		}
	}
	if op == token.SUB {
		if n, ok := y.int(); ok {
			return in.Bin(token.ADD, x, in.Int(-n))
		}
		if x == y {
			return in.Int(0)
		}
	}
	if op == token.ADD {
		if _, ok := x.int(); ok {
			x, y = y, x
		}
		if n, ok := y.int(); ok {
			if n == 0 {
				return x
			}
			if x.op == OBin && x.s == "+" {
				if m, ok := x.a[1].int(); ok {
					return in.Bin(token.ADD, x.a[0], in.Int(m+n))
				}
			}
		} else {
			// Keep constants last, the rest in order.
			if y.op == OBin && y.s == "+" {
				if m, ok := y.a[1].int(); ok {
					return in.Bin(token.ADD, in.Bin(token.ADD, x, y.a[0]), in.Int(m))
				}
			}
			if x.op == OBin && x.s == "+" {
				if m, ok := x.a[1].int(); ok {
					return in.Bin(token.ADD, in.Bin(token.ADD, x.a[0], y), in.Int(m))
				}
			}
			if y.id < x.id {
				x, y = y, x
			}
		}
	}
	return in.withFact(in.intern(&Term{op: OBin, s: op.String(), a: []*Term{x, y}, ty: x.ty}))
}

// Lookup is m[k] and whether k is a key of m.
func (in *In) Lookup(m, k *Term, zero *Term) (*Term, BDD) {
	switch m.op {
	case OMapEmpty, ONil:
		return zero, False
	case OGamma:
		vs := make([]*Term, len(m.a))
		ok := False
		for i, x := range m.a {
			v, o := in.Lookup(x, k, zero)
			vs[i] = v
			ok = in.Or(ok, in.And(m.g[i], o))
		}
		return in.Gamma(m.g, vs), ok
	case OMapUpd:
		if k.op != OGamma {
			c := in.Eq(m.a[1], k)
			if c == True {
				return m.a[2], True
			}
			if c == False || !in.bigConstMap(m) {
				v, o := in.Lookup(m.a[0], k, zero)
				if c == False {
					return v, o
				}
				return in.Gamma([]BDD{c, in.Not(c)}, []*Term{m.a[2], v}), in.Or(c, o)
			}
		}
	case OMapDel:
		if k.op != OGamma {
			c := in.Eq(m.a[1], k)
			v, o := in.Lookup(m.a[0], k, zero)
			return in.Gamma([]BDD{c, in.Not(c)}, []*Term{zero, v}), in.And(in.Not(c), o)
		}
	case OMapMerge:
		v1, o1 := in.Lookup(m.a[1], k, zero)
		v0, o0 := in.Lookup(m.a[0], k, zero)
		return in.Gamma([]BDD{o1, in.Not(o1)}, []*Term{v1, v0}), in.Or(o0, o1)
	}
	if k.op == OGamma {
		vs := make([]*Term, len(k.a))
		ok := False
		for i, x := range k.a {
			v, o := in.Lookup(m, x, zero)
			vs[i] = v
			ok = in.Or(ok, in.And(k.g[i], o))
		}
		return in.Gamma(k.g, vs), ok
	}
	var ty types.Type
	if m.ty != nil {
		if mt, ok := m.ty.Underlying().(*types.Map); ok {
			ty = mt.Elem()
		}
	}
	if ty == nil && zero != nil {
		ty = zero.ty
	}
	okT := in.withFact(in.intern(&Term{op: OAtomOk, a: []*Term{m, k}}))
	ok := in.ToBDD(okT)
	v := in.withFact(in.intern(&Term{op: OLookup, a: []*Term{m, k}, ty: ty}))
	if ok == False {
		v = zero
	}
	return v, ok
}

func (in *In) bigConstMap(m *Term) bool {
	n := 0
	for m.op == OMapUpd {
		if !m.a[1].isConst() {
			return false
		}
		n++
		m = m.a[0]
	}
	return n > 6
}

// Atoms and guards

func (in *In) atom(t *Term) BDD {
	v, ok := in.atomV[t]
	if !ok {
		v = len(in.atoms)
		in.atoms = append(in.atoms, t)
		in.atomV[t] = v
		switch t.op {
		case OAtomEq:
			in.eqIdx[t.a[0]] = append(in.eqIdx[t.a[0]], t)
			in.eqIdx[t.a[1]] = append(in.eqIdx[t.a[1]], t)
		case OAtomIs:
			in.isIdx[t.a[0]] = append(in.isIdx[t.a[0]], t)
		case OAtomLt:
			in.ltIdx[t.a[0]] = append(in.ltIdx[t.a[0]], t)
		}
	}
	return in.Var(v)
}

// ToBDD is the guard under which the boolean t is true.
func (in *In) ToBDD(t *Term) BDD {
	switch t.op {
	case OBool:
		return t.b
	case OGamma:
		r := False
		for i, x := range t.a {
			r = in.Or(r, in.And(t.g[i], in.ToBDD(x)))
		}
		return r
	case OAtomEq, OAtomLt, OAtomIs, OAtomOk, OAtomEx, OAtomNext:
		return in.atom(t)
	case OIface:
		return in.ToBDD(t.a[0])
	case OFresh:
		if t.s == "unreachable" || t.s == "nil deref" {
			return False
		}
	}
	return in.atom(in.intern(&Term{op: OAtomVal, a: []*Term{t}}))
}

func (in *In) nonNil(t *Term) bool {
	switch t.op {
	case OAlloc, OAddr, OClosure, OIface, OList, OStruct, OGlobal, OMapEmpty, OMapUpd, OAppend, OConst, OBool, OZero:
		return true
	case OCall:
		return nonNilCalls[t.s]
	case ORoot:
		return strings.HasPrefix(t.s, "error ") || strings.HasPrefix(t.s, "nonnil ")
	}
	return false
}

var nonNilCalls = map[string]bool{
	"errors.New": true, "fmt.Errorf": true,
}

// Eq is the guard under which x == y.
func (in *In) Eq(x, y *Term) BDD {
	if x == y {
		return True
	}
	if x.op == OGamma {
		r := False
		for i, z := range x.a {
			r = in.Or(r, in.And(x.g[i], in.Eq(z, y)))
		}
		return r
	}
	if y.op == OGamma {
		return in.Eq(y, x)
	}
	if x.op == OBool || y.op == OBool {
		bx, by := in.ToBDD(x), in.ToBDD(y)
		return in.Or(in.And(bx, by), in.And(in.Not(bx), in.Not(by)))
	}
	if x.isConst() && y.isConst() {
		if x.k.Kind() == y.k.Kind() || (x.k.Kind() != constant.String && y.k.Kind() != constant.String) {
			if constant.Compare(x.k, token.EQL, y.k) {
				return True
			}
		}
		return False
	}
	if x.isNil() && in.nonNil(y) || y.isNil() && in.nonNil(x) {
		return False
	}
	if x.op == OIface && y.op == OIface {
		if !types.Identical(x.typ, y.typ) {
			return False
		}
		return in.Eq(x.a[0], y.a[0])
	}
	if x.op == OIface && y.op == ORoot && in.nonNil(y) || y.op == OIface && x.op == ORoot && in.nonNil(x) {
		return False
	}
	if (x.op == OAlloc || x.op == OAddr || x.op == OClosure) && (y.op == OAlloc || y.op == OAddr || y.op == OClosure) {
		return False
	}
	if in.nonNil(x) && in.nonNil(y) && (x.op == ORoot || x.op == OCall) && (y.op == ORoot || y.op == OCall) {
		return False // two different errors
	}
	// Structs: field by field.
	if st, ok := structTypeOf(x, y); ok && (x.op == OZero || x.op == OStruct || y.op == OZero || y.op == OStruct) {
		r := True
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			r = in.And(r, in.Eq(in.Sel(x, f.Name(), f.Type()), in.Sel(y, f.Name(), f.Type())))
		}
		return r
	}
	// A part of a string at one of its ends.
	for i, p := range []*Term{x, y} {
		q := []*Term{y, x}[i]
		s, ok := q.str()
		if !ok || s == "" || p.op != OSlice || in.affix == nil {
			continue
		}
		b, lo, hi := p.a[0], p.a[1], p.a[2]
		if lo == nil && hi != nil {
			if n, ok := hi.int(); ok && n == int64(len(s)) {
				return in.affix(b, q, true)
			}
		}
		if hi == nil && lo != nil && lo.op == OBin && lo.s == "+" && lo.a[0] == in.Len(b) {
			if n, ok := lo.a[1].int(); ok && n == -int64(len(s)) {
				return in.affix(b, q, false)
			}
		}
	}
	// Strings with known parts.
	if c, ok := in.concatEq(x, y); ok {
		return c
	}
	// Lengths.
	if x.isConst() {
		x, y = y, x
	}
	if n, ok := y.int(); ok {
		if x.op == OBin && x.s == "+" {
			if m, ok := x.a[1].int(); ok {
				return in.Eq(x.a[0], in.Int(n-m))
			}
		}
		if x.op == OCall && x.s == "len" {
			if n < 0 {
				return False
			}
			if n == 0 {
				return in.Empty(x.a[0])
			}
		}
	}
	if s, ok := y.str(); ok && s == "" {
		return in.Empty(x)
	}
	if !y.isConst() && !y.isNil() && (x.isNil() || y.id < x.id) {
		x, y = y, x
	}
	return in.ToBDD(in.withFact(in.intern(&Term{op: OAtomEq, a: []*Term{x, y}})))
}

func structTypeOf(x, y *Term) (*types.Struct, bool) {
	for _, t := range []*Term{x, y} {
		if t.op == OZero {
			return isStruct(t.typ)
		}
		if t.op == OStruct && t.ty != nil {
			return isStruct(t.ty)
		}
	}
	return nil, false
}

// Empty is the guard under which the string or list x has length 0.
func (in *In) Empty(x *Term) BDD {
	if s, ok := x.str(); ok {
		if s == "" {
			return True
		}
		return False
	}
	switch x.op {
	case OConcat:
		r := True
		for _, p := range x.a {
			r = in.And(r, in.Empty(p))
		}
		return r
	case OGamma:
		r := False
		for i, z := range x.a {
			r = in.Or(r, in.And(x.g[i], in.Empty(z)))
		}
		return r
	case OList:
		if len(x.a) == 0 {
			return True
		}
		return False
	case ONil, OMapEmpty:
		return True
	case OAppend, OMapUpd:
		return False
	case OSpread:
		return in.And(in.Empty(x.a[0]), in.Empty(x.a[1]))
	case OUpd, OSorted, OReversed:
		return in.Empty(x.a[0])
	case OCall:
		if x.s == "strings.Split" {
			return False
		}
	}
	return in.ToBDD(in.withFact(in.intern(&Term{op: OAtomEq, a: []*Term{x, in.Str("")}})))
}

// concatEq compares strings with constant prefixes or suffixes.
func (in *In) concatEq(x, y *Term) (BDD, bool) {
	if x.op != OConcat && y.op != OConcat {
		return False, false
	}
	parts := func(t *Term) []*Term {
		if t.op == OConcat {
			return t.a
		}
		if s, ok := t.str(); ok && s == "" {
			return nil
		}
		return []*Term{t}
	}
	px, py := append([]*Term{}, parts(x)...), append([]*Term{}, parts(y)...)
	changed := false
	for len(px) > 0 && len(py) > 0 {
		if px[0] == py[0] {
			px, py = px[1:], py[1:]
			changed = true
			continue
		}
		sx, okx := px[0].str()
		sy, oky := py[0].str()
		if okx && oky {
			n := len(sx)
			if len(sy) < n {
				n = len(sy)
			}
			if sx[:n] != sy[:n] {
				return False, true
			}
			trim := func(p []*Term, s string) []*Term {
				if s == "" {
					return p[1:]
				}
				return append([]*Term{in.Str(s)}, p[1:]...)
			}
			px, py = trim(px, sx[n:]), trim(py, sy[n:])
			changed = true
			continue
		}
		break
	}
	for len(px) > 0 && len(py) > 0 {
		lx, ly := px[len(px)-1], py[len(py)-1]
		if lx == ly {
			px, py = px[:len(px)-1], py[:len(py)-1]
			changed = true
			continue
		}
		sx, okx := lx.str()
		sy, oky := ly.str()
		if okx && oky {
			n := len(sx)
			if len(sy) < n {
				n = len(sy)
			}
			if sx[len(sx)-n:] != sy[len(sy)-n:] {
				return False, true
			}
			trim := func(p []*Term, s string) []*Term {
				if s == "" {
					return p[:len(p)-1]
				}
				return append(append([]*Term{}, p[:len(p)-1]...), in.Str(s))
			}
			px, py = trim(px, sx[:len(sx)-n]), trim(py, sy[:len(sy)-n])
			changed = true
			continue
		}
		break
	}
	if !changed {
		return False, false
	}
	return in.Eq(in.Concat(px...), in.Concat(py...)), true
}

// Lt is the guard under which x < y.
func (in *In) Lt(x, y *Term) BDD {
	if x == y {
		return False
	}
	if x.op == OGamma {
		r := False
		for i, z := range x.a {
			r = in.Or(r, in.And(x.g[i], in.Lt(z, y)))
		}
		return r
	}
	if y.op == OGamma {
		r := False
		for i, z := range y.a {
			r = in.Or(r, in.And(y.g[i], in.Lt(x, z)))
		}
		return r
	}
	if x.isConst() && y.isConst() {
		if constant.Compare(x.k, token.LSS, y.k) {
			return True
		}
		return False
	}
	// Constants are moved to the right: c + x < d.
	off := func(t *Term) (*Term, int64) {
		if t.op == OBin && t.s == "+" {
			if m, ok := t.a[1].int(); ok {
				return t.a[0], m
			}
		}
		return t, 0
	}
	bx, ox := off(x)
	by, oy := off(y)
	if n, ok := y.int(); ok {
		c := n - ox // bx < c
		if nonNegative(bx) && c <= 0 {
			return False
		}
		if bx.op == OCall && bx.s == "len" {
			if c == 1 {
				return in.Empty(bx.a[0])
			}
			if bx.a[0].op == OCall && bx.a[0].s == "strings.Split" && c <= 1 {
				return False
			}
			if b := bx.a[0]; b.op == OConcat || b.op == OCall && b.s == "path.Join" {
				known, parts := 0, b.a
				if b.op == OCall {
					// A last part that stays as it is.
					parts = b.a[len(b.a)-1:]
					if s, ok := parts[0].str(); !ok || path.Clean("/"+s) != "/"+s {
						parts = nil
					}
				}
				for _, p := range parts {
					if s, ok := p.str(); ok {
						known += len(s)
					}
				}
				if c <= int64(known) {
					return False
				}
			}
		}
		return in.ToBDD(in.withFact(in.intern(&Term{op: OAtomLt, a: []*Term{bx, in.Int(c)}})))
	}
	if n, ok := x.int(); ok {
		// n < by+oy  <=>  !(by < n-oy+1)
		return in.Not(in.Lt(by, in.Int(n-oy+1)))
	}
	if isIntTerm(x) || isIntTerm(y) || ox != 0 || oy != 0 {
		if bx == by {
			if ox < oy {
				return True
			}
			return False
		}
		d := ox - oy
		l := bx
		if d != 0 {
			l = in.Bin(token.ADD, bx, in.Int(d))
		}
		return in.ToBDD(in.withFact(in.intern(&Term{op: OAtomLt, a: []*Term{l, by}})))
	}
	return in.ToBDD(in.withFact(in.intern(&Term{op: OAtomLt, a: []*Term{x, y}})))
}

func isIntTerm(t *Term) bool {
	if t.op == OIdx || (t.op == OCall && t.s == "len") {
		return true
	}
	if t.ty != nil {
		if b, ok := t.ty.Underlying().(*types.Basic); ok {
			return b.Info()&types.IsInteger != 0
		}
	}
	return false
}

func nonNegative(t *Term) bool {
	return t.op == OIdx || (t.op == OCall && t.s == "len")
}

// IsType is the guard under which the interface value x has type t.
func (in *In) IsType(x *Term, t types.Type) BDD {
	switch x.op {
	case ONil:
		return False
	case OIface:
		if types.IsInterface(t) {
			if types.AssignableTo(x.typ, t) {
				return True
			}
			return False
		}
		if types.Identical(x.typ, t) {
			return True
		}
		return False
	case OGamma:
		r := False
		for i, z := range x.a {
			r = in.Or(r, in.And(x.g[i], in.IsType(z, t)))
		}
		return r
	}
	return in.ToBDD(in.withFact(in.intern(&Term{op: OAtomIs, typ: t, a: []*Term{x}})))
}

// Assert is x.(t).
func (in *In) Assert(x *Term, t types.Type) *Term {
	switch x.op {
	case OIface:
		if types.IsInterface(t) {
			return x
		}
		if types.Identical(x.typ, t) {
			return x.a[0]
		}
		return in.Zero(t)
	case ONil:
		return in.Zero(t)
	case OGamma:
		return in.mapGamma(x, func(y *Term) *Term { return in.Assert(y, t) })
	}
	if types.IsInterface(t) {
		return x
	}
	return in.withFact(in.intern(&Term{op: OAssert, typ: t, a: []*Term{x}, ty: t}))
}

// strengthen adds to g what follows from it about the atoms in f.
func (in *In) strengthen(g, f BDD) BDD {
	for _, l := range in.active {
		if l.cond != True && l.cond != 0 {
			g = in.And(g, l.cond)
		}
	}
	for _, v := range in.Support(g) {
		if t := in.atoms[v]; t.op == OAtomEx {
			if c, ok := t.loop.exits[t.s]; ok && in.Implies(g, in.Var(v)) {
				g = in.And(g, c)
			}
		}
	}
	for _, v := range in.Support(f) {
		t := in.atoms[v]
		lit := in.Var(v)
		switch t.op {
		case OAtomEq:
			x := t.a[0]
			for _, o := range in.eqIdx[x] {
				if o == t {
					continue
				}
				var other *Term
				if o.a[0] == x {
					other = o.a[1]
				} else {
					other = o.a[0]
				}
				// x equals other: then it differs from the constant t.a[1].
				if in.Implies(g, in.atom(o)) && in.distinct(other, t.a[1]) {
					g = in.And(g, in.Not(lit))
				}
			}
			if t.a[1].isNil() {
				for _, o := range in.isIdx[x] {
					if in.Implies(g, in.atom(o)) {
						g = in.And(g, in.Not(lit))
					}
				}
			}
			// A length is positive.
			for _, o := range in.ltIdx[x] {
				if c, ok := t.a[1].int(); ok {
					if n, ok := o.a[1].int(); ok {
						if c >= n && in.Implies(g, in.atom(o)) || c < n && in.Implies(g, in.Not(in.atom(o))) {
							g = in.And(g, in.Not(lit))
						}
					}
				}
			}
		case OAtomIs:
			x := t.a[0]
			for _, o := range in.isIdx[x] {
				if o == t {
					continue
				}
				ci, co := types.IsInterface(t.typ), types.IsInterface(o.typ)
				oa := in.atom(o)
				switch {
				case !co && !ci:
					if in.Implies(g, oa) {
						g = in.And(g, in.Not(lit))
					}
				case !co && ci:
					if in.Implies(g, oa) {
						if types.AssignableTo(o.typ, t.typ) {
							g = in.And(g, lit)
						} else {
							g = in.And(g, in.Not(lit))
						}
					}
				}
			}
			for _, o := range in.eqIdx[x] {
				if o.a[1].isNil() && in.Implies(g, in.atom(o)) {
					g = in.And(g, in.Not(lit))
				}
			}
		case OAtomLt:
			x := t.a[0]
			if n, ok := t.a[1].int(); ok {
				for _, o := range in.ltIdx[x] {
					m, ok := o.a[1].int()
					if !ok || o == t {
						continue
					}
					oa := in.atom(o)
					if m < n && in.Implies(g, oa) {
						g = in.And(g, lit)
					}
					if m > n && in.Implies(g, in.Not(oa)) {
						g = in.And(g, in.Not(lit))
					}
				}
				for _, o := range in.eqIdx[x] {
					if m, ok := o.a[1].int(); ok && in.Implies(g, in.atom(o)) {
						if m < n {
							g = in.And(g, lit)
						} else {
							g = in.And(g, in.Not(lit))
						}
					}
				}
			}
		}
	}
	return g
}

// distinct reports whether x and y can't be equal.
func (in *In) distinct(x, y *Term) bool {
	if x == y {
		return false
	}
	if x.isConst() && y.isConst() {
		return in.Eq(x, y) == False
	}
	if x.isNil() && in.nonNil(y) || y.isNil() && in.nonNil(x) {
		return true
	}
	return in.nonNil(x) && in.nonNil(y) && x.op == ORoot && y.op == ORoot
}

// decide simplifies f where g holds.
func (in *In) decide(g, f BDD) BDD {
	if f == True || f == False || g == False {
		return f
	}
	g2 := in.strengthen(g, f)
	if in.And(g2, f) == False {
		return False
	}
	if in.Implies(g2, f) {
		return True
	}
	return f
}

// Simp is t where g holds.
func (in *In) Simp(t *Term, g BDD) *Term {
	if t == nil {
		return nil
	}
	switch t.op {
	case OGamma:
		var gs []BDD
		var ts []*Term
		for i, x := range t.a {
			c := in.decide(g, t.g[i])
			if c == False {
				continue
			}
			if c == True {
				return in.Simp(x, g)
			}
			gs = append(gs, t.g[i])
			ts = append(ts, in.Simp(x, in.And(g, t.g[i])))
		}
		if len(ts) == 1 {
			return ts[0]
		}
		return in.Gamma(gs, ts)
	case OBool:
		return in.Bool(in.decide(g, t.b))
	case OIface:
		y := in.Simp(t.a[0], g)
		if y != t.a[0] {
			return in.Iface(t.typ, y)
		}
	case OStruct:
		changed := false
		vals := make([]*Term, len(t.a)-1)
		for i := range vals {
			vals[i] = in.Simp(t.a[i+1], g)
			if vals[i] != t.a[i+1] {
				changed = true
			}
		}
		b := in.Simp(t.a[0], g)
		if changed || b != t.a[0] {
			return in.normStruct(b, t.names, vals)
		}
	case OList, OAppend, OTuple:
		changed := false
		vals := make([]*Term, len(t.a))
		for i := range vals {
			vals[i] = in.Simp(t.a[i], g)
			if vals[i] != t.a[i] {
				changed = true
			}
		}
		if changed {
			if t.op == OAppend {
				return in.Append(vals[0], in.List(vals[1:]...))
			}
			return in.intern(&Term{op: t.op, a: vals, ty: t.ty})
		}
	}
	return t
}
