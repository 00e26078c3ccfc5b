package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp/syntax"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about indices that are out of range and recursion that does not end.

// prover decides inequalities between lengths and indices.
type prover struct {
	*Run
	assume map[*Term]int64 // lower bounds of the lengths of variables of loops, while they are shown by induction
	known  func(x *Term) (int64, bool)
	depth  int
	dom    map[*Loop]*Term
}

// size is the length of x, where variables of loops whose length stays the same have their initial length.
func (p *prover) size(x *Term) *Term {
	p.depth++
	defer func() { p.depth-- }()
	if p.depth > 30 {
		return p.Len(x)
	}
	switch x.op {
	case OGamma:
		return p.mapGamma(x, p.size)
	case OUpd, OSorted, OReversed, OIface:
		return p.size(x.a[0])
	case OAppend:
		return p.In.Bin(token.ADD, p.size(x.a[0]), p.Int(int64(len(x.a)-1)))
	case OSpread:
		return p.In.Bin(token.ADD, p.size(x.a[0]), p.size(x.a[1]))
	case OLoopVar:
		lv := x.loop.vars[x.s]
		if lv == nil || lv.init == nil || lv.step == nil {
			break
		}
		if _, ok := p.assume[x]; ok {
			break
		}
		p.assume[x] = 0
		same := p.same(p.size(lv.step), p.Len(x), True)
		delete(p.assume, x)
		if same {
			return p.size(lv.init)
		}
	}
	return p.Len(x)
}

// least is a lower bound of the length of x where g holds.
func (p *prover) least(x *Term, g BDD) int64 {
	p.depth++
	defer func() { p.depth-- }()
	if p.depth > 30 {
		return 0
	}
	if n, ok := p.known(x); ok {
		return n
	}
	if n, ok := p.Len(x).int(); ok {
		return n
	}
	up := func(n int64) int64 {
		if n == 0 && p.decide(g, p.Empty(x)) == False {
			return 1
		}
		return n
	}
	switch x.op {
	case OGamma:
		m := int64(-1)
		for i, y := range x.a {
			h := p.And(g, x.g[i])
			if p.decide(g, x.g[i]) == False {
				continue
			}
			if n := p.least(y, h); m < 0 || n < m {
				m = n
			}
		}
		return max(m, 0)
	case OUpd, OSorted, OReversed, OIface:
		return up(p.least(x.a[0], g))
	case OAppend:
		return p.least(x.a[0], g) + int64(len(x.a)-1)
	case OSpread:
		return p.least(x.a[0], g) + p.least(x.a[1], g)
	case OConcat:
		n := int64(0)
		for _, y := range x.a {
			n += p.least(y, g)
		}
		return up(n)
	case OSlice:
		lo := int64(0)
		if x.a[1] != nil {
			n, ok := x.a[1].int()
			if !ok {
				return up(0)
			}
			lo = n
		}
		if x.a[2] == nil {
			return up(max(0, p.least(x.a[0], g)-lo))
		}
	case OLoopVar:
		if n, ok := p.assume[x]; ok {
			return n
		}
		lv := x.loop.vars[x.s]
		if lv == nil || lv.init == nil || lv.step == nil {
			return up(0)
		}
		n := p.least(lv.init, True)
		if n > 0 {
			p.assume[x] = n
			if p.least(lv.step, True) < n {
				n = 0
			}
			delete(p.assume, x)
		}
		return up(n)
	case OCall:
		if x.s == "strings.Split" {
			return 1
		}
	case OElem:
		// A match of a regular expression.
		if c := x.a[0]; c.op == OCall && strings.HasPrefix(c.s, "(*regexp.Regexp).FindAllString") && len(c.a) > 1 && c.a[0].op == OCall && strings.HasPrefix(c.a[0].s, "regexp.") {
			if s, ok := c.a[0].a[0].str(); ok {
				if re, err := syntax.Parse(s, syntax.Perl); err == nil {
					return shortest(re)
				}
			}
		}
	}
	return up(0)
}

// low is a lower bound of the number t where g holds.
func (p *prover) low(t *Term, g BDD) (int64, bool) {
	p.depth++
	defer func() { p.depth-- }()
	if n, ok := t.int(); ok {
		return n, true
	}
	if p.depth > 30 {
		return 0, false
	}
	if n, ok := p.assume[t]; ok {
		return n, true
	}
	switch t.op {
	case OIdx:
		return 0, true
	case OGamma:
		m, some := int64(0), false
		for i, y := range t.a {
			h := p.And(g, t.g[i])
			if p.decide(g, t.g[i]) == False {
				continue
			}
			n, ok := p.low(y, h)
			if !ok {
				return 0, false
			}
			if !some || n < m {
				m, some = n, true
			}
		}
		return m, some
	case OBin:
		if t.s != "+" {
			break
		}
		a, ok := p.low(t.a[0], g)
		b, ok2 := p.low(t.a[1], g)
		return a + b, ok && ok2
	case OCall:
		switch t.s {
		case "len":
			return p.least(t.a[0], g), true
		case "strings.Index", "strings.LastIndex", "strings.IndexByte", "strings.LastIndexByte", "strings.IndexRune", "strings.IndexAny", "strings.LastIndexAny", "strings.IndexFunc", "strings.LastIndexFunc":
			return -1, true
		}
	case OLoopVar:
		lv := t.loop.vars[t.s]
		if lv == nil || lv.init == nil || lv.step == nil {
			break
		}
		n, ok := p.low(lv.init, True)
		if !ok {
			break
		}
		p.assume[t] = n
		m, ok := p.low(lv.step, True)
		delete(p.assume, t)
		if ok && m >= n {
			return n, true
		}
	}
	for _, n := range []int64{1, 0} {
		if p.decide(g, p.Lt(t, p.Int(n))) == False {
			return n, true
		}
	}
	return 0, false
}

// shortest is the length of the shortest match.
func shortest(re *syntax.Regexp) int64 {
	switch re.Op {
	case syntax.OpLiteral:
		return int64(len(re.Rune))
	case syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return 1
	case syntax.OpCapture, syntax.OpPlus:
		return shortest(re.Sub[0])
	case syntax.OpRepeat:
		return int64(re.Min) * shortest(re.Sub[0])
	case syntax.OpConcat:
		n := int64(0)
		for _, s := range re.Sub {
			n += shortest(s)
		}
		return n
	case syntax.OpAlternate:
		n := shortest(re.Sub[0])
		for _, s := range re.Sub[1:] {
			n = min(n, shortest(s))
		}
		return n
	}
	return 0
}

// atMost: a + d <= b where g holds; ofB is what b is the length of, if it is one.
func (p *prover) atMost(a, b, ofB *Term, d int64, g BDD) bool {
	if p.decide(g, True) == False || g == False || p.strengthen(g, g) == False {
		return true
	}
	if a.op == OGamma {
		for i, x := range a.a {
			if h := p.And(g, a.g[i]); h != False && !p.atMost(x, b, ofB, d, h) {
				return false
			}
		}
		return true
	}
	if ofB != nil && ofB.op == OGamma {
		for i, x := range ofB.a {
			if h := p.And(g, ofB.g[i]); h != False && !p.atMost(p.Simp(a, h), p.Len(x), x, d, h) {
				return false
			}
		}
		return true
	}
	if b.op == OGamma {
		for i, x := range b.a {
			if h := p.And(g, b.g[i]); h != False && !p.atMost(p.Simp(a, h), x, nil, d, h) {
				return false
			}
		}
		return true
	}
	ad := p.In.Bin(token.ADD, a, p.Int(d))
	if p.decide(g, p.Lt(b, ad)) == False {
		return true
	}
	for k := d - 1; k <= d+1; k++ {
		if p.decide(g, p.Lt(p.In.Bin(token.ADD, a, p.Int(k)), b)) == True {
			return true
		}
	}
	if n, ok := a.int(); ok {
		if m, ok := p.low(b, g); ok && n+d <= m {
			return true
		}
	}
	if a.op == OBin && a.s == "-" {
		if n, ok := p.low(a.a[1], g); ok && p.atMost(a.a[0], b, ofB, d-n, g) {
			return true
		}
	}
	split := func(t *Term) (*Term, int64) {
		if n, ok := t.int(); ok {
			return nil, n
		}
		if t.op == OBin && t.s == "+" {
			if n, ok := t.a[1].int(); ok {
				return t.a[0], n
			}
		}
		return t, 0
	}
	ax, ac := split(a)
	bx, bc := split(b)
	if ax == bx {
		return ac+d <= bc
	}
	if ax == nil && ofB != nil && bc == 0 && ac+d <= p.least(ofB, g) {
		return true
	}
	if ax != nil && ax.op == OCall && ax.s == "len" && bx == nil {
		return false
	}
	if ax != nil && ax.op == OCall && (ax.s == "strings.LastIndex" || ax.s == "strings.Index") && bc == 0 && ofB == ax.a[0] && ac+d <= p.least(ax.a[1], g) {
		return true
	}
	// The index of a loop over all elements.
	if ofB != nil && ax != nil && ax.op == OIdx && p.dom[ax.loop] != nil && ac+d <= 1 && p.same(p.size(p.dom[ax.loop]), p.size(ofB), g) {
		return true
	}
	if ofB != nil {
		if n := p.size(ofB); n != b {
			return p.atMost(a, n, nil, d, g)
		}
	}
	if n := p.norm(a); n != a {
		return p.atMost(n, b, ofB, d, g)
	}
	if ax == nil && bx != nil && nonNegative(bx) && ac+d <= bc {
		return true
	}
	// 0 <= a length minus something.
	if ax == nil && bx != nil && bx.op == OCall && bx.s == "len" {
		return ac+d <= p.least(bx.a[0], g)+bc
	}
	return false
}

// norm replaces lengths by lengths that are known to be the same.
func (p *prover) norm(t *Term) *Term {
	if t.op == OCall && t.s == "len" {
		return p.size(t.a[0])
	}
	if t.op == OBin && t.s == "+" {
		return p.In.Bin(token.ADD, p.norm(t.a[0]), t.a[1])
	}
	return t
}

func newProver(r *Run) *prover {
	return &prover{Run: r, assume: map[*Term]int64{}, known: func(x *Term) (int64, bool) {
		if r.Show(x) == "global go/types.Typ" {
			return int64(len(types.Typ)), true
		}
		// The name of a function has a dot after its package, which is the last part of the path.
		if sp := "strings.Split"; x.op == OCall && x.s == sp && len(x.a) == 2 && x.a[1] == r.Str(".") && x.a[0].op == OElem && x.a[0].a[0].op == OCall && x.a[0].a[0].s == sp && x.a[0].a[0].a[1] == r.Str("/") {
			if l := x.a[0].a[0]; r.same(x.a[0].a[1], r.Bin(token.ADD, r.Len(l), r.Int(-1)), True) {
				return 2, true
			}
		}
		return 0, false
	}}
}

func (p *prover) inBounds(b *bound) bool {
	save := p.active
	p.active, p.dom = b.active, b.dom
	defer func() { p.active = save }()
	zero := p.Int(0)
	if p.strengthen(b.guard, b.guard) == False {
		return true
	}
	switch b.kind {
	case "assertion":
		return p.decide(b.guard, p.IsType(b.x, b.typ)) == True
	case "index":
		return p.atMost(zero, b.i, nil, 0, b.guard) && p.atMost(b.i, p.Len(b.x), b.x, 1, b.guard)
	}
	lo, hi, of := b.lo, b.hi, (*Term)(nil)
	if lo == nil {
		lo = zero
	}
	if hi == nil {
		hi, of = p.Len(b.x), b.x
	}
	return p.atMost(zero, lo, nil, 0, b.guard) && p.atMost(lo, hi, of, 0, b.guard) && (b.hi == nil || p.atMost(hi, p.Len(b.x), b.x, 0, b.guard))
}

// sites are the operations of a function that can fail at run time for the wrong index or type.
func sites(f *ssa.Function) (out []ssa.Instruction) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.IndexAddr:
				if _, ok := x.X.(*ssa.Alloc); ok {
					continue // a literal
				}
			case *ssa.Index:
			case *ssa.Slice:
				if _, ok := x.X.(*ssa.Alloc); ok {
					continue
				}
			case *ssa.Lookup:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					continue
				}
			case *ssa.TypeAssert:
				if x.CommaOk {
					continue
				}
			default:
				continue
			}
			out = append(out, in)
		}
	}
	return
}

// small functions do one thing, with other small functions only.
func small(f *ssa.Function, nest int) bool {
	if nest > 4 || len(f.Blocks) != 1 || len(f.AnonFuncs) > 0 {
		return false
	}
	for _, in := range f.Blocks[0].Instrs {
		if ci, ok := in.(ssa.CallInstruction); ok {
			g := ci.Common().StaticCallee()
			if _, ok := ci.Common().Value.(*ssa.Builtin); !ok && (g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "regexp" && !small(g, nest+1)) {
				return false
			}
		}
	}
	return true
}

// ranged: in indexes what a loop ranges over with the index of the loop.
func ranged(in ssa.Instruction) bool {
	var x, i ssa.Value
	switch in := in.(type) {
	case *ssa.IndexAddr:
		x, i = in.X, in.Index
	case *ssa.Index:
		x, i = in.X, in.Index
	default:
		return false
	}
	// i = phi(-1, i) + 1
	add, ok := i.(*ssa.BinOp)
	if !ok || add.Op != token.ADD || !isConst(add.Y, 1) {
		return false
	}
	phi, ok := add.X.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, e := range phi.Edges {
		if e != add && !isConst(e, -1) {
			return false
		}
	}
	// if i < len(x) goto in
	hd := add.Block()
	br, ok := hd.Instrs[len(hd.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	lt, ok := br.Cond.(*ssa.BinOp)
	if !ok || lt.Op != token.LSS || lt.X != add {
		return false
	}
	ln, ok := lt.Y.(*ssa.Call)
	if !ok || len(ln.Call.Args) != 1 || ln.Call.Args[0] != x {
		return false
	}
	if b, ok := ln.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
		return false
	}
	body := hd.Succs[0]
	return len(body.Preds) == 1 && body.Dominates(in.Block())
}

// compared: in is an element that a function compares for the sorting of the list.
func compared(in ssa.Instruction) bool {
	ix, ok := in.(*ssa.IndexAddr)
	g := in.Parent()
	if !ok || g.Parent() == nil || len(g.Params) != 2 || ix.Index != g.Params[0] && ix.Index != g.Params[1] {
		return false
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Store); ok {
				return false
			}
		}
	}
	use, k := onlyUse(g, nil)
	if use == nil || k != 1 {
		return false
	}
	h := use.Call.StaticCallee()
	if h == nil || h.Pkg == nil || h.Pkg.Pkg.Path() != "sort" || h.Name() != "Slice" && h.Name() != "SliceStable" {
		return false
	}
	var where func(v ssa.Value) string
	where = func(v ssa.Value) string {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			return where(x.X)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				return "*" + where(x.X)
			}
		case *ssa.FieldAddr:
			return fmt.Sprintf("%s.%d", where(x.X), x.Field)
		case *ssa.FreeVar:
			for i, o := range g.FreeVars {
				if o == x {
					for _, b := range g.Parent().Blocks {
						for _, in := range b.Instrs {
							if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == g {
								return where(mc.Bindings[i])
							}
						}
					}
				}
			}
		}
		return fmt.Sprintf("%p", v)
	}
	return where(ix.X) == where(use.Call.Args[0])
}

func isConst(v ssa.Value, n int64) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && types.Identical(k.Type().Underlying(), types.Typ[types.Int]) && k.Int64() == n
}

// onlyUse is the call that g is for, and the argument that it is.
func onlyUse(g *ssa.Function, all map[*ssa.Function]bool) (use *ssa.Call, k int) {
	n := 0
	in := all
	if g.Parent() != nil {
		in = map[*ssa.Function]bool{g.Parent(): true}
	}
	var blocks []*ssa.BasicBlock
	for f := range in {
		blocks = append(blocks, f.Blocks...)
	}
	for _, b := range blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.MakeClosure); ok {
				continue
			}
			for _, o := range in.Operands(nil) {
				v := *o
				if mc, ok := v.(*ssa.MakeClosure); ok {
					v = mc.Fn
				}
				if v != g {
					continue
				}
				n++
				use, _ = in.(*ssa.Call)
				if use == nil {
					return nil, 0
				}
				for i, a := range use.Call.Args {
					if a == *o {
						k = i
					}
				}
			}
		}
	}
	if n != 1 {
		return nil, 0
	}
	return use, k
}

// runsNow: the function is called where it is written.
func runsNow(g *ssa.Function) bool {
	if g.Parent() == nil {
		return false
	}
	use, _ := onlyUse(g, nil)
	return use != nil && use.Call.StaticCallee() == g
}

// user is the function that g is for, and the parameter that it is given as.
func user(g *ssa.Function, all map[*ssa.Function]bool) (*ssa.Function, int) {
	use, k := onlyUse(g, all)
	if use == nil {
		return nil, 0
	}
	h := use.Call.StaticCallee()
	if h == nil || h == g || len(h.Blocks) == 0 || h.Signature.Recv() != nil || h.Pkg == nil || h.TypeParams().Len() > 0 {
		return nil, 0
	}
	return h, k
}

// siteKey identifies an operation without its line.
func siteKey(in ssa.Instruction) string {
	f := in.Parent()
	kind := func(in ssa.Instruction) string {
		switch in.(type) {
		case *ssa.Slice:
			return "slice"
		case *ssa.TypeAssert:
			return "assertion"
		}
		return "index"
	}
	n := 0
	for _, o := range sites(f) {
		if kind(o) == kind(in) {
			n++
		}
		if o == in {
			break
		}
	}
	return fmt.Sprintf("%s: %s %d", fnName(f), kind(in), n)
}

// bounds decides that no function fails for an index or a type, whatever it is called with: every function is analysed with
// arbitrary arguments, and what it calls of the repository is arbitrary in turn. Where arbitrary arguments are too many,
// e.g. for the last element of a list, all calls of it in the repository have to be right.
func (c *Ctx) bounds() {
	all := map[*ssa.Function]bool{}
	var fns []*ssa.Function
	for _, p := range c.p.Pkgs {
		pk := c.p.Prog.Package(p.Types)
		if pk == nil || excluded(p.PkgPath) {
			continue
		}
		for _, f := range c.p.funcsOf(pk) {
			if f.Synthetic != "" || all[f] {
				continue
			}
			all[f] = true
			if f.Parent() == nil && f.TypeParams().Len() == 0 {
				fns = append(fns, f)
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	// Functions that make the values that a method is for.
	makers := map[string]*ssa.Function{}
	for _, f := range fns {
		if sg := f.Signature; sg.Recv() == nil && sg.Results().Len() == 1 {
			if n, ok := sg.Results().At(0).Type().(*types.Named); ok && n.Obj().Pkg() == f.Pkg.Pkg {
				makers[n.String()] = f
			}
		}
	}
	type verdict struct {
		text, root string
		later      bool // a function that runs later fails
	}
	seen := map[ssa.Instruction]int{}
	inline := map[*ssa.Function]bool{}
	collect := func(r *Run, count map[ssa.Instruction]int, fail func(in ssa.Instruction, text string)) {
		pr := newProver(r)
		for _, b := range r.bounds {
			if !all[b.fn] {
				continue
			}
			count[b.in]++
			if !pr.inBounds(b) {
				t := r.Show(b.x)
				switch {
				case b.kind == "assertion":
					t += " is not always " + short(b.typ.String())
				case b.i != nil:
					t += "[" + r.Show(b.i) + "] may not exist"
				default:
					lo, hi := "", ""
					if b.lo != nil {
						lo = r.Show(b.lo)
					}
					if b.hi != nil {
						hi = r.Show(b.hi)
					}
					t += "[" + lo + ":" + hi + "] may not exist"
				}
				fail(b.in, t+", where "+r.ShowG(b.guard))
			}
		}
		r.bounds = nil
	}
	// The functions that the parsing of a handler gives to others get what those make.
	inWorld, failed := map[ssa.Instruction]int{}, map[ssa.Instruction]verdict{}
	w := &Ctx{p: c.p, id: c.id, tier: c.tier, kinds: map[string]int{}, fns: c.fns}
	w.watch = func(r *Run) {
		collect(r, inWorld, func(in ssa.Instruction, text string) { failed[in] = verdict{text: text, root: "a handler"} })
	}
	w.contextMethods(false)
	w.contextMethods(true)
	c.runs += w.runs
	// simple functions have loops over all elements only.
	simple := func(f *ssa.Function) bool {
		ss := sites(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() != nil && inline[ci.Common().StaticCallee()] {
					return false
				}
			}
		}
		for _, in := range ss {
			if !ranged(in) && !compared(in) {
				return false
			}
		}
		for _, in := range ss {
			seen[in]++
		}
		return true
	}
	// known are the verdicts of the programs, for functions that are too large for arbitrary arguments.
	more := false
	known := func(f *ssa.Function) map[ssa.Instruction]verdict {
		if !more {
			more = true
			n := w.runs
			w.parametersRule()
			w.bodiesRule()
			w.namesRule()
			c.runs += w.runs - n
		}
		bad := map[ssa.Instruction]verdict{}
		done := map[*ssa.Function]bool{}
		var visit func(f *ssa.Function, nest int)
		visit = func(f *ssa.Function, nest int) {
			if done[f] {
				return
			}
			done[f] = true
			for _, in := range sites(f) {
				seen[in]++
				if v, ok := failed[in]; ok {
					bad[in] = v
				} else if (inWorld[in] == 0 || nest > 1) && !ranged(in) && !compared(in) {
					bad[in] = verdict{text: "it is not known what it is called with", root: fnName(f)}
				}
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() != nil && inline[ci.Common().StaticCallee()] {
						visit(ci.Common().StaticCallee(), nest+1)
					}
				}
			}
		}
		visit(f, 0)
		return bad
	}
	// run analyses one function; there is no result if it is too large with the functions that it makes.
	run := func(f *ssa.Function, made, deep bool) (bad map[ssa.Instruction]verdict) {
		bad = map[ssa.Instruction]verdict{}
		defer func() {
			if e := recover(); e != nil {
				if u, ok := e.(undecided); !ok || !strings.HasSuffix(u.msg, "too large") {
					panic(e)
				}
				bad = nil
				if !deep {
					bad = known(f)
				}
			}
		}()
		r := c.begin(nil)
		r.bddMgr.limit = 500000
		r.initial("")
		for _, g := range fns {
			if g != f && !inline[g] && !small(g, 0) {
				r.opaque[fnName(g)] = true
			}
		}
		if !deep {
			for g := range all {
				if g != f && g.Parent() != nil && g.TypeParams().Len() == 0 {
					r.opaque[fnName(g)] = true
				}
			}
		}
		arg := func(n string, t types.Type) *Term { return r.RootT(n, t) }
		var args []*Term
		for i, p := range f.Params {
			if mk := makers[p.Type().String()]; made && i == 0 && mk != nil && mk != f {
				var as []*Term
				for _, q := range mk.Params {
					as = append(as, arg(q.Name(), q.Type()))
				}
				r.eval(mk, as)
				args = append(args, r.Simp(r.res[0], r.ret))
				continue
			}
			args = append(args, arg(p.Name(), p.Type()))
		}
		var free []*Term
		for _, v := range f.FreeVars {
			free = append(free, arg(v.Name(), v.Type()))
		}
		r.wantIdx = true
		r.bounds, r.closures = nil, nil
		if len(free) > 0 {
			r.applyTerm(r.intern(&Term{op: OClosure, fn: f, a: free, ty: f.Signature}), args...)
		} else {
			r.eval(f, args)
		}
		collect(r, seen, func(in ssa.Instruction, text string) { bad[in] = verdict{text: text, root: fnName(f)} })
		// Functions that it makes may run later, with anything.
		done := map[*Term]bool{}
		for i := 0; deep && i < len(r.closures) && i < 400; i++ {
			cl := r.closures[i]
			if done[cl] || runsNow(cl.fn) {
				continue
			}
			done[cl] = true
			var as []*Term
			for _, p := range cl.fn.Params {
				as = append(as, arg(fmt.Sprintf("%s of function %d", p.Name(), i), p.Type()))
			}
			r.applyTerm(cl, as...)
		}
		collect(r, seen, func(in ssa.Instruction, text string) { bad[in] = verdict{text, fnName(f), true} })
		return bad
	}
	callers, valued := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for f := range all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok {
					callee = ci.Common().Value
					if g := ci.Common().StaticCallee(); g != nil && g != f {
						callers[g] = true
					}
				}
				for _, o := range in.Operands(nil) {
					if g, ok := (*o).(*ssa.Function); ok && *o != callee {
						valued[g] = true
					}
				}
			}
		}
	}
	// called analyses a function that another calls for what it finds.
	called := func(g, h *ssa.Function, k int) map[ssa.Instruction]verdict {
		bad := map[ssa.Instruction]verdict{}
		r := c.begin(nil)
		r.initial("")
		for _, x := range fns {
			if x != g && x != h && !inline[x] && !small(x, 0) {
				r.opaque[fnName(x)] = true
			}
		}
		r.hook = func(cl *Call) (*Term, bool) {
			if cl.Name != "(*regexp.Regexp).ReplaceAllStringFunc" || cl.Raw[2].op != OClosure {
				return nil, false
			}
			as := cl.resolved(r.Interp)
			str := types.Typ[types.String]
			all := r.intern(&Term{op: OCall, s: "(*regexp.Regexp).FindAllString", a: []*Term{as[0], as[1], r.Int(-1)}, ty: types.NewSlice(str)})
			r.apply(cl.frame, cl.In, cl.Raw[2], []*Term{r.Elem(all, r.RootT("any", types.Typ[types.Int]), str)}, nil, cl.St.clone(), cl.G)
			return r.RootT("replaced", str), true
		}
		var args []*Term
		for _, p := range h.Params {
			args = append(args, r.RootT(p.Name(), p.Type()))
		}
		var free []*Term
		for _, v := range g.FreeVars {
			free = append(free, r.RootT(v.Name(), v.Type()))
		}
		args[k] = r.intern(&Term{op: OClosure, fn: g, a: free, ty: g.Signature})
		r.wantIdx = true
		r.bounds, r.closures = nil, nil
		r.eval(h, args)
		count := map[ssa.Instruction]int{}
		collect(r, count, func(in ssa.Instruction, text string) { bad[in] = verdict{text: text, root: fnName(h)} })
		for _, in := range sites(g) {
			if count[in] == 0 {
				bad[in] = verdict{text: "it is not known what it is called with", root: fnName(h)}
			}
			seen[in]++
		}
		return bad
	}
	// family analyses a function and those within it one by one.
	var family func(f *ssa.Function, made bool) map[ssa.Instruction]verdict
	family = func(f *ssa.Function, made bool) map[ssa.Instruction]verdict {
		b := map[ssa.Instruction]verdict{}
		if !simple(f) {
			b = run(f, made, false)
		}
		for _, g := range f.AnonFuncs {
			fb := family(g, made)
			if h, k := user(g, all); len(fb) > 0 && h != nil {
				fb = called(g, h, k)
			}
			for in, v := range fb {
				if in.Parent() == g && inWorld[in] > 0 {
					seen[in] += inWorld[in]
					delete(b, in)
					v, ok := failed[in]
					if !ok {
						continue
					}
					b[in] = v
					continue
				}
				v.later = !runsNow(g)
				b[in] = v
			}
		}
		return b
	}
	bad := map[ssa.Instruction]verdict{}
	level := map[*ssa.Function]int{}
	for again := true; again; {
		again = false
		bad = map[ssa.Instruction]verdict{}
		for _, f := range fns {
			if inline[f] {
				continue
			}
			c.scenario("any arguments: "+fnName(f), func() {
				b := family(f, false)
				if h, k := user(f, all); len(b) > 0 && valued[f] && h != nil {
					b = called(f, h, k)
				}
				if len(b) > 0 {
					if d := run(f, false, true); d != nil {
						b = d
					}
				}
				depth := 1
				if len(b) > 0 && len(f.Params) > 0 && makers[f.Params[0].Type().String()] != nil {
					if d := run(f, true, true); d != nil {
						b = d
					}
					depth = 3
				}
				for in, v := range b {
					depth = max(depth, 1+level[in.Parent()])
					if v.later {
						depth = 3
					}
				}
				if len(b) > 0 && callers[f] && !valued[f] && !token.IsExported(f.Name()) && depth <= 2 {
					inline[f], again = true, true
					level[f] = depth

					return
				}
				for in, v := range b {
					bad[in] = v
				}
			})
		}
	}
	var fs []*ssa.Function
	for f := range all {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for _, f := range fs {
		for _, in := range sites(f) {
			at := c.p.posAt(in.Pos())
			v, failed := bad[in]
			key := siteKey(in)
			if seen[in] == 0 && !failed {
				// It is in a branch that is never taken.
				continue
			}
			c.ok(!failed, "range: "+key, at, "%s (called from %s)", v.text, v.root)
		}
	}
}

func init() {
	register(&Rule{
		ID: "P18", Min: 50,
		What:      "modular abstract interpretation of every function with arbitrary arguments, and of the functions that it makes (and of its callers where it needs certain arguments): at every index, slice and type assertion the guards on the way imply that it succeeds; lengths in loops by induction",
		Assume:    []string{"the name of a function has a dot after the last slash (the runtime makes it so)", "a function that is called between a check and the use that it guards does not shorten the list in question"},
		NotCovers: "indices in other modules",
		Run:       func(c *Ctx) { c.bounds() },
	})
}
