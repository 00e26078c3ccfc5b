package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The value-flow analysis: an abstract interpreter over the SSA form. Every function is analysed once per context,
// all paths at once: values that meet are merged under the guards of their paths, and loops are analysed by one
// generic iteration over symbolic loop-carried values. Functions of the repository are analysed in the context of
// their caller, so that it does not matter how the code is divided into functions.

type State struct{ m map[*Term]*Term }

func newState() *State { return &State{m: map[*Term]*Term{}} }
func (s *State) clone() *State {
	n := &State{m: make(map[*Term]*Term, len(s.m)+8)}
	for k, v := range s.m {
		n.m[k] = v
	}
	return n
}

// Effect is a call that the analysis does not look into, or another event that is visible outside.
type Effect struct {
	Kind   string // call, dyn, opaque, exit, panic, store, go
	Name   string
	Args   []*Term // with everything allocated during the analysis resolved
	Raw    []*Term
	Guard  BDD
	Loops  []*Loop
	Seq    int
	Pos    token.Pos
	Fn     *ssa.Function
	Stack  []*ssa.Function
	St     *State
	Result *Term
	Defer  bool
	Sig    *types.Signature
}

type Call struct {
	Name  string
	Fn    *ssa.Function
	Args  []*Term
	Raw   []*Term
	St    *State
	G     BDD
	Sig   *types.Signature
	Pos   token.Pos
	In    ssa.CallInstruction
	frame *frame
}

type Interp struct {
	*In
	p          *Program
	opaque     map[string]bool
	hook       func(*Call) (*Term, bool)
	effects    []*Effect
	loops      map[string]*Loop
	ctxs       map[string]int
	fns        map[*ssa.Function]*fnInfo
	inits      map[*ssa.Package]*State
	initing    map[*ssa.Package]bool
	budget     int
	inlined    map[*ssa.Function]bool
	curFn      *frame
	loopN      int
	seq        int
	nblocks    int
	ncalls     int
	bounds     []*bound
	closures   []*Term // closures that were made
	wantIdx    bool
	onStore    func(fr *frame, p, v *Term, st *State, g BDD, pos token.Pos)
	havoc      func(e *Effect, st *State)
	extraPure  map[string]bool
	conc       []*Loop // loops of which iterations are analysed one by one
	mustEnd    bool    // that a function calls itself more often is not allowed
	recLimit   int     // nested activations of a function that are analysed, 1 if 0
	mapReverse bool    // range over known maps in reverse
}

// bound is an index or dereference that needs a guard.
type bound struct {
	kind      string
	fn        *ssa.Function
	in        ssa.Instruction
	x         *Term // what is indexed
	i, lo, hi *Term
	typ       types.Type
	guard     BDD
	active    []*Loop
	dom       map[*Loop]*Term
}

func newInterp(p *Program) *Interp {
	ip := &Interp{In: newIn(), p: p, opaque: map[string]bool{}, loops: map[string]*Loop{}, ctxs: map[string]int{},
		fns: map[*ssa.Function]*fnInfo{}, inits: map[*ssa.Package]*State{}, initing: map[*ssa.Package]bool{}, budget: 4000000, inlined: map[*ssa.Function]bool{}}
	ip.affix = func(x, p *Term, prefix bool) BDD {
		if prefix {
			return ip.hasPrefix(x, p)
		}
		return ip.hasSuffix(x, p)
	}
	return ip
}

type undecided struct{ msg string }

func short(s string) string { return strings.ReplaceAll(s, modulePath, "~") }

func fnName(fn *ssa.Function) string {
	if fn == nil {
		return ""
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	return short(fn.String())
}

type natLoop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *natLoop
	live   []ssa.Value // values of the loop that are used after it
}

type fnInfo struct {
	rpo   []*ssa.BasicBlock
	num   map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]*natLoop // by header
	inner map[*ssa.BasicBlock]*natLoop // innermost loop of a block
}

func (ip *Interp) info(fn *ssa.Function) *fnInfo {
	if fi, ok := ip.fns[fn]; ok {
		return fi
	}
	fi := &fnInfo{num: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*natLoop{}, inner: map[*ssa.BasicBlock]*natLoop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.num[post[i]] = len(fi.rpo)
		fi.rpo = append(fi.rpo, post[i])
	}
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					l = &natLoop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				var stack []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, pr := range x.Preds {
						if seen[pr] && !l.blocks[pr] {
							l.blocks[pr] = true
							stack = append(stack, pr)
						}
					}
				}
			}
		}
	}
	var all []*natLoop
	for _, l := range fi.loops {
		all = append(all, l)
	}
	sort.Slice(all, func(i, j int) bool { return len(all[i].blocks) > len(all[j].blocks) })
	for _, l := range all {
		for b := range l.blocks {
			if in := fi.inner[b]; in != nil && b == l.header {
				l.parent = in
			}
		}
		for b := range l.blocks {
			fi.inner[b] = l
		}
	}
	for _, l := range all {
		for _, b := range fi.rpo {
			if !l.blocks[b] {
				continue
			}
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || v.Referrers() == nil {
					continue
				}
				for _, r := range *v.Referrers() {
					if r.Block() != nil && !l.blocks[r.Block()] {
						l.live = append(l.live, v)
						break
					}
				}
			}
		}
	}
	ip.fns[fn] = fi
	return fi
}

type edge struct {
	from, to *ssa.BasicBlock
	g        BDD
	st       *State
	phis     map[*ssa.Phi]*Term
	live     map[ssa.Value]*Term
	normal   bool
}

type deferred struct {
	g    BDD
	in   *ssa.Defer
	args []*Term
	fn   *Term
}

type ret struct {
	g    BDD
	st   *State
	vals []*Term
}

type frame struct {
	fn     *ssa.Function
	fi     *fnInfo
	env    map[ssa.Value]*Term
	ctx    int
	parent *frame
	depth  int
	defers []deferred
	rets   []ret
	args   []*Term
}

func (ip *Interp) ctx(parent int, key string) int {
	k := strconv.Itoa(parent) + "/" + key
	if n, ok := ip.ctxs[k]; ok {
		return n
	}
	n := len(ip.ctxs) + 1
	ip.ctxs[k] = n
	return n
}

// content is the current content of a cell.
func (ip *Interp) content(st *State, cell *Term) *Term {
	if c, ok := st.m[cell]; ok {
		return c
	}
	if cell.op == OGlobal {
		return ip.globalValue(cell)
	}
	return cell
}

func (ip *Interp) globalTerm(g *ssa.Global) *Term {
	return ip.intern(&Term{op: OGlobal, s: short(g.String()), ty: g.Type()})
}

func (ip *Interp) findGlobal(t *Term) *ssa.Global {
	for _, pk := range ip.p.Prog.AllPackages() {
		if pk == nil || !inModule(pk.Pkg.Path()) {
			continue
		}
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok && short(g.String()) == t.s {
				return g
			}
		}
	}
	return nil
}

var errType = types.Universe.Lookup("error").Type()

func (ip *Interp) globalValue(t *Term) *Term {
	var elem types.Type
	if p, ok := t.ty.Underlying().(*types.Pointer); ok {
		elem = p.Elem()
	}
	if elem != nil && types.Identical(elem, errType) {
		n := t.s
		if n == "os.ErrNotExist" {
			n = "io/fs.ErrNotExist"
		}
		return ip.RootT("error "+n, elem)
	}
	if g := ip.findGlobal(t); g != nil && ip.p.constGlobal(g) {
		st := ip.initState(g.Pkg)
		if st != nil {
			if c, ok := st.m[t]; ok {
				return ip.resolve(c, st)
			}
			if !ip.initing[g.Pkg] {
				return ip.Zero(elem)
			}
		}
	}
	if v, ok := libraryVars[t.s]; ok {
		return ip.Str(v)
	}
	return ip.RootT("global "+t.s, elem)
}

// libraryVars are variables of libraries with their values.
var libraryVars = map[string]string{
	"github.com/rs/zerolog.LevelTraceValue": "trace", "github.com/rs/zerolog.LevelDebugValue": "debug",
	"github.com/rs/zerolog.LevelInfoValue": "info", "github.com/rs/zerolog.LevelWarnValue": "warn",
	"github.com/rs/zerolog.LevelErrorValue": "error", "github.com/rs/zerolog.LevelFatalValue": "fatal",
	"github.com/rs/zerolog.LevelPanicValue": "panic",
}

// initState runs the analysis over the initialisation of a package.
func (ip *Interp) initState(pk *ssa.Package) *State {
	if st, ok := ip.inits[pk]; ok {
		return st
	}
	ip.initing[pk] = true
	ip.inits[pk] = newState()
	saveFx, saveHook, saveOp, saveFact := ip.effects, ip.hook, ip.opaque, ip.fact
	saveActive := ip.active
	saveIdx := ip.wantIdx
	ip.hook, ip.opaque, ip.fact, ip.active, ip.wantIdx = nil, map[string]bool{}, nil, nil, false
	st0 := newState()
	if g, ok := pk.Members["init$guard"].(*ssa.Global); ok {
		st0.m[ip.globalTerm(g)] = ip.falseT
	}
	_, st, _ := ip.evalFunc(pk.Func("init"), nil, nil, st0, True, ip.ctx(0, "init "+pk.Pkg.Path()), nil)
	ip.effects, ip.hook, ip.opaque, ip.fact = saveFx, saveHook, saveOp, saveFact
	ip.active = saveActive
	ip.wantIdx = saveIdx
	ip.initing[pk] = false
	ip.inits[pk] = st
	return st
}

// constGlobal reports whether a global only gets its value at initialisation.
func (p *Program) constGlobal(g *ssa.Global) bool {
	if p.mutated == nil {
		p.mutated = map[*ssa.Global]bool{}
		for _, pkg := range p.Pkgs {
			for _, fn := range p.funcsOf(p.Prog.Package(pkg.Types)) {
				initFn := fn.Name() == "init" && fn.Synthetic != ""
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						p.mutations(in, initFn)
					}
				}
			}
		}
	}
	return !p.mutated[g]
}

func (p *Program) mutations(in ssa.Instruction, initFn bool) {
	fromGlobal := func(v ssa.Value) *ssa.Global {
		for {
			switch x := v.(type) {
			case *ssa.Global:
				return x
			case *ssa.UnOp:
				v = x.X
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.IndexAddr:
				v = x.X
			case *ssa.Slice:
				v = x.X
			default:
				return nil
			}
		}
	}
	mark := func(v ssa.Value) {
		if g := fromGlobal(v); g != nil && !initFn {
			p.mutated[g] = true
		}
	}
	switch x := in.(type) {
	case *ssa.Store:
		mark(x.Addr)
		// An address of the global that escapes.
		if g, ok := x.Val.(*ssa.Global); ok && !initFn {
			p.mutated[g] = true
		}
	case *ssa.MapUpdate:
		mark(x.Map)
	case ssa.CallInstruction:
		c := x.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "delete", "clear", "copy":
				mark(c.Args[0])
			}
			return
		}
		name := ""
		if f := c.StaticCallee(); f != nil {
			name = fnName(f)
		}
		for i, a := range c.Args {
			if g, ok := a.(*ssa.Global); ok {
				p.mutated[g] = true // the address is passed on
			}
			if i == 0 && (name == "maps.Copy" || name == "maps.DeleteFunc" || strings.HasPrefix(name, "slices.Sort") || name == "slices.Reverse" || strings.HasPrefix(name, "sort.")) {
				mark(a)
			}
		}
	}
}

// funcsOf lists every function of a package with its closures and methods.
func (p *Program) funcsOf(pk *ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		if f.Blocks != nil {
			out = append(out, f)
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	var names []string
	for n := range pk.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		switch m := pk.Members[n].(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := types.NewMethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					f := p.Prog.MethodValue(ms.At(i))
					if f != nil && f.Pkg == pk && f.Synthetic == "" {
						add(f)
					}
				}
			}
		}
	}
	return out
}

// Memory

func (ip *Interp) extend(ptr *Term, field string, idx *Term, ty types.Type) *Term {
	if ptr.op == OGamma {
		return ip.mapGamma(ptr, func(p *Term) *Term { return ip.extend(p, field, idx, ty) })
	}
	if ptr.op == OIface {
		return ip.extend(ptr.a[0], field, idx, ty)
	}
	if idx != nil && idx.op == OGamma {
		return ip.mapGamma(idx, func(i *Term) *Term { return ip.extend(ptr, field, i, ty) })
	}
	t := &Term{op: OAddr, ty: ty}
	if ptr.op == OAddr {
		t.a = append(t.a, ptr.a...)
		t.names = append(t.names, ptr.names...)
	} else {
		t.a = []*Term{ptr}
	}
	if idx != nil {
		t.names = append(t.names, "[]")
		t.a = append(t.a, idx)
	} else {
		t.names = append(t.names, field)
	}
	return ip.intern(t)
}

func (ip *Interp) load(st *State, ptr *Term, ty types.Type) *Term {
	switch ptr.op {
	case OGamma:
		return ip.mapGamma(ptr, func(p *Term) *Term { return ip.load(st, p, ty) })
	case OAddr:
		v := ip.content(st, ptr.a[0])
		k := 1
		for i, n := range ptr.names {
			var t types.Type
			if i == len(ptr.names)-1 {
				t = ty
			}
			if n == "[]" {
				v = ip.Elem(v, ptr.a[k], t)
				k++
			} else {
				v = ip.Sel(v, n, t)
			}
			// A slice or pointer on the way is never part of an address, but its content may have changed.
		}
		return v
	case ONil:
		return ip.Fresh("nil deref", 0)
	case OIface:
		return ip.load(st, ptr.a[0], ty)
	}
	return ip.content(st, ptr)
}

func (ip *Interp) update(v *Term, names []string, idx []*Term, nv *Term) *Term {
	if len(names) == 0 {
		return nv
	}
	if names[0] == "[]" {
		old := ip.Elem(v, idx[0], nil)
		return ip.Upd(v, idx[0], ip.update(old, names[1:], idx[1:], nv))
	}
	old := ip.Sel(v, names[0], nil)
	return ip.With(v, names[0], ip.update(old, names[1:], idx, nv))
}

func (ip *Interp) store(st *State, ptr, v *Term) {
	switch ptr.op {
	case OGamma:
		for i, p := range ptr.a {
			old := st.clone()
			ip.store(st, p, v)
			for c, nv := range st.m {
				if ov, ok := old.m[c]; !ok || ov != nv {
					st.m[c] = ip.Gamma([]BDD{ptr.g[i], ip.Not(ptr.g[i])}, []*Term{nv, ip.content(old, c)})
				}
			}
		}
	case OAddr:
		c := ptr.a[0]
		st.m[c] = ip.update(ip.content(st, c), ptr.names, ptr.a[1:], v)
	case ONil:
	case OIface:
		ip.store(st, ptr.a[0], v)
	default:
		st.m[ptr] = v
	}
}

// deref is the current content of a slice or map value.
func (ip *Interp) deref(st *State, t *Term) *Term {
	switch t.op {
	case OGamma:
		return ip.mapGamma(t, func(x *Term) *Term { return ip.deref(st, x) })
	case OAddr:
		return ip.load(st, t, nil)
	}
	return ip.content(st, t)
}

// resolve replaces everything that was allocated during the analysis by its content.
func (ip *Interp) resolve(t *Term, st *State) *Term {
	memo := map[*Term]*Term{}
	busy := map[*Term]bool{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t == nil {
			return nil
		}
		if r, ok := memo[t]; ok {
			return r
		}
		if busy[t] {
			return t
		}
		busy[t] = true
		defer delete(busy, t)
		r := t
		if c, ok := st.m[t]; ok && c != t && t.op != OGlobal {
			r = rec(c)
			memo[t] = r
			return r
		}
		switch t.op {
		case OAddr:
			if t.a[0].op != OGlobal {
				r = ip.load(st, t, nil)
				if r.op != OAddr || r != t {
					r = rec(r)
				}
			}
		case OStruct:
			vals := make([]*Term, len(t.a)-1)
			for i := range vals {
				vals[i] = rec(t.a[i+1])
			}
			r = ip.normStruct(rec(t.a[0]), t.names, vals)
		case OGamma:
			vals := make([]*Term, len(t.a))
			for i := range vals {
				vals[i] = rec(t.a[i])
			}
			r = ip.Gamma(t.g, vals)
		case OList, OTuple, OClosure:
			vals := make([]*Term, len(t.a))
			ch := false
			for i := range vals {
				vals[i] = rec(t.a[i])
				ch = ch || vals[i] != t.a[i]
			}
			if ch {
				r = ip.intern(&Term{op: t.op, a: vals, fn: t.fn, ty: t.ty, s: t.s, n: t.n})
			}
		case OAppend:
			vals := make([]*Term, len(t.a))
			for i := range vals {
				vals[i] = rec(t.a[i])
			}
			r = ip.Append(vals[0], ip.List(vals[1:]...))
		case OSpread:
			r = ip.Append(rec(t.a[0]), rec(t.a[1]))
		case OMapUpd, OUpd:
			a, b, c := rec(t.a[0]), rec(t.a[1]), rec(t.a[2])
			if a != t.a[0] || b != t.a[1] || c != t.a[2] {
				r = ip.intern(&Term{op: t.op, a: []*Term{a, b, c}, ty: t.ty})
			}
		case OMapMerge, OMapDel:
			a, b := rec(t.a[0]), rec(t.a[1])
			if a != t.a[0] || b != t.a[1] {
				r = ip.intern(&Term{op: t.op, a: []*Term{a, b}, ty: t.ty})
			}
		case OIface:
			x := rec(t.a[0])
			if x != t.a[0] {
				r = ip.Iface(t.typ, x)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (ip *Interp) mergeStates(es []*edge) *State {
	if len(es) == 1 {
		return es[0].st.clone()
	}
	care := False
	for _, e := range es {
		care = ip.Or(care, e.g)
	}
	gs := make([]BDD, len(es))
	for i, e := range es {
		gs[i] = ip.Restrict(e.g, care)
	}
	n := newState()
	cells := map[*Term]bool{}
	for _, e := range es {
		for c := range e.st.m {
			cells[c] = true
		}
	}
	var order []*Term
	for c := range cells {
		order = append(order, c)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].id < order[j].id })
	for _, c := range order {
		var vs []*Term
		var vg []BDD
		for i, e := range es {
			v, ok := e.st.m[c]
			if !ok {
				if c.op == OAlloc {
					continue
				}
				v = ip.content(e.st, c)
			}
			vs = append(vs, v)
			vg = append(vg, gs[i])
		}
		n.m[c] = ip.mergeVals(vg, vs)
	}
	return n
}

func (ip *Interp) mergeVals(gs []BDD, vs []*Term) *Term {
	same := true
	for _, v := range vs {
		if v != vs[0] {
			same = false
		}
	}
	if same {
		return vs[0]
	}
	return ip.Gamma(gs, vs)
}

// Functions

func (ip *Interp) evalFunc(fn *ssa.Function, args, free []*Term, st *State, g BDD, ctx int, parent *frame) ([]*Term, *State, BDD) {
	fr := &frame{fn: fn, fi: ip.info(fn), env: map[ssa.Value]*Term{}, ctx: ctx, parent: parent, args: args}
	if parent != nil {
		fr.depth = parent.depth + 1
	}
	ip.inlined[fn] = true
	for i, p := range fn.Params {
		if i < len(args) {
			a := args[i]
			if a != nil && a.ty == nil {
				a.ty = p.Type()
			}
			fr.env[p] = a
		} else {
			fr.env[p] = ip.RootT(p.Name(), p.Type())
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(free) {
			fr.env[v] = free[i]
		} else {
			fr.env[v] = ip.RootT("free "+v.Name(), v.Type())
		}
	}
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range fr.fi.rpo {
		all[b] = true
	}
	ip.run(fr, all, fn.Blocks[0], []*edge{{to: fn.Blocks[0], g: g, st: st.clone()}}, nil, nil)
	nres := fn.Signature.Results().Len()
	if len(fr.rets) == 0 {
		return make([]*Term, nres), newState(), False
	}
	var es []*edge
	gr := False
	for i := range fr.rets {
		es = append(es, &edge{g: fr.rets[i].g, st: fr.rets[i].st})
		gr = ip.Or(gr, fr.rets[i].g)
	}
	res := make([]*Term, nres)
	for k := 0; k < nres; k++ {
		var gs []BDD
		var vs []*Term
		for i := range fr.rets {
			gs = append(gs, ip.Restrict(fr.rets[i].g, gr))
			vs = append(vs, fr.rets[i].vals[k])
		}
		res[k] = ip.mergeVals(gs, vs)
	}
	return res, ip.mergeStates(es), gr
}

type loopRun struct {
	info *Loop
	sym  bool
}

// run analyses the blocks of a region (a function or the body of a loop) once, in topological order.
func (ip *Interp) run(fr *frame, region map[*ssa.BasicBlock]bool, start *ssa.BasicBlock, startEdges []*edge, nl *natLoop, lr *loopRun) (exits, backs []*edge) {
	pending := map[*ssa.BasicBlock][]*edge{start: startEdges}
	route := func(e *edge) {
		if e.g == False {
			return
		}
		switch {
		case nl != nil && e.to == nl.header:
			backs = append(backs, e)
		case !region[e.to]:
			exits = append(exits, e)
		default:
			pending[e.to] = append(pending[e.to], e)
		}
	}
	for _, b := range fr.fi.rpo {
		if !region[b] {
			continue
		}
		es := pending[b]
		if len(es) == 0 {
			continue
		}
		delete(pending, b)
		if l := fr.fi.loops[b]; l != nil && l != nl {
			for _, e := range ip.evalLoop(fr, l, es) {
				route(e)
			}
			continue
		}
		g := False
		for _, e := range es {
			g = ip.Or(g, e.g)
		}
		if g == False {
			continue
		}
		st := ip.mergeStates(es)
		ip.bindPhis(fr, b, es, g)
		for _, e := range ip.execBlock(fr, b, st, g, nl, lr) {
			route(e)
		}
	}
	return exits, backs
}

func (ip *Interp) bindPhis(fr *frame, b *ssa.BasicBlock, es []*edge, g BDD) {
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var gs []BDD
		var vs []*Term
		for _, e := range es {
			if v, ok := e.phis[phi]; ok && v != nil {
				gs = append(gs, ip.Restrict(e.g, g))
				vs = append(vs, v)
			}
		}
		if len(vs) > 0 {
			t := ip.mergeVals(gs, vs)
			if t.ty == nil {
				t.ty = phi.Type()
			}
			fr.env[phi] = t
		}
	}
}

func (ip *Interp) mkEdge(fr *frame, from *ssa.BasicBlock, si int, g BDD, st *State) *edge {
	to := from.Succs[si]
	e := &edge{from: from, to: to, g: g, st: st, phis: map[*ssa.Phi]*Term{}}
	// Which predecessor of the target this edge is.
	k := 0
	for i := 0; i < si; i++ {
		if from.Succs[i] == to {
			k++
		}
	}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			if k == 0 {
				pi = i
				break
			}
			k--
		}
	}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if pi >= 0 {
			e.phis[phi] = ip.value(fr, phi.Edges[pi])
		}
	}
	return e
}

func (ip *Interp) loopInfo(key string) *Loop {
	if l, ok := ip.loops[key]; ok {
		return l
	}
	ip.loopN++
	l := &Loop{id: ip.loopN, key: key, vars: map[string]*LoopVar{}, mod: map[*Term]bool{}, noMod: map[*Term]bool{}, invPhi: map[string]bool{}, exits: map[string]BDD{}, cond: True}
	ip.loops[key] = l
	return l
}

func (ip *Interp) loopVar(l *Loop, name string, ty types.Type) *Term {
	return ip.intern(&Term{op: OLoopVar, loop: l, s: name, ty: ty})
}

// evalLoop analyses a loop and returns the edges that leave it.
func (ip *Interp) evalLoop(fr *frame, l *natLoop, es []*edge) []*edge {
	var out []*edge
	h := l.header
	key := fmt.Sprintf("%d/%p", fr.ctx, h)
	info := ip.loopInfo(key)
	info.fn = fr.fn
	info.pos = blockPos(h)
	if len(ip.active) > 0 {
		info.parent = ip.active[len(ip.active)-1]
	}
	ctx0 := fr.ctx
	defer func() { fr.ctx = ctx0 }()

	cur := es
	iters := 0
	nconc := len(ip.conc)
	ip.conc = append(ip.conc, info)
	defer func() { ip.conc = ip.conc[:nconc] }()
	for {
		concrete := false
		info.hdr, info.it = h, iters
		if ifi, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); ok && iters < 80 && (!l.blocks[h.Succs[0]] || !l.blocks[h.Succs[1]]) {
			// Does the condition of the header have a known value?
			g := False
			for _, e := range cur {
				g = ip.Or(g, e.g)
			}
			if g == False {
				break
			}
			nfx := len(ip.effects)
			nb := len(ip.bounds)
			seq := ip.seq
			st := ip.mergeStates(cur)
			fr.ctx = ip.ctx(ctx0, fmt.Sprintf("it%p.%d", h, iters))
			ip.active = append(ip.active, info)
			save := info.cond
			info.cond = True
			ip.bindPhis(fr, h, cur, g)
			g2 := g
			for _, in := range h.Instrs[:len(h.Instrs)-1] {
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				g2 = ip.exec(fr, in, st, g2)
			}
			c := ip.decide(g2, ip.ToBDD(ip.value(fr, ifi.Cond)))
			info.cond = save
			ip.active = ip.active[:len(ip.active)-1]
			ip.effects = ip.effects[:nfx]
			ip.bounds = ip.bounds[:nb]
			ip.seq = seq
			concrete = c == True || c == False
		}
		if !concrete {
			break
		}
		exits, backs := ip.run(fr, l.blocks, h, cur, l, nil)
		for _, e := range exits {
			e.live = map[ssa.Value]*Term{}
			for _, v := range l.live {
				if t, ok := fr.env[v]; ok {
					e.live[v] = t
				}
			}
		}
		out = append(out, exits...)
		cur = backs
		iters++
		if len(cur) == 0 {
			ip.bindLive(fr, l, out)
			return out
		}
	}
	fr.ctx = ctx0
	ip.conc = ip.conc[:nconc]
	if len(cur) == 0 {
		ip.bindLive(fr, l, out)
		return out
	}

	// One generic iteration.
	g0 := False
	for _, e := range cur {
		g0 = ip.Or(g0, e.g)
	}
	if g0 == False {
		ip.bindLive(fr, l, out)
		return out
	}
	st0 := ip.mergeStates(cur)
	ip.bindPhis(fr, h, cur, g0)
	inits := map[*ssa.Phi]*Term{}
	for _, in := range h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		inits[phi] = fr.env[phi]
	}
	exits := ip.symLoop(info, st0, g0, func(st *State) ([]*edge, []*edge) {
		phis := map[*ssa.Phi]*Term{}
		for _, in := range h.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			name := "phi " + phi.Name()
			switch {
			case isInduction(phi, l):
				idx := ip.intern(&Term{op: OIdx, loop: info, ty: types.Typ[types.Int]})
				phis[phi] = ip.Bin(token.ADD, idx, inits[phi])
			case info.invPhi[name]:
				phis[phi] = inits[phi]
			default:
				phis[phi] = ip.loopVar(info, name, phi.Type())
				lv := info.vars[name]
				if lv == nil {
					lv = &LoopVar{name: name, typ: phi.Type()}
					info.vars[name] = lv
				}
				lv.init = inits[phi]
			}
		}
		exits, backs := ip.run(fr, l.blocks, h, []*edge{{to: h, g: g0, st: st, phis: phis}}, l, &loopRun{info: info, sym: true})
		// What the iteration makes of the loop-carried values.
		gb := False
		for _, e := range backs {
			gb = ip.Or(gb, e.g)
		}
		for _, in := range h.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			name := "phi " + phi.Name()
			lv := info.vars[name]
			if lv == nil || isInduction(phi, l) {
				continue
			}
			var gs []BDD
			var vs []*Term
			for _, e := range backs {
				gs = append(gs, ip.Restrict(e.g, gb))
				vs = append(vs, e.phis[phi])
			}
			if len(vs) > 0 {
				lv.step = ip.mergeVals(gs, vs)
			} else {
				lv.step = ip.loopVar(info, name, phi.Type())
			}
		}
		for _, e := range exits {
			e.live = map[ssa.Value]*Term{}
			for _, v := range l.live {
				if t, ok := fr.env[v]; ok {
					e.live[v] = t
				}
			}
		}
		return exits, backs
	})
	out = append(out, exits...)
	ip.bindLive(fr, l, out)
	return out
}

func (ip *Interp) bindLive(fr *frame, l *natLoop, out []*edge) {
	care := False
	for _, e := range out {
		care = ip.Or(care, e.g)
	}
	for _, v := range l.live {
		var gs []BDD
		var vs []*Term
		for _, e := range out {
			if t, ok := e.live[v]; ok {
				gs = append(gs, ip.Restrict(e.g, care))
				vs = append(vs, t)
			}
		}
		if len(vs) > 0 {
			fr.env[v] = ip.mergeVals(gs, vs)
		}
	}
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
		if i, ok := in.(*ssa.If); ok && i.Cond.Pos().IsValid() {
			return i.Cond.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return b.Parent().Pos()
}

// isInduction recognises a counter: a constant at first, one more on every iteration.
func isInduction(phi *ssa.Phi, l *natLoop) bool {
	b, ok := phi.Type().Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return false
	}
	for i, p := range phi.Block().Preds {
		if !l.blocks[p] {
			continue
		}
		bo, ok := phi.Edges[i].(*ssa.BinOp)
		if !ok || bo.Op != token.ADD {
			return false
		}
		c, ok := bo.Y.(*ssa.Const)
		if !ok || c.Value == nil || !constant.Compare(c.Value, token.EQL, constant.MakeInt64(1)) || bo.X != phi {
			return false
		}
	}
	return true
}

// symLoop analyses one generic iteration of a loop until it is known which memory an iteration changes.
func (ip *Interp) symLoop(info *Loop, st0 *State, g0 BDD, body func(*State) ([]*edge, []*edge)) []*edge {
	nfx := len(ip.effects)
	nb := len(ip.bounds)
	seq := ip.seq
	var exits, backs []*edge
	info.entry = g0
	if dbgLoops {
		d := ""
		if info.domain != nil {
			d = trunc(ip.Show(info.domain), 300)
		}
		fmt.Println("loop", ip.pos(info.pos), d)
	}
	for pass := 0; ; pass++ {
		if pass > 25 {
			panic(undecided{"loop at " + ip.pos(info.pos) + " does not converge"})
		}
		ip.effects = ip.effects[:nfx]
		ip.bounds = ip.bounds[:nb]
		ip.seq = seq
		info.cond, info.domain, info.mapDom = True, nil, nil
		st := st0.clone()
		start := map[*Term]*Term{}
		var mods []*Term
		for c := range info.mod {
			mods = append(mods, c)
		}
		sort.Slice(mods, func(i, j int) bool { return mods[i].id < mods[j].id })
		for _, c := range mods {
			if info.noMod[c] {
				continue
			}
			if _, ok := st0.m[c]; !ok && c.op == OAlloc {
				continue
			}
			name := "cell " + strconv.Itoa(c.id)
			init := ip.content(st0, c)
			ty := init.ty
			v := ip.loopVar(info, name, ty)
			if v.ty == nil {
				v.ty = cellType(c)
			}
			st.m[c] = v
			start[c] = v
			lv := info.vars[name]
			if lv == nil {
				lv = &LoopVar{name: name, cell: c, typ: v.ty}
				info.vars[name] = lv
			}
			lv.init = init
		}
		ip.active = append(ip.active, info)
		exits, backs = body(st)
		ip.active = ip.active[:len(ip.active)-1]

		changed := false
		gb := False
		for _, e := range backs {
			gb = ip.Or(gb, e.g)
		}
		cells := map[*Term]bool{}
		for _, e := range backs {
			for c := range e.st.m {
				cells[c] = true
			}
		}
		for c := range cells {
			if _, ok := st0.m[c]; !ok && c.op == OAlloc {
				continue // local to the iteration
			}
			if info.mod[c] {
				continue
			}
			before := ip.content(st0, c)
			for _, e := range backs {
				if ip.content(e.st, c) != before {
					info.mod[c] = true
					changed = true
					break
				}
			}
		}
		for _, c := range mods {
			lv := info.vars["cell "+strconv.Itoa(c.id)]
			if lv == nil || start[c] == nil {
				continue
			}
			var gs []BDD
			var vs []*Term
			for _, e := range backs {
				gs = append(gs, ip.Restrict(e.g, gb))
				vs = append(vs, ip.content(e.st, c))
			}
			if len(vs) > 0 {
				lv.step = ip.mergeVals(gs, vs)
			} else {
				lv.step = start[c]
			}
			if lv.step == start[c] && !info.noMod[c] {
				info.noMod[c] = true
				changed = true
			}
		}
		for name, lv := range info.vars {
			if lv.cell == nil && lv.step != nil && !info.invPhi[name] && lv.step == ip.loopVar(info, name, nil) {
				info.invPhi[name] = true
				changed = true
			}
		}
		if !changed {
			break
		}
	}

	// Leave the loop.
	var out []*edge
	var early []BDD
	n := map[string]int{}
	none := g0
	var normals []*edge
	for _, e := range exits {
		if e.normal {
			normals = append(normals, e)
			continue
		}
		k := fmt.Sprintf("exit %s", blockKey(e.from, e.to))
		n[k]++
		k = fmt.Sprintf("%s.%d", k, n[k])
		c := ip.Restrict(e.g, g0)
		info.exits[k] = c
		ex := ip.ToBDD(ip.intern(&Term{op: OAtomEx, loop: info, s: k}))
		e.g = ip.And(none, ex)
		none = ip.And(none, ip.Not(ex))
		early = append(early, ex)
		out = append(out, e)
	}
	_ = early
	for _, e := range normals {
		e.g = none
		sub := map[*Term]*Term{}
		for name, lv := range info.vars {
			if lv.step == nil || info.invPhi[name] {
				continue
			}
			v := ip.loopVar(info, name, nil)
			if cf := ip.closed(info, lv, v); cf != nil {
				sub[v] = cf
			}
		}
		if len(sub) > 0 {
			for c, v := range e.st.m {
				e.st.m[c] = ip.substTop(v, sub)
			}
			for p, v := range e.phis {
				e.phis[p] = ip.substTop(v, sub)
			}
			for p, v := range e.live {
				e.live[p] = ip.substTop(v, sub)
			}
		}
		out = append(out, e)
	}
	return out
}

// substTop replaces loop variables by their value after the loop.
func (ip *Interp) substTop(v *Term, sub map[*Term]*Term) *Term {
	if r, ok := sub[v]; ok {
		return r
	}
	switch v.op {
	case OBool:
		// A flag.
		r := v.b
		for lv, cf := range sub {
			if at, ok := ip.atomV[ip.intern(&Term{op: OAtomVal, a: []*Term{lv}})]; ok {
				r = ip.compose(r, at, ip.ToBDD(cf))
			}
		}
		return ip.Bool(r)
	case OStruct:
		vals := make([]*Term, len(v.a)-1)
		for i := range vals {
			vals[i] = ip.substTop(v.a[i+1], sub)
		}
		return ip.normStruct(ip.substTop(v.a[0], sub), v.names, vals)
	}
	return v
}

func (ip *Interp) compose(f BDD, v int, by BDD) BDD {
	f0, f1 := ip.cofVar(f, v, false), ip.cofVar(f, v, true)
	return ip.ite(by, f1, f0)
}

func (ip *Interp) cofVar(f BDD, v int, val bool) BDD {
	lit := ip.Var(v)
	if !val {
		lit = ip.Not(lit)
	}
	return ip.Restrict(f, lit)
}

// closed is the value of a loop variable after all iterations, where it has a simple form.
func (ip *Interp) closed(info *Loop, lv *LoopVar, v *Term) *Term {
	if ip.isBoolTerm(lv.step) || ip.isBoolTerm(v) {
		s := ip.ToBDD(lv.step)
		at := ip.atomVal(v)
		s1, s0 := ip.cofVar(s, at, true), ip.cofVar(s, at, false)
		if ip.usesLoopVar(s0, info) || ip.usesLoopVar(s1, info) {
			return nil
		}
		ex := func(c BDD, k string) BDD {
			info.exits[k] = c
			return ip.ToBDD(ip.intern(&Term{op: OAtomEx, loop: info, s: k}))
		}
		switch {
		case s1 == True:
			return ip.Bool(ip.Or(ip.ToBDD(lv.init), ex(s0, "flag "+lv.name)))
		case s0 == False:
			return ip.Bool(ip.And(ip.ToBDD(lv.init), ip.Not(ex(ip.Not(s1), "flag "+lv.name))))
		}
		return nil
	}
	st := lv.step
	if st.op == OGamma && len(st.a) == 2 {
		for i := 0; i < 2; i++ {
			k, self := st.a[i], st.a[1-i]
			if self == v && (k.isConst() || k.isNil()) && !ip.usesLoopVar(st.g[i], info) {
				info.exits["set "+lv.name] = st.g[i]
				ex := ip.ToBDD(ip.intern(&Term{op: OAtomEx, loop: info, s: "set " + lv.name}))
				return ip.Gamma([]BDD{ex, ip.Not(ex)}, []*Term{k, lv.init})
			}
		}
	}
	if st.op == OMapUpd && st.a[0] == v && info.mapDom != nil {
		key := ip.intern(&Term{op: OKey, loop: info})
		if st.a[1] == key && st.a[2].op == OLookup && st.a[2].a[0] == info.mapDom && st.a[2].a[1] == key {
			return ip.intern(&Term{op: OMapMerge, a: []*Term{lv.init, info.mapDom}, ty: lv.init.ty})
		}
	}
	return nil
}

func (ip *Interp) atomVal(t *Term) int {
	b := ip.ToBDD(t)
	return int(ip.nodes[b].v)
}

func (ip *Interp) usesLoopVar(f BDD, l *Loop) bool {
	for _, v := range ip.Support(f) {
		if mentions(ip.atoms[v], func(t *Term) bool { return t.op == OLoopVar && t.loop == l }) {
			return true
		}
	}
	return false
}

func mentions(t *Term, pred func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if pred(t) {
			return true
		}
		for _, a := range t.a {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func cellType(c *Term) types.Type {
	if c.ty == nil {
		return nil
	}
	if p, ok := c.ty.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return c.ty
}

func blockKey(a, b *ssa.BasicBlock) string {
	x, y := -1, -1
	if a != nil {
		x = a.Index
	}
	if b != nil {
		y = b.Index
	}
	return fmt.Sprintf("%d-%d", x, y)
}

// execBlock analyses the instructions of a block and returns its outgoing edges.
func (ip *Interp) execBlock(fr *frame, b *ssa.BasicBlock, st *State, g BDD, nl *natLoop, lr *loopRun) []*edge {
	ip.budget--
	ip.nblocks++
	if ip.budget < 0 {
		panic(undecided{"the analysis of " + fnName(fr.fn) + " is too large"})
	}
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.Jump:
			return []*edge{ip.mkEdge(fr, b, 0, g, st)}
		case *ssa.If:
			c := ip.ToBDD(ip.value(fr, x.Cond))
			header := nl != nil && b == nl.header && lr != nil && lr.sym
			in0, in1 := true, true
			if nl != nil {
				in0, in1 = nl.blocks[b.Succs[0]], nl.blocks[b.Succs[1]]
			}
			if header && in0 != in1 {
				stay := c
				si, so := 0, 1
				if in1 {
					stay = ip.Not(c)
					si, so = 1, 0
				}
				// How the condition was reached doesn't matter for the domain.
				lr.info.cond = stay
				ip.setDomain(lr.info, stay, st)
				eo := ip.mkEdge(fr, b, so, g, st.clone())
				eo.normal = true
				return []*edge{ip.mkEdge(fr, b, si, g, st), eo}
			}
			c = ip.decide(g, c)
			var out []*edge
			if gt := ip.And(g, c); gt != False {
				out = append(out, ip.mkEdge(fr, b, 0, gt, st.clone()))
			}
			if gf := ip.And(g, ip.Not(c)); gf != False {
				out = append(out, ip.mkEdge(fr, b, 1, gf, st))
			}
			return out
		case *ssa.Return:
			r := ret{g: g, st: st}
			for _, v := range x.Results {
				r.vals = append(r.vals, ip.value(fr, v))
			}
			fr.rets = append(fr.rets, r)
			return nil
		case *ssa.Panic:
			ip.effect(fr, "panic", "panic", []*Term{ip.value(fr, x.X)}, st, g, x.Pos(), nil, nil)
			return nil
		default:
			g = ip.exec(fr, in, st, g)
			if g == False {
				return nil
			}
		}
	}
	return nil
}

// setDomain recognises what a loop ranges over.
func (ip *Interp) setDomain(info *Loop, c BDD, st *State) {
	for _, v := range ip.Support(c) {
		t := ip.atoms[v]
		if ip.Var(v) != c {
			continue
		}
		switch t.op {
		case OAtomLt:
			if t.a[0].op == OIdx && t.a[0].loop == info {
				if t.a[1].op == OCall && t.a[1].s == "len" {
					info.domain = t.a[1].a[0]
				} else {
					info.domain = ip.intern(&Term{op: OCall, s: "upto", a: []*Term{t.a[1]}})
				}
			}
		case OAtomNext:
			if t.loop == info {
				info.domain = info.mapDom
			}
		}
	}
}

func (ip *Interp) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	pp := ip.p.Prog.Fset.Position(p)
	return strings.TrimPrefix(pp.Filename, ip.p.Root+"/") + ":" + strconv.Itoa(pp.Line)
}

func (ip *Interp) effect(fr *frame, kind, name string, raw []*Term, st *State, g BDD, pos token.Pos, result *Term, sig *types.Signature) *Effect {
	e := &Effect{Kind: kind, Name: name, Guard: g, Seq: ip.seq, Pos: pos, Result: result, Sig: sig, Raw: raw}
	ip.seq++
	for _, a := range raw {
		if a == nil {
			e.Args = append(e.Args, nil)
			continue
		}
		e.Args = append(e.Args, ip.Simp(ip.resolve(a, st), g))
	}
	e.Loops = append(e.Loops, ip.active...)
	e.St = st.clone()
	for f := fr; f != nil; f = f.parent {
		if e.Fn == nil {
			e.Fn = f.fn
		}
		e.Stack = append(e.Stack, f.fn)
	}
	ip.effects = append(ip.effects, e)
	return e
}

// value is the term of an SSA value.
func (ip *Interp) value(fr *frame, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if _, ok := x.Type().Underlying().(*types.Struct); ok {
				return ip.Zero(x.Type())
			}
			if _, ok := x.Type().Underlying().(*types.Array); ok {
				return ip.Zero(x.Type())
			}
			return ip.nilT
		}
		return ip.Const(x.Value)
	case *ssa.Global:
		return ip.globalTerm(x)
	case *ssa.Function:
		return ip.intern(&Term{op: OClosure, fn: x, ty: x.Type()})
	case *ssa.Builtin:
		return ip.Root("builtin " + x.Name())
	}
	if t, ok := fr.env[v]; ok && t != nil {
		return t
	}
	return ip.Fresh("undefined "+v.Name()+" "+strconv.Itoa(fr.ctx), 0)
}

var dbgLoops = os.Getenv("ASTRACHECK_DEBUG") == "loops"
