package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Shared state: which package level variables are changed after the initialisation, through any alias, and whether
// what is left in them reaches another service.

// taint is an analysis of which values refer to the memory of package level variables: flow and context insensitive,
// by field of struct types.
type taint struct {
	p       *Program
	set     map[any]map[*ssa.Global]bool
	changed bool
	funcs   []*ssa.Function
	byName  map[string][]*ssa.Function // methods
	bySig   map[string][]*ssa.Function // functions used as values
	users   map[*ssa.Global]map[*ssa.Function]bool
	mut     map[*ssa.Global]map[*ssa.Function]string // what changes a variable
	report  bool
}

type fieldNode struct {
	t string
	i int
}
type elemNode struct{ t string }
type contentNode struct{ v ssa.Value }
type resultNode struct {
	f *ssa.Function
	i int
}

// refers: a value of the type can refer to memory.
func refers(t types.Type) bool { return refersIn(t, 0) }

func refersIn(t types.Type, d int) bool {
	if d > 6 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface:
		return !types.Identical(t, errType)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refersIn(u.Field(i).Type(), d+1) {
				return true
			}
		}
	case *types.Array:
		return refersIn(u.Elem(), d+1)
	case *types.Tuple:
		return true
	}
	return false
}

func isInit(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Signature.Recv() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#"))
}

func (ta *taint) get(n any) map[*ssa.Global]bool {
	if g, ok := n.(*ssa.Global); ok {
		return map[*ssa.Global]bool{g: true}
	}
	return ta.set[n]
}

func (ta *taint) add(n any, gs map[*ssa.Global]bool) {
	if len(gs) == 0 || n == nil {
		return
	}
	if v, ok := n.(ssa.Value); ok && !refers(v.Type()) {
		return
	}
	if _, ok := n.(*ssa.Global); ok {
		return
	}
	m := ta.set[n]
	if m == nil {
		m = map[*ssa.Global]bool{}
		ta.set[n] = m
	}
	for g := range gs {
		if !m[g] {
			m[g] = true
			ta.changed = true
		}
	}
}

func structKey(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.String()
}

// into: a value is stored at an address.
func (ta *taint) into(addr ssa.Value, t types.Type, gs map[*ssa.Global]bool) {
	if len(gs) == 0 || !refers(t) {
		return
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if refers(st.Field(i).Type()) {
				ta.add(fieldNode{t.String(), i}, gs)
			}
		}
	}
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		ta.add(fieldNode{structKey(x.X.Type()), x.Field}, gs)
	case *ssa.IndexAddr:
		ta.add(elemNode{t.String()}, gs)
	case *ssa.Alloc:
		ta.add(contentNode{x}, gs)
	default:
		ta.add(elemNode{t.String()}, gs)
	}
}

// from: what is loaded from an address. The fields of a struct are the same for all values of its type.
func (ta *taint) from(addr ssa.Value, t types.Type) []map[*ssa.Global]bool {
	out := []map[*ssa.Global]bool{ta.get(addr)}
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		out = append(out, ta.get(fieldNode{structKey(x.X.Type()), x.Field}))
	case *ssa.Alloc:
		out = append(out, ta.get(contentNode{x}))
	default:
		out = append(out, ta.get(elemNode{t.String()}))
	}
	return out
}

func (ta *taint) mutate(fn *ssa.Function, v ssa.Value, in ssa.Instruction) {
	if isInit(fn) || !ta.report {
		return
	}
	for g := range ta.get(v) {
		if ta.mut[g] == nil {
			ta.mut[g] = map[*ssa.Function]string{}
		}
		ta.mut[g][fn] = ta.p.posAt(in.Pos())
	}
}

// changers are functions of other packages that change the memory of their first argument.
func changers(name string) (arg int, ok bool) {
	switch {
	case strings.HasPrefix(name, "sort."), strings.HasPrefix(name, "slices.Sort"), name == "slices.Reverse", name == "slices.Delete", name == "slices.DeleteFunc", name == "slices.Insert", name == "slices.Compact", name == "slices.CompactFunc", name == "slices.Replace",
		name == "maps.Copy", name == "maps.DeleteFunc", name == "maps.Insert", strings.HasPrefix(name, "sync/atomic."), name == "io.ReadFull", strings.HasPrefix(name, "container/"), strings.HasPrefix(name, "math/rand.Shuffle"):
		return 0, true
	case name == "encoding/json.Unmarshal", strings.HasSuffix(name, "yaml.v3.Unmarshal"):
		return 1, true
	}
	return 0, false
}

func (ta *taint) instr(fn *ssa.Function, in ssa.Instruction) {
	union := func(v ssa.Value, ss ...map[*ssa.Global]bool) {
		for _, s := range ss {
			ta.add(v, s)
		}
	}
	switch x := in.(type) {
	case *ssa.Store:
		ta.into(x.Addr, x.Val.Type(), ta.get(x.Val))
		if _, ok := x.Val.(*ssa.Global); ok {
			ta.into(x.Addr, x.Val.Type(), ta.get(x.Val))
		}
		ta.mutate(fn, x.Addr, in)
	case *ssa.MapUpdate:
		ta.mutate(fn, x.Map, in)
		for _, v := range []ssa.Value{x.Key, x.Value} {
			if refers(v.Type()) {
				ta.add(elemNode{v.Type().String()}, ta.get(v))
			}
		}
	case *ssa.UnOp:
		union(x, ta.from(x.X, x.Type())...)
	case *ssa.FieldAddr:
		union(x, ta.get(x.X))
	case *ssa.IndexAddr:
		union(x, ta.get(x.X))
	case *ssa.Field:
		union(x, ta.get(x.X), ta.get(fieldNode{structKey(x.X.Type()), x.Field}))
	case *ssa.Index:
		union(x, ta.get(x.X), ta.get(elemNode{x.Type().String()}))
	case *ssa.Lookup:
		union(x, ta.get(x.X), ta.get(elemNode{lookupType(x).String()}))
	case *ssa.Extract:
		union(x, ta.get(x.Tuple))
		if c, ok := x.Tuple.(*ssa.Call); ok {
			for _, f := range ta.callees(c.Common()) {
				union(x, ta.get(resultNode{f, x.Index}))
			}
		}
	case *ssa.Next:
		if rg, ok := x.Iter.(*ssa.Range); ok {
			union(x, ta.get(rg.X))
		}
	case *ssa.Slice:
		union(x, ta.get(x.X))
	case *ssa.Phi:
		for _, e := range x.Edges {
			union(x, ta.get(e))
		}
	case *ssa.ChangeType:
		union(x, ta.get(x.X))
		if st, ok := x.Type().Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				a, b := fieldNode{x.Type().String(), i}, fieldNode{x.X.Type().String(), i}
				ta.add(a, ta.get(b))
				ta.add(b, ta.get(a))
			}
		}
	case *ssa.ChangeInterface:
		union(x, ta.get(x.X))
	case *ssa.MakeInterface:
		union(x, ta.get(x.X))
	case *ssa.TypeAssert:
		union(x, ta.get(x.X))
	case *ssa.Convert:
		union(x, ta.get(x.X))
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			ta.add(f.FreeVars[i], ta.get(b))
			// A captured variable is the same memory.
			if a, ok := b.(*ssa.Alloc); ok {
				ta.add(contentNode{f.FreeVars[i]}, ta.get(contentNode{a}))
				ta.add(elemNode{a.Type().Underlying().(*types.Pointer).Elem().String()}, ta.get(contentNode{a}))
			}
		}
	case *ssa.Return:
		for i, v := range x.Results {
			ta.add(resultNode{fn, i}, ta.get(v))
		}
	case ssa.CallInstruction:
		ta.call(fn, x)
	}
}

func lookupType(x *ssa.Lookup) types.Type {
	if m, ok := x.X.Type().Underlying().(*types.Map); ok {
		return m.Elem()
	}
	return x.Type()
}

func (ta *taint) callees(c *ssa.CallCommon) []*ssa.Function {
	if c.IsInvoke() {
		var out []*ssa.Function
		it, _ := c.Value.Type().Underlying().(*types.Interface)
		for _, f := range ta.byName[c.Method.Name()] {
			if it == nil || types.Implements(f.Signature.Recv().Type(), it) {
				out = append(out, f)
			}
		}
		return out
	}
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	return ta.bySig[c.Signature().String()]
}

func (ta *taint) call(fn *ssa.Function, in ssa.CallInstruction) {
	c := in.Common()
	v := in.Value()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete", "clear", "copy":
			ta.mutate(fn, c.Args[0], in)
		case "append":
			if v != nil {
				ta.add(v, ta.get(c.Args[0]))
				if len(c.Args) > 1 {
					if s, ok := c.Args[1].Type().Underlying().(*types.Slice); ok && refers(s.Elem()) {
						ta.add(v, ta.get(c.Args[1]))
						ta.add(elemNode{s.Elem().String()}, ta.get(c.Args[1]))
					}
				}
			}
			// Appending to a part of a shared list overwrites the rest.
			if s, ok := c.Args[0].(*ssa.Slice); ok && s.Max == nil {
				ta.mutate(fn, s.X, in)
			}
		}
		return
	}
	for _, f := range ta.callees(c) {
		if f.Blocks == nil || f.Pkg == nil || !inModule(f.Pkg.Pkg.Path()) {
			ta.external(fn, in, f)
			continue
		}
		args := c.Args
		if c.IsInvoke() {
			args = append([]ssa.Value{c.Value}, args...)
		}
		for i, a := range args {
			if i < len(f.Params) {
				ta.add(f.Params[i], ta.get(a))
			}
		}
		if v != nil && f.Signature.Results().Len() == 1 {
			ta.add(v, ta.get(resultNode{f, 0}))
		}
	}
}

func (ta *taint) external(fn *ssa.Function, in ssa.CallInstruction, f *ssa.Function) {
	c := in.Common()
	name := fnName(f)
	if o := f.Origin(); o != nil {
		name = fnName(o)
	}
	if i, ok := changers(name); ok && i < len(c.Args) {
		ta.mutate(fn, c.Args[i], in)
	}
	v := in.Value()
	if v != nil && len(c.Args) > 0 && (strings.HasPrefix(name, "slices.") && name != "slices.Clone" && name != "slices.Concat") {
		ta.add(v, ta.get(c.Args[0]))
	}
	// A method that can change the variable itself, or the object that it points to.
	if f.Signature.Recv() != nil && len(c.Args) > 0 && !c.IsInvoke() {
		if _, ok := f.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
			r := c.Args[0]
			if u, ok := r.(*ssa.UnOp); ok {
				r = u.X
			}
			if g, ok := r.(*ssa.Global); ok && !readOnly(name) && inModule(g.Pkg.Pkg.Path()) {
				ta.mutate(fn, g, in)
			}
		}
	}
}

// readOnly are methods of other packages that do not change what they are called for.
func readOnly(name string) bool {
	return strings.HasPrefix(name, "(*regexp.Regexp).") || strings.HasPrefix(name, "(*sync.") && (strings.HasSuffix(name, ".Load") || strings.HasSuffix(name, "Lock") || strings.HasSuffix(name, ".Range")) ||
		strings.HasPrefix(name, "(*strings.Replacer).") || strings.HasPrefix(name, "(*github.com/spf13/cobra.Command).Execute") || strings.HasPrefix(name, "(*github.com/rs/zerolog.")
}

func (p *Program) sharedState() *taint {
	ta := &taint{p: p, set: map[any]map[*ssa.Global]bool{}, byName: map[string][]*ssa.Function{}, bySig: map[string][]*ssa.Function{}, users: map[*ssa.Global]map[*ssa.Function]bool{}, mut: map[*ssa.Global]map[*ssa.Function]string{}}
	for _, pk := range p.Pkgs {
		ta.funcs = append(ta.funcs, p.funcsOf(p.Prog.Package(pk.Types))...)
	}
	for _, f := range ta.funcs {
		if f.Signature.Recv() != nil {
			ta.byName[f.Name()] = append(ta.byName[f.Name()], f)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if *o == nil {
						continue
					}
					if g, ok := (*o).(*ssa.Global); ok {
						if ta.users[g] == nil {
							ta.users[g] = map[*ssa.Function]bool{}
						}
						ta.users[g][f] = true
					}
					if h, ok := (*o).(*ssa.Function); ok {
						if ci, ok := in.(ssa.CallInstruction); !ok || ci.Common().Value != h {
							k := h.Signature.String()
							ta.bySig[k] = append(ta.bySig[k], h)
						}
					}
				}
			}
		}
	}

	for i := 0; i < 50; i++ {
		ta.changed = false
		for _, f := range ta.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					ta.instr(f, in)
				}
			}
		}
		if !ta.changed {
			break
		}
	}
	ta.report = true
	for _, f := range ta.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ta.instr(f, in)
			}
		}
	}
	return ta
}

// afterOther compares the document of a service with the one it gets after another service.
func (c *Ctx) afterOther(o *oapi, s *Term) {
	r := o.r
	g := True
	st := r.st.clone()
	gen := func() *Term {
		o.doc = nil
		r.effects = nil
		r.eval(c.fn("outputs/openapi", "Generate"), []*Term{r.Str("api.json")})
		f := r.out(0)
		r.applyTerm(f, s)
		if o.doc == nil {
			stop("no document is encoded")
		}
		g = r.And(g, o.g)
		return o.doc
	}
	alone := gen()
	r.st = st
	f := func(name string, tags ...string) ffield { return ffield{name: name, typ: basic("string"), tags: tags} }
	others := []ftype{
		structOf(appTypes, "Thing", f("Z", "xml", "z", "form", "fz"), f("Y", "json", "-")),
		structOf("example.com/zzz/types", "Thing", f("Z", "json", "z")), structOf("example.com/zzz/types", "T", f("Z", "json", "z")), structOf("example.com/zzz/types", "Other", f("Z", "", "Z")),
		structOf(appTypes, "T", f("ID", "json", "id", "uri", "uid")), structOf(appTypes, "Gone", f("Z", "json", "z")), structOf("main", "T", f("Z", "json", "z")),
		alias(sliceOf("", "int"), appTypes, "Other"),
	}
	var bs []*Term
	for i, t := range others {
		bs = append(bs, o.fieldTerm(fmt.Sprintf("another%d", i), t))
	}
	svc := c.typ("", "Service")
	tf := c.typ("", "TypeFormat")
	x := r.zero(tf, "Type", "other", "Format", "other")
	otherS := r.intern(&Term{op: OAlloc, s: "the other service", ty: ptrTo(svc)})
	ot := []froute{{method: "GET", path: "/x", query: []fparam{{name: "zzz", typ: basic("int")}}, body: []fparam{{content: "application/json", typ: named(appTypes, "Thing"), bound: true}}, responses: []fparam{{status: 418, content: "application/json", typ: sliceOf(appTypes, "T")}}}}
	var rs []*Term
	for i, y := range ot {
		rs = append(rs, o.routeTerm(fmt.Sprintf("another route%d", i), y))
	}
	r.st.m[otherS] = r.with(r.RootT("the other service value", svc), "Config", r.cellOf("another config", c.typ("", "Config"), r.RootT("another config", c.typ("", "Config"))),
		"Components", r.list(c.field(), bs...), "Routes", r.list(c.typ("", "Route"), rs...), "CustomTypeMapping", r.mapCell("another custom", r.mapT(fieldType(svc, "CustomTypeMapping"), "int", x, "string", x, appTypes+".Thing", x, appTypes+".Plain", x)), "fullTypeMapping", r.nilT)
	mine := s
	s = otherS
	gen()
	s = mine
	g = True
	after := gen()
	c.decided++
	d := r.differ(after, alone, g, "")
	c.ok(d == "", fmt.Sprintf("independent: document %d", c.decided), o.where, "the document of a service depends on another one that was generated before: %s", d)
}

func (c *Ctx) sharedRule() {
	seen := map[string]bool{}
	covered := func(r *Run) {
		for f := range r.inlined {
			seen[fnName(f)] = true
		}
	}
	c.shared = covered
	c.namesRule()
	c.schemaRule()
	c.parametersRule()
	c.methodsRule()
	c.shared = nil
	// Packages.
	type call struct{ path, dir string }
	for _, x := range [][2]call{
		{{"example.com/a", "/work"}, {"example.com/a", "/other"}}, {{"example.com/a", "/work"}, {"example.com/b", "/work"}}, {{".", "/work"}, {".", "/other"}}, {{"a", "/b"}, {"b", "/a"}}, {{"work/a", "/"}, {"a", "/work"}}, {{"/a", "/work"}, {"", "/work/a"}},
		{{"example.com/a", "/work"}, {"example.com/a", ""}}, {{"example.com/a", "/work"}, {"example.com/a", "/work"}},
	} {
		x := x
		c.scenario("packages", func() {
			f := c.fn("astTraversal", "LoadPackage")
			r := c.begin(nil)
			r.initial("astTraversal")
			n := 0
			var asked []call
			var found []*Term
			for i := range x {
				pt := f.Signature.Results().At(0).Type().(*types.Pointer)
				p := r.cellOf(fmt.Sprintf("package%d", i), pt.Elem(), r.with(r.RootT(fmt.Sprintf("package value %d", i), pt.Elem()), "Errors", r.Zero(fieldType(pt.Elem(), "Errors"))))
				found = append(found, r.list(pt, p))
			}
			r.hook = func(k *Call) (*Term, bool) {
				if k.Name != "golang.org/x/tools/go/packages.Load" {
					return nil, false
				}
				n++
				as := k.resolved(r.Interp)
				dir, _ := r.Sel(as[0], "Dir", nil).str()
				path := ""
				if l, ok := r.listOf(as[1]); ok && len(l) == 1 {
					path, _ = l[0].str()
				}
				asked = append(asked, call{path, dir})
				if n > len(found) {
					stop("packages are loaded %d times", n)
				}
				return r.Tuple(found[n-1], r.nilT), true
			}
			var res []*Term
			for _, y := range x {
				r.eval(f, []*Term{r.Str(y.path), r.Str(y.dir)})
				c.ok(r.ret == True, "packages: returns", c.p.pos(f), "it does not return")
				res = append(res, r.Simp(r.res[0], r.ret))
			}
			key := fmt.Sprintf("%s in %s, %s in %s", x[0].path, x[0].dir, x[1].path, x[1].dir)
			if x[0] != x[1] {
				c.ok(res[0] != res[1] && len(asked) == 2, "packages: "+key, c.p.pos(f), "the package %s of %s is taken for %s of %s", x[0].path, x[0].dir, x[1].path, x[1].dir)
			}
			for i, a := range asked {
				c.ok(a == x[i], "packages: loaded: "+key, c.p.pos(f), "%s is loaded in %s instead of %s in %s", a.path, a.dir, x[i].path, x[i].dir)
			}
			covered(r)
		})
	}
	// The mapping of types.
	c.scenario("types", func() { c.tableRuleFor(covered) })
	// Every other variable.
	ta := c.p.sharedState()
	var gs []*ssa.Global
	for g := range ta.users {
		if inModule(g.Pkg.Pkg.Path()) && !strings.HasPrefix(g.Name(), "init$") {
			gs = append(gs, g)
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for _, g := range gs {
		name := short(g.String())
		if len(ta.mut[g]) == 0 {
			c.ok(true, "constant: "+name, c.p.posAt(g.Pos()), "")
			continue
		}
		if g.Pkg.Pkg.Name() == "cmd" || g.Pkg.Pkg.Name() == "main" {
			c.ok(true, "command: "+name, c.p.posAt(g.Pos()), "")
			continue
		}
		var fs []string
		for f, at := range ta.mut[g] {
			if !seen[fnName(f)] {
				fs = append(fs, fnName(f)+" at "+at)
			}
		}
		sort.Strings(fs)
		c.ok(len(fs) == 0, "changed: "+name, c.p.posAt(g.Pos()), "the variable %s is shared by all services and changed by %s, which is not shown to be harmless", name, strings.Join(fs, ", "))
		fs = nil
		for f := range ta.users[g] {
			if !seen[fnName(f)] && !isInit(f) {
				fs = append(fs, fnName(f))
			}
		}
		sort.Strings(fs)
		c.ok(len(fs) == 0, "used: "+name, c.p.posAt(g.Pos()), "the variable %s is shared by all services, changed, and used by %s, which is not shown to be harmless", name, strings.Join(fs, ", "))
	}
}

func init() {
	register(&Rule{
		ID: "P32", Min: 100,
		What:      "an interprocedural alias analysis (flow insensitive, by field) finds the package level variables that anything changes after the initialisation; the functions that change or use such a variable are interpreted for one service and then for another, and the result of the second has to be the one that it has alone",
		NotCovers: "services that are used at the same time: the shared maps have no lock",
		Run:       func(c *Ctx) { c.sharedRule() },
	})
}
