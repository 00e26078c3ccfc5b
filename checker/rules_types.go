package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about the description of types: by induction over the structure of a type, of which the parts are arbitrary types
// with arbitrary descriptions.

const (
	typesPkg = "example.com/app/models"
	otherPkg = "example.com/app/other"
	fileA    = "models/a.go"
	fileB    = "models/b.go"
	fileO    = "other/o.go"
)

// part is an arbitrary type.
type part struct {
	label   string
	typ     *Term
	err     string // "", "invalid" (no description) or "other"
	foreign bool   // its description is of another package
	during  func(k *Call)
	asked   int
	pkgs    []string // packages it was described in
}

type typesWorld struct {
	*world
	trav  *Term
	parts map[*Term]*part
	comps []*Term
	fail  bool // adding a component fails
	docs  map[*Term]string
	bad   *Term // the error for what cannot be described
	other *Term
	tt    types.Type
	rt    types.Type
	nf    int
	third *Term // the node of the package of foreign parts
}

func (c *Ctx) newTypes(r *Run, components bool) *typesWorld {
	w := &typesWorld{world: c.newWorld(r), parts: map[*Term]*part{}, docs: map[*Term]string{}}
	w.at = fileA
	r.recLimit, r.mustEnd = 8, true
	r.initial("astTraversal")
	r.initial("")
	w.tt, w.rt = c.typ("astTraversal", "TypeTraverser"), c.typ("astTraversal", "Result")
	w.other = r.intern(&Term{op: OCall, s: "errors.New", a: []*Term{r.Str("another error")}, n: -7, ty: errType})
	old := r.fact
	r.fact = func(t *Term) *Term {
		if t.op == OCall && t.s == "errors.Is" && len(t.a) == 2 {
			return r.Bool(boolBDD(t.a[0] == t.a[1]))
		}
		return old(t)
	}
	add := r.RootT("function that adds components", types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "r", w.rt)), types.NewTuple(types.NewVar(0, nil, "", errType)), false))
	r.hook = func(k *Call) (*Term, bool) {
		switch k.Name {
		case "dyn":
			if k.Raw[0] != add {
				stop("a function is called: %s", r.Show(k.Raw[0]))
			}
			if !r.must(True, k.G) {
				stop("a component may be added or not: %s", r.ShowG(k.G))
			}
			w.comps = append(w.comps, r.Simp(k.Raw[1], k.G))
			if w.fail {
				return w.other, true
			}
			return r.nilT, true
		case "(*~/astTraversal.TypeTraverser).Result":
			return w.result(k)
		case "~/astTraversal.ParseStructTag":
			return w.tags(k.Raw[0], k.Raw[1]), true
		case "(*go/ast.CommentGroup).Text":
			if k.Raw[0].isNil() || k.Raw[0].op == OZero {
				return r.Str(""), true
			}
			d, ok := w.docs[k.Raw[0]]
			if !ok {
				stop("the text of %s", r.Show(k.Raw[0]))
			}
			return r.Str(d + "\n"), true
		}
		return w.hook(k)
	}
	r.eval(c.fn("astTraversal", "New"), []*Term{r.Str("/work")})
	w.trav = w.raw(0)
	w.pkg("example.com/third", w.source("third/t.go"))
	w.third = w.pkgNode("example.com/third")
	_, w.bad = w.describe(w.obj("func()", "Signature"), w.pkgNode(typesPkg))
	if w.bad == nil || w.bad.isNil() {
		stop("a function type can be described")
	}
	if components {
		r.eval(c.method("astTraversal", "BaseTraverser", "SetAddComponentFunction"), []*Term{w.trav, add})
	}
	return w
}

// tags are the tags of a field.
func (w *typesWorld) tags(name, tag *Term) *Term {
	r := w.r
	l := r.Show(name) + " " + r.Show(tag)
	return r.Tuple(r.RootT("binding tags of "+l, w.c.typ("astTraversal", "BindingTagMap")), r.RootT("validation tags of "+l, w.c.typ("astTraversal", "ValidationTagMap")))
}

// pkgNode is the node of a package.
func (w *typesWorld) pkgNode(path string) *Term {
	r := w.r
	r.eval(w.c.method("astTraversal", "PackageManager", "FindOrAdd"), []*Term{w.manager(), r.Str(path)})
	return w.raw(0)
}

func (w *typesWorld) manager() *Term {
	return w.r.Simp(w.r.Sel(w.r.deref(w.r.st, w.trav), "Packages", nil), True)
}

// raw is a result as it is returned, e.g. a pointer and not what it points to.
func (w *typesWorld) raw(i int) *Term {
	r := w.r
	if i >= len(r.res) || r.res[i] == nil {
		return nil
	}
	return r.Simp(r.res[i], r.ret)
}

func (w *typesWorld) pathOf(node *Term) string {
	r := w.r
	if node == nil || node.isNil() {
		return ""
	}
	r.eval(w.c.method("astTraversal", "PackageNode", "Path"), []*Term{node})
	p, ok := r.out(0).str()
	if !ok {
		stop("the path of the package %s is not known", r.Show(node))
	}
	return p
}

// part is an arbitrary type.
func (w *typesWorld) part(label string) *part {
	t := w.r.RootT("type "+label, w.c.lib("go/types", "Type"))
	p := w.parts[t]
	if p == nil {
		p = &part{label: label, typ: t}
		w.parts[t] = p
	}
	return p
}

// desc is the description of a part that is looked at from a package.
func (w *typesWorld) desc(p *part, node, name *Term) *Term {
	r := w.r
	if p.foreign {
		node = w.third
	}
	return r.some("description of "+p.label, w.rt, "Type", "D "+p.label, "Name", name, "Package", node, "Doc", "", "IsEmbedded", false,
		"StructFieldBindingTags", r.Zero(fieldType(w.rt, "StructFieldBindingTags")), "StructFieldValidationTags", r.Zero(fieldType(w.rt, "StructFieldValidationTags")))
}

// result answers what the description of a part is.
func (w *typesWorld) result(k *Call) (*Term, bool) {
	r := w.r
	e := r.deref(k.St, k.Raw[0])
	n := r.Simp(r.Sel(e, "Node", nil), k.G)
	p := w.parts[n]
	if p == nil {
		if n.op != OIface {
			stop("a type %s is described", r.Show(n))
		}
		return nil, false
	}
	p.asked++
	if p.asked > 20 {
		stop("the type %s is described without end", p.label)
	}
	name, node := r.Str(""), r.nilT
	s := w.tt.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		v := r.Simp(r.Sel(e, f.Name(), nil), k.G)
		if types.Identical(f.Type(), types.Typ[types.String]) {
			name = v
		}
		if types.Identical(f.Type(), ptrTo(w.c.typ("astTraversal", "PackageNode"))) {
			node = v
		}
	}
	if p.during != nil {
		p.during(k)
	}
	switch p.err {
	case "invalid":
		return r.Tuple(r.Zero(w.rt), w.bad), true
	case "other":
		return r.Tuple(r.Zero(w.rt), w.other), true
	}
	return r.Tuple(w.desc(p, node, name), r.nilT), true
}

// describe describes a type in a package.
func (w *typesWorld) describe(t, node *Term) (res, err *Term) {
	r := w.r
	r.eval(w.c.method("astTraversal", "BaseTraverser", "Type"), []*Term{w.trav, t, node})
	r.applyTerm(r.intern(&Term{op: OClosure, fn: w.c.method("astTraversal", "TypeTraverser", "Result")}), w.raw(0))
	if !r.must(True, r.ret) {
		stop("the description may not end: %s", r.ShowG(r.ret))
	}
	return w.raw(0), w.raw(1)
}

// within describes a type while another one is being described.
func (w *typesWorld) within(k *Call, t, node *Term) *Term {
	r := w.r
	w.nf++
	fr := *k.frame
	fr.ctx = r.ctx(k.frame.ctx, fmt.Sprintf("within %d", w.nf))
	call := func(f *ssa.Function, args ...*Term) *Term {
		res, g := r.apply(&fr, k.In, r.intern(&Term{op: OClosure, fn: f}), args, f.Signature, k.St, k.G)
		if !r.must(k.G, g) {
			stop("a description within another one may not end")
		}
		return r.Simp(res, k.G)
	}
	tt := call(w.c.method("astTraversal", "BaseTraverser", "Type"), w.trav, t, node)
	return call(w.c.method("astTraversal", "TypeTraverser", "Result"), tt)
}

// basic is a basic type.
func (w *typesWorld) basic(b *types.Basic) *Term {
	return w.obj("basic "+b.Name(), "Basic", "Name", b.Name(), "Kind", int(b.Kind()), "Info", int(b.Info()), "String", b.Name())
}

// declare is a named type of a package that is declared as a type.
func (w *typesWorld) declare(path, name string, under *Term) *Term {
	t := w.named(path, name)
	return w.def(t, "Underlying", under)
}

func (w *typesWorld) slice(t *Term) *Term { return w.obj("[]"+base(t).s, "Slice", "Elem", t) }

// doc is a comment.
func (w *typesWorld) doc(text string) *Term {
	g := w.node("comment "+text, "CommentGroup", "", 1)
	w.docs[g] = text
	return g
}

// gen is a declaration of a file.
func (w *typesWorld) gen(label string, tok token.Token, doc *Term, specs ...*Term) *Term {
	var ss []*Term
	for _, s := range specs {
		ss = append(ss, w.as(s))
	}
	if doc == nil {
		doc = w.r.Zero(ptrTo(w.c.lib("go/ast", "CommentGroup")))
	}
	d := w.node("declaration "+label, "GenDecl", "", 3, "Tok", int(tok), "Doc", doc, "Specs", w.list(w.c.lib("go/ast", "Spec"), ss...))
	w.kids[d] = specs
	return d
}

// typeSpec is the declaration of a type.
func (w *typesWorld) typeSpec(name string, doc, typ *Term) *Term {
	if doc == nil {
		doc = w.r.Zero(ptrTo(w.c.lib("go/ast", "CommentGroup")))
	}
	id := w.ident("name of the type "+name+" in "+w.at, name)
	kv := []any{"Name", id, "Doc", doc}
	kids := []*Term{id}
	if typ != nil {
		kv = append(kv, "Type", w.as(typ))
		kids = append(kids, typ)
	}
	s := w.node("type "+name+" in "+w.at, "TypeSpec", "", 4, kv...)
	w.kids[s] = kids
	return s
}

// source is a file with declarations.
func (w *typesWorld) source(name string, decls ...*Term) *Term {
	var ds []*Term
	for _, d := range decls {
		ds = append(ds, w.as(d))
	}
	f := w.node("file "+name, "File", name, 1, "Decls", w.list(w.c.lib("go/ast", "Decl"), ds...))
	w.kids[f] = decls
	return f
}

// packages are the usual packages, without any declarations.
func (w *typesWorld) packages() {
	w.pkg(typesPkg, w.source(fileA), w.source(fileB))
	w.pkg(otherPkg, w.source(fileO))
}

// expect is a description that is expected.
func (w *typesWorld) expect(kv ...any) *Term { return w.r.zero(w.rt, kv...) }

// compare requires a description: a package only counts where the description refers to it.
func (w *typesWorld) compare(key, pos string, got, want *Term, path string, what string) bool {
	r := w.r
	if got == nil {
		return w.c.ok(false, key, pos, "there is no description of %s", what)
	}
	if path != "*" {
		if p := w.pathOf(r.Simp(r.Sel(got, "Package", nil), True)); p != path {
			return w.c.ok(false, key, pos, "the package of %s is %q, not %q", what, p, path)
		}
	}
	if path != "=" {
		got = r.With(got, "Package", r.nilT)
		want = r.With(want, "Package", r.nilT)
	}
	return w.equal(key, pos, got, want, what)
}

func (w *typesWorld) sel(t *Term, f string) *Term { return w.r.Simp(w.r.Sel(t, f, nil), True) }

// shape is a kind of type made of arbitrary parts, and how it is described in a package and as a named type.
type shape struct {
	name  string
	parts int
	make  func(w *typesWorld, ps []*part) *Term
	// want is the description without the name, and the part from which the package comes (-1: the package it is described in).
	want func(w *typesWorld, ds []*Term) *Term
	from int
	any  bool // the package is of no interest without a name
}

func (c *Ctx) shapes() []shape {
	none := func(f func(w *typesWorld) *Term) func(w *typesWorld, ps []*part) *Term {
		return func(w *typesWorld, ps []*part) *Term { return f(w) }
	}
	out := []shape{
		{"slice", 1, func(w *typesWorld, ps []*part) *Term { return w.slice(ps[0].typ) },
			func(w *typesWorld, ds []*Term) *Term {
				return w.expect("Type", "slice", "SliceType", w.sel(ds[0], "Type"))
			}, 0, false},
		{"array", 1, func(w *typesWorld, ps []*part) *Term {
			return w.obj("[n]"+ps[0].label, "Array", "Elem", ps[0].typ, "Len", w.r.RootT("length", types.Typ[types.Int64]))
		}, func(w *typesWorld, ds []*Term) *Term {
			return w.expect("Type", "array", "ArrayType", w.sel(ds[0], "Type"), "ArrayLength", w.r.RootT("length", types.Typ[types.Int64]))
		}, 0, false},
		{"map", 2, func(w *typesWorld, ps []*part) *Term {
			return w.obj("map["+ps[1].label+"]"+ps[0].label, "Map", "Elem", ps[0].typ, "Key", ps[1].typ)
		}, func(w *typesWorld, ds []*Term) *Term {
			return w.expect("Type", "map", "MapValueType", w.sel(ds[0], "Type"), "MapKeyType", w.sel(ds[1], "Type"), "MapKeyPackage", w.sel(ds[1], "Package"))
		}, 0, false},
		{"pointer", 1, func(w *typesWorld, ps []*part) *Term { return w.obj("*"+ps[0].label, "Pointer", "Elem", ps[0].typ) },
			func(w *typesWorld, ds []*Term) *Term { return ds[0] }, 0, false},
		{"alias", 1, func(w *typesWorld, ps []*part) *Term {
			return w.obj("alias of "+ps[0].label, "Alias", "Rhs", ps[0].typ)
		},
			func(w *typesWorld, ds []*Term) *Term { return ds[0] }, 0, false},
		{"alias of an alias", 1, func(w *typesWorld, ps []*part) *Term {
			return w.obj("alias of an alias", "Alias", "Rhs", w.obj("alias of "+ps[0].label, "Alias", "Rhs", ps[0].typ))
		}, func(w *typesWorld, ds []*Term) *Term { return ds[0] }, 0, false},
		{"pointer to an alias", 1, func(w *typesWorld, ps []*part) *Term {
			return w.obj("pointer to an alias", "Pointer", "Elem", w.obj("alias of "+ps[0].label, "Alias", "Rhs", ps[0].typ))
		}, func(w *typesWorld, ds []*Term) *Term { return ds[0] }, 0, false},
		{"pointer to a pointer", 1, func(w *typesWorld, ps []*part) *Term {
			return w.obj("pointer to a pointer", "Pointer", "Elem", w.obj("*"+ps[0].label, "Pointer", "Elem", ps[0].typ))
		}, func(w *typesWorld, ds []*Term) *Term { return ds[0] }, 0, false},
		{"interface", 0, none(func(w *typesWorld) *Term { return w.obj("interface{}", "Interface", "NumMethods", 0) }),
			func(w *typesWorld, ds []*Term) *Term { return w.expect("Type", "any") }, -1, true},
		{"empty struct", 0, none(func(w *typesWorld) *Term { return w.obj("struct{}", "Struct", "NumFields", 0) }),
			func(w *typesWorld, ds []*Term) *Term {
				return w.expect("Type", "struct", "StructFields", w.r.mapT(fieldType(w.rt, "StructFields")))
			}, -1, true},
	}
	for _, b := range types.Typ {
		if b.Kind() == types.Invalid {
			continue
		}
		n := b.Name()
		if b.Kind() == types.UntypedNil {
			n = "nil"
		}
		out = append(out, shape{"basic " + b.Name(), 0, none(func(w *typesWorld) *Term { return w.basic(b) }),
			func(w *typesWorld, ds []*Term) *Term { return w.expect("Type", n) }, -1, true})
	}
	return out
}

// typeKinds decides the description of each kind of type.
func (c *Ctx) typeKinds() {
	pos := c.p.pos(c.method("astTraversal", "TypeTraverser", "Result"))
	for _, s := range c.shapes() {
		// Failures of the parts.
		modes := []string{"", "foreign"}
		if s.parts > 0 {
			modes = append(modes, "invalid", "other")
		}
		for _, named := range []string{"", "component", "reference"} {
			for at := 0; at < max(1, s.parts); at++ {
				for _, m := range modes {
					if m == "" && at > 0 || m == "foreign" && s.parts == 0 || s.name == "basic untyped nil" && named != "" {
						continue
					}
					label := fmt.Sprintf("%s %s %s %d", s.name, named, m, at)
					c.scenario(label, func() {
						r := c.begin(nil)
						w := c.newTypes(r, named != "reference")
						w.packages()
						var ps []*part
						for i := 0; i < s.parts; i++ {
							p := w.part(string(rune('x' + i)))
							if i == at {
								p.err = m
								if m == "foreign" {
									p.err, p.foreign = "", true
								}
							}
							ps = append(ps, p)
						}
						t := s.make(w, ps)
						node := w.pkgNode(typesPkg)
						fails := m == "invalid" || m == "other"
						if named == "" {
							got, err := w.describe(t, node)
							if fails {
								c.ok(!r.isNilTerm(err), "failure: "+label, pos, "a part cannot be described, but there is no error")
								return
							}
							c.ok(err.isNil(), "succeeds: "+label, pos, "there is an error %s", r.Show(err))
							var ds []*Term
							for _, p := range ps {
								ds = append(ds, w.desc(p, node, r.Str("")))
							}
							want := s.want(w, ds)
							switch {
							case s.from >= 0:
								want = r.With(want, "Package", w.sel(ds[s.from], "Package"))
								w.equal("description: "+label, pos, got, want, "the description of a "+s.name)
							default:
								w.compare("description: "+label, pos, got, want, "*", "the description of a "+s.name)
							}
							c.ok(len(w.comps) == 0, "components: "+label, pos, "there are components of a type without a name")
							return
						}
						from := w.pkgNode(otherPkg)
						got, err := w.describe(w.declare(typesPkg, "T", t), from)
						if named == "reference" {
							c.ok(err.isNil(), "succeeds: "+label, pos, "there is an error %s", r.Show(err))
							w.compare("reference: "+label, pos, got, w.expect("Type", "T"), typesPkg, "a reference")
							return
						}
						if fails {
							c.ok(!r.isNilTerm(err), "failure: "+label, pos, "a part cannot be described, but there is no error")
							c.ok(len(w.comps) == 0, "no component: "+label, pos, "there is a component")
							return
						}
						c.ok(err.isNil(), "succeeds: "+label, pos, "there is an error %s", r.Show(err))
						var ds []*Term
						for i, p := range ps {
							n := r.Str("")
							if i == 0 && (strings.Contains(s.name, "alias") || strings.Contains(s.name, "pointer")) {
								n = r.Str("T")
							}
							ds = append(ds, w.desc(p, node, n))
						}
						want := s.want(w, ds)
						if s.from >= 0 && s.from == at && m == "foreign" {
							// It cannot be a component of its package, so it is described in place.
							want = r.with(want, "Package", w.sel(ds[s.from], "Package"), "Name", "")
							w.equal("in place: "+label, pos, got, want, "the description of a named "+s.name+" of another package")
							c.ok(len(w.comps) == 0, "no component: "+label, pos, "there is a component")
							return
						}
						w.compare("reference: "+label, pos, got, w.expect("Type", "T"), typesPkg, "a reference")
						if c.ok(len(w.comps) == 1, "component: "+label, pos, "there are %d components", len(w.comps)) {
							w.compare("component description: "+label, pos, w.comps[0], r.with(want, "Name", "T"), typesPkg, "the component")
						}
					})
				}
			}
		}
	}
	for _, k := range []string{"Signature", "Chan", "Tuple", "TypeParam", "Union"} {
		c.scenario("kind "+k, func() {
			r := c.begin(nil)
			w := c.newTypes(r, true)
			w.packages()
			_, err := w.describe(w.obj("a "+k, k), w.pkgNode(typesPkg))
			c.ok(!r.isNilTerm(err), "not described: "+k, pos, "a %s has a description", k)
			_, err = w.describe(w.declare(typesPkg, "T", w.obj("a "+k, k)), w.pkgNode(typesPkg))
			c.ok(!r.isNilTerm(err) && len(w.comps) == 0, "not a component: "+k, pos, "a named %s has a description", k)
		})
	}
	c.scenario("error", func() {
		r := c.begin(nil)
		w := c.newTypes(r, true)
		w.packages()
		tn := w.obj("error", "TypeName", "Name", "error", "Pkg", r.Zero(ptrTo(c.lib("go/types", "Package")))).a[0]
		got, err := w.describe(w.obj("error", "Named", "Obj", tn, "Underlying", w.obj("interface of error", "Interface")), w.pkgNode(typesPkg))
		c.ok(err.isNil(), "succeeds: error", pos, "there is an error %s", r.Show(err))
		w.compare("description: error", pos, got, w.expect("Type", "error"), "", "the description of error")
		c.ok(len(w.comps) == 0, "components: error", pos, "there is a component for error")
	})
	c.scenario("a component cannot be added", func() {
		r := c.begin(nil)
		w := c.newTypes(r, true)
		w.packages()
		w.fail = true
		_, err := w.describe(w.declare(typesPkg, "T", w.part("x").typ), w.pkgNode(typesPkg))
		c.ok(!r.isNilTerm(err), "failure: adding a component", pos, "a component cannot be added, but there is no error")
		w.fail = false
		w.comps = nil
		_, err = w.describe(w.declare(typesPkg, "T", w.part("x").typ), w.pkgNode(typesPkg))
		c.ok(err.isNil() && len(w.comps) == 1, "again: adding a component", pos, "there are %d components when the type is described again", len(w.comps))
	})
}

func (w *typesWorld) equal(key, pos string, got, want *Term, what string) bool {
	r := w.r
	return r.equal(key, pos, r.Simp(r.resolve(got, r.st), True), r.Simp(r.resolve(want, r.st), True), True, what)
}

func (r *Run) isNilTerm(t *Term) bool { return t == nil || !r.never(True, r.Eq(t, r.nilT)) }

// cycles decides that types that refer to themselves are described once.
func (c *Ctx) cycles() {
	pos := c.p.pos(c.method("astTraversal", "TypeTraverser", "Result"))
	for _, n := range []int{1, 2, 3} {
		for _, fails := range []string{"", "invalid", "other"} {
			label := fmt.Sprintf("cycle of %d types %s", n, fails)
			c.scenario(label, func() {
				r := c.begin(nil)
				w := c.newTypes(r, true)
				w.packages()
				var ts []*Term
				var ps []*part
				for i := 0; i < n; i++ {
					p := w.part(fmt.Sprint("x", i))
					ps = append(ps, p)
					path := []string{typesPkg, otherPkg}[i%2]
					ts = append(ts, w.declare(path, fmt.Sprint("T", i), p.typ))
				}
				refs := 0
				for i, p := range ps {
					p.during = func(k *Call) {
						j := (i + 1) % n
						res := w.within(k, ts[j], w.pkgNode2(k, []string{typesPkg, otherPkg}[i%2]))
						if fails != "" && j == n-1 && j != 0 {
							return
						}
						if res.op != OTuple || !res.a[1].isNil() {
							if fails == "" {
								c.fail("reference in "+label, pos, "a type within itself cannot be described")
							}
							return
						}
						refs++
						w.equal(fmt.Sprintf("reference %d in %s", j, label), pos, r.Simp(r.With(res.a[0], "Package", r.nilT), True), w.expect("Type", fmt.Sprint("T", j)), "a type within itself")
					}
				}
				ps[n-1].err = fails
				_, err := w.describe(ts[0], w.pkgNode(typesPkg))
				for i, p := range ps {
					c.ok(p.asked == 1, fmt.Sprintf("once: %s: %d", label, i), pos, "the underlying type of %d of %d types that refer to each other is described %d times", i, n, p.asked)
				}
				if fails != "" {
					if n == 1 {
						c.ok(!r.isNilTerm(err), "failure: "+label, pos, "there is no error")
					}
					// What failed leaves nothing behind.
					ps[n-1].err = ""
					w.comps = nil
					fails = ""
					_, err = w.describe(ts[0], w.pkgNode(typesPkg))
				}
				c.ok(err.isNil(), "succeeds: "+label, pos, "there is an error %s", r.Show(err))
				c.ok(refs >= n, "references: "+label, pos, "there are %d references", refs)
				seen := map[string]bool{}
				for _, x := range w.comps {
					s, _ := w.sel(x, "Name").str()
					seen[s] = true
				}
				c.ok(len(seen) == n, "components: "+label, pos, "there are components for %d of %d types", len(seen), n)
			})
		}
	}
}

// pkgNode2 is the node of a package while something is being described.
func (w *typesWorld) pkgNode2(k *Call, path string) *Term {
	r := w.r
	w.nf++
	fr := *k.frame
	fr.ctx = r.ctx(k.frame.ctx, fmt.Sprintf("node %d", w.nf))
	f := w.c.method("astTraversal", "PackageManager", "FindOrAdd")
	pm := r.Simp(r.Sel(r.deref(k.St, w.trav), "Packages", nil), True)
	res, _ := r.apply(&fr, k.In, r.intern(&Term{op: OClosure, fn: f}), []*Term{pm, r.Str(path)}, f.Signature, k.St, k.G)
	return r.Simp(res, k.G)
}

// typeDocs decides the documentation of named types.
func (c *Ctx) typeDocs() {
	pos := c.p.pos(c.method("astTraversal", "TypeTraverser", "Doc"))
	for _, group := range []bool{false, true} {
		for _, own := range []bool{false, true} {
			for _, in := range []string{fileA, fileB} {
				label := fmt.Sprintf("documentation: %v %v %s", group, own, in)
				c.scenario(label, func() {
					r := c.begin(nil)
					w := c.newTypes(r, true)
					w.at = in
					var gd, td *Term
					want := ""
					if group {
						gd, want = w.doc("about the group"), "about the group"
					}
					if own {
						td, want = w.doc("about T"), "about T"
					}
					d1 := w.gen("of S", token.TYPE, w.doc("about S"), w.typeSpec("S", nil, nil))
					d := w.gen("of T", token.TYPE, gd, w.typeSpec("R", w.doc("about R"), nil), w.typeSpec("T", td, nil))
					d2 := w.gen("of U", token.TYPE, nil, w.typeSpec("U", w.doc("about U"), nil))
					w.at = map[string]string{fileA: fileB, fileB: fileA}[in]
					d3 := w.gen("of V", token.TYPE, w.doc("about V"), w.typeSpec("V", w.doc("about V itself"), nil))
					var fs []*Term
					if in == fileA {
						fs = []*Term{w.source(fileA, d1, d, d2), w.source(fileB, d3)}
					} else {
						fs = []*Term{w.source(fileA, d3), w.source(fileB, d1, d, d2)}
					}
					w.pkg(typesPkg, fs...)
					w.at = fileO
					w.pkg(otherPkg, w.source(fileO, w.gen("of T in other", token.TYPE, w.doc("about the other T"), w.typeSpec("T", nil, nil))))
					for _, x := range []struct{ path, name, doc string }{{typesPkg, "T", want}, {typesPkg, "S", "about S"}, {typesPkg, "R", "about R"}, {typesPkg, "U", "about U"}, {typesPkg, "V", "about V itself"}, {typesPkg, "W", ""}, {otherPkg, "T", "about the other T"}, {otherPkg, "S", ""}} {
						w.comps = nil
						w.describe(w.declare(x.path, x.name, w.part("x").typ), w.pkgNode(otherPkg))
						if c.ok(len(w.comps) == 1, label+": component "+x.name, pos, "there are %d components", len(w.comps)) {
							w.equal(label+": "+x.path+"."+x.name, pos, w.sel(w.comps[0], "Doc"), r.Str(x.doc), "the documentation of "+x.name)
						}
					}
				})
			}
		}
	}
}

// sfield is a field of a struct.
type sfield struct {
	name     string
	exported bool
	embedded bool
	err      string
	foreign  bool
	doc      string // "", "own", "other package"
}

// structs decides the description of structs.
func (c *Ctx) structs() {
	pos := c.p.pos(c.method("astTraversal", "TypeTraverser", "Result"))
	kinds := []sfield{
		{exported: true}, {exported: true, doc: "own"}, {exported: true, foreign: true, doc: "own"}, {exported: true, foreign: true, doc: "other package"}, {exported: true, embedded: true},
		{exported: true, embedded: true, foreign: true}, {doc: "own"}, {embedded: true}, {exported: true, err: "invalid", doc: "own"}, {err: "invalid"}, {exported: true, err: "other"}, {exported: true, doc: "second"}, {exported: true, doc: "shared line"},
	}
	run := func(label string, named bool, fs ...sfield) {
		c.scenario("struct: "+label, func() {
			r := c.begin(nil)
			w := c.newTypes(r, true)
			idt := ptrTo(c.lib("go/ast", "Ident"))
			group := ptrTo(c.lib("go/ast", "CommentGroup"))
			fieldsOf := map[string][]*Term{}
			var vars []*Term
			kv := []any{"NumFields", len(fs)}
			want := []any{}
			fails := false
			var ps []*part
			for i, f := range fs {
				f.name = fmt.Sprintf("f%d", i)
				if f.exported {
					f.name = fmt.Sprintf("F%d", i)
				}
				path, file := typesPkg, fileA
				if f.doc == "other package" {
					path, file = otherPkg, fileO
				}
				w.at = file
				id := w.ident(fmt.Sprintf("field %d", i), f.name)
				doc := r.Zero(group)
				wantDoc := ""
				if f.doc != "" {
					wantDoc = fmt.Sprintf("about field %d", i)
					doc = w.doc(wantDoc)
				}
				names := []*Term{id}
				switch {
				case f.embedded:
					names = nil
				case f.doc == "second":
					names = []*Term{w.ident(fmt.Sprintf("name before %d", i), "Before"), id}
				case f.doc == "shared line":
					names = []*Term{id, w.ident(fmt.Sprintf("name after %d", i), "After")}
				}
				ft := w.ident(fmt.Sprintf("type of field %d", i), "X")
				fn := w.node(fmt.Sprintf("declaration of field %d", i), "Field", "", 8, "Names", w.list(idt, names...), "Doc", doc, "Type", w.as(ft))
				if len(names) > 0 {
					w.pos[fn] = w.pos[names[0]]
				}
				w.kids[fn] = append(append([]*Term{}, names...), ft)
				fieldsOf[file] = append(fieldsOf[file], fn)
				p := w.part(fmt.Sprint("of field ", i))
				p.err, p.foreign = f.err, f.foreign
				ps = append(ps, p)
				uid := f.name
				if !f.exported {
					uid = path + "." + f.name
				}
				tag := fmt.Sprintf("tag %d", i)
				v := w.obj(fmt.Sprintf("field %d", i), "Var", "Name", f.name, "Id", uid, "Exported", f.exported, "Embedded", f.embedded, "Anonymous", f.embedded, "IsField", true,
					"Type", p.typ, "Pos", w.pos[id], "Pkg", w.obj("package "+path, "Package", "Path", path).a[0]).a[0]
				vars = append(vars, v)
				kv = append(kv, fmt.Sprintf("Field#%d", i), v, fmt.Sprintf("Tag#%d", i), tag)
				if !f.exported {
					continue
				}
				if f.err == "other" {
					fails = true
				}
				if f.err != "" {
					continue
				}
				tags := w.tags(r.Str(f.name), r.Str(tag))
				want = append(want, f.name, []any{p, f.embedded, tags.a[0], tags.a[1], wantDoc})
			}
			st := w.obj("struct type", "Struct", kv...)
			mk := func(file string) *Term {
				w.at = file
				fl := w.node("fields in "+file, "FieldList", "", 8, "List", w.list(ptrTo(c.lib("go/ast", "Field")), fieldsOf[file]...))
				w.kids[fl] = fieldsOf[file]
				s := w.node("struct in "+file, "StructType", "", 8, "Fields", fl)
				w.kids[s] = []*Term{fl}
				return w.source(file, w.gen("of S in "+file, token.TYPE, nil, w.typeSpec("S", nil, s)))
			}
			fa, fo := mk(fileA), mk(fileO)
			w.pkg(typesPkg, fa)
			w.pkg(otherPkg, fo)
			node := w.pkgNode(typesPkg)
			r.eval(c.method("astTraversal", "PackageManager", "Get"), []*Term{w.manager(), node})
			check := func(got *Term, name string) {
				m := r.mapT(fieldType(w.rt, "StructFields"))
				for i := 0; i < len(want); i += 2 {
					x := want[i+1].([]any)
					d := w.desc(x[0].(*part), node, r.Str(""))
					d = r.with(d, "IsEmbedded", x[1], "StructFieldBindingTags", x[2], "StructFieldValidationTags", x[3], "Doc", x[4])
					m = r.MapUpd(m, r.Str(want[i].(string)), d)
				}
				if es, ok := mapEntries(r.Simp(r.deref(r.st, r.Sel(got, "StructFields", nil)), True)); ok {
					n := r.mapT(fieldType(w.rt, "StructFields"))
					for k, v := range es {
						n = r.MapUpd(n, k, v)
					}
					got = r.With(got, "StructFields", n)
				}
				w.compare("description: struct: "+label, pos, got, w.expect("Type", "struct", "StructFields", m, "Name", name), "*", "the description of a struct")
			}
			if named {
				got, err := w.describe(w.declare(typesPkg, "S", st), w.pkgNode(otherPkg))
				if fails {
					c.ok(!r.isNilTerm(err) && len(w.comps) == 0, "failure: struct: "+label, pos, "a field cannot be described, but there is no error")
					return
				}
				c.ok(err.isNil(), "succeeds: struct: "+label, pos, "there is an error %s", r.Show(err))
				w.compare("reference: struct: "+label, pos, got, w.expect("Type", "S"), typesPkg, "a reference")
				if c.ok(len(w.comps) == 1, "component: struct: "+label, pos, "there are %d components", len(w.comps)) {
					check(w.comps[0], "S")
				}
				return
			}
			got, err := w.describe(st, node)
			if fails {
				c.ok(!r.isNilTerm(err), "failure: struct: "+label, pos, "a field cannot be described, but there is no error")
				return
			}
			c.ok(err.isNil(), "succeeds: struct: "+label, pos, "there is an error %s", r.Show(err))
			check(got, "")
		})
	}
	for i, a := range kinds {
		run(fmt.Sprint(i), false, a)
		run(fmt.Sprint(i, " named"), true, a)
		for j, b := range kinds {
			run(fmt.Sprint(i, " ", j), (i+j)%2 == 0, a, b)
			run(fmt.Sprint(i, " ", j, " 0"), (i+j)%3 == 0, a, b, kinds[0])
		}
	}
}

// enums decides the values of enumerations.
func (c *Ctx) enums() {
	pos := c.p.pos(c.method("astTraversal", "TypeTraverser", "Result"))
	conv := func(r *Run, k types.BasicKind, v constant.Value) *Term {
		t := func(k types.BasicKind, v constant.Value) *Term { return r.Iface(types.Typ[k], r.Const(v)) }
		switch k {
		case types.String:
			return t(types.String, v)
		case types.Bool:
			return r.Iface(types.Typ[types.Bool], r.Bool(boolBDD(constant.BoolVal(v))))
		case types.Int:
			return t(types.Int, constant.ToInt(v))
		case types.Int8, types.Int16, types.Int32, types.Int64:
			return t(types.Int64, constant.ToInt(v))
		case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64:
			return t(types.Uint64, constant.ToInt(v))
		case types.Float32:
			f, _ := constant.Float32Val(v)
			return t(types.Float32, constant.MakeFloat64(float64(f)))
		case types.Float64:
			f, _ := constant.Float64Val(v)
			return t(types.Float64, constant.MakeFloat64(f))
		}
		return nil
	}
	sets := map[types.BasicKind][]constant.Value{
		types.String:  {constant.MakeString("a"), constant.MakeString(""), constant.MakeString("quoted \" text")},
		types.Bool:    {constant.MakeBool(true), constant.MakeBool(false)},
		types.Float64: {constant.MakeFloat64(0.5), constant.MakeInt64(3), constant.MakeFloat64(-2.25)},
		types.Float32: {constant.MakeFloat64(0.5), constant.MakeInt64(3)},
		types.Uint64:  {constant.MakeUint64(1<<64 - 1), constant.MakeInt64(0)},
	}
	for k := types.Int; k <= types.Int64; k++ {
		sets[k] = []constant.Value{constant.MakeInt64(0), constant.MakeInt64(-5), constant.MakeInt64(100)}
	}
	for k := types.Uint; k < types.Uint64; k++ {
		sets[k] = []constant.Value{constant.MakeInt64(0), constant.MakeInt64(200)}
	}
	var order []types.BasicKind
	for k := types.Bool; k <= types.String; k++ {
		if sets[k] != nil {
			order = append(order, k)
		}
	}
	for _, k := range order {
		// How each constant is declared: with its type and a literal, with its type and another expression, with neither.
		for _, how := range []string{"literal", "expression", "implicit", "grouped", "two files", "alias"} {
			label := fmt.Sprintf("enum: %s: %s", types.Typ[k].Name(), how)
			c.scenario(label, func() {
				r := c.begin(nil)
				w := c.newTypes(r, true)
				b := w.basic(types.Typ[k])
				e := w.declare(typesPkg, "E", b)
				e2 := w.declare(typesPkg, "E2", b)
				foreign := w.declare(otherPkg, "E", b)
				pk := w.obj("package "+typesPkg, "Package", "Path", typesPkg).a[0]
				idt := ptrTo(c.lib("go/ast", "Ident"))
				n := 0
				cons := func(name string, t *Term, v constant.Value) *Term {
					n++
					id := w.ident(fmt.Sprintf("constant %d", n), name)
					w.objs[id] = w.obj(fmt.Sprintf("constant %d", n), "Const", "Name", name, "Id", name, "Type", t, "Val", w.constant(v), "Pkg", pk, "Exported", token.IsExported(name))
					return id
				}
				spec := func(how string, tname string, vs []constant.Value, ids ...*Term) *Term {
					n++
					var es []*Term
					for i, v := range vs {
						if how == "implicit" {
							break
						}
						x := w.node(fmt.Sprintf("value %d of %d", i, n), "CallExpr", "", 9)
						if how == "literal" {
							tok := map[constant.Kind]token.Token{constant.String: token.STRING, constant.Int: token.INT, constant.Float: token.FLOAT, constant.Bool: token.IDENT}[v.Kind()]
							x = w.node(fmt.Sprintf("literal %d of %d", i, n), "BasicLit", "", 9, "Value", v.ExactString(), "Kind", int(tok))
						}
						es = append(es, w.as(x))
					}
					kv := []any{"Names", w.list(idt, ids...), "Values", w.list(c.lib("go/ast", "Expr"), es...)}
					if how != "implicit" {
						kv = append(kv, "Type", w.as(w.ident(fmt.Sprintf("type of %d", n), tname)))
					}
					return w.node(fmt.Sprintf("constants %d", n), "ValueSpec", "", 9, kv...)
				}
				vs := sets[k]
				how1 := how
				if how != "literal" && how != "implicit" {
					how1 = "expression"
				}
				ct := e
				if how == "alias" {
					ct = w.obj("alias of E", "Alias", "Rhs", e)
				}
				decls := map[string][]*Term{}
				var want []*Term
				var specs []*Term
				at := fileA
				for i, v := range vs {
					if how == "two files" && i > 0 {
						at = fileB
					}
					w.at = at
					name := fmt.Sprint("C", i)
					if i == 1 {
						name = "c1"
					}
					id := cons(name, ct, v)
					want = append(want, conv(r, k, v))
					if how == "grouped" {
						blank := cons("_", e, vs[0])
						other := cons(fmt.Sprint("Second", i), e, vs[0])
						want = append(want, conv(r, k, vs[0]))
						specs = append(specs, spec("expression", "E", []constant.Value{v, vs[0], vs[0]}, id, blank, other))
						continue
					}
					decls[at] = append(decls[at], w.gen(fmt.Sprintf("of constant %d", i), token.CONST, nil, spec(how1, "E", []constant.Value{v}, id)))
				}
				if how == "grouped" {
					decls[at] = append(decls[at], w.gen("of constants", token.CONST, nil, specs...))
				}
				// What does not belong to the enumeration.
				w.at = at
				v := vs[0]
				n++
				vid := w.ident("variable", "V")
				w.objs[vid] = w.obj("variable", "Var", "Name", "V", "Type", e, "Pkg", pk, "Exported", true)
				vspec := w.node("variables", "ValueSpec", "", 9, "Names", w.list(idt, vid), "Values", w.list(c.lib("go/ast", "Expr")), "Type", w.as(w.ident("type of the variable", "E")))
				decls[at] = append(decls[at], w.gen("of another type", token.CONST, nil, spec("literal", "E2", []constant.Value{v}, cons("X1", e2, v))),
					w.gen("of another package", token.CONST, nil, spec("expression", "other", []constant.Value{v}, cons("X2", foreign, v))),
					w.gen("of no type", token.CONST, nil, spec("implicit", "", nil, cons("X3", b, v))),
					w.gen("of variables", token.VAR, nil, vspec),
					w.gen("of types", token.TYPE, nil, w.typeSpec("E", nil, nil)))
				fa := w.in1(fileA, decls[fileA])
				fb := w.in1(fileB, decls[fileB])
				w.pkg(typesPkg, fa, fb)
				w.at = fileO
				w.pkg(otherPkg, w.source(fileO))
				got, err := w.describe(e, w.pkgNode(otherPkg))
				c.ok(err.isNil(), "succeeds: "+label, pos, "there is an error %s", r.Show(err))
				w.compare("reference: "+label, pos, got, w.expect("Type", "E"), typesPkg, "a reference")
				if c.ok(len(w.comps) == 1, "component: "+label, pos, "there are %d components", len(w.comps)) {
					wantList := r.list(types.NewInterfaceType(nil, nil), want...)
					w.compare("values: "+label, pos, w.comps[0], w.expect("Type", types.Typ[k].Name(), "Name", "E", "EnumValues", wantList), typesPkg, "the enumeration")
				}
				// The same basic type without a name is not an enumeration.
				got, _ = w.describe(b, w.pkgNode(typesPkg))
				w.compare("no values: "+label, pos, got, w.expect("Type", types.Typ[k].Name()), "*", "the basic type")
			})
		}
	}
}

func (w *typesWorld) in1(file string, decls []*Term) *Term {
	at := w.at
	w.at = file
	f := w.source(file, decls...)
	w.at = at
	return f
}

func init() {
	register(&Rule{
		ID: "P15", Min: 2000,
		What:      "abstract interpretation of the description of a type by induction over its structure: every kind of type, with and without a name, made of arbitrary types with arbitrary descriptions or failures",
		NotCovers: "the instances of a generic type (they share a name), the inner types of collections of collections without a name",
		Run: func(c *Ctx) {
			c.typeKinds()
			c.cycles()
			c.typeDocs()
			c.structs()
			c.enums()
		},
	})
}
