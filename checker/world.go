package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
)

// world is an abstract program that the input analyses: a package, its files and their syntax trees, of which the shape
// is given and everything else is arbitrary.
type world struct {
	c     *Ctx
	r     *Run
	files map[*Term]*Term   // files of a package
	kids  map[*Term][]*Term // nodes below a node
	pos   map[*Term]int     // position of a node
	lines map[int]int
	names map[int]string
	pkgs  map[string]*Term           // by path
	objs  map[*Term]*Term            // objects of identifiers
	typs  map[*Term]*Term            // types of expressions
	meth  map[*Term]map[string]*Term // answers of the methods of objects
	at    string                     // file of nodes without one
	infos map[*Term]string           // packages by their information
	owner map[string]string          // packages of files
	scope map[*Term]map[string]*Term // what is declared in a scope
	npos  int
	nin   int
	asked []string // packages that were loaded
	vals  map[*Term]constant.Value
}

// lib is a type of another package.
func (c *Ctx) lib(path, name string) types.Type {
	for _, pk := range c.p.Prog.AllPackages() {
		if pk.Pkg.Path() == path {
			if o := pk.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	stop("there is no type %s in %s", name, path)
	return nil
}

func (c *Ctx) newWorld(r *Run) *world {
	// A type of which nothing is known is not an alias.
	old := r.fact
	r.fact = func(t *Term) *Term {
		if t.op == OAtomIs && isAlias(t.typ) {
			return r.Bool(False)
		}
		if old != nil {
			return old(t)
		}
		return nil
	}
	return &world{c: c, r: r, files: map[*Term]*Term{}, kids: map[*Term][]*Term{}, pos: map[*Term]int{}, lines: map[int]int{}, names: map[int]string{}, pkgs: map[string]*Term{}, objs: map[*Term]*Term{}, typs: map[*Term]*Term{}, meth: map[*Term]map[string]*Term{}, infos: map[*Term]string{}, owner: map[string]string{}, scope: map[*Term]map[string]*Term{}, npos: 100}
}

// isAlias reports whether a type is the one of aliases, or an interface for it.
func isAlias(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		if n, ok := p.Elem().(*types.Named); ok {
			return n.Obj().Name() == "Alias" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "go/types"
		}
	}
	i, ok := t.Underlying().(*types.Interface)
	for n := 0; ok && n < i.NumMethods(); n++ {
		if i.Method(n).Name() == "Rhs" {
			return true
		}
	}
	return false
}

// node is a node of a syntax tree at a line of a file.
func (w *world) node(label, typ, file string, line int, kv ...any) *Term {
	t := w.c.lib("go/ast", typ)
	n := w.r.cellOf("node "+label, t, w.r.zero(t, kv...))
	if file == "" {
		file = w.at
	}
	if w.pos[n] != 0 {
		stop("there are two nodes %s", label)
	}
	w.npos++
	w.pos[n] = w.npos
	w.lines[w.npos] = line
	w.names[w.npos] = file
	return n
}

// as is a node as a value of an interface.
func (w *world) as(n *Term) *Term { return w.r.Iface(n.ty, n) }

func (w *world) ident(label, name string) *Term {
	return w.node("ident "+label, "Ident", "", 0, "Name", name)
}

// pkg is a loaded package with these files.
func (w *world) pkg(path string, files ...*Term) *Term {
	r := w.r
	pt := w.c.lib("golang.org/x/tools/go/packages", "Package")
	ft := w.c.lib("go/ast", "File")
	info := r.cellOf("info of "+path, w.c.lib("go/types", "Info"), r.RootT("info value of "+path, w.c.lib("go/types", "Info")))
	w.infos[info] = path
	for _, f := range files {
		w.owner[w.names[w.pos[f]]] = path
	}
	p := r.cellOf("package "+path, pt, r.with(r.RootT("package value "+path, pt), "Errors", r.Zero(fieldType(pt, "Errors")), "Syntax", r.list(ptrTo(ft), files...), "PkgPath", path,
		"Fset", r.RootT("positions of "+path, fieldType(pt, "Fset")), "TypesInfo", info, "Imports", r.Zero(fieldType(pt, "Imports")), "Types", w.def(w.obj("package "+path, "Package", "Path", path).a[0], "Scope", w.scopeOf("package "+path, "go/types"))))
	w.pkgs[path] = p
	return p
}

// hook answers the calls of the analysis about the program.
func (w *world) hook(k *Call) (*Term, bool) {
	r := w.r
	switch {
	case k.Name == "golang.org/x/tools/go/packages.Load":
		as := k.resolved(r.Interp)
		l, ok := r.listOf(as[1])
		if !ok || len(l) != 1 {
			stop("packages %s are loaded", r.Show(as[1]))
		}
		path, _ := l[0].str()
		w.asked = append(w.asked, path)
		p := w.pkgs[path]
		if p == nil {
			stop("the package %q is loaded", path)
		}
		return r.Tuple(w.list(p.ty, p), r.nilT), true
	case k.Name == "go/types.Unalias":
		if t := k.Raw[0]; t.op != OIface || !isAlias(t.typ) {
			return t, true
		}
	case k.Name == "go/ast.Inspect":
		w.inspect(k, k.Raw[0], k.Raw[1])
		return nil, true
	case strings.HasPrefix(k.Name, "(*go/ast.") && strings.HasSuffix(k.Name, ").Pos"):
		n := w.pos[k.Raw[0]]
		if n == 0 {
			stop("the position of %s is asked for", r.Show(k.Raw[0]))
		}
		return r.Int(int64(n)), true
	case k.Name == "(*go/token.FileSet).Position":
		n, ok := k.Raw[1].int()
		if !ok {
			stop("the position %s is asked for", r.Show(k.Raw[1]))
		}
		t := w.c.lib("go/token", "Position")
		return r.zero(t, "Filename", w.names[int(n)], "Line", w.lines[int(n)], "Column", int(n), "Offset", int(n)), true
	case k.Name == "(*go/types.Scope).Lookup" || k.Name == "(*go/ast.Scope).Lookup":
		m := w.scope[base(k.Raw[0])]
		n, ok := k.Raw[1].str()
		if m == nil || !ok {
			stop("%s is looked up in %s", r.Show(k.Raw[1]), r.Show(k.Raw[0]))
		}
		if o := m[n]; o != nil {
			return o, true
		}
		return r.nilT, true
	case k.Name == "(*go/types.Info).ObjectOf":
		o := w.objs[k.Raw[1]]
		if o == nil || !w.knows(k.Raw[0], k.Raw[1]) {
			return r.nilT, true
		}
		return o, true
	case k.Name == "(*go/types.Info).TypeOf":
		n := k.Raw[1]
		if n.op == OIface {
			n = n.a[0]
		}
		o := w.typs[n]
		if o == nil || !w.knows(k.Raw[0], n) {
			return r.nilT, true
		}
		return o, true
	}
	if strings.HasPrefix(k.Name, "go/constant.") && len(k.Raw) == 1 {
		if v := w.vals[k.Raw[0]]; v != nil {
			return w.constantCall(strings.TrimPrefix(k.Name, "go/constant."), k.Raw[0], v)
		}
	}
	if k.Name == "(go/token.Position).String" {
		if f, ok := r.Sel(k.Raw[0], "Filename", nil).str(); ok {
			l, _ := r.Sel(k.Raw[0], "Line", nil).int()
			n, _ := r.Sel(k.Raw[0], "Column", nil).int()
			return r.Str(fmt.Sprintf("%s:%d:%d", f, l, n)), true
		}
	}
	if i := strings.LastIndex(k.Name, "."); i > 0 && len(k.Raw) == 2 {
		if n, ok := k.Raw[1].int(); ok {
			if a := w.meth[base(k.Raw[0])][fmt.Sprintf("%s#%d", k.Name[i+1:], n)]; a != nil {
				return a, true
			}
		}
	}
	if i := strings.LastIndex(k.Name, "."); i > 0 && len(k.Raw) > 0 {
		if a := w.meth[base(k.Raw[0])][k.Name[i+1:]]; a != nil {
			return a, true
		}
	}
	return nil, false
}

// constant is a value of the type checker.
func (w *world) constant(v constant.Value) *Term {
	t := w.r.RootT(fmt.Sprintf("constant %s %s", v.Kind(), v.ExactString()), w.c.lib("go/constant", "Value"))
	if w.vals == nil {
		w.vals = map[*Term]constant.Value{}
	}
	w.vals[t] = v
	return w.def(t, "Kind", int(v.Kind()), "ExactString", v.ExactString(), "String", v.String())
}

// constantCall is a call of a function of go/constant.
func (w *world) constantCall(name string, t *Term, v constant.Value) (*Term, bool) {
	r := w.r
	switch name {
	case "StringVal":
		if v.Kind() != constant.String {
			stop("the string of %s is asked for", v)
		}
		return r.Str(constant.StringVal(v)), true
	case "BoolVal":
		if v.Kind() != constant.Bool {
			stop("the truth of %s is asked for", v)
		}
		return r.Bool(boolBDD(constant.BoolVal(v))), true
	case "Int64Val", "Uint64Val":
		if v.Kind() != constant.Int {
			stop("the integer of %s is asked for", v)
		}
		if name == "Int64Val" {
			n, ok := constant.Int64Val(v)
			return r.Tuple(r.Const(constant.MakeInt64(n)), r.Bool(boolBDD(ok))), true
		}
		n, ok := constant.Uint64Val(v)
		return r.Tuple(r.Const(constant.MakeUint64(n)), r.Bool(boolBDD(ok))), true
	case "Float64Val", "Float32Val":
		if v.Kind() != constant.Int && v.Kind() != constant.Float {
			stop("the number of %s is asked for", v)
		}
		if name == "Float64Val" {
			f, ok := constant.Float64Val(v)
			return r.Tuple(r.Const(constant.MakeFloat64(f)), r.Bool(boolBDD(ok))), true
		}
		f, ok := constant.Float32Val(v)
		return r.Tuple(r.Const(constant.MakeFloat64(float64(f))), r.Bool(boolBDD(ok))), true
	case "ToInt":
		return w.constant(constant.ToInt(v)), true
	case "ToFloat":
		return w.constant(constant.ToFloat(v)), true
	case "Sign":
		return r.Int(int64(constant.Sign(v))), true
	}
	return nil, false
}

// knows: the information of a package is only about the nodes of its files.
func (w *world) knows(info, n *Term) bool {
	o := w.owner[w.names[w.pos[n]]]
	return o == "" || o == w.infos[info]
}

func (w *world) list(t types.Type, xs ...*Term) *Term { return w.r.list(t, xs...) }

// inspect applies a function to a node and to the nodes below it, as ast.Inspect does.
func (w *world) inspect(k *Call, n, f *Term) {
	r := w.r
	if n.op == OIface {
		n = n.a[0]
	}
	w.nin++
	if w.nin > 50000 {
		stop("the syntax tree is walked without end")
	}
	visit := func(x *Term) bool {
		w.nin++
		fr := *k.frame
		fr.ctx = r.ctx(k.frame.ctx, fmt.Sprintf("inspect %d", w.nin))
		res, g := r.apply(&fr, k.In, f, []*Term{x}, nil, k.St, k.G)
		if !r.must(k.G, g) {
			stop("a function that is applied to a node may not return")
		}
		res = r.Simp(r.resolve(res, k.St), k.G)
		if res.op != OBool {
			stop("whether to continue below a node is not known: %s", r.Show(res))
		}
		switch {
		case res.b == True || r.must(k.G, res.b):
			return true
		case r.never(k.G, res.b):
			return false
		}
		stop("whether to continue below a node is not known: %s", r.ShowG(res.b))
		return false
	}
	if visit(w.as(n)) {
		for _, x := range w.kids[n] {
			w.inspect(k, x, f)
		}
		visit(r.nilT)
	}
}

// def gives the answers of the methods of an object.
func (w *world) def(t *Term, kv ...any) *Term {
	b := base(t)
	if w.meth[b] == nil {
		w.meth[b] = map[string]*Term{}
	}
	for i := 0; i+1 < len(kv); i += 2 {
		w.meth[b][kv[i].(string)] = w.r.val(kv[i+1])
	}
	return t
}

// base is what an address is in.
func base(t *Term) *Term {
	for t.op == OIface || t.op == OAddr {
		t = t.a[0]
	}
	return t
}

// obj is a value of a type of go/types, of which the methods give these answers.
func (w *world) obj(label, typ string, kv ...any) *Term {
	t := ptrTo(w.c.lib("go/types", typ))
	o := w.r.intern(&Term{op: OAlloc, s: typ + " " + label, ty: t})
	return w.def(w.r.Iface(t, o), kv...)
}

// named is a named type.
func (w *world) named(path, name string) *Term {
	pk := w.obj("package "+path, "Package", "Path", path).a[0]
	tn := w.obj(path+"."+name, "TypeName", "Name", name, "Pkg", pk).a[0]
	return w.obj(path+"."+name, "Named", "Obj", tn)
}

// pointer is a pointer type.
func (w *world) pointer(t *Term, name string) *Term {
	return w.obj(name, "Pointer", "Elem", t, "String", "*"+name)
}

// scopeOf is the scope of a package or file.
func (w *world) scopeOf(label, lib string) *Term {
	s := w.r.RootT("scope of "+label, ptrTo(w.c.lib(lib, "Scope")))
	if w.scope[s] == nil {
		w.scope[s] = map[string]*Term{}
	}
	return s
}

// declared is a node that is declared in its file, and the object of the file for it.
func (w *world) declared(path, name string, decl, ident *Term) *Term {
	file := w.names[w.pos[decl]]
	ot := w.c.lib("go/ast", "Object")
	o := w.r.cellOf("object "+file+" "+name, ot, w.r.zero(ot, "Name", name, "Decl", w.as(decl)))
	w.scopeOf("package "+path, "go/types")
	w.scope[w.scopeOf("package "+path, "go/types")][name] = w.obj(path+"."+name+" in "+file, "Func", "Name", name, "Pos", w.pos[ident])
	w.scope[w.scopeOf("file "+file, "go/ast")][name] = o
	return o
}
