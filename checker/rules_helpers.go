package main

import (
	"fmt"
	"go/types"
)

// Rules about functions that get the context of a handler.

// prog is a program of functions that take the context.
type prog struct {
	*gin
	files   []string
	of      map[string]string      // packages of files
	imports map[string][][3]string // of files: alias, path and name of the package
	fns     []*progFn
}

type progFn struct {
	name, file, param string
	node, body, obj   *Term
	nctx              int
}

const (
	fileLib   = "/work/lib/l.go"
	fileLibB  = "/work/lib/b.go"
	fileUtil  = "/work/util/u.go"
	fileYUtil = "/deps/y/util/u.go"
	fileVer   = "/deps/y/ver/v.go"
	fileX     = "/work/x/x.go"
)

func (c *Ctx) newProg(r *Run) *prog {
	r.recLimit, r.mustEnd = 12, true
	p := &prog{gin: c.newGin(r), of: map[string]string{ginFile: ginApp, ginFile2: ginApp, fileLib: "example.com/app/lib", fileLibB: "example.com/app/lib", fileUtil: "example.com/app/util", fileYUtil: "example.com/y/util", fileVer: "example.com/y/ver/v2", fileX: "example.com/app/x"}}
	p.files = []string{ginFile, ginFile2, fileLib, fileLibB, fileUtil, fileYUtil, fileVer, fileX}
	p.imports = map[string][][3]string{
		// The same names are different packages in the two files of the handlers.
		ginFile:   {{"", ginPath, "gin"}, {"", "example.com/app/lib", "lib"}, {"x", "example.com/app/util", "util"}, {"util", "example.com/y/util", "util"}, {"", "example.com/y/ver/v2", "ver"}},
		ginFile2:  {{"", "example.com/app/util", "util"}, {"lib", "example.com/y/util", "util"}, {"", "example.com/app/x", "x"}, {"v2", "example.com/app/lib", "lib"}, {"", ginPath, "gin"}},
		fileLib:   {{"", ginPath, "gin"}, {"u", "example.com/app/util", "util"}, {"", "example.com/y/util", "util"}},
		fileLibB:  {{"", ginPath, "gin"}, {"", "example.com/app/util", "util"}, {"u", "example.com/y/util", "util"}},
		fileUtil:  {{"", ginPath, "gin"}, {"h", ginApp, "handlers"}, {"", "example.com/app/lib", "lib"}},
		fileYUtil: {{"", ginPath, "gin"}, {"", "example.com/y/ver/v2", "ver"}},
		fileVer:   {{"", ginPath, "gin"}, {"lib", "example.com/app/lib", "lib"}},
	}
	return p
}

// fn declares a function, of which the context is the parameter at an index.
func (p *prog) fn(file, name, param string, at int) *progFn {
	w := p.gin
	f := &progFn{name: name, file: file, param: param, nctx: at}
	w.in(file, func() {
		l := file + " " + name
		ft := w.c.lib("go/ast", "Field")
		var params []*Term
		for i := 0; i <= at; i++ {
			t := w.ident(fmt.Sprintf("%s parameter type %d", l, i), "T")
			n := fmt.Sprintf("other%d", i)
			w.typs[t] = w.named("example.com/app/types", "Context")
			if i%2 == 1 {
				w.typs[t] = w.pointer(w.named("example.com/app/types", "Context"), "example.com/app/types.Context")
			}
			if i == at {
				w.typs[t], n = w.ctxType, param
			}
			params = append(params, w.node(fmt.Sprintf("%s parameter %d", l, i), "Field", file, 7, "Names", w.list(ptrTo(w.c.lib("go/ast", "Ident")), w.ident(fmt.Sprintf("%s parameter %d", l, i), n)), "Type", w.as(t)))
		}
		typ := w.node(l+" type", "FuncType", file, 7, "Params", w.node(l+" parameters", "FieldList", file, 7, "List", w.list(ptrTo(ft), params...)))
		f.body = w.node(l+" body", "BlockStmt", file, 7)
		id := w.ident(l+" name", name)
		f.node = w.node(l, "FuncDecl", file, 7, "Name", id, "Type", typ, "Body", f.body)
		w.kids[f.node] = []*Term{f.body}
		f.obj = w.declared(p.of[file], name, f.node, id)
	})
	p.fns = append(p.fns, f)
	return f
}

// does gives the calls in the body of a function.
func (p *prog) does(f *progFn, calls ...func(f *progFn) *Term) {
	p.in(f.file, func() {
		for _, c := range calls {
			p.kids[f.body] = append(p.kids[f.body], c(f))
		}
	})
}

// reads is a call of the context.
func (p *prog) reads(label string) func(f *progFn) *Term {
	return func(f *progFn) *Term { return p.called(label) }
}

// calls is a call of another function with the context.
func (p *prog) calls(g *progFn, kids ...func(f *progFn) *Term) func(f *progFn) *Term {
	return func(f *progFn) *Term {
		w := p.gin
		p.nin++
		l := fmt.Sprintf("call of %s in %s %d", g.name, f.file, p.nin)
		var fun *Term
		id := w.ident(l+" name", g.name)
		w.objs[id] = w.obj(l, "Func", "Name", g.name, "Type", w.obj(l+" signature", "Signature", "Recv", w.r.Zero(ptrTo(w.c.lib("go/types", "Var")))))
		switch {
		case g.file == f.file:
			w.r.st.m[id] = w.r.with(w.r.st.m[id], "Obj", g.obj)
			fun = w.as(id)
		case p.of[g.file] == p.of[f.file]:
			fun = w.as(id)
		default:
			alias := ""
			for _, im := range p.imports[f.file] {
				if im[1] == p.of[g.file] {
					if alias = im[0]; alias == "" {
						alias = im[2]
					}
				}
			}
			if alias == "" {
				stop("%s does not import %s", f.file, p.of[g.file])
			}
			fun = w.as(w.node(l+" selector", "SelectorExpr", w.at, 10, "X", w.as(w.ident(l+" package", alias)), "Sel", id))
		}
		var args []*Term
		for i := 0; i < g.nctx; i++ {
			args = append(args, w.arg(fmt.Sprintf("%s argument %d", l, i)))
		}
		args = append(args, w.as(w.ident(l+" context", f.param)))
		call := w.node(l, "CallExpr", w.at, 10, "Fun", fun, "Args", w.list(w.c.lib("go/ast", "Expr"), args...))
		for _, k := range kids {
			w.kids[call] = append(w.kids[call], k(f))
		}
		return call
	}
}

// unknown is a call with the context of something that cannot be followed.
func (p *prog) unknown(kind string, kids ...func(f *progFn) *Term) func(f *progFn) *Term {
	return func(f *progFn) *Term {
		w := p.gin
		p.nin++
		l := fmt.Sprintf("unknown %s %d", kind, p.nin)
		var fun *Term
		switch kind {
		case "variable":
			id := w.ident(l, "nothing")
			w.objs[id] = w.obj(l, "Var", "Name", "nothing")
			fun = w.as(id)
		case "method":
			fun = w.as(w.node(l+" selector", "SelectorExpr", w.at, 10, "X", w.as(w.ident(l+" receiver", "receiver")), "Sel", w.ident(l, "Method")))
		case "parameter":
			id := w.ident(l, "next")
			ot := w.c.lib("go/ast", "Object")
			w.r.st.m[id] = w.r.with(w.r.st.m[id], "Obj", w.r.cellOf("object "+l, ot, w.r.zero(ot, "Name", "next", "Decl", w.as(w.node(l+" parameter", "Field", w.at, 10)))))
			fun = w.as(id)
		case "literal":
			d, _ := w.fn(l+" literal", "", w.at, 10)
			fun = w.as(d)
		case "result":
			fun = w.as(w.node(l+" call", "CallExpr", w.at, 10, "Fun", w.as(w.ident(l+" function", "make"))))
		case "missing":
			fun = w.as(w.node(l+" selector", "SelectorExpr", w.at, 10, "X", w.as(w.ident(l+" package", "lib")), "Sel", w.ident(l, "Missing")))
		}
		call := w.node(l+" call with context", "CallExpr", w.at, 10, "Fun", fun, "Args", w.list(w.c.lib("go/ast", "Expr"), w.as(w.ident(l+" context", f.param))))
		for _, k := range kids {
			w.kids[call] = append(w.kids[call], k(f))
		}
		return call
	}
}

// inside is something that is not a call, with calls in it.
func (p *prog) inside(kids ...func(f *progFn) *Term) func(f *progFn) *Term {
	return func(f *progFn) *Term {
		p.nin++
		var ks []*Term
		for _, k := range kids {
			ks = append(ks, k(f))
		}
		return p.block(fmt.Sprintf("statement %d", p.nin), ks...)
	}
}

// build makes the packages of the functions.
func (p *prog) build() {
	w, r := p.gin, p.r
	pkgs := map[string][]*Term{}
	for _, name := range p.files {
		var decls, specs []*Term
		for _, f := range p.fns {
			if f.file == name {
				decls = append(decls, f.node)
			}
		}
		w.in(name, func() {
			for i, im := range p.imports[name] {
				l := fmt.Sprintf("import %d of %s", i, name)
				kv := []any{"Path", w.node(l+" path", "BasicLit", name, 2, "Value", fmt.Sprintf("%q", im[1]))}
				if im[0] != "" {
					kv = append(kv, "Name", w.ident(l+" name", im[0]))
				}
				specs = append(specs, w.node(l, "ImportSpec", name, 2, kv...))
			}
		})
		f := w.file(name, decls...)
		var ds []*Term
		for _, d := range decls {
			ds = append(ds, w.as(d))
		}
		r.st.m[f] = r.with(r.st.m[f], "Imports", w.list(ptrTo(w.c.lib("go/ast", "ImportSpec")), specs...), "Decls", w.list(w.c.lib("go/ast", "Decl"), ds...), "Scope", w.scopeOf("file "+name, "go/ast"))
		pkgs[p.of[name]] = append(pkgs[p.of[name]], f)
	}
	pt := w.c.lib("golang.org/x/tools/go/packages", "Package")
	for _, name := range p.files {
		path := p.of[name]
		if pkgs[path] == nil {
			continue
		}
		n := w.pkg(path, pkgs[path]...)
		delete(pkgs, path)
		var kv []any
		for _, file := range p.files {
			if p.of[file] != path {
				continue
			}
			for _, im := range p.imports[file] {
				kv = append(kv, im[1], r.cellOf("imported "+im[1], pt, r.with(r.RootT("imported package "+im[1], pt), "Name", im[2], "PkgPath", im[1])))
			}
		}
		r.st.m[n] = r.with(r.st.m[n], "Imports", r.mapT(fieldType(pt, "Imports").(*types.Map), kv...))
	}
}

type progCall = func(f *progFn) *Term

func (c *Ctx) helpers() {
	pos := c.p.pos(c.fn("inputs/gin", "ParseRoutes"))
	// one analyses the route of a handler of a program, which must record these calls.
	one := func(label string, setup func(p *prog) (h *progFn), want ...string) {
		c.scenario("program: "+label, func() {
			r := c.begin(nil)
			p := c.newProg(r)
			h := setup(p)
			p.build()
			c.recordsOf(p, label, pos, h, nil, want...)
		})
	}
	// Helpers of every place.
	places := []string{ginFile, ginFile2, fileLib, fileUtil, fileYUtil, fileVer}
	for _, to := range places {
		for at := 0; at < 3; at++ {
			for _, param := range []string{"c", "ctx", "other9"} {
				{
					to, at, param := to, at, param
					one(fmt.Sprintf("helper in %s, context %d, called %s", to, at, param), func(p *prog) *progFn {
						h := p.fn(ginFile, "H", "c", 0)
						// Functions of the same name in all of the other packages.
						for _, f := range places {
							if p.of[f] != p.of[to] {
								x := p.fn(f, "Help", "c", 0)
								p.does(x, p.reads("wrong "+f))
							}
						}
						g := p.fn(to, "Help", param, at)
						p.does(g, p.reads("helped"), p.inside(p.reads("helped too")))
						p.does(h, p.reads("before"), p.calls(g, p.reads("argument")), p.reads("after"), p.inside(p.calls(g)))
						return h
					}, "before", "helped", "helped too", "argument", "after")
				}
			}
		}
	}
	// After a helper, the names of the handler are those of its own file.
	for _, first := range places[1:] {
		for _, second := range places[1:] {
			first, second := first, second
			one("helpers in "+first+" and "+second, func(p *prog) *progFn {
				h := p.fn(ginFile, "H", "c", 0)
				f, g := p.fn(first, "First", "ctx", 0), p.fn(second, "Second", "c", 1)
				p.does(f, p.reads("first"))
				p.does(g, p.reads("second"))
				for _, x := range places {
					if p.of[x] != p.of[second] {
						o := p.fn(x, "Second", "c", 1)
						p.does(o, p.reads("wrong "+x))
					}
				}
				p.does(h, p.calls(f), p.calls(g), p.reads("after"))
				return h
			}, "first", "second", "after")
		}
	}
	// From file to file of a package, and then to a package that both import by another name.
	for _, fs := range [][]string{{ginFile2, ginFile}, {ginFile2, ginFile, ginFile2}, {fileLib, fileLibB}, {fileLib, fileLibB, fileLib}, {ginFile2, fileX}} {
		for _, to := range []string{fileUtil, fileYUtil} {
			fs, to := fs, to
			one(fmt.Sprintf("files %v and then %s", fs, to), func(p *prog) *progFn {
				h := p.fn(ginFile, "H", "c", 0)
				last := h
				for i, f := range fs {
					g := p.fn(f, fmt.Sprintf("F%d", i), "ctx", 0)
					p.does(last, p.calls(g))
					last = g
				}
				u, y := p.fn(fileUtil, "Help", "c", 0), p.fn(fileYUtil, "Help", "c", 0)
				t, o := u, y
				if to == fileYUtil {
					t, o = y, u
				}
				if !p.reaches(last, t) {
					t, o = p.fn(last.file, "Own", "c", 0), t
				}
				p.does(t, p.reads("helped"))
				p.does(o, p.reads("wrong"))
				p.does(last, p.calls(t), p.reads("after"))
				return h
			}, "helped", "after")
		}
	}
	// Chains.
	chain := []string{ginFile, ginFile2, fileLib, fileLibB, fileYUtil, fileVer, fileLib, fileUtil, ginFile}
	for n := 2; n <= len(chain); n++ {
		n := n
		var want []string
		for i := 0; i < n; i++ {
			want = append(want, fmt.Sprintf("before %d", i), fmt.Sprintf("after %d", i))
		}
		one(fmt.Sprintf("chain of %d", n), func(p *prog) *progFn {
			var fs []*progFn
			for i := 0; i < n; i++ {
				fs = append(fs, p.fn(chain[i], fmt.Sprintf("F%d", i), fmt.Sprintf("c%d", i%3), i%2))
			}
			for i, f := range fs {
				p.does(f, p.reads(fmt.Sprintf("before %d", i)))
				if i+1 < n {
					p.does(f, p.calls(fs[i+1]))
				}
				p.does(f, p.reads(fmt.Sprintf("after %d", i)))
			}
			return fs[0]
		}, want...)
	}
	// Cycles.
	for n := 1; n <= 5; n++ {
		for entry := 0; entry < n; entry++ {
			n, entry := n, entry
			var want []string
			for i := 0; i < n; i++ {
				want = append(want, fmt.Sprintf("before %d", i), fmt.Sprintf("after %d", i))
			}
			one(fmt.Sprintf("cycle of %d back to %d", n, entry), func(p *prog) *progFn {
				var fs []*progFn
				cyc := []string{ginFile, ginFile2, fileLib, fileUtil, fileUtil}
				for i := 0; i < n; i++ {
					fs = append(fs, p.fn(cyc[i], fmt.Sprintf("F%d", i), "c", 0))
				}
				for i, f := range fs {
					next := entry
					if i+1 < n {
						next = i + 1
					}
					p.does(f, p.reads(fmt.Sprintf("before %d", i)))
					if p.reaches(f, fs[next]) {
						p.does(f, p.calls(fs[next]))
					}
					p.does(f, p.reads(fmt.Sprintf("after %d", i)))
				}
				return fs[0]
			}, want...)
		}
	}
	// Functions that are called several times.
	one("diamond", func(p *prog) *progFn {
		h, a, b, d := p.fn(ginFile, "H", "c", 0), p.fn(ginFile, "A", "c", 0), p.fn(ginFile2, "B", "ctx", 0), p.fn(fileUtil, "D", "c", 0)
		p.does(h, p.calls(a), p.calls(b), p.calls(a))
		p.does(a, p.reads("a"), p.calls(d), p.reads("a2"))
		p.does(b, p.calls(d), p.reads("b"))
		p.does(d, p.reads("d"))
		return h
	}, "a", "a2", "b", "d")
	one("two recursive functions", func(p *prog) *progFn {
		h, a, b := p.fn(ginFile, "H", "c", 0), p.fn(ginFile2, "A", "c", 0), p.fn(ginFile2, "B", "ctx", 0)
		p.does(h, p.calls(a), p.reads("h"), p.calls(b), p.reads("h2"))
		p.does(a, p.calls(b), p.calls(a), p.reads("a"))
		p.does(b, p.calls(a), p.reads("b"), p.calls(h))
		return h
	}, "h", "h2", "a", "b")
	// Functions that cannot be followed.
	for _, kind := range []string{"variable", "method", "parameter", "literal", "result", "missing"} {
		kind := kind
		one("not followed: "+kind, func(p *prog) *progFn {
			h, g := p.fn(ginFile, "H", "c", 0), p.fn(fileUtil, "G", "ctx", 0)
			p.does(h, p.reads("before"), p.unknown(kind, p.reads("argument")), p.calls(g), p.reads("after"))
			p.does(g, p.reads("helped"), p.unknown("method"), p.reads("helped too"))
			return h
		}, "before", "argument", "helped", "helped too", "after")
	}
	one("without a parameter for the context", func(p *prog) *progFn {
		h, g, x := p.fn(ginFile, "H", "c", 0), p.fn(fileUtil, "G", "ctx", 0), p.fn(fileUtil, "X", "c", 0)
		p.typs[p.paramType(x)] = p.named("example.com/app/types", "Any")
		p.does(h, p.reads("before"), p.calls(x, p.reads("argument")), p.calls(g), p.reads("after"))
		p.does(g, p.reads("helped"), p.calls(x), p.reads("helped too"))
		p.does(x, p.reads("not the context"))
		return h
	}, "before", "argument", "helped", "helped too", "after")
}

// customFunctions decides how the functions that the user registers are applied.
func (c *Ctx) customFunctions() {
	pos := c.p.pos(c.fn("inputs/gin", "ParseRoutes"))
	rt := c.typ("", "Route")
	ft := fieldType(c.typ("", "Service"), "CustomFuncs").Underlying().(*types.Slice).Elem()
	calls := []string{"one", "helper", "two", "three", "four", "in helper"}
	one := func(nFuncs, by int, handles string, mode string) {
		label := fmt.Sprintf("custom: %d functions, %d handles %s, %s", nFuncs, by, handles, mode)
		c.scenario(label, func() {
			r := c.begin(nil)
			p := c.newProg(r)
			h, g := p.fn(ginFile, "H", "c", 0), p.fn(fileUtil, "G", "ctx", 0)
			byName := map[*Term]string{}
			named := func(n string, f progCall) progCall {
				return func(x *progFn) *Term {
					t := f(x)
					byName[t] = n
					return t
				}
			}
			p.does(h, named("one", p.reads("one")), named("helper", p.calls(g)), p.inside(named("two", p.reads("two"))), named("three", func(f *progFn) *Term {
				t := p.called("three")
				p.kids[t] = []*Term{named("four", p.reads("four"))(f)}
				return t
			}))
			p.does(g, named("in helper", p.reads("in helper")))
			p.build()
			var fs []*Term
			for i := 0; i < nFuncs; i++ {
				fs = append(fs, r.RootT(fmt.Sprintf("custom %d", i), ft))
			}
			own := r.cellOf("route of a custom function", rt, r.Zero(rt))
			asked := map[string]int{}
			old := r.hook
			r.hook = func(k *Call) (*Term, bool) {
				if k.Name != "dyn" {
					return old(k)
				}
				for i, f := range fs {
					if k.Raw[0] != f {
						continue
					}
					b := r.deref(k.St, k.Raw[2])
					rp := r.Simp(r.Sel(b, "Route", nil), k.G)
					t := r.deref(k.St, r.Simp(r.Sel(b, "Traverser", nil), k.G))
					node := r.Simp(r.Sel(t, "Node", nil), k.G)
					n := byName[node]
					asked[fmt.Sprintf("%d %s %s", i, n, r.Show(k.Raw[1]))]++
					if i != by || n != handles {
						return r.Tuple(r.nilT, r.nilT), true
					}
					cur := r.with(r.deref(k.St, rp), "Doc", "custom")
					if mode == "new" {
						k.St.m[own] = cur
						return r.Tuple(own, r.nilT), true
					}
					k.St.m[rp] = cur
					return r.Tuple(rp, r.nilT), true
				}
				return old(k)
			}
			var want []string
			exp := map[string]int{}
			for _, n := range calls {
				if handles == "helper" && n == "in helper" {
					continue
				}
				name := `"c"`
				if n == "in helper" {
					name = `"ctx"`
				}
				for i := 0; i < nFuncs; i++ {
					exp[fmt.Sprintf("%d %s %s", i, n, name)]++
					if n == handles && i == by {
						break
					}
				}
				if n != "helper" && n != handles {
					want = append(want, n)
				}
			}
			route := c.recordsOf(p, label, pos, h, []any{"CustomFuncs", r.list(ft, fs...)}, want...)
			for n := range exp {
				c.ok(asked[n] == exp[n], "asked: "+label+": "+n, pos, "custom function and call %s: it is asked %d times instead of %d", n, asked[n], exp[n])
			}
			for n := range asked {
				c.ok(exp[n] > 0, "asked: "+label+": "+n, pos, "a custom function is asked about %s", n)
			}
			if route == nil {
				return
			}
			doc := r.resolve(r.Sel(route, "Doc", nil), r.st)
			w := ""
			if by < nFuncs && handles != "" {
				w = "custom"
			}
			c.ok(r.same(doc, r.Str(w), True), "kept: "+label, pos, "what the custom function did is %s instead of %q", r.Show(doc), w)
		})
	}
	for n := 0; n <= 3; n++ {
		one(n, 9, "", "")
		for by := 0; by < n; by++ {
			for _, h := range calls {
				for _, m := range []string{"same", "new"} {
					one(n, by, h, m)
				}
			}
		}
	}
	// The option registers them in order.
	c.scenario("option", func() {
		r := c.begin(nil)
		f := c.fn("", "WithCustomFunc")
		s := r.serviceWith("CustomFuncs", r.list(ft))
		var fs []*Term
		for i := 0; i < 3; i++ {
			x := r.RootT(fmt.Sprintf("custom %d", i), ft)
			fs = append(fs, x)
			r.eval(f, []*Term{x})
			r.applyTerm(r.out(0), s)
		}
		got := r.at(s, "CustomFuncs")
		c.ok(r.same(got, r.list(ft, fs...), True), "option: in order", c.p.pos(f), "the registered functions are %s", r.Show(got))
	})
}

// paramType is the type expression of the context of a function.
func (p *prog) paramType(f *progFn) *Term {
	for n := range p.typs {
		if n.s == fmt.Sprintf("node ident %s %s parameter type %d", f.file, f.name, f.nctx) || base(n).s == fmt.Sprintf("node ident %s %s parameter type %d", f.file, f.name, f.nctx) {
			return n
		}
	}
	stop("the parameter of %s is not known", f.name)
	return nil
}

// reaches: a function can call another one, as its file is the same, of the same package, or imports it.
func (p *prog) reaches(f, g *progFn) bool {
	if p.of[f.file] == p.of[g.file] {
		return true
	}
	for _, im := range p.imports[f.file] {
		if im[1] == p.of[g.file] {
			return true
		}
	}
	return false
}

// recordsOf requires that the route of a handler records the calls with these labels.
func (c *Ctx) recordsOf(p *prog, label, pos string, h *progFn, kv []any, want ...string) *Term {
	r, w := p.r, p.gin
	s := w.parse([]*Term{w.route(p.of[h.file]+"."+h.name, 7)}, kv...)
	res := r.out(0)
	c.ok(res != nil && r.must(True, r.ret) && res.isNil(), "succeeds: "+label, pos, "the routes cannot be parsed: %s", r.Show(res))
	got, ok := r.listOf(r.at(s, "Routes"))
	if !c.ok(ok && len(got) == 1, "routes: "+label, pos, "there are %s routes", r.Show(r.at(s, "Routes"))) {
		return nil
	}
	hs := r.resolve(r.Sel(got[0], "RequestHeaders", nil), r.st)
	l, ok := r.listOf(hs)
	if !c.ok(ok, "calls: "+label, pos, "what is recorded is not known: %s", trunc(r.Show(hs), 300)) {
		return nil
	}
	used := make([]bool, len(l))
	for _, n := range want {
		e := w.of(n)[0]["RequestHeaders"][0]
		found := false
		for i, g := range l {
			if r.differ(r.resolve(g, r.st), e, True, "") == "" {
				found, used[i] = true, true
			}
		}
		c.ok(found, "call: "+label+": "+n, pos, "the call %q is not recorded, but %s", n, trunc(r.Show(hs), 300))
	}
	for i, u := range used {
		c.ok(u, fmt.Sprintf("only: %s: %d", label, i), pos, "%s is recorded, but is not called", r.Show(l[i]))
	}
	return got[0]
}

func init() {
	register(&Rule{
		ID: "P14", Min: 500,
		What:      "abstract interpretation of the parsing of a handler in abstract programs of up to 9 functions in 8 files and 6 packages: helpers in every place, with the context as any parameter of any name; chains through packages of which the import names differ by file; cycles of every length up to 5 and entry; calls that cannot be followed; and custom functions that handle any of the calls, in place or with a route of their own. What is recorded must be exactly the calls that are reached",
		NotCovers: "methods, generic functions and function values as helpers (the tool does not follow them); errors of custom functions; how often an effect is recorded if a helper is called twice",
		Run:       func(c *Ctx) { c.helpers(); c.customFunctions() },
	})
}
