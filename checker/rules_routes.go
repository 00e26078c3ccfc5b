package main

import "fmt"

// Rules about the parsing of the routes of the gin input.

const ginPath2 = "example.com/other/handlers"

// called is a call of the context that is known by its label.
func (w *gin) called(label string) *Term {
	return w.method("call "+label, w.ctxType, "GetHeader", w.argOf(label))
}

func (w *gin) argOf(label string) *Term {
	if a := w.args[label]; a != nil {
		return a
	}
	a := w.arg(label + " argument")
	w.args[label] = a
	return a
}

// of is what the calls with these labels add.
func (w *gin) of(labels ...string) (out []map[string][]*Term) {
	g := w.c.ginMethods()["GetHeader"]
	for _, l := range labels {
		out = append(out, g.add(w, []*Term{w.argOf(l)}))
	}
	return
}

// in makes nodes of a file.
func (w *gin) in(file string, f func()) {
	old := w.at
	w.at = file
	f()
	w.at = old
}

// body is a statement of nodes.
func (w *gin) block(label string, kids ...*Term) *Term {
	b := w.node(label, "BlockStmt", w.at, 1)
	w.kids[b] = kids
	return b
}

// routesProgram is a program with handlers of every kind.
func (w *gin) routesProgram() {
	plain := func(name, file string, line int, doc string) *Term {
		var d *Term
		w.in(file, func() {
			d, _ = w.fn(fmt.Sprintf("%s:%d %s", file, line, name), name, file, line, w.called(fmt.Sprintf("%s:%d", file, line)))
		})
		if doc != "" {
			g := w.node(fmt.Sprintf("doc %s:%d", file, line), "CommentGroup", file, line-1)
			w.docs[g] = doc
			w.r.st.m[d] = w.r.with(w.r.st.m[d], "Doc", g)
		}
		return d
	}
	inline := func(file string, line int, kids ...*Term) *Term {
		var d *Term
		w.in(file, func() {
			l := fmt.Sprintf("%s:%d", file, line)
			d, _ = w.fn(l, "", file, line, append([]*Term{w.called(l)}, kids...)...)
		})
		return d
	}
	outer := func(name, file string, line int, kids ...*Term) *Term {
		var d *Term
		w.in(file, func() {
			// A function that sets up routes has no context.
			l := fmt.Sprintf("%s %s:%d", name, file, line)
			b := w.node(l+" body", "BlockStmt", file, line)
			w.kids[b] = kids
			typ := w.node(l+" type", "FuncType", file, line, "Params", w.node(l+" parameters", "FieldList", file, line))
			d = w.node(l, "FuncDecl", file, line, "Name", w.ident(l+" name", name), "Type", typ, "Body", b)
			w.kids[d] = []*Term{b}
		})
		return d
	}
	const main, sub, sub2 = "/work/main.go", "/work/o/h.go", "/work/o/x.go"
	w.pkg(ginApp,
		w.file(ginFile2, plain("B", ginFile2, 7, ""), plain("A", ginFile2, 99, "another method A\n")),
		w.file(ginFile, plain("A", ginFile, 5, "a method A\n"), plain("A", ginFile, 7, "A is documented.\n"), plain("GetThing", ginFile, 20, "GetThing is documented\nin two lines.\n"),
			outer("Setup", ginFile, 30, w.block("setup", inline(ginFile, 31), w.block("nested", inline(ginFile, 35, inline(ginFile, 36)), inline(ginFile, 40)))),
			outer("Setup2", ginFile, 50, inline(ginFile, 51)),
		))
	w.pkg(ginPath2, w.file(sub, plain("A", sub, 7, "A of the other package.\n"), plain("C", sub, 9, "")), w.file(sub2, plain("D", sub2, 9, "")))
	w.pkg("example.com/gopkg.in/my.pkg.v3", w.file("/work/p/p.go", plain("A", "/work/p/p.go", 7, "A of a package with dots.\n")))
	w.pkg("example.com/app", w.file(main, outer("main", main, 3, inline(main, 4), inline(main, 8)), plain("A", main, 12, "A of main.\n")))
}

type routeCase struct {
	handler, file string
	line          int
	from          string // what its calls are
	op, doc       string
	extra         []string
}

func (c *Ctx) parsedRoutes() {
	pos := c.p.pos(c.fn("inputs/gin", "ParseRoutes"))
	rt, pt := c.typ("", "Route"), c.typ("", "Param")
	at := func(file string, line int) string { return fmt.Sprintf("%s:%d", file, line) }
	const h, o = "handlers/h.go", "handlers/other.go"
	cases := []routeCase{
		{handler: ginApp + ".A", file: h, line: 7, from: at(ginFile, 7), op: "a", doc: "A is documented."},
		{handler: ginApp + ".GetThing", file: h, line: 20, from: at(ginFile, 20), op: "getThing", doc: "GetThing is documented\nin two lines."},
		{handler: ginApp + ".B", file: o, line: 7, from: at(ginFile2, 7), op: "b"},
		{handler: ginApp + ".Setup.func1", file: h, line: 31, from: at(ginFile, 31)},
		{handler: ginApp + ".Setup.func2", file: h, line: 35, from: at(ginFile, 35), extra: []string{at(ginFile, 36)}},
		{handler: ginApp + ".Setup.func2.1", file: h, line: 36, from: at(ginFile, 36)},
		{handler: ginApp + ".Setup.func3", file: h, line: 40, from: at(ginFile, 40)},
		{handler: ginApp + ".Setup2.func1", file: h, line: 51, from: at(ginFile, 51)},
		{handler: ginPath2 + ".A", file: "o/h.go", line: 7, from: at("/work/o/h.go", 7), op: "a", doc: "A of the other package."},
		{handler: ginPath2 + ".C", file: "o/h.go", line: 9, from: at("/work/o/h.go", 9), op: "c"},
		{handler: ginPath2 + ".D", file: "o/x.go", line: 9, from: at("/work/o/x.go", 9), op: "d"},
		{handler: "example.com/gopkg.in/my%2epkg%2ev3.A", file: "p/p.go", line: 7, from: at("/work/p/p.go", 7), op: "a", doc: "A of a package with dots."},
		{handler: "main.main.func1", file: "main.go", line: 4, from: at("/work/main.go", 4)},
		{handler: "main.main.func2", file: "main.go", line: 8, from: at("/work/main.go", 8)},
		{handler: "main.A", file: "main.go", line: 12, from: at("/work/main.go", 12), op: "a", doc: "A of main."},
	}
	paths := []struct {
		path   string
		params []string // :required or *optional
	}{
		{path: "/a"}, {path: "/a/:id", params: []string{":id"}}, {path: "/a/:id/b/:name", params: []string{":id", ":name"}}, {path: "/*rest", params: []string{"*rest"}},
		{path: "/a/:user_id/*path", params: []string{":user_id", "*path"}}, {path: "/"}, {path: "/v1/:x.json", params: []string{":x.json"}}, {path: "/b"},
	}
	run := func(label string, pick []int, pathOf func(i int) (string, []string, string)) {
		c.scenario("routes: "+label, func() {
			r := c.begin(nil)
			w := c.newGin(r)
			w.routesProgram()
			var routes []*Term
			for i, j := range pick {
				k := cases[j]
				p, _, m := pathOf(i)
				kv := []any{"Path", p, "Method", m, "File", k.file}
				routes = append(routes, w.route(k.handler, k.line, kv...))
			}
			s := w.parse(routes)
			res := r.out(0)
			c.ok(res != nil && r.must(True, r.ret) && res.isNil(), "succeeds: "+label, pos, "the routes cannot be parsed: %s", r.Show(res))
			got, ok := r.listOf(r.at(s, "Routes"))
			if !c.ok(ok && len(got) == len(pick), "kept: "+label, pos, "there are %s routes", r.Show(r.at(s, "Routes"))) {
				return
			}
			for i, j := range pick {
				k := cases[j]
				p, params, _ := pathOf(i)
				key := fmt.Sprintf("%s: %d %s", label, i, p)
				want := w.of(append([]string{k.from}, k.extra...)...)
				var ps []*Term
				for _, x := range params {
					ps = append(ps, r.zero(pt, "Name", x[1:], "IsRequired", x[0] == ':', "Field", r.zero(c.field(), "Type", "string")))
				}
				want = append(want, map[string][]*Term{"PathParams": ps})
				w.added("entries: "+key, pos, got[i], nil, want...)
				exp := r.with(routes[i], "OperationID", k.op, "Doc", k.doc)
				for _, n := range []string{"Handler", "File", "LineNo", "Path", "Method", "Doc", "OperationID"} {
					g, e := r.resolve(r.Sel(got[i], n, fieldType(rt, n)), r.st), r.Sel(exp, n, fieldType(rt, n))
					c.ok(r.same(g, e, True), "facts: "+key+": "+n, pos, "%s of the route is %s instead of %s", n, r.Show(g), r.Show(e))
				}
			}
		})
	}
	// Every handler alone, with every path.
	for j, k := range cases {
		for _, p := range paths {
			p := p
			if j > 2 && p.path != "/a/:id" {
				continue
			}
			run("one: "+k.handler, []int{j}, func(int) (string, []string, string) { return p.path, p.params, "GET" })
		}
	}
	methods := []string{"GET", "POST", "PUT", "DELETE", "PATCH"}
	// Several: of the same path, of the same method, of the same handler.
	sets := map[string][]int{"all": {0, 1, 2, 3}, "closures": {3, 4, 5}, "packages": {0, 8, 11, 14}, "main": {12, 13, 14}, "same handler": {0, 0, 1, 0}, "backwards": {9, 7, 2, 1}}
	for l, set := range sets {
		run("same path: "+l, set, func(i int) (string, []string, string) { return "/a/:id", []string{":id"}, methods[i] })
		run("same method: "+l, set, func(i int) (string, []string, string) { return paths[i].path, paths[i].params, "GET" })
		run("different: "+l, set, func(i int) (string, []string, string) {
			return paths[len(paths)-1-i].path, paths[len(paths)-1-i].params, methods[i]
		})
	}
}

func init() {
	register(&Rule{
		ID: "P11", Min: 500,
		What:      "abstract interpretation of the parsing of routes of an abstract program with functions, methods and closures of the same names in several files and packages and in main: every handler alone, and sets of routes with the same path, method or handler; what each route records must be the calls in its own handler",
		NotCovers: "handlers that are methods, generic or in variables of a package (the tool does not support them), and several function literals in the same line",
		Run:       func(c *Ctx) { c.parsedRoutes() },
	})
}
