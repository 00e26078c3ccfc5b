package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// Rules about the gin input.

// recordedRoutes decides which routes of a router are recorded, and how.
func (c *Ctx) recordedRoutes() {
	f := c.fn("inputs/gin", "CreateRoutes")
	pos := c.p.pos(f)
	rt := c.typ("", "Route")
	svc := c.typ("", "Service")
	denyT := fieldType(svc, "PathDenyList").Underlying().(*types.Slice).Elem()
	engine := f.Params[0].Type().(*types.Pointer).Elem()
	ms := types.NewMethodSet(types.NewPointer(engine)).Lookup(nil, "Routes")
	if ms == nil {
		stop("the router has no routes")
	}
	infosT := ms.Type().(*types.Signature).Results().At(0).Type()
	infoT := infosT.Underlying().(*types.Slice).Elem()
	str := types.Typ[types.String]
	obligations := func(nRoutes, nDeny int, mask int) {
		label := fmt.Sprintf("%d routes, %d deny functions, %b", nRoutes, nDeny, mask)
		c.scenario("routes: "+label, func() {
			r := c.begin(nil)
			var infos, denies []*Term
			for i := 0; i < nRoutes; i++ {
				infos = append(infos, r.RootT(fmt.Sprintf("info%d", i), infoT))
			}
			for i := 0; i < nDeny; i++ {
				denies = append(denies, r.RootT(fmt.Sprintf("deny%d", i), denyT))
			}
			list := r.list(infoT, infos...)
			list.ty = infosT
			denied := func(i, j int) bool { return mask>>(i*nDeny+j)&1 == 1 }
			handler := func(t *Term) int {
				for i, x := range infos {
					h := r.Sel(x, "HandlerFunc", nil)
					if mentions(t, func(y *Term) bool { return y == h }) {
						return i
					}
				}
				stop("the handler of the program counter %s is not known", r.Show(t))
				return 0
			}
			r.hook = func(k *Call) (*Term, bool) {
				switch k.Name {
				case "(*github.com/gin-gonic/gin.Engine).Routes":
					return list, true
				case "dyn":
					for j, d := range denies {
						if k.Raw[0] != d {
							continue
						}
						for i, x := range infos {
							if k.Raw[1] == r.Sel(x, "Path", nil) {
								return r.Bool(boolBDD(denied(i, j))), true
							}
						}
						stop("a deny function is asked about %s", r.Show(k.Raw[1]))
					}
				case "os.Getwd":
					return r.Tuple(r.Str("/work"), r.nilT), true
				case "reflect.ValueOf":
					return r.RootT(fmt.Sprintf("value%d", handler(k.Raw[0])), k.Sig.Results().At(0).Type()), true
				case "(reflect.Value).Pointer", "(reflect.Value).UnsafePointer":
					return r.RootT("pc of "+k.Raw[0].s, k.Sig.Results().At(0).Type()), true
				case "runtime.FuncForPC":
					return r.RootT("function at "+k.Raw[0].s, k.Sig.Results().At(0).Type()), true
				case "(*runtime.Func).Entry":
					return r.RootT(strings.TrimPrefix(k.Raw[0].s, "function at "), k.Sig.Results().At(0).Type()), true
				case "(*runtime.Func).FileLine":
					if "function at "+k.Raw[1].s != k.Raw[0].s {
						stop("the position of another function is asked for: %s in %s", r.Show(k.Raw[1]), r.Show(k.Raw[0]))
					}
					return r.Tuple(r.RootT("file of "+k.Raw[1].s, str), r.RootT("line of "+k.Raw[1].s, types.Typ[types.Int])), true
				case "path/filepath.Rel":
					if b, ok := k.Raw[0].str(); !ok || b != "/work" || !strings.HasPrefix(k.Raw[1].s, "file of ") {
						stop("the path of %s relative to %s is made", r.Show(k.Raw[1]), r.Show(k.Raw[0]))
					}
					return r.Tuple(r.RootT("relative "+k.Raw[1].s, str), r.nilT), true
				}
				return nil, false
			}
			r.eval(f, []*Term{r.RootT("router", f.Params[0].Type())})
			cf := r.out(0)
			had := r.RootT("earlier route", rt)
			s := r.serviceWith("PathDenyList", r.list(denyT, denies...), "Routes", r.list(rt, had))
			r.applyTerm(cf, s)
			res := r.out(0)
			c.ok(res != nil && r.must(True, r.ret) && res.isNil(), "succeeds: "+label, pos, "it does not succeed")
			want := []*Term{had}
			for i, x := range infos {
				d := false
				for j := range denies {
					d = d || denied(i, j)
				}
				if d {
					continue
				}
				pc := fmt.Sprintf("pc of value%d", i)
				// Lists are empty, whether or not they are nil.
				want = append(want, r.zero(rt, "Handler", r.Sel(x, "Handler", nil), "Path", r.Sel(x, "Path", nil), "Method", r.Sel(x, "Method", nil), "File", r.RootT("relative file of "+pc, str), "LineNo", r.RootT("line of "+pc, types.Typ[types.Int])))
			}
			got, ok := r.listOf(r.at(s, "Routes"))
			if !c.ok(ok && len(got) == len(want), "recorded: "+label, pos, "%s are recorded instead of %d routes", trunc(r.Show(r.at(s, "Routes")), 300), len(want)) {
				return
			}
			st := rt.Underlying().(*types.Struct)
			for i := range want {
				bad := ""
				for k := 0; k < st.NumFields(); k++ {
					n := st.Field(k).Name()
					g, w := r.resolve(r.Sel(got[i], n, st.Field(k).Type()), r.st), r.Sel(want[i], n, st.Field(k).Type())
					if l, ok := r.listOf(g); ok && len(l) == 0 && w.isNil() {
						continue
					}
					if d := r.differ(g, w, True, "."+n); d != "" && bad == "" {
						bad = d
					}
				}
				c.ok(bad == "", fmt.Sprintf("recorded: %s: route %d", label, i), pos, "the recorded route differs: %s", bad)
			}
		})
	}
	for n := 0; n <= 3; n++ {
		obligations(n, 0, 0)
	}
	for m := 0; m < 8; m++ {
		obligations(3, 1, m)
	}
	for m := 0; m < 16; m++ {
		obligations(2, 2, m)
	}
	for m := 0; m < 8; m++ {
		obligations(1, 3, m)
	}
	// What the options deny.
	for _, o := range []struct {
		opt, path string
		deny, any bool
	}{
		{opt: "/a", path: "/a", deny: true}, {opt: "/a", path: "/a/"}, {opt: "/a", path: "/ab"}, {opt: "/a", path: "/b/a"}, {opt: "/a", path: "/"}, {opt: "/a", path: "/A"}, {opt: "", path: "/a"}, {opt: "/", path: "/a"}, {opt: "/a/:id", path: "/a/:id", deny: true}, {opt: "/a/:id", path: "/a/1"}, {opt: "/a/*", path: "/a/b"}, {opt: ".*", path: "/a"},
	} {
		o := o
		label := o.opt + " of " + o.path
		c.scenario("option: "+label, func() {
			r := c.begin(nil)
			f := c.fn("", "WithPathDenyList")
			r.eval(f, []*Term{r.Str(o.opt)})
			opt := r.out(0)
			s := r.serviceWith("PathDenyList", r.list(denyT))
			r.applyTerm(opt, s)
			l, ok := r.listOf(r.at(s, "PathDenyList"))
			if !c.ok(ok && len(l) == 1, "option: added "+label, c.p.pos(f), "no function is added") {
				return
			}
			v := r.resolve(r.applyTerm(l[0], r.Str(o.path)), r.st)
			c.ok(v.op == OBool && v.b == boolBDD(o.deny), "option: "+label, c.p.pos(f), "the option %q makes the answer for %q %s", o.opt, o.path, r.Show(v))
		})
	}
	for _, n := range []string{"WithPathDenyListRegex", "WithPathDenyListFunc"} {
		n := n
		for _, answer := range []bool{true, false} {
			answer := answer
			c.scenario("option: "+n, func() {
				r := c.begin(nil)
				f := c.fn("", n)
				a := r.RootT("pattern", f.Params[0].Type())
				path := r.RootT("path", str)
				r.hook = func(k *Call) (*Term, bool) {
					if (k.Name == "dyn" || k.Name == "(*regexp.Regexp).MatchString") && k.Raw[0] == a {
						c.ok(k.Raw[1] == path, "option: asked "+n, c.p.pos(f), "it is asked about %s", r.Show(k.Raw[1]))
						return r.Bool(boolBDD(answer)), true
					}
					return nil, false
				}
				r.eval(f, []*Term{a})
				opt := r.out(0)
				s := r.serviceWith("PathDenyList", r.list(denyT))
				r.applyTerm(opt, s)
				l, ok := r.listOf(r.at(s, "PathDenyList"))
				if !c.ok(ok && len(l) == 1, "option: added "+n, c.p.pos(f), "no function is added") {
					return
				}
				v := r.resolve(r.applyTerm(l[0], path), r.st)
				c.ok(v.op == OBool && v.b == boolBDD(answer), fmt.Sprintf("option: %s %v", n, answer), c.p.pos(f), "the answer for a path is %s instead of %v", r.Show(v), answer)
			})
		}
	}
}

func init() {
	register(&Rule{
		ID: "P10", Min: 150,
		What:      "abstract interpretation of the creation of routes for every router with up to 3 routes of any path, method and handler and every combination of answers of up to 3 deny functions; and of the functions that the deny options add",
		NotCovers: "what file and line the runtime reports for a handler",
		Run:       func(c *Ctx) { c.recordedRoutes() },
	})
}

const (
	ginPath  = "github.com/gin-gonic/gin"
	ginApp   = "example.com/app/handlers"
	ginFile  = "/work/handlers/h.go"
	ginFile2 = "/work/handlers/other.go"
)

// gin is a program with a handler.
type gin struct {
	*world
	f       string
	ctxType *Term
	errs    map[string]bool // what fails
	docs    map[*Term]string
	args    map[string]*Term
}

func (c *Ctx) newGin(r *Run) *gin {
	w := &gin{world: c.newWorld(r), errs: map[string]bool{}, docs: map[*Term]string{}, args: map[string]*Term{}}
	w.at = ginFile
	r.initial("astTraversal")
	w.ctxType = w.pointer(w.named(ginPath, "Context"), ginPath+".Context")
	str := types.Typ[types.String]
	r.hook = func(k *Call) (*Term, bool) {
		ofExpr := func() *Term {
			e := r.deref(k.St, k.Raw[0])
			x := r.Simp(r.Sel(e, "Node", nil), k.G)
			// The package in which the expression is looked up.
			if o := w.owner[w.names[w.pos[base(x)]]]; o != "" {
				f := r.deref(k.St, r.Simp(r.Sel(e, "File", nil), k.G))
				p := r.deref(k.St, r.Simp(r.Sel(f, "Package", nil), k.G))
				if r.Simp(r.Sel(p, "Package", nil), k.G) != w.pkgs[o] {
					return nil
				}
			}
			return x
		}
		switch k.Name {
		case "os.Getwd":
			return r.Tuple(r.Str("/work"), r.nilT), true
		case "(*~/astTraversal.ExpressionTraverser).Value":
			x := ofExpr()
			if x == nil || w.errs["value "+base(x).s] {
				return r.Tuple(r.Str(""), r.RootT("error of value", errType)), true
			}
			return r.Tuple(w.value(x), r.nilT), true
		case "(*~/astTraversal.ExpressionTraverser).Type":
			x := ofExpr()
			if x == nil || w.errs["type "+base(x).s] {
				return r.Tuple(r.nilT, r.RootT("error of type", errType)), true
			}
			return r.Tuple(w.typeOf(x), r.nilT), true
		case "(*~/astTraversal.TypeTraverser).Result":
			e := r.deref(k.St, k.Raw[0])
			return r.Tuple(w.result(r.Simp(r.Sel(e, "Node", nil), k.G)), r.nilT), true
		case "~.ParseResultToField":
			return w.fieldOf(k.Raw[0]), true
		case "github.com/iancoleman/strcase.ToLowerCamel":
			if n, ok := k.Raw[0].str(); ok && n != "" && !strings.ContainsAny(n, "_-. ") {
				return r.Str(strings.ToLower(n[:1]) + n[1:]), true
			}
		case "strconv.Atoi":
			if w.errs["number "+k.Raw[0].s] {
				return r.Tuple(r.Int(0), r.RootT("error of number", errType)), true
			}
			return r.Tuple(w.number(k.Raw[0]), r.nilT), true
		case "(*~.Service).GetMainPackageName":
			return r.Tuple(r.Str("example.com/app"), r.nilT), true
		case "(*go/ast.CommentGroup).Text":
			if d, ok := w.docs[k.Raw[0]]; ok {
				return r.Str(d), true
			}
			return r.RootT("text of "+k.Raw[0].s, str), true
		}
		return w.hook(k)
	}
	return w
}

// value, number, typeOf and result are what the analysis of an expression gives.
func (w *gin) value(x *Term) *Term {
	return w.r.RootT("value of "+base(x).s, types.Typ[types.String])
}
func (w *gin) number(x *Term) *Term { return w.r.RootT("number of "+x.s, types.Typ[types.Int]) }
func (w *gin) typeOf(x *Term) *Term {
	return w.r.RootT("type of "+base(x).s, w.c.lib("go/types", "Type"))
}
func (w *gin) result(t *Term) *Term {
	return w.r.RootT("result of "+t.s, w.c.typ("astTraversal", "Result"))
}

func (w *gin) fieldOf(t *Term) *Term { return w.r.RootT("description of "+t.s, w.c.field()) }

// status and field are what is recorded for an argument.
func (w *gin) status(x *Term) *Term { return w.number(w.value(x)) }
func (w *gin) field(x *Term) *Term  { return w.fieldOf(w.result(w.typeOf(x))) }

// arg is an expression.
func (w *gin) arg(label string) *Term {
	return w.as(w.node(label, "BasicLit", w.at, 10))
}

// method is a call of a method of a value of a type.
func (w *gin) method(label string, recv *Term, name string, args ...*Term) *Term {
	sel := w.ident(label+" method", name)
	v := w.obj(label+" receiver", "Var", "Type", recv).a[0]
	sig := w.obj(label+" signature", "Signature", "Recv", v)
	w.objs[sel] = w.obj(label, "Func", "Name", name, "Type", sig)
	fun := w.node(label+" selector", "SelectorExpr", w.at, 10, "X", w.as(w.ident(label+" variable", "c")), "Sel", sel)
	return w.node(label, "CallExpr", w.at, 10, "Fun", w.as(fun), "Args", w.list(w.c.lib("go/ast", "Expr"), args...))
}

// handler is the declaration of a function that takes the context.
func (w *gin) handler(name, file string, line int, calls ...*Term) *Term {
	d, _ := w.fn(name, name, file, line, calls...)
	return d
}

func (w *gin) fn(label, name, file string, line int, calls ...*Term) (decl, body *Term) {
	t := w.ident(label+" parameter type", "T")
	w.typs[t] = w.ctxType
	ft := w.c.lib("go/ast", "Field")
	p := w.node(label+" parameter", "Field", file, line, "Names", w.list(ptrTo(w.c.lib("go/ast", "Ident")), w.ident(label+" parameter", "c")), "Type", w.as(t))
	ps := w.node(label+" parameters", "FieldList", file, line, "List", w.list(ptrTo(ft), p))
	typ := w.node(label+" type", "FuncType", file, line, "Params", ps)
	body = w.node(label+" body", "BlockStmt", file, line)
	w.kids[body] = calls
	if name == "" {
		decl = w.node(label, "FuncLit", file, line, "Type", typ, "Body", body)
	} else {
		decl = w.node(label, "FuncDecl", file, line, "Name", w.ident(label+" name", name), "Type", typ, "Body", body)
	}
	w.kids[decl] = []*Term{body}
	return
}

// file is a file with declarations.
func (w *gin) file(name string, decls ...*Term) *Term {
	f := w.node("file "+name, "File", name, 1)
	w.kids[f] = decls
	return f
}

// parse analyses the routes of a service.
func (w *gin) parse(routes []*Term, kv ...any) (s *Term) {
	r := w.r
	r.eval(w.c.fn("inputs/gin", "ParseRoutes"), nil)
	f := r.out(0)
	s = r.serviceWith(append([]any{"WorkDir", r.Str("/work"), "Routes", r.list(w.c.typ("", "Route"), routes...), "CustomFuncs", r.Zero(fieldType(w.c.typ("", "Service"), "CustomFuncs"))}, kv...)...)
	r.applyTerm(f, s)
	return s
}

func (w *gin) route(handler string, line int, kv ...any) *Term {
	return w.r.zero(w.c.typ("", "Route"), append([]any{"Handler", handler, "File", "handlers/h.go", "LineNo", line, "Path", "/a", "Method", "GET"}, kv...)...)
}

// ginCall is what a call of a method of the context adds to a route.
type ginCall struct {
	request bool
	add     func(w *gin, a []*Term) map[string][]*Term
	uses    []int // arguments that have to be understood
	types   []int // of these, the ones of which the type is recorded
	status  []int // and the ones that are a status
}

// ginMethods are the methods of the context that are supported.
func (c *Ctx) ginMethods() map[string]ginCall {
	rt, pt, bt := c.typ("", "ReturnType"), c.typ("", "Param"), c.typ("", "BodyParam")
	basic := func(w *gin, name string) *Term { return w.r.zero(c.field(), "Type", name) }
	out := map[string]ginCall{}
	put := func(g ginCall, names ...string) {
		for _, n := range names {
			out[n] = g
		}
	}
	returns := func(content string, field func(w *gin, a []*Term) *Term) func(w *gin, a []*Term) map[string][]*Term {
		return func(w *gin, a []*Term) map[string][]*Term {
			return map[string][]*Term{"ReturnTypes": {w.r.zero(rt, "StatusCode", w.status(a[0]), "ContentType", content, "Field", field(w, a))}}
		}
	}
	typed := func(i int) func(w *gin, a []*Term) *Term {
		return func(w *gin, a []*Term) *Term { return w.field(a[i]) }
	}
	fixed := func(n string) func(w *gin, a []*Term) *Term {
		return func(w *gin, a []*Term) *Term { return basic(w, n) }
	}
	for n, t := range map[string]string{"JSON": "application/json", "XML": "application/xml", "YAML": "application/yaml", "ProtoBuf": "application/protobuf", "AbortWithStatusJSON": "application/json"} {
		put(ginCall{add: returns(t, typed(1)), uses: []int{0, 1}, types: []int{1}, status: []int{0}}, n)
	}
	put(ginCall{add: returns("", typed(2)), uses: []int{0, 2}, types: []int{2}, status: []int{0}}, "Data")
	put(ginCall{add: returns("text/plain", fixed("string")), uses: []int{0}, status: []int{0}}, "String")
	put(ginCall{add: returns("", fixed("nil")), uses: []int{0}, status: []int{0}}, "Status", "AbortWithStatus", "AbortWithError")
	list := func(name string, t types.Type, kv ...any) func(w *gin, a []*Term) map[string][]*Term {
		return func(w *gin, a []*Term) map[string][]*Term {
			return map[string][]*Term{name: {w.r.zero(t, append([]any{"Name", w.value(a[0])}, kv...)...)}}
		}
	}
	param := func(name, typ string, t types.Type, kv ...any) func(w *gin, a []*Term) map[string][]*Term {
		return func(w *gin, a []*Term) map[string][]*Term {
			return list(name, t, append([]any{"Field", basic(w, typ)}, kv...)...)(w, a)
		}
	}
	put(ginCall{add: param("ResponseHeaders", "string", pt), uses: []int{0}}, "Header")
	put(ginCall{request: true, add: param("RequestHeaders", "string", pt), uses: []int{0}}, "GetHeader")
	put(ginCall{request: true, add: param("QueryParams", "string", pt), uses: []int{0}}, "Query", "GetQuery")
	put(ginCall{request: true, add: param("QueryParams", "string", pt, "IsArray", true), uses: []int{0}}, "QueryArray", "GetQueryArray")
	put(ginCall{request: true, add: param("QueryParams", "string", pt, "IsMap", true), uses: []int{0}}, "QueryMap", "GetQueryMap")
	const form = "application/x-www-form-urlencoded"
	put(ginCall{request: true, add: param("Body", "string", bt, "ContentType", form), uses: []int{0}}, "PostForm", "GetPostForm")
	put(ginCall{request: true, add: param("Body", "string", bt, "ContentType", form, "IsArray", true), uses: []int{0}}, "PostFormArray", "GetPostFormArray")
	put(ginCall{request: true, add: param("Body", "string", bt, "ContentType", form, "IsMap", true), uses: []int{0}}, "PostFormMap", "GetPostFormMap")
	put(ginCall{request: true, add: param("Body", "file", bt, "ContentType", "multipart/form-data"), uses: []int{0}}, "FormFile")
	bound := func(lists []string, contents ...string) func(w *gin, a []*Term) map[string][]*Term {
		return func(w *gin, a []*Term) map[string][]*Term {
			m := map[string][]*Term{}
			for _, l := range lists {
				m[l] = []*Term{w.r.zero(pt, "IsBound", true, "Field", w.field(a[0]))}
			}
			for _, t := range contents {
				m["Body"] = append(m["Body"], w.r.zero(bt, "IsBound", true, "Field", w.field(a[0]), "ContentType", t))
			}
			return m
		}
	}
	b := func(lists []string, contents ...string) ginCall {
		return ginCall{request: true, add: bound(lists, contents...), uses: []int{0}, types: []int{0}}
	}
	put(b([]string{"QueryParams"}), "BindQuery", "ShouldBindQuery")
	put(b([]string{"RequestHeaders"}), "BindHeader", "ShouldBindHeader")
	put(b(nil, "application/json"), "BindJSON", "ShouldBindJSON")
	put(b(nil, "application/xml"), "BindXML", "ShouldBindXML")
	put(b(nil, "application/yaml"), "BindYAML", "ShouldBindYAML")
	put(b([]string{"PathParams", "QueryParams", "RequestHeaders"}, form, "multipart/form-data", "application/json", "application/xml", "application/yaml"), "Bind", "ShouldBind")
	return out
}

var routeLists = []string{"PathParams", "QueryParams", "Body", "ReturnTypes", "RequestHeaders", "ResponseHeaders"}

// added requires that the lists of a route got these entries and no others.
func (w *gin) added(key, pos string, route *Term, before map[string]*Term, want ...map[string][]*Term) {
	r, c := w.r, w.c
	rt := c.typ("", "Route")
	for _, l := range routeLists {
		lt := fieldType(rt, l)
		et := lt.Underlying().(*types.Slice).Elem()
		got, ok := r.listOf(r.resolve(r.Sel(route, l, lt), r.st))
		if r.Sel(route, l, lt).isNil() {
			ok = true
		}
		var exp []*Term
		if b := before[l]; b != nil {
			exp = append(exp, b)
		}
		for _, m := range want {
			exp = append(exp, m[l]...)
		}
		if !ok || len(got) != len(exp) {
			c.ok(false, key+": "+l, pos, "%s are %s instead of %s", l, trunc(r.Show(r.Sel(route, l, lt)), 400), trunc(r.Show(r.list(et, exp...)), 400))
			continue
		}
		used := map[int]bool{}
		bad := ""
		for i, e := range exp {
			match, first := -1, ""
			for j, g := range got {
				if used[j] {
					continue
				}
				d := r.differ(r.resolve(g, r.st), e, True, "")
				if d == "" {
					match = j
					break
				}
				if first == "" || j == i {
					first = d
				}
			}
			if match < 0 {
				bad = first
				break
			}
			used[match] = true
		}
		c.ok(bad == "", key+": "+l, pos, "an entry of %s%s", l, bad)
	}
}

func (c *Ctx) contextMethods(request bool) {
	pos := c.p.pos(c.fn("inputs/gin", "ParseRoutes"))
	table := c.ginMethods()
	ms := types.NewMethodSet(ptrTo(c.lib(ginPath, "Context")))
	sigs := map[string]*types.Signature{}
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			sigs[ms.At(i).Obj().Name()] = ms.At(i).Type().(*types.Signature)
		}
	}
	var names []string
	for n := range sigs {
		names = append(names, n)
	}
	sort.Strings(names)
	rt := c.typ("", "Route")
	for n := range table {
		c.ok(sigs[n] != nil, "method: "+n, pos, "the context has no method %s", n)
	}
	// one analyses a handler that consists of these calls.
	one := func(key string, calls func(w *gin) ([]*Term, []map[string][]*Term)) {
		c.scenario(key, func() {
			r := c.begin(nil)
			w := c.newGin(r)
			nodes, want := calls(w)
			w.pkg(ginApp, w.file(ginFile, w.handler("H", ginFile, 7, nodes...)))
			before := map[string]*Term{}
			kv := []any{}
			for _, l := range routeLists {
				if l == "PathParams" {
					continue
				}
				lt := fieldType(rt, l)
				et := lt.Underlying().(*types.Slice).Elem()
				before[l] = r.some("earlier "+l, et)
				if l == "ReturnTypes" || l == "Body" {
					before[l] = r.some("earlier "+l, et, "ContentType", "earlier")
				}
				kv = append(kv, l, r.list(et, before[l]))
			}
			s := w.parse([]*Term{w.route(ginApp+".H", 7, kv...)})
			res := r.out(0)
			c.ok(res != nil && r.must(True, r.ret) && res.isNil(), "succeeds: "+key, pos, "the routes cannot be parsed: %s", r.Show(res))
			got, ok := r.listOf(r.at(s, "Routes"))
			if !c.ok(ok && len(got) == 1, "routes: "+key, pos, "there are %s routes", r.Show(r.at(s, "Routes"))) {
				return
			}
			w.added(key, pos, got[0], before, want...)
		})
	}
	for _, n := range names {
		n := n
		g, known := table[n]
		if known && g.request != request || !known && request {
			continue
		}
		np := sigs[n].Params().Len()
		args := func(w *gin, l string) (as []*Term) {
			for i := 0; i < np; i++ {
				as = append(as, w.arg(fmt.Sprintf("%s argument %d", l, i)))
			}
			return
		}
		one("call: "+n, func(w *gin) ([]*Term, []map[string][]*Term) {
			a := args(w, "a")
			call := w.method("call", w.ctxType, n, a...)
			if !known {
				return []*Term{call}, nil
			}
			return []*Term{call}, []map[string][]*Term{g.add(w, a)}
		})
		if !known {
			continue
		}
		// The method of another type.
		for l, f := range map[string]func(w *gin) *Term{
			"type of another package": func(w *gin) *Term { return w.pointer(w.named(ginApp, "Context"), ginApp+".Context") },
			"another type of gin":     func(w *gin) *Term { return w.pointer(w.named(ginPath, "Engine"), ginPath+".Engine") },
		} {
			f := f
			one("other receiver: "+l+": "+n, func(w *gin) ([]*Term, []map[string][]*Term) {
				return []*Term{w.method("call", f(w), n, args(w, "a")...)}, nil
			})
		}
		// After and before another call.
		other := "Query"
		if !request {
			other = "Header"
		}
		for i := 0; i < 2; i++ {
			i := i
			one(fmt.Sprintf("in order: %d %s", i, n), func(w *gin) ([]*Term, []map[string][]*Term) {
				a, b := args(w, "a"), []*Term{w.arg("b argument 0"), w.arg("b argument 1")}
				if other == "Query" {
					b = b[:1]
				}
				x, y := w.method("call", w.ctxType, n, a...), w.method("other call", w.ctxType, other, b...)
				p, q := g.add(w, a), table[other].add(w, b)
				if i == 0 {
					return []*Term{x, y}, []map[string][]*Term{p, q}
				}
				return []*Term{y, x}, []map[string][]*Term{q, p}
			})
		}
		// In the arguments of another call, whatever that is, and with another call in its own arguments.
		one("inside: "+n, func(w *gin) ([]*Term, []map[string][]*Term) {
			a, b := args(w, "a"), []*Term{w.arg("b argument 0"), w.arg("b argument 1")}
			x, y := w.method("call", w.ctxType, n, a...), w.method("other call", w.ctxType, "Set", b...)
			w.kids[y] = []*Term{x}
			return []*Term{y}, []map[string][]*Term{g.add(w, a)}
		})
		one("around: "+n, func(w *gin) ([]*Term, []map[string][]*Term) {
			a, b := args(w, "a"), []*Term{w.arg("b argument 0")}
			x, y := w.method("call", w.ctxType, n, a...), w.method("other call", w.ctxType, "GetHeader", b...)
			w.kids[x] = []*Term{y}
			return []*Term{x}, []map[string][]*Term{g.add(w, a), table["GetHeader"].add(w, b)}
		})
		// Arguments that are not understood.
		type failure struct {
			what string
			arg  int
		}
		var fs []failure
		isType := map[int]bool{}
		for _, i := range g.types {
			isType[i] = true
			fs = append(fs, failure{"type", i})
		}
		for _, i := range g.uses {
			if !isType[i] {
				fs = append(fs, failure{"value", i})
			}
		}
		for _, i := range g.status {
			fs = append(fs, failure{"number", i})
		}
		for _, e := range fs {
			e := e
			one(fmt.Sprintf("unknown: %s of argument %d: %s", e.what, e.arg, n), func(w *gin) ([]*Term, []map[string][]*Term) {
				a, b, d := args(w, "a"), []*Term{w.arg("b argument 0")}, []*Term{w.arg("d argument 0")}
				x, y, z := w.method("call", w.ctxType, n, a...), w.method("other call", w.ctxType, "GetHeader", b...), w.method("inner call", w.ctxType, "Query", d...)
				w.kids[x] = []*Term{z}
				l := base(a[e.arg]).s
				if e.what == "number" {
					l = w.value(a[e.arg]).s
				}
				w.errs[e.what+" "+l] = true
				return []*Term{x, y}, []map[string][]*Term{table["Query"].add(w, d), table["GetHeader"].add(w, b)}
			})
		}
		// The results of a function as arguments.
		one("spread: "+n, func(w *gin) ([]*Term, []map[string][]*Term) {
			b := []*Term{w.arg("b argument 0")}
			x, y := w.method("call", w.ctxType, n), w.method("other call", w.ctxType, "GetHeader", b...)
			return []*Term{x, y}, []map[string][]*Term{table["GetHeader"].add(w, b)}
		})
	}
}

func init() {
	register(&Rule{
		ID: "P12", Min: 600,
		What:      "abstract interpretation of the parsing of a route whose handler has a call of each exported method of the context in use (every method of gin.Context, from its type), with arguments of any value and type: alone, before and after, inside and around other calls, on other receivers, and with each argument that cannot be understood; the lists of the route must grow by exactly the entries of the method",
		NotCovers: "how the value and type of an argument are found (opaque here)",
		Run:       func(c *Ctx) { c.contextMethods(false) },
	})
	register(&Rule{
		ID: "P13", Min: 600,
		What:      "the same as P12 for the methods that read the request",
		NotCovers: "how the value and type of an argument are found (opaque here)",
		Run:       func(c *Ctx) { c.contextMethods(true) },
	})
}
