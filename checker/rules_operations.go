package main

import (
	"fmt"
	"sort"
	"strings"
)

// Rules about the operations of the OpenAPI document: parameters, bodies, responses, methods and paths.

// fparam is a parameter, a body, a response or a header of a route.
type fparam struct {
	name    string
	typ     ftype
	array   bool
	isMap   bool
	bound   bool
	content string
	status  int
}

// froute is a route. All that is not given is symbolic or empty.
type froute struct {
	method, path           string
	pathParams, headers    []fparam
	query, body, responses []fparam
	responseHeaders        []fparam
}

func (o *oapi) some(label, typ string, kv ...any) *Term {
	return o.r.some(label, o.r.c.typ("", typ), kv...)
}

func (o *oapi) paramTerm(label string, p fparam) *Term {
	return o.some(label, "Param", "Name", p.name, "Field", o.fieldTerm(label+" field", p.typ), "IsArray", p.array, "IsMap", p.isMap, "IsBound", p.bound)
}

func (o *oapi) paramList(label string, ps []fparam) *Term {
	var out []*Term
	for i, p := range ps {
		out = append(out, o.paramTerm(fmt.Sprintf("%s%d", label, i), p))
	}
	return o.r.list(o.r.c.typ("", "Param"), out...)
}

func (o *oapi) routeTerm(label string, f froute) *Term {
	r := o.r
	var bs, rs []*Term
	for i, p := range f.body {
		l := fmt.Sprintf("%s body%d", label, i)
		bs = append(bs, o.some(l, "BodyParam", "Name", p.name, "Field", o.fieldTerm(l+" field", p.typ), "ContentType", p.content, "IsArray", p.array, "IsMap", p.isMap, "IsBound", p.bound))
	}
	for i, p := range f.responses {
		l := fmt.Sprintf("%s response%d", label, i)
		rs = append(rs, o.some(l, "ReturnType", "Field", o.fieldTerm(l+" field", p.typ), "ContentType", p.content, "StatusCode", p.status))
	}
	return o.some(label, "Route", "Method", f.method, "Path", f.path,
		"PathParams", o.paramList(label+" path", f.pathParams), "RequestHeaders", o.paramList(label+" header", f.headers), "QueryParams", o.paramList(label+" query", f.query),
		"Body", r.list(r.c.typ("", "BodyParam"), bs...), "ReturnTypes", r.list(r.c.typ("", "ReturnType"), rs...), "ResponseHeaders", o.paramList(label+" response header", f.responseHeaders))
}

// refFor is the reference to a named type from outside of components; ok is false if it has no schema for the binding.
func (o *oapi) refFor(b, pkg, name string) (*Term, bool) {
	if b == "" {
		// No binding: the schema of a type that is the same for all.
		for _, x := range bindingTags {
			if _, ok := o.names[pkg+"."+name+"/"+x]; !ok {
				return o.s(), false
			}
		}
		b = "json"
	}
	k, ok := o.names[pkg+"."+name+"/"+b]
	return o.s("Ref", "#/components/schemas/"+k), ok
}

// elem is the schema of an element from outside of components.
func (o *oapi) elem(b, pkg, name string) *Term {
	if predefined(name) {
		return o.format(name)
	}
	s, ok := o.refFor(b, pkg, name)
	if !ok {
		return o.s()
	}
	return s
}

// whole is the schema of a type from outside of components.
func (o *oapi) whole(b string, t ftype) (*Term, bool) {
	switch {
	case t.typ == "slice":
		return o.s("Type", "array", "Items", o.elem(b, t.pkg, t.elem)), true
	case t.typ == "map":
		return o.s("Type", "object", "AdditionalProperties", o.elem(b, t.pkg, t.elem)), true
	case predefined(t.typ):
		return o.format(t.typ), true
	}
	return o.refFor(b, t.pkg, t.typ)
}

// paramSchema is the schema of a parameter that is not bound.
func (o *oapi) paramSchema(b string, p fparam) *Term {
	switch {
	case p.array:
		return o.s("Type", "array", "Items", o.elem(b, p.typ.pkg, p.typ.typ))
	case p.isMap:
		return o.s("Type", "object", "AdditionalProperties", o.elem(b, p.typ.pkg, p.typ.typ))
	}
	return o.format(p.typ.typ)
}

type fproperty struct {
	name   string
	schema *Term
}

// properties are the properties of a component for a binding, with those of embedded structs.
func (o *oapi) properties(pkg, name, b string) []fproperty {
	t := o.comp(pkg, name)
	if t == nil || t.typ != "struct" || o.mapped(t) || !t.bound(b) {
		return nil
	}
	label := ""
	for i := range o.comps {
		if &o.comps[i] == t {
			label = fmt.Sprintf("component%d", i)
		}
	}
	var out []fproperty
	has := map[string]bool{}
	for _, f := range t.fields {
		if n, _ := t.nameFor(f, b); n != "-" && !f.embedded {
			out = append(out, fproperty{n, o.schemaOf(label+"."+f.name, f.typ, b)})
			has[n] = true
		}
	}
	for _, f := range t.fields {
		if n, _ := t.nameFor(f, b); n != "-" && f.embedded {
			for _, x := range o.properties(f.typ.pkg, f.typ.typ, b) {
				if !has[x.name] {
					out = append(out, x)
					has[x.name] = true
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

// parameters are the parameters of the operation of a route.
func (o *oapi) parameters(label string, f froute) []*Term {
	r := o.r
	pt := r.c.typ("outputs/openapi", "Parameter")
	type param struct {
		name, in string
		t        *Term
	}
	var ps []param
	add := func(in, b, where string, list []fparam) {
		for i, p := range list {
			req := r.Sel(r.RootT(fmt.Sprintf("%s %s%d", label, where, i), r.c.typ("", "Param")), "IsRequired", nil)
			one := func(name string, schema *Term) {
				t := r.zero(pt, "Name", name, "In", in, "Required", req, "Schema", schema)
				if in == "query" {
					if k, _ := r.Sel(schema, "Type", nil).str(); k == "object" {
						t = r.with(t, "Style", "deepObject", "Explode", true)
					} else {
						t = r.with(t, "Style", "form", "Explode", false)
					}
				}
				ps = append(ps, param{name, in, t})
			}
			if !p.bound {
				one(p.name, o.paramSchema(b, p))
				continue
			}
			if in == "path" {
				continue
			}
			for _, x := range o.properties(p.typ.pkg, p.typ.typ, b) {
				one(x.name, x.schema)
			}
		}
	}
	add("path", "uri", "path", f.pathParams)
	add("header", "header", "header", f.headers)
	add("query", "form", "query", f.query)
	var unique []param
	for _, p := range ps {
		seen := false
		for _, q := range unique {
			seen = seen || q.name == p.name && q.in == p.in
		}
		if !seen {
			unique = append(unique, p)
		}
	}
	sort.SliceStable(unique, func(i, j int) bool { return unique[i].name < unique[j].name })
	var out []*Term
	for _, p := range unique {
		out = append(out, p.t)
	}
	return out
}

// operation is the operation of a route in the document.
func (o *oapi) operation(path, method string) *Term {
	p := o.entries(o.at("Paths"))[path]
	if p == nil {
		stop("the path %s is not listed", path)
	}
	op := o.r.Simp(o.r.Sel(p, method[:1]+strings.ToLower(method[1:]), nil), o.g)
	if op.isNil() {
		stop("the path %s has no operation %s", path, method)
	}
	return op
}

func (c *Ctx) operations(key string, comps []ftype, custom map[string][2]string, routes []froute, check func(o *oapi)) {
	c.scenario(key, func() {
		o := c.openapi(comps, custom, "json", nil, func(o *oapi) []*Term {
			var out []*Term
			for i, f := range routes {
				out = append(out, o.routeTerm(fmt.Sprintf("route%d", i), f))
			}
			return out
		})
		if o.naming(key) {
			check(o)
			o.checkRefs(key)
		}
	})
}

func (c *Ctx) parametersRule() {
	const p = appTypes
	run := func(key string, f froute, comps ...ftype) {
		f.method, f.path = "GET", "/x"
		c.operations(key, comps, map[string][2]string{p + ".Mapped": {"string", "m"}}, []froute{f}, func(o *oapi) {
			r := o.r
			got := r.Simp(r.Sel(o.operation("/x", "GET"), "Parameters", nil), o.g)
			want := o.parameters("route0", f)
			l, ok := r.listOf(got)
			if !ok && !got.isNil() && got.op != OZero {
				stop("the parameters are not known: %s", trunc(r.Show(got), 400))
			}
			var names []string
			for _, x := range l {
				n, _ := r.Simp(r.Sel(x, "Name", nil), o.g).str()
				names = append(names, n)
			}
			c.ok(len(l) == len(want), "number: "+key, o.where, "%d parameters (%s), not %d", len(l), strings.Join(names, ", "), len(want))
			for i := 0; i < len(l) && i < len(want); i++ {
				r.equal(fmt.Sprintf("parameter: %s: %d", key, i), o.where, l[i], want[i], o.g, fmt.Sprintf("parameter %d", i))
			}
		})
	}
	at := func(where string, ps ...fparam) froute {
		switch where {
		case "path":
			return froute{pathParams: ps}
		case "header":
			return froute{headers: ps}
		}
		return froute{query: ps}
	}
	plain := structOf(p, "Plain", ffield{name: "ID", typ: basic("string"), tags: untagged("ID")})
	for _, where := range []string{"path", "header", "query"} {
		b := map[string]string{"path": "uri", "header": "header", "query": "form"}[where]
		for _, k := range []string{"string", "int", "int64", "bool", "float64", "any"} {
			run(where+": "+k, at(where, fparam{name: "a", typ: basic(k)}))
			run(where+": array of "+k, at(where, fparam{name: "a", typ: basic(k), array: true}))
			run(where+": map of "+k, at(where, fparam{name: "a", typ: basic(k), isMap: true}))
		}
		run(where+": array of a named type", at(where, fparam{name: "a", typ: named(p, "Plain"), array: true}), plain)
		run(where+": map of a named type", at(where, fparam{name: "a", typ: named(p, "Plain"), isMap: true}), plain)
		run(where+": several", at(where, fparam{name: "c", typ: basic("string")}, fparam{name: "a", typ: basic("int")}, fparam{name: "b", typ: basic("bool"), array: true}))
		run(where+": twice", at(where, fparam{name: "b", typ: basic("string")}, fparam{name: "a", typ: basic("int")}, fparam{name: "b", typ: basic("string")}, fparam{name: "c", typ: basic("string")}))
		bind := func(name string) fparam { return fparam{typ: named(p, name), bound: true} }
		f := func(name string, t ftype, tag string) ffield {
			return ffield{name: name, typ: t, tags: []string{b, tag}}
		}
		filter := structOf(p, "Filter", f("Z", basic("string"), "z"), f("Hidden", basic("string"), "-"), f("N", basic("int64"), "n"), f("S", sliceOf("", "string"), "s"), f("M", mapOf("", "int"), "m"),
			f("In", ftype{typ: "struct", fields: []ffield{f("A", basic("int"), "a")}}, "in"), f("L", named(p, "Level"), "l"))
		level := alias(basic("string"), p, "Level")
		run(where+": bound", at(where, bind("Filter")), filter, level)
		run(where+": bound and others", at(where, fparam{name: "zz", typ: basic("string")}, bind("Filter"), fparam{name: "a", typ: basic("string")}), filter, level)
		run(where+": bound beside the same name", at(where, bind("Filter"), fparam{name: "n", typ: basic("string")}), filter, level)
		run(where+": same name beside bound", at(where, fparam{name: "n", typ: basic("string")}, bind("Filter")), filter, level)
		run(where+": bound twice", at(where, bind("Filter"), bind("Filter")), filter, level)
		run(where+": untagged bound", at(where, bind("Plain")), plain)
		run(where+": bound for another binding", at(where, bind("Other")), structOf(p, "Other", ffield{name: "ID", typ: basic("string"), tags: []string{"xml", "id"}}))
		run(where+": bound mapped type", at(where, bind("Mapped")), structOf(p, "Mapped", f("A", basic("string"), "a")))
		run(where+": bound with different names", at(where, bind("Many")), structOf(p, "Many", ffield{name: "A", typ: basic("string"), tags: []string{"json", "ja", "form", "fa", "header", "ha", "uri", "ua"}}))
		run(where+": bound struct of two packages", at(where, bind("Filter")), structOf("example.com/b/types", "Filter", f("X", basic("string"), "x")), filter, level)
		run(where+": bound that is no component", at(where, bind("Gone")))
		emb := func(name string, tags ...string) ffield {
			return ffield{name: name, typ: named(p, name), tags: tags, embedded: true}
		}
		page := structOf(p, "Page", f("Limit", basic("int"), "limit"), f("Sort", basic("string"), "sort"))
		run(where+": embedded", at(where, bind("List")), page, structOf(p, "List", emb("Page", "", "Page"), f("Q", basic("string"), "q"), f("Sort", basic("int"), "sort")))
		run(where+": embedded alone", at(where, bind("List")), page, structOf(p, "List", emb("Page", "", "Page")))
		run(where+": embedded twice", at(where, bind("List")), page, structOf(p, "Mid", emb("Page", "", "Page"), f("M", basic("int"), "m")), structOf(p, "List", emb("Mid", "", "Mid")))
		run(where+": hidden embedded", at(where, bind("List")), page, structOf(p, "List", emb("Page", b, "-"), f("Q", basic("string"), "q")))
	}
	mix := froute{
		pathParams: []fparam{{name: "id", typ: basic("string")}, {name: "z", typ: basic("string")}},
		headers:    []fparam{{name: "X-A", typ: basic("string")}, {name: "id", typ: basic("string")}, {name: "id", typ: basic("string")}},
		query:      []fparam{{name: "z", typ: basic("int")}, {name: "id", typ: basic("string"), array: true}, {name: "b", typ: basic("string"), isMap: true}, {name: "id", typ: basic("string")}},
	}
	run("locations", mix)
	run("none", froute{})
}

func (c *Ctx) bodiesRule() {
	const p = appTypes
	plain := structOf(p, "Plain", ffield{name: "ID", typ: basic("string"), tags: untagged("ID")})
	tagged := structOf(p, "Thing", ffield{name: "ID", typ: basic("string"), tags: jsonTag("id")})
	many := structOf(p, "Many", ffield{name: "A", typ: basic("string"), tags: []string{"json", "ja", "form", "fa", "xml", "xa", "yaml", "ya"}})
	comps := []ftype{plain, tagged, many}
	binding := func(content string) string {
		switch content {
		case "application/json":
			return "json"
		case "application/xml":
			return "xml"
		case "application/yaml":
			return "yaml"
		case "application/x-www-form-urlencoded", "multipart/form-data":
			return "form"
		}
		return ""
	}
	body := func(key string, bs ...fparam) {
		f := froute{method: "POST", path: "/x", body: bs}
		c.operations("body: "+key, comps, nil, []froute{f}, func(o *oapi) {
			r := o.r
			got := r.Simp(r.Sel(o.operation("/x", "POST"), "RequestBody", nil), o.g)
			type media struct {
				schema *Term
				fields []any
			}
			content := map[string]*media{}
			var order []string
			for _, b := range bs {
				s, ok := o.whole(binding(b.content), b.typ)
				if b.array || b.isMap {
					s, ok = o.paramSchema(binding(b.content), b), true
				}
				if !ok {
					continue
				}
				m := content[b.content]
				if m == nil {
					m = &media{}
					content[b.content] = m
					order = append(order, b.content)
				}
				if b.name == "" {
					m.schema = s
				} else {
					m.fields = append(m.fields, b.name, s)
				}
			}
			if len(order) == 0 {
				c.ok(got.isNil(), "none: "+key, o.where, "there is a request body: %s", trunc(r.Show(got), 200))
				return
			}
			if !c.ok(!got.isNil(), "some: "+key, o.where, "there is no request body") {
				return
			}
			gotContent := o.entries(r.Simp(r.Sel(got, "Content", nil), o.g))
			c.ok(len(gotContent) == len(order), "content types: "+key, o.where, "%d content types, not %d", len(gotContent), len(order))
			mt := r.c.typ("outputs/openapi", "MediaType")
			for _, ct := range order {
				m := content[ct]
				s := m.schema
				if s == nil {
					s = o.s("Type", "object", "Properties", r.mapT(fieldType(o.schema, "Properties"), m.fields...))
				}
				r.equal("body: "+key+": "+ct, o.where, gotContent[ct], r.zero(mt, "Schema", s), o.g, "the body for "+ct)
			}
		})
	}
	for _, ct := range []string{"application/json", "application/xml", "application/yaml", "application/x-www-form-urlencoded", "multipart/form-data"} {
		whole := func(key string, t ftype) { body(ct+": "+key, fparam{typ: t, content: ct, bound: true}) }
		whole("struct", named(p, "Many"))
		whole("untagged struct", named(p, "Plain"))
		whole("struct with json tags", named(p, "Thing"))
		whole("slice of struct", sliceOf(p, "Many"))
		whole("map of struct", mapOf(p, "Many"))
		for _, k := range []string{"string", "int64", "any"} {
			whole(k, basic(k))
			whole("slice of "+k, sliceOf("", k))
			whole("map of "+k, mapOf("", k))
		}
		field := func(key string, fs ...fparam) {
			for i := range fs {
				fs[i].content = ct
			}
			body(ct+": "+key, fs...)
		}
		field("field", fparam{name: "a", typ: basic("string")})
		field("fields", fparam{name: "b", typ: basic("string")}, fparam{name: "a", typ: basic("int64")}, fparam{name: "c", typ: basic("file")})
		field("array field", fparam{name: "a", typ: basic("string"), array: true}, fparam{name: "b", typ: basic("string")})
		field("map field", fparam{name: "b", typ: basic("string")}, fparam{name: "a", typ: basic("int64"), isMap: true})
	}
	body("all content types", fparam{typ: named(p, "Many"), content: "application/json", bound: true}, fparam{typ: named(p, "Many"), content: "application/xml", bound: true},
		fparam{typ: named(p, "Many"), content: "application/yaml", bound: true}, fparam{typ: named(p, "Many"), content: "application/x-www-form-urlencoded", bound: true}, fparam{typ: named(p, "Many"), content: "multipart/form-data", bound: true})
	body("fields of two content types", fparam{name: "a", typ: basic("string"), content: "application/x-www-form-urlencoded"}, fparam{name: "f", typ: basic("file"), content: "multipart/form-data"},
		fparam{name: "b", typ: basic("string"), content: "application/x-www-form-urlencoded"}, fparam{name: "g", typ: basic("file"), content: "multipart/form-data"})
	body("field beside whole", fparam{typ: named(p, "Thing"), content: "application/json", bound: true}, fparam{name: "f", typ: basic("file"), content: "multipart/form-data"})
	body("none")

	response := func(key string, hs []fparam, rs ...fparam) {
		f := froute{method: "GET", path: "/x", responses: rs, responseHeaders: hs}
		c.operations("response: "+key, comps, nil, []froute{f}, func(o *oapi) {
			r := o.r
			got := o.entries(r.Simp(r.Sel(o.operation("/x", "GET"), "Responses", nil), o.g))
			mt, ht := r.c.typ("outputs/openapi", "MediaType"), r.c.typ("outputs/openapi", "Header")
			content := map[string][]any{}
			var order []string
			for _, x := range rs {
				st := fmt.Sprint(x.status)
				if _, ok := content[st]; !ok {
					order = append(order, st)
					content[st] = nil
				}
				if s, ok := o.whole(binding(x.content), x.typ); ok && x.typ.typ != "nil" && x.typ.typ != "any" {
					content[st] = append(content[st], x.content, r.zero(mt, "Schema", s))
				}
			}
			var headers []any
			for i, h := range hs {
				req := r.Sel(r.RootT(fmt.Sprintf("route0 response header%d", i), r.c.typ("", "Param")), "IsRequired", nil)
				headers = append(headers, h.name, r.zero(ht, "Schema", o.paramSchema("header", h), "Required", req))
			}
			c.ok(len(got) == len(order), "statuses: "+key, o.where, "%d responses, not %d", len(got), len(order))
			resp := r.c.typ("outputs/openapi", "Response")
			for _, st := range order {
				if !c.ok(got[st] != nil, "status: "+key+": "+st, o.where, "no response for %s", st) {
					continue
				}
				for _, part := range []string{"Description", "Links"} {
					d := r.Simp(r.Sel(got[st], part, nil), o.g)
					s, isStr := d.str()
					c.ok(d.isNil() || d.op == OZero || isStr && s == "", "response: "+key+": "+st+" "+part, o.where, "%s is %s", part, trunc(r.Show(d), 200))
				}
				o.sameEntries("response: "+key+": "+st, r.Simp(r.Sel(got[st], "Content", nil), o.g), r.mapT(fieldType(resp, "Content"), content[st]...))
				o.sameEntries("response headers: "+key+": "+st, r.Simp(r.Sel(got[st], "Headers", nil), o.g), r.mapT(fieldType(resp, "Headers"), headers...))
			}
		})
	}
	for _, ct := range []string{"application/json", "application/xml", "application/yaml", "application/protobuf", "text/plain", ""} {
		one := func(key string, t ftype) { response(ct+": "+key, nil, fparam{typ: t, content: ct, status: 200}) }
		one("struct", named(p, "Many"))
		one("untagged struct", named(p, "Plain"))
		one("slice of struct", sliceOf(p, "Many"))
		one("map of struct", mapOf(p, "Many"))
		for _, k := range []string{"string", "int64", "any", "nil", "bool"} {
			one(k, basic(k))
			one("slice of "+k, sliceOf("", k))
			one("map of "+k, mapOf("", k))
		}
	}
	const js, xm = "application/json", "application/xml"
	response("statuses", nil, fparam{typ: named(p, "Thing"), content: js, status: 200}, fparam{typ: basic("string"), content: js, status: 404}, fparam{typ: basic("nil"), status: 204}, fparam{typ: basic("string"), content: "text/plain", status: 500})
	response("content types", nil, fparam{typ: named(p, "Many"), content: js, status: 200}, fparam{typ: named(p, "Many"), content: xm, status: 200}, fparam{typ: basic("string"), content: "text/plain", status: 200})
	response("status with and without content", nil, fparam{typ: basic("nil"), status: 400}, fparam{typ: basic("string"), content: js, status: 400}, fparam{typ: basic("nil"), status: 401})
	response("content and then none", nil, fparam{typ: basic("string"), content: js, status: 400}, fparam{typ: basic("nil"), status: 400})
	response("unbound content", nil, fparam{typ: named(p, "Thing"), content: xm, status: 200}, fparam{typ: named(p, "Thing"), content: js, status: 201})
	hs := []fparam{{name: "X-A", typ: basic("string")}, {name: "X-B", typ: basic("int64")}}
	response("headers", hs, fparam{typ: named(p, "Thing"), content: js, status: 200}, fparam{typ: basic("nil"), status: 404})
	response("one header", hs[:1], fparam{typ: basic("nil"), status: 404})
	response("none", nil)
}

// sameEntries compares two maps; none is as good as empty.
func (o *oapi) sameEntries(key string, got, want *Term) {
	r := o.r
	g := map[string]*Term{}
	if got.op != OZero {
		g = o.entries(got)
	}
	w := o.entries(want)
	var ks []string
	for k := range w {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var gs []string
	for k := range g {
		gs = append(gs, k)
	}
	sort.Strings(gs)
	r.c.ok(strings.Join(ks, "|") == strings.Join(gs, "|"), key, o.where, "has %s, not %s", strings.Join(gs, ", "), strings.Join(ks, ", "))
	for _, k := range ks {
		if g[k] != nil {
			r.equal(key+": "+k, o.where, g[k], w[k], o.g, k)
		}
	}
}

var openapiMethods = []string{"GET", "PUT", "POST", "DELETE", "OPTIONS", "HEAD", "PATCH", "TRACE"}

func (c *Ctx) methodsRule() {
	run := func(key string, routes ...froute) {
		for i := range routes {
			routes[i].responses = []fparam{{status: 200 + i, typ: basic("string"), content: "application/json"}}
			routes[i].query = []fparam{{name: fmt.Sprintf("q%d", i), typ: basic("string")}}
		}
		c.operations(key, nil, nil, routes, func(o *oapi) {
			r := o.r
			paths := o.entries(o.at("Paths"))
			want := map[string]map[string]int{}
			for i, f := range routes {
				p := f.path
				var segs []string
				for _, s := range strings.Split(p, "/") {
					if j := strings.IndexAny(s, ":*"); j >= 0 {
						n := s[j+1:]
						if s[j] == '*' {
							n += "*"
						}
						s = s[:j] + "{" + n + "}"
					}
					segs = append(segs, s)
				}
				p = strings.Join(segs, "/")
				if want[p] == nil {
					want[p] = map[string]int{}
				}
				want[p][f.method] = i
			}
			var ps, gs []string
			for p := range want {
				ps = append(ps, p)
			}
			for p := range paths {
				gs = append(gs, p)
			}
			sort.Strings(ps)
			sort.Strings(gs)
			if !c.ok(strings.Join(ps, " ") == strings.Join(gs, " "), "paths: "+key, o.where, "the paths are %s, not %s", strings.Join(gs, " "), strings.Join(ps, " ")) {
				return
			}
			for _, p := range ps {
				for _, m := range openapiMethods {
					op := r.Simp(r.Sel(paths[p], m[:1]+strings.ToLower(m[1:]), nil), o.g)
					i, ok := want[p][m]
					k := fmt.Sprintf("%s: %s %s", key, m, p)
					if !ok {
						c.ok(op.isNil() || op.op == OZero, "operation: "+k, o.where, "there is an operation for %s %s: %s", m, p, trunc(r.Show(op), 200))
						continue
					}
					if !c.ok(!op.isNil() && op.op != OZero, "operation: "+k, o.where, "there is no operation for %s %s", m, p) {
						continue
					}
					rt := r.RootT(fmt.Sprintf("route%d", i), r.c.typ("", "Route"))
					for _, x := range [][2]string{{"Description", "Doc"}, {"OperationID", "OperationID"}} {
						r.equal(x[0]+": "+k, o.where, r.Simp(r.Sel(op, x[0], nil), o.g), r.Sel(rt, x[1], nil), o.g, x[0])
					}
					l, _ := r.listOf(r.Simp(r.Sel(op, "Parameters", nil), o.g))
					okp := len(l) == 1
					if okp {
						n, _ := r.Simp(r.Sel(l[0], "Name", nil), o.g).str()
						okp = n == fmt.Sprintf("q%d", i)
					}
					c.ok(okp, "parameters: "+k, o.where, "the parameters are not those of the route")
					rs := o.entries(r.Simp(r.Sel(op, "Responses", nil), o.g))
					c.ok(len(rs) == 1 && rs[fmt.Sprint(200+i)] != nil, "responses: "+k, o.where, "the responses are not those of the route")
				}
			}
		})
	}
	for _, m := range openapiMethods {
		run("method "+m, froute{method: m, path: "/x"})
	}
	for i, m := range openapiMethods {
		n := openapiMethods[(i+1)%len(openapiMethods)]
		run("methods "+m+" and "+n, froute{method: m, path: "/x"}, froute{method: n, path: "/x"})
	}
	var all []froute
	for _, m := range openapiMethods {
		all = append(all, froute{method: m, path: "/x/:id"})
	}
	run("all methods", all...)
	for _, p := range []string{"/", "/a", "/a/", "/a/b/c", "/:id", "/a/:id", "/a/:id/b", "/a/:id/b/:other", "/*rest", "/a/*rest", "/a/:id/*rest", "/a/pre:id", "/a/:user_name/b-c", "/a.b/:x.y", "/:a/:b/:c/*d"} {
		run("path "+p, froute{method: "GET", path: p})
	}
	run("paths", froute{method: "GET", path: "/a"}, froute{method: "GET", path: "/b"}, froute{method: "POST", path: "/a"}, froute{method: "GET", path: "/a/:id"}, froute{method: "DELETE", path: "/a/:id"})
}

func (c *Ctx) configurationRule() {
	for _, ext := range []string{"json", "yaml", "yml", "other"} {
		key := ext
		c.scenario(key, func() {
			o := c.openapi([]ftype{structOf(appTypes, "Thing", ffield{name: "ID", typ: basic("string"), tags: jsonTag("id")})}, nil, ext, nil, nil)
			r := o.r
			conf := r.RootT("config", c.typ("", "Config"))
			at := func(path ...string) *Term {
				v := conf
				for _, p := range path {
					v = r.Sel(v, p, nil)
				}
				return v
			}
			enc := "encoding/json.MarshalIndent"
			if strings.HasPrefix(ext, "y") {
				enc = "gopkg.in/yaml.v3.Marshal"
			}
			c.ok(o.encoder == enc, "encoder: "+key, o.where, "the document is encoded by %s", o.encoder)
			eq := func(name string, want *Term, path ...string) {
				r.equal(name+": "+key, o.where, o.at(path...), want, o.g, strings.Join(path, "."))
			}
			eq("version of OpenAPI", r.Str("3.0.0"), "OpenAPI")
			eq("title", at("Title"), "Info", "Title")
			eq("version", at("Version"), "Info", "Version")
			d := at("Description")
			eq("description", r.cond(r.Eq(d, r.Str("")), r.Str("Generated by astra"), d), "Info", "Description")
			for _, f := range []string{"Name", "URL", "Email"} {
				eq("contact "+f, at("Contact", f), "Info", "Contact", f)
			}
			for _, f := range []string{"Name", "URL"} {
				eq("license "+f, at("License", f), "Info", "License", f)
			}
			srv, ok := r.listOf(o.at("Servers"))
			if c.ok(ok && len(srv) == 1, "servers: "+key, o.where, "there is not one server") {
				sch := r.cond(r.ToBDD(at("Secure")), r.Str("https://"), r.Str("http://"))
				url := r.mapGamma(sch, func(s *Term) *Term {
					return r.Concat(s, at("Host"), r.Str(":"), r.intern(&Term{op: OCall, s: "strconv.Itoa", a: []*Term{at("Port")}}), at("BasePath"))
				})
				r.equal("address: "+key, o.where, r.Simp(r.Sel(srv[0], "URL", nil), o.g), url, o.g, "the address of the server")
			}
			if o.naming(key) {
				o.checkSchemas(key)
			}
		})
	}
}

func init() {
	register(&Rule{
		ID:   "P20",
		What: "abstract interpretation of the OpenAPI generator on routes with every kind of parameter; the parameters of the encoded operation are compared with those of the specification",
		Min:  100,
		Run:  func(c *Ctx) { c.parametersRule() },
	})
	register(&Rule{
		ID:   "P21",
		What: "abstract interpretation of the OpenAPI generator on routes with every kind of body and response; the encoded bodies and responses are compared with those of the specification",
		Min:  100,
		Run:  func(c *Ctx) { c.bodiesRule() },
	})
	register(&Rule{
		ID:   "P22",
		What: "abstract interpretation of the OpenAPI generator on routes of every method and kind of path; the encoded paths and operations are compared with the routes",
		Min:  100,
		Run:  func(c *Ctx) { c.methodsRule() },
	})
	register(&Rule{
		ID:   "P23",
		What: "abstract interpretation of the OpenAPI generator on any configuration; the encoded document is compared with the configuration",
		Min:  20,
		Run:  func(c *Ctx) { c.configurationRule() },
	})
}
