package main

import (
	"fmt"
	"go/types"
	"os"
	"reflect"
	"sort"
	"strings"
)

// Rules about what is written: the keys of documents, the JSON output, the Azure functions and the tables of types.

// docObject is an object of the specification of OpenAPI: field of the Go type -> key, kind of the value ("" for a
// plain value, a name of an object, "*" something that is written as it is), and whether it is required.
type docField struct {
	key, object string
	required    bool
}

func plain(keys ...string) map[string]docField {
	m := map[string]docField{}
	for i := 0; i+1 < len(keys); i += 2 {
		m[keys[i]] = docField{key: keys[i+1]}
	}
	return m
}

func obj(m map[string]docField, kv ...string) map[string]docField {
	for i := 0; i+2 < len(kv); i += 3 {
		m[kv[i]] = docField{key: kv[i+1], object: kv[i+2]}
	}
	return m
}

func req(m map[string]docField, names ...string) map[string]docField {
	for _, n := range names {
		f := m[n]
		f.required = true
		m[n] = f
	}
	return m
}

// openapiKeys is the part of the specification of OpenAPI 3 (and JSON schema) that the document knows.
var openapiKeys = map[string]map[string]docField{
	"OpenAPI": req(obj(plain("OpenAPI", "openapi", "JSONSchemaDialect", "jsonSchemaDialect"), "Info", "info", "Info", "Servers", "servers", "Server", "Paths", "paths", "Path", "Webhooks", "webhooks", "Path",
		"Components", "components", "Components", "Security", "security", "", "Tags", "tags", "Tag", "ExternalDocs", "externalDocs", "ExternalDocs"), "OpenAPI", "Info", "Paths"),
	"Info":    req(obj(plain("Title", "title", "Description", "description", "TermsOfService", "termsOfService", "Version", "version"), "Contact", "contact", "Contact", "License", "license", "License"), "Title", "Version"),
	"Contact": plain("Name", "name", "URL", "url", "Email", "email"),
	"License": req(plain("Name", "name", "URL", "url"), "Name"),
	"Server":  plain("URL", "url", "Description", "description"),
	"Path": obj(plain("Ref", "$ref", "Summary", "summary", "Description", "description"), "Get", "get", "Operation", "Put", "put", "Operation", "Post", "post", "Operation", "Delete", "delete", "Operation",
		"Options", "options", "Operation", "Head", "head", "Operation", "Patch", "patch", "Operation", "Trace", "trace", "Operation", "Servers", "servers", "Server", "Parameters", "parameters", "Parameter"),
	"Operation": req(obj(plain("Ref", "$ref", "Tags", "tags", "Summary", "summary", "Description", "description", "OperationID", "operationId", "Deprecated", "deprecated", "Security", "security"),
		"ExternalDocs", "externalDocs", "ExternalDocs", "Parameters", "parameters", "Parameter", "RequestBody", "requestBody", "RequestBody", "Responses", "responses", "Response", "Callbacks", "callbacks", "Path", "Servers", "servers", "Server"), "Responses"),
	"Parameter": obj(plain("Ref", "$ref", "Name", "name", "In", "in", "Description", "description", "Required", "required", "Deprecated", "deprecated", "AllowEmpty", "allowEmptyValue", "Style", "style", "Explode", "explode",
		"AllowReserved", "allowReserved", "Example", "example"), "Schema", "schema", "Schema"),
	"RequestBody": obj(plain("Ref", "$ref", "Description", "description", "Required", "required"), "Content", "content", "MediaType"),
	"MediaType":   obj(plain("Example", "example"), "Schema", "schema", "Schema", "Encoding", "encoding", "Encoding"),
	"Encoding":    obj(plain("ContentType", "contentType", "Style", "style", "Explode", "explode", "AllowReserved", "allowReserved"), "Headers", "headers", "Header"),
	"Header": obj(plain("Ref", "$ref", "Description", "description", "Required", "required", "Deprecated", "deprecated", "AllowEmpty", "allowEmptyValue", "Style", "style", "Explode", "explode", "Example", "example"),
		"Schema", "schema", "Schema"),
	"Response":     req(obj(plain("Ref", "$ref", "Description", "description"), "Headers", "headers", "Header", "Content", "content", "MediaType", "Links", "links", "Link"), "Description"),
	"Link":         obj(plain("OperationRef", "operationRef", "OperationID", "operationId", "RequestBody", "requestBody", "Description", "description"), "Parameters", "parameters", "Parameter", "Server", "server", "Server"),
	"Tag":          obj(plain("Name", "name", "Description", "description"), "ExternalDocs", "externalDocs", "ExternalDocs"),
	"ExternalDocs": plain("Description", "description", "URL", "url"),
	"Components": obj(plain(), "Schemas", "schemas", "Schema", "Responses", "responses", "Response", "Parameters", "parameters", "Parameter", "RequestBodies", "requestBodies", "RequestBody", "Headers", "headers", "Header",
		"SecuritySchemes", "securitySchemes", "SecurityScheme", "Links", "links", "Link", "Callbacks", "callbacks", "Path", "PathItems", "pathItems", "Path"),
	"SecurityScheme": plain("Ref", "$ref", "Type", "type", "Description", "description", "Name", "name", "In", "in", "Scheme", "scheme", "BearerFormat", "bearerFormat"),
	"Schema": obj(plain("Ref", "$ref", "Title", "title", "MultipleOf", "multipleOf", "Maximum", "maximum", "ExclusiveMaximum", "exclusiveMaximum", "Minimum", "minimum", "ExclusiveMinimum", "exclusiveMinimum",
		"MaxLength", "maxLength", "MinLength", "minLength", "Pattern", "pattern", "MaxItems", "maxItems", "MinItems", "minItems", "UniqueItems", "uniqueItems", "MaxProperties", "maxProperties", "MinProperties", "minProperties",
		"Required", "required", "Enum", "enum", "Type", "type", "Format", "format", "Description", "description", "Default", "default", "Example", "example", "Nullable", "nullable", "ReadOnly", "readOnly", "WriteOnly", "writeOnly", "Deprecated", "deprecated"),
		"AllOf", "allOf", "Schema", "OneOf", "oneOf", "Schema", "AnyOf", "anyOf", "Schema", "Not", "not", "Schema", "Items", "items", "Schema", "Properties", "properties", "Schema",
		"PatternProperties", "patternProperties", "Schema", "AdditionalProperties", "additionalProperties", "Schema"),
}

// azureKeys are the keys of function.json.
var azureKeys = map[string]map[string]docField{
	"Function": req(obj(plain(), "Bindings", "bindings", "Binding"), "Bindings"),
	"Binding":  req(plain("Type", "type", "Direction", "direction", "Name", "name", "Methods", "methods", "Route", "route", "AuthLevel", "authLevel"), "Type", "Direction", "Name"),
}

// structIn is the struct that a type holds, in lists, maps and behind pointers.
func structIn(t types.Type) (*types.Struct, types.Type) {
	for i := 0; i < 8; i++ {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			return u, t
		case *types.Pointer:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		case *types.Array:
			t = u.Elem()
		case *types.Map:
			t = u.Elem()
		default:
			return nil, t
		}
	}
	return nil, t
}

// documentKeys compares the keys of an object with those of the specification.
func (c *Ctx) documentKeys(spec map[string]map[string]docField, object string, t types.Type, encs []string, seen map[string]bool) {
	st, st0 := structIn(t)
	if st == nil {
		c.fail("keys: "+object, "", "%s is written as a %s", object, t)
		return
	}
	if seen[object+" "+st0.String()] {
		return
	}
	seen[object+" "+st0.String()] = true
	if n, ok := st0.(*types.Named); ok {
		ms := types.NewMethodSet(types.NewPointer(n))
		for _, m := range []string{"MarshalJSON", "MarshalYAML", "MarshalText", "IsZero"} {
			c.ok(ms.Lookup(n.Obj().Pkg(), m) == nil, "keys: own encoding: "+object, "", "%s has a method %s: it is not written by its fields", st0, m)
		}
	}
	var visit func(st *types.Struct)
	have := map[string]bool{}
	visit = func(st *types.Struct) {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if in, ok := f.Type().Underlying().(*types.Struct); ok && f.Embedded() {
				inl := true
				for _, e := range encs {
					inl = inl && inlineTag(st, i, e)
				}
				c.ok(inl, "keys: "+object+"."+f.Name(), "", "the embedded %s of %s is not written inline in every encoding", f.Name(), object)
				visit(in)
				continue
			}
			want, known := spec[object][f.Name()]
			have[f.Name()] = true
			for _, e := range encs {
				n, hidden := tagOf(st, i, e)
				pos := c.p.posAt(f.Pos())
				if !known {
					ok := hidden
					for _, x := range spec[object] {
						ok = ok || x.key == n
					}
					c.ok(ok || strings.HasPrefix(n, "x-"), "keys: "+object+"."+f.Name(), pos, "%s of %s is written as %q, which OpenAPI does not know", f.Name(), object, n)
					continue
				}
				c.ok(!hidden && n == want.key, "keys: "+e+": "+object+"."+f.Name(), pos, "%s of %s is written as %q in %s, but the specification calls it %q", f.Name(), object, n, e, want.key)
				opts := strings.Split(reflect.StructTag(st.Tag(i)).Get(e), ",")
				omit := false
				for _, o := range opts[1:] {
					switch o {
					case "omitempty":
						omit = true
					case "flow":
					default:
						c.fail("keys: options: "+object+"."+f.Name(), pos, "%s of %s is written with the option %q in %s", f.Name(), object, o, e)
					}
				}
				_, isStruct := f.Type().Underlying().(*types.Struct)
				switch {
				case want.required:
					c.ok(!omit || isStruct && e == "json", "required: "+e+": "+object+"."+f.Name(), pos, "the key %q of %s is required but is left out in %s if it is empty", want.key, object, e)
				case !isStruct:
					c.ok(omit, "optional: "+e+": "+object+"."+f.Name(), pos, "the key %q of %s is written in %s although there is nothing to write", want.key, object, e)
				}
			}
			if known && want.object != "" {
				c.documentKeys(spec, want.object, f.Type(), encs, seen)
			}
		}
		names := map[string]string{}
		for _, e := range encs {
			for k := range names {
				delete(names, k)
			}
			c.keys(st, e, object, names)
		}
	}
	visit(st)
	for n, f := range spec[object] {
		if f.required {
			c.ok(have[n], "required: "+object+"."+n, "", "%s has no field for the required key %q", object, f.key)
		}
	}
}

func (c *Ctx) keysRule() {
	for _, ext := range []string{"json", "yaml", "yml"} {
		c.scenario(ext, func() {
			o := c.openapi(nil, nil, ext, nil, nil)
			if o.docType == nil {
				stop("the type of the document is not known")
			}
			c.documentKeys(openapiKeys, "OpenAPI", o.docType, []string{"json", "yaml"}, map[string]bool{})
		})
	}
	// The lists that are required are there even without routes, components and the like.
	c.scenario("empty", func() {
		o := c.openapi(nil, nil, "json", nil, nil)
		p := o.at("Paths")
		c.ok(!p.isNil() && p.op != OZero, "not null: paths", o.where, "the paths of a document without routes are null")
	})
	c.scenario("operation", func() {
		o := c.openapi(nil, nil, "json", nil, func(o *oapi) []*Term { return []*Term{o.routeTerm("route", froute{method: "GET", path: "/a"})} })
		op := o.operation("/a", "GET")
		if op != nil {
			p := o.r.Simp(o.r.Sel(op, "Responses", nil), o.g)
			c.ok(!p.isNil() && p.op != OZero, "not null: responses", o.where, "the responses of an operation without responses are null")
		}
	})
}

func (c *Ctx) jsonRule() {
	gen := c.fn("outputs/json", "Generate")
	for _, n := range []int{0, 1, 3} {
		for _, name := range []string{"api.json", "api"} {
			c.scenario(fmt.Sprintf("json %d", n), func() {
				r := c.begin(nil)
				rt, ft := c.typ("", "Route"), c.field()
				routes, comps := r.list(rt), r.list(ft)
				var rs, cs []*Term
				for i := 0; i < n; i++ {
					rs = append(rs, r.RootT(fmt.Sprintf("route%d", i), rt))
					cs = append(cs, r.RootT(fmt.Sprintf("component%d", i), ft))
				}
				routes, comps = r.list(rt, rs...), r.list(ft, cs...)
				var doc *Term
				var docT types.Type
				g := False
				where := ""
				calls := 0
				r.hook = func(k *Call) (*Term, bool) {
					switch k.Name {
					case "encoding/json.MarshalIndent", "encoding/json.Marshal":
						v := k.resolved(r.Interp)[0]
						if v.op == OIface {
							docT = v.typ
							v = v.a[0]
						}
						doc, g, where = v, k.G, r.pos(k.Pos)
						calls++
						return r.Tuple(r.RootT("bytes", types.NewSlice(types.Typ[types.Byte])), r.nilT), true
					}
					return nil, false
				}
				r.eval(gen, []*Term{r.Str(name)})
				f := r.out(0)
				r.effects = nil
				s := r.serviceWith("Routes", routes, "Components", comps)
				r.applyTerm(f, s)
				if !c.ok(calls == 1 && docT != nil, "encoded: once", c.p.pos(gen), "the output is encoded %d times", calls) {
					return
				}
				if p, ok := docT.Underlying().(*types.Pointer); ok {
					docT, doc = p.Elem(), r.resolve(r.deref(r.st, doc), r.st)
				}
				c.ok(r.must(r.ret, g), "encoded: always", where, "the output is not encoded if %s", trunc(r.ShowG(r.And(r.ret, r.Not(g))), 200))
				st, ok := docT.Underlying().(*types.Struct)
				if !ok {
					stop("the output is a %s", docT)
				}
				want := map[string]*Term{"routes": routes, "components": comps}
				for i := 0; i < st.NumFields(); i++ {
					k, hidden := tagOf(st, i, "json")
					if hidden {
						continue
					}
					if w := want[k]; w != nil {
						v := r.Simp(r.Sel(doc, st.Field(i).Name(), nil), g)
						if n == 0 {
							l, isL := r.listOf(v)
							c.ok(v.isNil() || v.op == OZero || isL && len(l) == 0, "content: "+k, where, "the %s of an empty service are %s", k, trunc(r.Show(v), 200))
						} else {
							r.equal(fmt.Sprintf("content: %s %d", k, n), where, v, w, g, "the "+k)
						}
						delete(want, k)
						opt := reflect.StructTag(st.Tag(i)).Get("json")
						c.ok(!strings.Contains(opt, ",omit") && !strings.Contains(opt, ",string"), "content: always: "+k, where, "the key %s is left out if it is empty", k)
					}
				}
				for k := range want {
					c.fail("content: "+k, where, "the output has no key %s", k)
				}
				for _, e := range r.effects {
					if e.Name == "os.WriteFile" {
						c.ok(e.Args[1] == r.RootT("bytes", nil) || e.Args[1].op == ORoot && e.Args[1].s == "bytes", "written: json", r.where(e), "what is written is not the output: %s", trunc(r.Show(e.Args[1]), 200))
					}
				}
				c.ok(len(r.byName("os.WriteFile")) == 1, "written: once", where, "the output is written %d times", len(r.byName("os.WriteFile")))
				if n == 1 {
					c.codable(docT, "json", "output", map[string]bool{})
					c.complete(docT, "json", "output", map[string]bool{})
				}
			})
		}
	}
}

// complete requires that every exported field of the described types is written.
func (c *Ctx) complete(t types.Type, enc, where string, seen map[string]bool) {
	st, named := structIn(t)
	if st == nil || seen[named.String()] {
		return
	}
	seen[named.String()] = true
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() {
			continue
		}
		_, hidden := tagOf(st, i, enc)
		c.ok(!hidden, "complete: "+where+"."+f.Name(), c.p.posAt(f.Pos()), "%s of %s is not written", f.Name(), where)
		opts := strings.Split(reflect.StructTag(st.Tag(i)).Get(enc), ",")
		for _, o := range opts[1:] {
			c.ok(o == "omitempty" || o == "omitzero" || o == "inline", "complete: options: "+where+"."+f.Name(), c.p.posAt(f.Pos()), "%s of %s is written with the option %q", f.Name(), where, o)
		}
		c.complete(f.Type(), enc, where+"."+f.Name(), seen)
	}
}

// azureTypes are the constraints of Azure for the types of path parameters.
var azureTypes = map[string]string{
	"string": "alpha", "int": "long", "int32": "int", "int64": "long", "uint": "long", "uint32": "int", "uint64": "long", "float": "double", "float32": "float", "float64": "double", "bool": "bool",
	"time.Time": "datetime", "github.com/google/uuid.UUID": "guid",
}

func (c *Ctx) azureRule() {
	gen := c.fn("outputs/azureFunctions", "Generate")
	type param struct {
		name, typ string
		required  bool
	}
	type route struct {
		handler, dir, method, path string
		params                     []param
		want                       string
	}
	run := func(key string, routes ...route) {
		c.scenario(key, func() {
			r := c.begin(nil)
			rt, pt, ft := c.typ("", "Route"), c.typ("", "Param"), c.field()
			var rs []*Term
			for i, x := range routes {
				var ps []*Term
				for j, p := range x.params {
					l := fmt.Sprintf("route%d param%d", i, j)
					ps = append(ps, r.some(l, pt, "Name", p.name, "IsRequired", p.required, "Field", r.some(l+" field", ft, "Type", p.typ)))
				}
				rs = append(rs, r.some(fmt.Sprintf("route%d", i), rt, "Handler", x.handler, "Method", x.method, "Path", x.path, "PathParams", r.list(pt, ps...)))
			}
			type doc struct {
				t     *Term
				g     BDD
				bytes *Term
				pos   string
			}
			var docs []doc
			var docT types.Type
			r.hook = func(k *Call) (*Term, bool) {
				switch k.Name {
				case "encoding/json.MarshalIndent", "encoding/json.Marshal":
					v := k.resolved(r.Interp)[0]
					if v.op == OIface {
						docT = v.typ
						v = v.a[0]
					}
					b := r.RootT(fmt.Sprintf("bytes%d", len(docs)), types.NewSlice(types.Typ[types.Byte]))
					docs = append(docs, doc{v, k.G, b, r.pos(k.Pos)})
					return r.Tuple(b, r.nilT), true
				}
				return nil, false
			}
			r.eval(gen, []*Term{r.Str("functions")})
			f := r.out(0)
			r.effects = nil
			s := r.serviceWith("Routes", r.list(rt, rs...))
			r.applyTerm(f, s)
			if !c.ok(len(docs) == len(routes), "functions: "+key, c.p.pos(gen), "%d functions are made for %d routes", len(docs), len(routes)) {
				return
			}
			g := r.okBDD()
			ws := r.byName("os.WriteFile")
			st, docT := structIn(docT)
			bt, ok := fieldType(docT, "Bindings").(*types.Slice)
			if st == nil || !ok {
				stop("the bindings are not a list")
			}
			if key == "methods" {
				c.documentKeys(azureKeys, "Function", docT, []string{"json"}, map[string]bool{})
			}
			str := types.Typ[types.String]
			for i, x := range routes {
				d := docs[i]
				c.ok(r.must(g, d.g), "functions: always: "+key, d.pos, "a function is not made although the generation succeeds")
				want := r.zero(docT, "Bindings", r.list(bt.Elem(),
					r.zero(bt.Elem(), "Type", "httpTrigger", "Direction", "in", "Name", "req", "Methods", r.list(str, r.Str(strings.ToLower(x.method)), r.Str("options")), "Route", x.want),
					r.zero(bt.Elem(), "Type", "http", "Direction", "out", "Name", "res")))
				r.equal(fmt.Sprintf("function: %s %d", key, i), d.pos, d.t, want, g, "the function of "+x.method+" "+x.path+" ")
				var at []*Effect
				for _, w := range ws {
					if w.Args[1] == d.bytes {
						at = append(at, w)
					}
				}
				if c.ok(len(at) == 1, "written: "+key, d.pos, "the function is written %d times", len(at)) {
					p := r.Show(r.Simp(at[0].Args[0], g))
					c.ok(strings.Contains(p, "/"+x.dir+"/function.json"), "directory: "+key, r.where(at[0]), "the function of %s is written to %s", x.handler, p)
					c.ok(r.must(g, at[0].Guard), "written: always: "+key, r.where(at[0]), "the function is not written although the generation succeeds")
				}
			}
		})
	}
	var ms []route
	for i, m := range []string{"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "TRACE"} {
		h := fmt.Sprintf("Handler%d", i)
		ms = append(ms, route{handler: "example.com/app/handlers." + h, dir: h, method: m, path: "/a/" + strings.ToLower(m), want: "/a/" + strings.ToLower(m)})
	}
	run("methods", ms...)
	var names []string
	for t := range azureTypes {
		names = append(names, t)
	}
	sort.Strings(names)
	for _, t := range names {
		a := azureTypes[t]
		run("type "+t, route{handler: "main.A", dir: "A", method: "GET", path: "/x/:id/y", params: []param{{"id", t, true}}, want: "/x/{id:" + a + "}/y"},
			route{handler: "main.B", dir: "B", method: "GET", path: "/x/*rest", params: []param{{"rest", t, false}}, want: "/x/{rest:" + a + "?}"})
	}
	run("several parameters",
		route{handler: "example.com/app.(*Server).Get-fm", dir: "Get-fm", method: "GET", path: "/:id/:idx/a/*rest", params: []param{{"id", "string", true}, {"idx", "int", true}, {"rest", "string", false}}, want: "/{id:alpha}/{idx:long}/a/{rest:alpha?}"},
		route{handler: "main.Swapped", dir: "Swapped", method: "POST", path: "/:idx/:id", params: []param{{"id", "string", true}, {"idx", "int", true}}, want: "/{idx:long}/{id:alpha}"},
		route{handler: "main.None", dir: "None", method: "POST", path: "/", want: "/"})
}

// predefinedTypes are the types that OpenAPI documents describe by type and format.
var predefinedTypes = map[string][2]string{
	"string": {"string", ""}, "int": {"integer", "int32"}, "int8": {"integer", "int8"}, "int16": {"integer", "int16"}, "int32": {"integer", "int32"}, "int64": {"integer", "int64"},
	"uint": {"integer", "uint"}, "uint8": {"integer", "uint8"}, "uint16": {"integer", "uint16"}, "uint32": {"integer", "uint32"}, "uint64": {"integer", "uint64"},
	"float32": {"number", "float32"}, "float64": {"number", "float64"}, "bool": {"boolean", ""}, "byte": {"string", "byte"}, "rune": {"string", "rune"},
	"struct": {"object", ""}, "map": {"object", ""}, "slice": {"array", ""}, "any": {"", ""}, "nil": {"", ""}, "file": {"string", "binary"},
}

var passedTypes = map[[2]string][2]string{
	{"time", "Time"}:                   {"string", "date-time"},
	{"github.com/google/uuid", "UUID"}: {"string", "uuid"},
}

func (c *Ctx) tableRule() { c.tableRuleFor(nil) }

func (c *Ctx) tableRuleFor(covered func(r *Run)) {
	f := c.method("", "Service", "GetTypeMapping")
	acc := c.fn("", "IsAcceptedType")
	tf := c.typ("", "TypeFormat")
	var keys []string
	for k := range predefinedTypes {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	pos := c.p.pos(f)
	mapT := fieldType(c.typ("", "Service"), "CustomTypeMapping")
	if covered != nil {
		keys = []string{"int", "string"} // only those that two services disagree about
	}
	for _, k := range keys {
		c.scenario("accepted "+k, func() {
			r := c.begin(nil)
			r.eval(acc, []*Term{r.Str(k)})
			c.ok(r.must(True, r.ToBDD(r.out(0))), "accepted: "+k, c.p.pos(acc), "%s is not known as a predefined type", k)
		})
	}
	for _, k := range []string{"", "Thing", "Time", "time.Time", "string ", "String", "error", "complex128", "int 64", "github.com/google/uuid.UUID"} {
		c.scenario("not accepted "+k, func() {
			r := c.begin(nil)
			r.eval(acc, []*Term{r.Str(k)})
			c.ok(r.must(True, r.Not(r.ToBDD(r.out(0)))), "not accepted: "+k, c.p.pos(acc), "%q is taken for a predefined type", k)
		})
	}
	lookup := func(r *Run, s *Term, key, pkg, what string, want *Term, exists bool) {
		r.eval(f, []*Term{s, r.Str(key), r.Str(pkg)})
		c.ok(r.ret == True, "returns: "+what, pos, "the lookup does not return")
		c.ok(r.must(True, r.iff(r.ToBDD(r.out(1)), boolBDD(exists))), "exists: "+what, pos, "the mapping of %s.%s exists: %s, but it should be %t", pkg, key, r.Show(r.out(1)), exists)
		if exists {
			r.equal("format: "+what, pos, r.out(0), want, True, "the mapping of "+pkg+"."+key)
		}
	}
	fresh := func(r *Run, name string, custom ...any) *Term {
		svc := c.typ("", "Service")
		cell := r.intern(&Term{op: OAlloc, s: name, ty: ptrTo(svc)})
		r.st.m[cell] = r.with(r.RootT(name+" value", svc), "CustomTypeMapping", r.mapCell(name+" custom", r.mapT(mapT, custom...)), "fullTypeMapping", r.nilT)
		return cell
	}
	format := func(r *Run, x [2]string) *Term { return r.zero(tf, "Type", x[0], "Format", x[1]) }
	for _, k := range keys {
		for _, pkg := range []string{"", "example.com/app"} {
			c.scenario("lookup "+k, func() {
				r := c.begin(nil)
				s := fresh(r, "service")
				lookup(r, s, k, pkg, k, format(r, predefinedTypes[k]), true)
				lookup(r, s, k, pkg, k+" again", format(r, predefinedTypes[k]), true)
			})
		}
		c.scenario("custom "+k, func() {
			r := c.begin(nil)
			own := [2]string{"custom", "format"}
			s := fresh(r, "service", k, format(r, own))
			lookup(r, s, k, "", k+" custom", format(r, own), true)
			lookup(r, s, "string", "", k+" custom, another", format(r, map[bool][2]string{true: own, false: predefinedTypes["string"]}[k == "string"]), true)
			// The next service does not know it.
			o := fresh(r, "other")
			lookup(r, o, k, "", k+" of the next service", format(r, predefinedTypes[k]), true)
			if covered != nil {
				covered(r)
			}
		})
	}
	for x, want := range passedTypes {
		c.scenario("lookup "+x[0]+"."+x[1], func() {
			r := c.begin(nil)
			s := fresh(r, "service")
			n := x[0] + "." + x[1]
			lookup(r, s, x[1], x[0], n, format(r, want), true)
			lookup(r, s, x[1], "example.com/app", n+" of another package", nil, false)
			lookup(r, s, x[1], "", n+" without package", nil, false)
			s2 := fresh(r, "service2", n, format(r, [2]string{"a", "b"}), "example.com/app."+x[1], format(r, [2]string{"c", "d"}))
			lookup(r, s2, x[1], x[0], n+" custom", format(r, [2]string{"a", "b"}), true)
			lookup(r, s2, x[1], "example.com/app", n+" of another package, custom", format(r, [2]string{"c", "d"}), true)
			lookup(r, s2, "int", "", "int beside custom", format(r, predefinedTypes["int"]), true)
			s3 := fresh(r, "service3")
			lookup(r, s3, x[1], x[0], n+" after custom", format(r, want), true)
			lookup(r, s3, x[1], "example.com/app", n+" of another package, after custom", nil, false)
		})
	}
	c.scenario("unknown", func() {
		r := c.begin(nil)
		s := fresh(r, "service", "example.com/app.Money", format(r, [2]string{"string", "money"}))
		lookup(r, s, "Thing", "example.com/app", "unknown", nil, false)
		lookup(r, s, "Money", "example.com/app", "custom", format(r, [2]string{"string", "money"}), true)
		lookup(r, s, "Money", "example.com/other", "custom of another package", nil, false)
	})
	if os.Getenv("ASTRACHECK_DEBUG") != "" {
		fmt.Println("tables done")
	}
}

func init() {
	register(&Rule{
		ID: "P27", Min: 300,
		What: "the type of the value that the OpenAPI generator encodes, taken from the encoding call of every format, is walked with the objects of the OpenAPI specification: every field has the key of the specification in JSON and YAML, required keys are always written and others only with a value, and the maps of required keys are never nil (abstract interpretation)",
		Run:  func(c *Ctx) { c.keysRule() },
	})
	register(&Rule{
		ID: "P28", Min: 100,
		What: "abstract interpretation of the JSON generator on services with lists of arbitrary routes and components: the encoded value has exactly these; every exported field of the encoded types is written under a key of its own",
		Run:  func(c *Ctx) { c.jsonRule() },
	})
	register(&Rule{
		ID: "P29", Min: 100,
		What: "abstract interpretation of the Azure generator on routes of every method and with parameters of every type; the encoded bindings, and the files they are written to, are compared with the specified ones",
		Run:  func(c *Ctx) { c.azureRule() },
	})
	register(&Rule{
		ID: "P30", Min: 150,
		What: "abstract interpretation of the lookup of types on services without and with custom mappings, one after another, for every predefined type; the results are compared with the table of the specification",
		Run:  func(c *Ctx) { c.tableRule() },
	})
}
