package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
)

// Rules about the OpenAPI document: generation is analysed for services whose types have known names and kinds, and
// the document that is encoded is compared with the one that the specification below gives.

var bindingTags = []string{"header", "form", "uri", "json", "xml", "yaml"}

// openapiTypes are the types and formats of OpenAPI for predefined Go types.
var openapiTypes = map[string][2]string{
	"string": {"string", ""}, "int": {"integer", "int32"}, "int8": {"integer", "int8"}, "int16": {"integer", "int16"}, "int32": {"integer", "int32"}, "int64": {"integer", "int64"},
	"uint": {"integer", "uint"}, "uint8": {"integer", "uint8"}, "uint16": {"integer", "uint16"}, "uint32": {"integer", "uint32"}, "uint64": {"integer", "uint64"},
	"float32": {"number", "float32"}, "float64": {"number", "float64"}, "bool": {"boolean", ""}, "byte": {"string", "byte"}, "rune": {"string", "rune"},
	"struct": {"object", ""}, "map": {"object", ""}, "slice": {"array", ""}, "any": {"", ""}, "nil": {"", ""}, "file": {"string", "binary"},
	"time.Time": {"string", "date-time"}, "github.com/google/uuid.UUID": {"string", "uuid"},
}

var goKinds = []string{"nil", "string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "bool", "byte", "rune", "struct", "map", "slice", "any", "file"}

func predefined(t string) bool {
	for _, k := range goKinds {
		if k == t {
			return true
		}
	}
	return t == "float"
}

// ftype describes a type.
type ftype struct {
	pkg, name string
	typ       string // kind, predefined type, or the name of another type
	elem      string // element of a slice or array, value of a map
	fields    []ffield
	enum      bool
	doc       string
	alen      *Term
}

type ffield struct {
	name     string
	typ      ftype
	tags     []string // binding and name in turn, "-" for hidden
	embedded bool
}

// oapi is one analysis of the generation of a document.
type oapi struct {
	r       *Run
	comps   []ftype
	custom  map[string][2]string
	doc     *Term // the document that is encoded
	g       BDD
	names   map[string]string // package.name/binding -> key of the component
	schema  types.Type
	where   string
	enums   map[string]*Term
	encoder string
	docType types.Type
}

func (r *Run) cellOf(name string, t types.Type, v *Term) *Term {
	c := r.intern(&Term{op: OAlloc, s: name, ty: ptrTo(t)})
	r.st.m[c] = v
	return c
}

// fieldTerm is the recorded description of a type.
func (o *oapi) fieldTerm(label string, t ftype) *Term {
	r := o.r
	ft := r.c.field()
	kv := []any{"Name", t.name, "Package", t.pkg, "Type", t.typ, "SliceType", "", "ArrayType", "", "MapValueType", "", "EnumValues", r.Zero(fieldType(ft, "EnumValues")), "IsEmbedded", false,
		"StructFields", r.Zero(fieldType(ft, "StructFields")), "Doc", t.doc, "StructFieldBindingTags", r.Zero(fieldType(ft, "StructFieldBindingTags"))}
	switch t.typ {
	case "slice":
		kv = append(kv, "SliceType", t.elem)
	case "array":
		kv = append(kv, "ArrayType", t.elem)
	case "map":
		kv = append(kv, "MapValueType", t.elem)
	}
	f := r.some(label, ft, kv...)
	if t.enum {
		e := r.RootT(label+" enum", fieldType(ft, "EnumValues"))
		o.enums[label] = e
		f = r.With(f, "EnumValues", e)
	}
	if t.typ == "struct" {
		var fs []any
		for _, x := range t.fields {
			fs = append(fs, x.name, o.structField(label+"."+x.name, x))
		}
		f = r.With(f, "StructFields", r.fields(fs...))
	}
	return f
}

func (o *oapi) structField(label string, x ffield) *Term {
	f := o.fieldTerm(label, x.typ)
	var ts []any
	for _, s := range x.tags {
		ts = append(ts, s)
	}
	return o.r.with(f, "StructFieldBindingTags", o.r.tags(ts...), "IsEmbedded", x.embedded)
}

// generate analyses the generator and keeps the document that it encodes.
func (c *Ctx) openapi(comps []ftype, custom map[string][2]string, ext string, config *Term, routes func(o *oapi) []*Term) *oapi {
	r := c.begin(nil)
	r.recLimit = 5
	o := &oapi{r: r, comps: comps, custom: custom, enums: map[string]*Term{}, schema: c.typ("outputs/openapi", "Schema")}
	var cs []*Term
	for i, t := range comps {
		cs = append(cs, o.fieldTerm(fmt.Sprintf("component%d", i), t))
	}
	if config == nil {
		config = r.RootT("config", c.typ("", "Config"))
	}
	tf := c.typ("", "TypeFormat")
	var cm []any
	var keys []string
	for k := range custom {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		cm = append(cm, k, r.zero(tf, "Type", custom[k][0], "Format", custom[k][1]))
	}
	svc := c.typ("", "Service")
	var rs []*Term
	if routes != nil {
		rs = routes(o)
	}
	f := c.fn("outputs/openapi", "Generate")
	before := len(c.before) > 0
	r.hook = func(k *Call) (*Term, bool) {
		switch k.Name {
		case "encoding/json.MarshalIndent", "encoding/json.Marshal", "gopkg.in/yaml.v3.Marshal":
			v := k.resolved(r.Interp)[0]
			if v.op == OIface {
				o.docType = v.typ
				v = v.a[0]
			}
			if o.doc != nil && !before && !c.orders && c.shared == nil {
				c.fail("once: encoding", r.pos(k.Pos), "the document is encoded more than once")
			}
			o.doc, o.g = v, k.G
			o.encoder = k.Name
			o.where = r.pos(k.Pos)
			return r.Tuple(r.RootT("bytes", types.NewSlice(types.Typ[types.Byte])), r.nilT), true
		}
		return nil, false
	}
	r.eval(f, []*Term{r.Str("api." + ext)})
	gen := r.out(0)
	if before {
		var bs []*Term
		for i, t := range c.before {
			bs = append(bs, o.fieldTerm(fmt.Sprintf("other%d", i), t))
		}
		r.applyTerm(gen, r.serviceWith("Config", r.cellOf("other config", c.typ("", "Config"), config), "Components", r.list(c.field(), bs...), "Routes", r.list(c.typ("", "Route")), "CustomTypeMapping", r.nilT, "fullTypeMapping", r.nilT))
		before, o.doc = false, nil
	}
	s := r.serviceWith("Config", r.cellOf("config", c.typ("", "Config"), config), "Components", r.list(c.field(), cs...), "Routes", r.list(c.typ("", "Route"), rs...),
		"CustomTypeMapping", r.mapT(fieldType(svc, "CustomTypeMapping"), cm...), "fullTypeMapping", r.nilT)
	if c.orders {
		c.orderOf(o, gen, s)
		panic(sameDone{})
	}
	if c.shared != nil {
		c.afterOther(o, s)
		c.shared(r)
		panic(sameDone{})
	}
	r.effects = nil
	r.applyTerm(gen, s)
	if o.doc == nil {
		stop("no document is encoded")
	}
	if os.Getenv("ASTRACHECK_DEBUG") != "" {
		fmt.Println("DOC", trunc(r.Show(o.doc), 20000))
	}
	return o
}

// at is a part of the document.
func (o *oapi) at(path ...string) *Term {
	v := o.doc
	for _, p := range path {
		v = o.r.Sel(v, p, nil)
	}
	return o.r.Simp(v, o.g)
}

// entries are the entries of a map of the document.
func (o *oapi) entries(m *Term) map[string]*Term {
	out := map[string]*Term{}
	if m.isNil() {
		return out
	}
	es, ok := mapEntries(m)
	if !ok {
		stop("the entries of a map of the document are not known: %s", trunc(o.r.Show(m), 400))
	}
	for k, v := range es {
		s, ok := k.str()
		if !ok {
			stop("a key of a map of the document is not known: %s", o.r.Show(k))
		}
		out[s] = v
	}
	return out
}

// tags are the bindings that fields have tags for; no tag at all is "".
func (t ftype) tags() map[string]bool {
	out := map[string]bool{}
	for _, f := range t.fields {
		for i := 0; i+1 < len(f.tags); i += 2 {
			out[f.tags[i]] = true
		}
	}
	return out
}

// nameFor is the name of a field of a struct for a binding; ok is false if the binding does not know the field.
func (t ftype) nameFor(x ffield, b string) (name string, ok bool) {
	for i := 0; i+1 < len(x.tags); i += 2 {
		if x.tags[i] == b {
			return x.tags[i+1], true
		}
	}
	for i := 0; i+1 < len(x.tags); i += 2 {
		if x.tags[i] == "" {
			return x.tags[i+1], true
		}
	}
	return x.name, t.tags()[b]
}

// bound: the type has a schema for a binding.
func (t ftype) bound(b string) bool {
	for _, f := range t.fields {
		if _, ok := t.nameFor(f, b); !ok && !f.embedded {
			return false
		}
	}
	return true
}

func (o *oapi) comp(pkg, name string) *ftype {
	for i := range o.comps {
		if o.comps[i].pkg == pkg && o.comps[i].name == name {
			return &o.comps[i]
		}
	}
	return nil
}

func (o *oapi) s(kv ...any) *Term { return o.r.zero(o.schema, kv...) }

// format is the schema of a predefined type.
func (o *oapi) format(t string) *Term {
	f := openapiTypes[t]
	return o.s("Type", f[0], "Format", f[1])
}

// ref is the schema of the use of a named type.
func (o *oapi) ref(b, pkg, name string) (*Term, bool) {
	k, ok := o.names[pkg+"."+name+"/"+b]
	for i := 0; i < len(bindingTags) && !ok; i++ {
		k, ok = o.names[pkg+"."+name+"/"+bindingTags[i]]
	}
	if !ok {
		return o.s(), false
	}
	return o.s("Ref", "#/components/schemas/"+k), true
}

// use is the schema of a type that is given by its name.
func (o *oapi) use(b, pkg, name string) *Term {
	if predefined(name) {
		return o.format(name)
	}
	s, _ := o.ref(b, pkg, name)
	return s
}

// mapped: the type is mapped to a type of OpenAPI.
func (o *oapi) mapped(t *ftype) bool {
	_, c := o.custom[t.pkg+"."+t.name]
	_, p := openapiTypes[t.pkg+"."+t.name]
	return c || p
}

// schemaOf is the schema of a type for a binding.
func (o *oapi) schemaOf(label string, t ftype, b string) *Term {
	key := t.name
	if !predefined(key) {
		key = t.pkg + "." + key
	}
	if f, ok := o.custom[key]; ok {
		return o.s("Type", f[0], "Format", f[1])
	}
	if f, ok := openapiTypes[key]; ok {
		return o.s("Type", f[0], "Format", f[1])
	}
	switch t.typ {
	case "struct":
		var emb []*Term
		var props []any
		fs := append([]ffield{}, t.fields...)
		sort.Slice(fs, func(i, j int) bool { return fs[i].name < fs[j].name })
		for _, f := range fs {
			n, _ := t.nameFor(f, b)
			if n == "-" {
				continue
			}
			if f.embedded {
				if r, ok := o.ref(b, f.typ.pkg, f.typ.typ); ok {
					emb = append(emb, r)
				}
				continue
			}
			props = append(props, n, o.schemaOf(label+"."+f.name, f.typ, b))
		}
		pm := o.r.mapT(types.NewMap(types.Typ[types.String], o.schema), props...)
		if len(emb) == 0 {
			return o.s("Type", "object", "Properties", pm)
		}
		if len(props) > 0 {
			emb = append(emb, o.s("Properties", pm))
			return o.s("Type", "object", "AllOf", o.r.list(o.schema, emb...))
		}
		return o.s("Type", "object", "AllOf", o.r.list(o.schema, emb...), "Properties", pm)
	case "slice", "array":
		s := o.s("Type", "array", "Items", o.use(b, t.pkg, t.elem))
		if t.typ == "array" {
			s = o.r.With(s, "MaxItems", o.r.Sel(o.r.RootT(label, o.r.c.field()), "ArrayLength", types.Typ[types.Int64]))
		}
		return s
	case "map":
		return o.s("Type", "object", "AdditionalProperties", o.use(b, t.pkg, t.elem))
	}
	s := o.use(b, t.pkg, t.typ)
	if predefined(t.typ) && t.enum {
		s = o.r.With(s, "Enum", o.enums[label])
	}
	return s
}

// naming finds out under which keys the components are listed: a component is recognised by its documentation, and
// the binding by the names of its properties.
func (o *oapi) naming(key string) bool {
	o.names = map[string]string{}
	r := o.r
	schemas := o.entries(o.at("Components", "Schemas"))
	var keys []string
	for k := range schemas {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	good := true
	used := map[string]string{}
	for i := range o.comps {
		t := &o.comps[i]
		for _, b := range bindingTags {
			if !t.bound(b) {
				continue
			}
			var found []string
			for _, k := range keys {
				d, _ := r.Simp(r.Sel(schemas[k], "Description", nil), o.g).str()
				if d != t.doc {
					continue
				}
				if t.typ == "struct" && !o.mapped(t) && !o.sameProps(schemas[k], t, b) {
					continue
				}
				found = append(found, k)
			}
			if len(found) > 1 {
				// Schemas of several bindings that are alike.
				var its []string
				for _, k := range found {
					if strings.Contains(k, "."+b+".") {
						its = append(its, k)
					}
				}
				if len(its) == 1 {
					found = its
				}
			}
			id := t.pkg + "." + t.name
			if !r.c.ok(len(found) == 1, fmt.Sprintf("component: %s: %s %s", key, id, b), o.where, "%s is listed %d times for %s: %s; all components are %s", id, len(found), b, strings.Join(found, ", "), strings.Join(keys, ", ")) {
				good = false
				continue
			}
			if x, ok := used[found[0]]; ok && x != id {
				r.c.fail("distinct: "+key+": "+id, o.where, "%s and %s have the same name %s", x, id, found[0])
				good = false
			}
			used[found[0]] = id
			o.names[id+"/"+b] = found[0]
		}
	}
	for _, k := range keys {
		if used[k] == "" {
			r.c.fail("component: "+key+": "+k, o.where, "the component %s is none of the service", k)
			good = false
		}
	}
	return good
}

// sameProps: the schema has the properties of a struct for a binding.
func (o *oapi) sameProps(s *Term, t *ftype, b string) bool {
	want := map[string]bool{}
	for _, f := range t.fields {
		if n, _ := t.nameFor(f, b); n != "-" && !f.embedded {
			want[n] = true
		}
	}
	got := map[string]bool{}
	add := func(x *Term) {
		p := o.r.Simp(o.r.Sel(x, "Properties", nil), o.g)
		if p.op == OZero || p.isNil() {
			return
		}
		for k := range o.entries(p) {
			got[k] = true
		}
	}
	add(s)
	if l, ok := o.r.listOf(o.r.Simp(o.r.Sel(s, "AllOf", nil), o.g)); ok {
		for _, x := range l {
			add(x)
		}
	}
	if len(got) != len(want) {
		return false
	}
	for k := range want {
		if !got[k] {
			return false
		}
	}
	return true
}

// checkSchemas compares the schemas of all components: a component that is listed once for several bindings has the
// schema for one of them.
func (o *oapi) checkSchemas(key string) {
	r := o.r
	schemas := o.entries(o.at("Components", "Schemas"))
	for i, t := range o.comps {
		seen := map[string][]string{}
		var order []string
		for _, b := range bindingTags {
			if k, ok := o.names[t.pkg+"."+t.name+"/"+b]; ok {
				if seen[k] == nil {
					order = append(order, k)
				}
				seen[k] = append(seen[k], b)
			}
		}
		for _, k := range order {
			var want *Term
			for _, b := range seen[k] {
				want = r.With(o.schemaOf(fmt.Sprintf("component%d", i), t, b), "Description", r.Str(t.doc))
				if r.differ(schemas[k], want, o.g, "") == "" {
					break
				}
			}
			r.equal(fmt.Sprintf("schema: %s: %s.%s %s", key, t.pkg, t.name, seen[k][0]), o.where, schemas[k], want, o.g, "the schema of "+t.pkg+"."+t.name+" for "+strings.Join(seen[k], ", "))
		}
	}
}

// untagged are the tags of a field without any tag.
func untagged(n string) []string { return []string{"", n} }

func jsonTag(n string) []string { return []string{"json", n} }

const appTypes = "example.com/app/types"

func basic(t string) ftype { return ftype{typ: t} }

func named(pkg, name string) ftype { return ftype{typ: name, pkg: pkg} }

func sliceOf(pkg, t string) ftype { return ftype{typ: "slice", pkg: pkg, elem: t} }

func arrayOf(pkg, t string) ftype { return ftype{typ: "array", pkg: pkg, elem: t} }

func mapOf(pkg, t string) ftype { return ftype{typ: "map", pkg: pkg, elem: t} }

func alias(t ftype, pkg, name string) ftype {
	t.pkg, t.name, t.doc = pkg, name, "doc "+pkg+" "+name
	return t
}

func structOf(pkg, name string, fs ...ffield) ftype {
	return ftype{pkg: pkg, name: name, typ: "struct", doc: "doc " + pkg + " " + name, fields: fs}
}

func (c *Ctx) schemaRule() {
	const p = appTypes
	run := func(key string, custom map[string][2]string, comps ...ftype) {
		c.scenario(key, func() {
			o := c.openapi(comps, custom, "json", nil, nil)
			if o.naming(key) {
				o.checkSchemas(key)
			}
		})
	}
	other := structOf(p, "Other", ffield{name: "ID", typ: basic("string"), tags: jsonTag("id")})
	plain := structOf(p, "Plain", ffield{name: "ID", typ: basic("string"), tags: untagged("ID")})
	for _, k := range goKinds {
		if k == "struct" || k == "map" || k == "slice" {
			continue
		}
		run("type: "+k, nil,
			structOf(p, "Thing",
				ffield{name: "V", typ: basic(k), tags: jsonTag("v")},
				ffield{name: "S", typ: sliceOf("", k), tags: jsonTag("s")},
				ffield{name: "A", typ: arrayOf("", k), tags: jsonTag("a")},
				ffield{name: "M", typ: mapOf("", k), tags: jsonTag("m")},
			),
			alias(basic(k), p, "Named"), alias(sliceOf("", k), p, "Slice"), alias(arrayOf("", k), p, "Array"), alias(mapOf("", k), p, "Map"))
	}
	for _, x := range []struct {
		key string
		t   ftype
	}{{"a tagged struct", other}, {"an untagged struct", plain}, {"a named slice", alias(sliceOf("", "string"), p, "Other")}, {"a named type", alias(basic("int"), p, "Other")}} {
		t := x.t
		run("use: "+x.key, nil, t,
			structOf(p, "Thing",
				ffield{name: "V", typ: named(p, t.name), tags: jsonTag("v")},
				ffield{name: "S", typ: sliceOf(p, t.name), tags: jsonTag("s")},
				ffield{name: "A", typ: arrayOf(p, t.name), tags: jsonTag("a")},
				ffield{name: "M", typ: mapOf(p, t.name), tags: jsonTag("m")},
			),
			alias(named(p, t.name), p, "Named"), alias(sliceOf(p, t.name), p, "Slice"), alias(arrayOf(p, t.name), p, "Array"), alias(mapOf(p, t.name), p, "Map"))
	}
	enum := alias(basic("string"), p, "Level")
	enum.enum = true
	size := alias(basic("int"), p, "Size")
	size.enum = true
	run("enum", nil, enum, size, structOf(p, "Thing", ffield{name: "Level", typ: named(p, "Level"), tags: jsonTag("level")}))
	run("nested slices and maps", nil, structOf(p, "Thing",
		ffield{name: "S", typ: sliceOf("", "slice"), tags: jsonTag("s")}, ffield{name: "M", typ: mapOf("", "map"), tags: jsonTag("m")}, ffield{name: "T", typ: sliceOf("", "struct"), tags: jsonTag("t")}))
	run("inline struct", nil, other, structOf(p, "Thing",
		ffield{name: "In", tags: jsonTag("in"), typ: ftype{typ: "struct", fields: []ffield{
			{name: "A", typ: basic("int"), tags: jsonTag("a")},
			{name: "O", typ: named(p, "Other"), tags: jsonTag("o")},
			{name: "Deep", tags: jsonTag("deep"), typ: ftype{typ: "struct", fields: []ffield{{name: "B", typ: basic("bool"), tags: jsonTag("b")}}}},
		}}}))
	run("mapped types", nil,
		alias(structOf("time", "Time"), "time", "Time"), alias(arrayOf("", "byte"), "github.com/google/uuid", "UUID"),
		structOf(p, "Thing", ffield{name: "At", typ: named("time", "Time"), tags: jsonTag("at")}, ffield{name: "ID", typ: named("github.com/google/uuid", "UUID"), tags: jsonTag("id")}))
	run("custom types", map[string][2]string{p + ".Money": {"string", "money"}, "time.Time": {"integer", "unix"}},
		alias(structOf("time", "Time"), "time", "Time"), structOf(p, "Money", ffield{name: "N", typ: basic("int"), tags: jsonTag("n")}), structOf("example.com/other", "Money", ffield{name: "N", typ: basic("int"), tags: jsonTag("n")}),
		structOf(p, "Thing", ffield{name: "At", typ: named("time", "Time"), tags: jsonTag("at")}, ffield{name: "P", typ: named(p, "Money"), tags: jsonTag("p")}))
	run("recursive", nil, structOf(p, "Tree", ffield{name: "L", typ: named(p, "Tree"), tags: jsonTag("l")}, ffield{name: "Kids", typ: sliceOf(p, "Tree"), tags: jsonTag("kids")}))
}

// hiding are the scenarios about the names and the visibility of fields.
func (c *Ctx) hidingRule() {
	const p = appTypes
	run := func(key string, comps ...ftype) {
		c.scenario(key, func() {
			o := c.openapi(comps, nil, "json", nil, nil)
			if o.naming(key) {
				o.checkSchemas(key)
			}
		})
	}
	f := func(name string, tags ...string) ffield { return ffield{name: name, typ: basic("string"), tags: tags} }
	for _, b := range bindingTags {
		run("hidden: "+b, structOf(p, "Thing", f("A", b, "a"), f("B", b, "-"), f("C", b, "c")))
		one := func(name, hidden string) []string {
			out := []string{b, hidden}
			for _, x := range []string{"json", "xml", "form"} {
				if x != b {
					out = append(out, x, name)
				}
			}
			return out
		}
		run("hidden for one: "+b, structOf(p, "Thing", f("A", one("a", "x")...), f("B", one("b", "-")...)))
		run("only one: "+b, structOf(p, "Thing", f("A", b, "a")))
		run("own name: "+b, structOf(p, "Thing", f("A", b, "a"), f("B", "", "B")))
		run("hidden everywhere: "+b, structOf(p, "Thing", f("A", b, "-")))
	}
	run("different names", structOf(p, "Thing", f("A", "json", "a", "form", "fa", "header", "X-A", "uri", "ua", "xml", "xa", "yaml", "ya"), f("B", "json", "b", "form", "fb", "header", "X-B", "uri", "ub", "xml", "xb", "yaml", "yb")))
	run("same names", structOf(p, "Thing", f("A", "json", "a", "xml", "a"), f("B", "json", "b", "xml", "b")))
	run("untagged", structOf(p, "Thing", f("A", "", "A"), f("B", "", "B")))
	run("partly tagged", structOf(p, "Thing", f("A", "json", "a"), f("B", "", "B")))
	run("partly tagged with different names", structOf(p, "Thing", f("A", "json", "a", "form", "fa"), f("B", "", "B")))
	run("different bindings", structOf(p, "Thing", f("ID", "uri", "id"), f("Name", "json", "name"), f("Q", "form", "q")))
	run("empty", structOf(p, "Thing"))
	base := structOf(p, "Base", f("ID", "json", "id"), f("Secret", "json", "-"))
	bare := structOf(p, "Bare", f("N", "", "N"))
	emb := func(name string, tags ...string) ffield {
		if len(tags) == 0 {
			tags = untagged(name)
		}
		return ffield{name: name, typ: named(p, name), tags: tags, embedded: true}
	}
	for _, x := range []ftype{base, bare} {
		x := x
		run("embedded alone: "+x.name, x, structOf(p, "Thing", emb(x.name)))
		run("embedded beside fields: "+x.name, x, structOf(p, "Thing", emb(x.name), f("A", "json", "a"), f("B", "json", "-")))
		run("embedded beside untagged fields: "+x.name, x, structOf(p, "Thing", emb(x.name), f("A", "", "A")))
		run("hidden embedded: "+x.name, x, structOf(p, "Thing", emb(x.name, "json", "-"), f("A", "json", "a")))
		run("embedded hidden for one: "+x.name, x, structOf(p, "Thing", emb(x.name, "json", x.name, "xml", "-", "form", x.name), f("A", "json", "a", "xml", "a", "form", "a")))
		run("hidden embedded alone: "+x.name, x, structOf(p, "Thing", emb(x.name, "json", "-")))
	}
	run("two embedded", base, bare, structOf(p, "Thing", emb("Base"), emb("Bare"), f("A", "json", "a")))
	run("one of two embedded hidden", base, bare, structOf(p, "Thing", emb("Base", "json", "-"), emb("Bare"), f("A", "json", "a")))
	run("inline", structOf(p, "Thing", ffield{name: "In", tags: jsonTag("in"), typ: ftype{typ: "struct", fields: []ffield{f("A", "json", "a"), f("B", "json", "-")}}}))
	run("inline hidden", structOf(p, "Thing", f("A", "json", "a"), ffield{name: "In", tags: jsonTag("-"), typ: ftype{typ: "struct", fields: []ffield{f("B", "json", "b")}}}))
}

// namesRule are the scenarios about the names of components.
func (c *Ctx) namesRule() {
	f := func(name string, tags ...string) ffield { return ffield{name: name, typ: basic("string"), tags: tags} }
	t := func(pkg, name string) ftype { return structOf(pkg, name, f("ID", "json", "id")) }
	use := func(pkg, name string, ts ...ftype) ftype {
		var fs []ffield
		for i, x := range ts {
			fs = append(fs, ffield{name: fmt.Sprintf("F%d", i), typ: named(x.pkg, x.name), tags: jsonTag(fmt.Sprintf("f%d", i))},
				ffield{name: fmt.Sprintf("S%d", i), typ: sliceOf(x.pkg, x.name), tags: jsonTag(fmt.Sprintf("s%d", i))},
				ffield{name: fmt.Sprintf("A%d", i), typ: arrayOf(x.pkg, x.name), tags: jsonTag(fmt.Sprintf("a%d", i))},
				ffield{name: fmt.Sprintf("M%d", i), typ: mapOf(x.pkg, x.name), tags: jsonTag(fmt.Sprintf("m%d", i))})
		}
		return structOf(pkg, name, fs...)
	}
	run := func(key string, comps ...ftype) {
		var names []map[string]string
		for turn := 0; turn < 2; turn++ {
			k := key
			if turn == 1 {
				k = key + ", reversed"
				var back []ftype
				for _, x := range comps {
					back = append([]ftype{x}, back...)
				}
				comps = back
			}
			c.scenario(k, func() {
				o := c.openapi(comps, nil, "json", nil, nil)
				if o.naming(k) {
					o.checkSchemas(k)
					o.checkRefs(k)
					names = append(names, o.names)
				}
			})
		}
		if len(names) == 2 {
			var ids []string
			for id := range names[0] {
				ids = append(ids, id)
			}
			sort.Strings(ids)
			for _, id := range ids {
				c.ok(names[0][id] == names[1][id], "order: "+key+": "+id, "outputs/openapi/components.go", "the name of %s is %s or %s, depending on the order of the components", id, names[0][id], names[1][id])
			}
		}
	}
	all := func(ts ...ftype) []ftype { return append(ts, use("example.com/app", "All", ts...)) }
	run("one package", all(t(appTypes, "A"), t(appTypes, "B"))...)
	run("same type name", all(t("example.com/app/a", "T"), t("example.com/app/b", "T"))...)
	run("same package name", all(t("example.com/a/types", "T"), t("example.com/b/types", "T"))...)
	run("same package name, different types", all(t("example.com/a/types", "T"), t("example.com/b/types", "U"))...)
	run("same last two", all(t("example.com/a/v1/types", "T"), t("example.com/b/v1/types", "T"))...)
	run("three packages", all(t("example.com/a/x/types", "T"), t("example.com/b/x/types", "T"), t("example.com/b/y/types", "T"))...)
	run("three packages of different depth", all(t("example.com/types", "T"), t("example.com/a/types", "T"), t("other.org/a/types", "T"))...)
	run("suffix", all(t("types", "T"), t("example.com/types", "T"), t("sub.example.com/types", "T"))...)
	run("only the domain differs", all(t("one.org/lib/types", "T"), t("two.org/lib/types", "T"))...)
	run("main", all(t("main", "T"), t("example.com/main", "T"))...)
	two := func(pkg, name string) ftype { return structOf(pkg, name, f("ID", "json", "id", "form", "fid")) }
	run("several bindings", two(appTypes, "T"), two(appTypes, "U"), use("example.com/app", "All", two(appTypes, "T"), two(appTypes, "U")))
	run("several bindings in packages of the same name", two("example.com/a/types", "T"), two("example.com/b/types", "T"), t("example.com/b/types", "U"))
	run("partly tagged", structOf(appTypes, "T", f("A", "json", "a", "form", "fa"), f("B", "", "B")), use("example.com/app", "All", t(appTypes, "T")))
	run("different bindings", structOf(appTypes, "T", f("A", "json", "a"), f("B", "uri", "b")), use("example.com/app", "All", t(appTypes, "T")))
	run("a package named like a binding", t("example.com/types/json", "T"), t("example.com/other/json", "T"), two(appTypes, "T"))
	c.before = []ftype{two(appTypes, "T"), two("example.com/a/types", "T"), t(appTypes, "Gone"), t("example.com/a/types", "U")}
	run("after another service", t(appTypes, "T"), t("example.com/app/b", "T"))
	run("after another service, unbound", structOf(appTypes, "T", f("ID", "xml", "id")), structOf("example.com/app", "All", ffield{name: "G", typ: named(appTypes, "Gone"), tags: jsonTag("g")}, ffield{name: "T", typ: named(appTypes, "T"), tags: jsonTag("t")}))
	c.before = nil
	run("kinds", alias(basic("int"), "example.com/a/types", "T"), alias(sliceOf("", "string"), "example.com/b/types", "T"), alias(mapOf("example.com/a/types", "T"), appTypes, "T"))
	run("embedded", t("example.com/a/types", "T"), t("example.com/b/types", "T"),
		structOf(appTypes, "All", ffield{name: "T", typ: named("example.com/b/types", "T"), tags: untagged("T"), embedded: true}, f("X", "json", "x")))
}

// checkRefs: all references of the document are to components.
func (o *oapi) checkRefs(key string) {
	schemas := o.entries(o.at("Components", "Schemas"))
	seen := map[*Term]bool{}
	bad := map[string]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if s, ok := t.str(); ok && strings.HasPrefix(s, "#/") {
			if schemas[strings.TrimPrefix(s, "#/components/schemas/")] == nil {
				bad[s] = true
			}
		}
		for _, x := range t.a {
			walk(x)
		}
		if c, ok := o.r.st.m[t]; ok {
			walk(c)
		}
	}
	walk(o.r.Simp(o.doc, o.g))
	var bs []string
	for s := range bad {
		bs = append(bs, s)
	}
	sort.Strings(bs)
	o.r.c.ok(len(bs) == 0, "references: "+key, o.where, "references to nothing: %s", strings.Join(bs, ", "))
}

func init() {
	register(&Rule{
		ID:   "P24",
		What: "abstract interpretation of the OpenAPI generator on components of packages and types with the same names; the names of the components are distinct and every reference is to the component of its type",
		Min:  100,
		Run:  func(c *Ctx) { c.namesRule() },
	})
	register(&Rule{
		ID:   "P26",
		What: "abstract interpretation of the OpenAPI generator on structs with all kinds of tags; the properties of the encoded schemas are compared with the fields that the binding knows",
		Min:  100,
		Run:  func(c *Ctx) { c.hidingRule() },
	})
	register(&Rule{
		ID:   "P25",
		What: "abstract interpretation of the OpenAPI generator on components of every kind; the encoded schemas are compared with those of the specification of kinds",
		Min:  1,
		Run:  func(c *Ctx) { c.schemaRule() },
	})
}
