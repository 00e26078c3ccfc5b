package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

func sortedKeys[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Rules about the conversion of the results of the analysis.

// conversion decides that nothing of a result is lost on the way to the description of a field.
func (c *Ctx) conversion() {
	f := c.fn("", "ParseResultToField")
	pos := c.p.pos(f)
	rt, ft := c.typ("astTraversal", "Result"), c.field()
	mt := fieldType(rt, "StructFields")
	same := []string{"Type", "Name", "EnumValues", "IsEmbedded", "SliceType", "ArrayType", "ArrayLength", "MapKeyType", "MapValueType", "StructFieldBindingTags", "StructFieldValidationTags"}
	// A result with these fields: nil for none, otherwise names and what is below them.
	type tree struct {
		doc  string
		kids map[string]*tree
		null bool // there is no package
		pkgs map[string]any
	}
	run := func(label string, t *tree) {
		c.scenario("result: "+label, func() {
			r := c.begin(nil)
			r.initial("")
			r.recLimit, r.mustEnd = 6, true
			path := func(p *Term) *Term {
				if p.isNil() {
					return r.Str("")
				}
				return r.RootT("path of "+r.Show(p), types.Typ[types.String])
			}
			r.hook = func(k *Call) (*Term, bool) {
				if k.Name == "(*~/astTraversal.PackageNode).Path" {
					return path(r.Simp(k.Raw[0], k.G)), true
				}
				return nil, false
			}
			accepted := func(x *Term) BDD {
				r.eval(c.fn("", "IsAcceptedType"), []*Term{x})
				return r.ToBDD(r.out(0))
			}
			var result, field func(at string, t *tree) *Term
			result = func(at string, t *tree) *Term {
				kv := []any{"Doc", t.doc}
				for _, k := range sortedKeys(t.pkgs) {
					kv = append(kv, k, t.pkgs[k])
				}
				if t.null {
					kv = append(kv, "Package", nil, "MapKeyPackage", nil)
				}
				m := r.Zero(mt)
				if t.kids != nil {
					m = r.mapT(mt)
					for _, n := range sortedKeys(t.kids) {
						m = r.MapUpd(m, r.Str(n), result(at+"."+n, t.kids[n]))
					}
				}
				return r.some("result"+at, rt, append(kv, "StructFields", m)...)
			}
			empty := func(x *Term) BDD { return r.Eq(x, r.Str("")) }
			field = func(at string, t *tree) *Term {
				res := result(at, t)
				sel := func(n string) *Term { return r.Sel(res, n, nil) }
				w := r.Zero(ft)
				for _, n := range same {
					w = r.With(w, n, sel(n))
				}
				need := r.Or(r.Not(accepted(sel("Type"))), r.Not(empty(sel("Name"))))
				for _, n := range []string{"SliceType", "ArrayType", "MapValueType"} {
					need = r.Or(need, r.And(r.Not(empty(sel(n))), r.Not(accepted(sel(n)))))
				}
				w = r.With(w, "Package", r.cond(need, path(sel("Package")), r.Str("")))
				w = r.With(w, "MapKeyPackage", r.cond(r.And(r.Not(empty(sel("MapKeyType"))), r.Not(accepted(sel("MapKeyType")))), path(sel("MapKeyPackage")), r.Str("")))
				w = r.With(w, "Doc", r.Str(strings.TrimSpace(t.doc)))
				if t.kids != nil {
					m := r.mapT(fieldType(ft, "StructFields"))
					for _, n := range sortedKeys(t.kids) {
						m = r.MapUpd(m, r.Str(n), field(at+"."+n, t.kids[n]))
					}
					w = r.With(w, "StructFields", m)
				}
				return w
			}
			want := field("", t)
			r.eval(f, []*Term{result("", t)})
			if !c.ok(r.must(True, r.ret), "returns: "+label, pos, "it may not return") {
				return
			}
			got := r.out(0)
			var compare func(at string, got, want *Term, t *tree)
			compare = func(at string, got, want *Term, t *tree) {
				s := ft.Underlying().(*types.Struct)
				for i := 0; i < s.NumFields(); i++ {
					n := s.Field(i).Name()
					g, w := r.Simp(r.deref(r.st, r.Sel(got, n, nil)), True), r.Sel(want, n, nil)
					if n != "StructFields" || t.kids == nil {
						r.equal(fmt.Sprintf("%s%s: %s", label, at, n), pos, g, w, True, "the field "+n)
						continue
					}
					es, ok := mapEntries(g)
					if !c.ok(ok && len(es) == len(t.kids), fmt.Sprintf("%s%s: %s", label, at, n), pos, "the fields of the struct are %s", r.Show(g)) {
						continue
					}
					for _, k := range sortedKeys(t.kids) {
						x := es[r.Str(k)]
						if !c.ok(x != nil, fmt.Sprintf("%s%s.%s: kept", label, at, k), pos, "the field %s of the struct is lost", k) {
							continue
						}
						compare(at+"."+k, r.Simp(r.resolve(x, r.st), True), r.Simp(field(at+"."+k, t.kids[k]), True), t.kids[k])
					}
				}
			}
			compare("", got, want, t)
		})
	}
	leaf := func(doc string) *tree { return &tree{doc: doc} }
	for _, d := range []string{"", "text", " text\n", "\n\ttwo\nlines \n", " "} {
		run(fmt.Sprintf("no fields, documentation %q", d), leaf(d))
		run(fmt.Sprintf("fields, documentation %q", d), &tree{doc: d, kids: map[string]*tree{"A": leaf(""), "B": leaf(d)}})
	}
	run("no package", &tree{null: true})
	run("no fields of a struct", &tree{kids: map[string]*tree{}})
	run("nested", &tree{doc: "a", kids: map[string]*tree{"A": {doc: "b", kids: map[string]*tree{"C": {kids: map[string]*tree{"D": leaf("d"), "E": {null: true}}}}}, "B": {kids: map[string]*tree{}}}})
	run("five fields", &tree{kids: map[string]*tree{"A": leaf("a"), "B": leaf("b"), "C": {null: true}, "D": {kids: map[string]*tree{"A": leaf("x")}}, "E": leaf("")}})
	// What needs no package.
	for _, n := range []string{"string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "bool", "byte", "rune", "struct", "map", "slice", "any", "nil", "file"} {
		run("builtin "+n, &tree{pkgs: map[string]any{"Type": n, "Name": "", "SliceType": n, "ArrayType": n, "MapValueType": n, "MapKeyType": n}})
		c.scenario("builtin type "+n, func() {
			r := c.begin(nil)
			r.initial("")
			r.eval(c.fn("", "IsAcceptedType"), []*Term{r.Str(n)})
			c.ok(r.must(True, r.ToBDD(r.out(0))), "builtin: "+n, pos, "%s is taken for a type of a package", n)
		})
	}
	for _, n := range []string{"User", "Int", "string2", "T", "time", "Map"} {
		c.scenario("named type "+n, func() {
			r := c.begin(nil)
			r.initial("")
			r.eval(c.fn("", "IsAcceptedType"), []*Term{r.Str(n)})
			c.ok(r.never(True, r.ToBDD(r.out(0))), "named: "+n, pos, "%s is taken for a type without a package", n)
		})
	}
}

func init() {
	register(&Rule{
		ID: "P17", Min: 400,
		What:      "abstract interpretation of the conversion of a result of the analysis with arbitrary contents, for structs without fields and with fields of arbitrary contents, three levels deep",
		NotCovers: "the contents of tags and enumerations, which are carried over as they are",
		Run:       func(c *Ctx) { c.conversion() },
	})
}
