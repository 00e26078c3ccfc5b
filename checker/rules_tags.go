package main

import (
	"fmt"
	"slices"
	"strings"
)

// Rules about struct tags.

// structTags decides the meaning of struct tags.
func (c *Ctx) structTags() {
	f := c.fn("astTraversal", "ParseStructTag")
	pos := c.p.pos(f)
	bt, vt := c.typ("astTraversal", "BindingTag"), c.typ("astTraversal", "ValidationTag")
	bindings := []string{"header", "form", "uri", "json", "xml", "yaml"}
	validations := []string{"binding", "validate"}
	run := func(label string, tag string, values map[string]string) {
		c.scenario("tag: "+label, func() {
			r := c.begin(nil)
			r.initial("astTraversal")
			t := r.Str(tag)
			if tag == "?" {
				t = r.RootT("tag", f.Params[1].Type())
			}
			field := r.RootT("Go name", f.Params[0].Type())
			r.hook = func(k *Call) (*Term, bool) {
				if k.Name != "(reflect.StructTag).Lookup" && k.Name != "(reflect.StructTag).Get" {
					return nil, false
				}
				n, ok := k.Raw[1].str()
				if k.Raw[0] != t && !(tag != "?" && r.same(k.Raw[0], t, True)) || !ok {
					stop("the tag %s of %s is looked up", r.Show(k.Raw[1]), r.Show(k.Raw[0]))
				}
				v, has := values[n]
				if strings.HasSuffix(k.Name, "Get") {
					return r.Str(v), true
				}
				return r.Tuple(r.Str(v), r.Bool(boolBDD(has))), true
			}
			r.eval(f, []*Term{field, t})
			if !c.ok(r.must(True, r.ret), "returns: "+label, pos, "it may not return") {
				return
			}
			entries := func(m *Term) map[*Term]*Term {
				es, ok := mapEntries(r.deref(r.st, m))
				if !ok {
					stop("the keys of %s are not known", r.Show(m))
				}
				return es
			}
			bm, vm := entries(r.out(0)), entries(r.out(1))
			entry := func(m map[*Term]*Term, key string) (*Term, bool) {
				if v := m[r.Str(key)]; v != nil {
					return v, true
				}
				return r.Zero(bt), false
			}
			any := false
			for _, b := range append(append([]string{}, bindings...), "") {
				v, has := values[b]
				want := r.Zero(bt)
				if b == "" {
					has = !any
					want = r.with(want, "Name", field)
				} else if has {
					any = true
					items := strings.Split(v, ",")
					switch {
					case v == "-":
						want = r.with(want, "NotShown", true)
					case items[0] == "":
						want = r.with(want, "Name", field)
					default:
						want = r.with(want, "Name", items[0])
					}
					for _, o := range items[1:] {
						if o == "omitempty" {
							want = r.with(want, "ReturnOptional", true)
						}
					}
				}
				got, ok := entry(bm, b)
				if !has {
					c.ok(!ok, fmt.Sprintf("binding: %s: %q", label, b), pos, "there is a binding tag %q: %s", b, r.Show(got))
					continue
				}
				d := r.differ(got, want, True, "")
				c.ok(ok && d == "", fmt.Sprintf("binding: %s: %q", label, b), pos, "the binding tag %q with the value %q is %s%s", b, v, r.Show(got), d)
			}
			for _, b := range validations {
				v, has := values[b]
				has = has && v != ""
				got, ok := entry(vm, b)
				if !has {
					c.ok(!ok, fmt.Sprintf("validation: %s: %q", label, b), pos, "there is a validation tag %q: %s", b, r.Show(got))
					continue
				}
				req := false
				for _, o := range strings.Split(v, ",") {
					if o == "dive" {
						break
					}
					req = req || o == "required"
				}
				d := r.differ(got, r.zero(vt, "IsRequired", req), True, "")
				c.ok(ok && d == "", fmt.Sprintf("validation: %s: %q", label, b), pos, "the validation tag %q with the value %q is %s%s", b, v, r.Show(got), d)
			}
			for i, m := range []map[*Term]*Term{bm, vm} {
				names := [][]string{append(bindings, ""), validations}[i]
				for t := range m {
					k, ok := t.str()
					c.ok(ok && slices.Contains(names, k), "keys: "+label+": "+k, pos, "there is a tag %s", r.Show(t))
				}
			}
		})
	}
	values := []string{"", "-", "name", "name,omitempty", ",omitempty", "-,omitempty", "name,string", "name,string,omitempty", ",", ",inline", "omitempty", "a b", "name,omitemptyx", "-x", "Name,omitempty,string", "name, omitempty"}
	for _, b := range bindings {
		for _, v := range values {
			run(fmt.Sprintf("%s:%q", b, v), "?", map[string]string{b: v})
		}
	}
	rules := []string{"", "required", "omitempty", "omitempty,required", "required,min=1", "min=1,max=2", "required_if=A b", "required_without=A", "notrequired", "dive,required", "required,dive,required", "min=1,required", "dive"}
	for _, b := range validations {
		for _, v := range rules {
			run(fmt.Sprintf("%s:%q", b, v), "?", map[string]string{b: v})
			run(fmt.Sprintf("%s:%q with json", b, v), "?", map[string]string{b: v, "json": "j"})
		}
	}
	// Each set of bindings, of which each has a name of its own.
	for m := 0; m < 1<<len(bindings); m++ {
		vs := map[string]string{}
		for i, b := range bindings {
			if m>>i&1 == 1 {
				vs[b] = []string{"n" + b, "-", ",omitempty"}[(m+i)%3]
			}
		}
		if m%2 == 1 {
			vs["binding"] = "required"
		}
		if m%4 == 2 {
			vs["validate"] = "min=1"
		}
		run(fmt.Sprintf("set %06b", m), "?", vs)
	}
	run("no tag", "", map[string]string{})
	run("another tag", "?", map[string]string{"bson": "x", "toml": "y"})
}

func init() {
	register(&Rule{
		ID: "P16", Min: 900,
		What:      "abstract interpretation of the parsing of a struct tag for a field of any name: 16 forms of values for each binding, 13 forms of rules for each validator, and every set of bindings, with the look-up of a key in the tag given",
		NotCovers: "the syntax of a struct tag itself (reflect.StructTag of the standard library)",
		Run:       func(c *Ctx) { c.structTags() },
	})
}
