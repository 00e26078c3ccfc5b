package main

import (
	"fmt"
	"go/types"
	"sort"
)

// Builders of structured values for scenarios.

// val makes a term of a Go value.
func (r *Run) val(v any) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case string:
		return r.Str(x)
	case int:
		return r.Int(int64(x))
	case bool:
		return r.Bool(boolBDD(x))
	case nil:
		return r.nilT
	}
	panic(fmt.Sprintf("no term for %T", v))
}

// with is a struct with some fields replaced.
func (r *Run) with(base *Term, kv ...any) *Term {
	for i := 0; i+1 < len(kv); i += 2 {
		base = r.With(base, kv[i].(string), r.val(kv[i+1]))
	}
	return base
}

// any value of a type, with some fields given.
func (r *Run) some(name string, t types.Type, kv ...any) *Term {
	return r.with(r.RootT(name, t), kv...)
}

// the zero value of a type, with some fields given.
func (r *Run) zero(t types.Type, kv ...any) *Term { return r.with(r.Zero(t), kv...) }

// list is a list of known length.
func (r *Run) list(t types.Type, xs ...*Term) *Term {
	l := r.List(xs...)
	l.ty = types.NewSlice(t)
	return l
}

// mapT is a map with known entries.
func (r *Run) mapT(t types.Type, kv ...any) *Term {
	m := r.intern(&Term{op: OMapEmpty, ty: t})
	m.ty = t
	for i := 0; i+1 < len(kv); i += 2 {
		m = r.MapUpd(m, r.val(kv[i]), r.val(kv[i+1]))
	}
	return m
}

// fieldOf is the type of a field of a struct type.
func fieldOf(t types.Type, name string) types.Type { return fieldType(t, name) }

// field is the type of a field.
func (c *Ctx) field() types.Type { return c.typ("", "Field") }

// tags are binding tags of a field: the type of the binding and the name.
func (r *Run) tags(kv ...any) *Term {
	bt := r.c.typ("astTraversal", "BindingTag")
	m := r.c.typ("astTraversal", "BindingTagMap")
	var es []any
	for i := 0; i+1 < len(kv); i += 2 {
		switch x := kv[i+1].(type) {
		case string:
			if x == "-" {
				es = append(es, kv[i], r.zero(bt, "NotShown", true))
			} else {
				es = append(es, kv[i], r.zero(bt, "Name", x))
			}
		default:
			es = append(es, kv[i], r.val(x))
		}
	}
	return r.mapT(m, es...)
}

// mapCell is a map of its own with these contents, which can be changed in place.
func (r *Run) mapCell(name string, m *Term) *Term {
	cell := r.RootT("map "+name, m.ty)
	r.st.m[cell] = m
	return cell
}

// fields are the fields of a struct.
func (r *Run) fields(kv ...any) *Term {
	return r.mapT(types.NewMap(types.Typ[types.String], r.c.field()), kv...)
}

// anyComponent is a component of any kind with a known name and two fields of any kind.
func (r *Run) anyComponent(name string) *Term {
	f := r.c.field()
	tags := r.tags("json", "a")
	return r.some(name, f, "Name", "Thing", "Package", "example.com/app/types",
		"StructFields", r.fields("A", r.some(name+"A", f, "Name", "A", "Package", "example.com/app/types", "StructFields", r.fields(), "StructFieldBindingTags", tags),
			"B", r.some(name+"B", f, "Name", "B", "Package", "example.com/app/types", "StructFields", r.fields(), "StructFieldBindingTags", r.tags("json", "b"))))
}

// same: two values are equal whenever g.
func (r *Run) same(a, b *Term, g BDD) bool { return r.differ(a, b, g, "") == "" }

// differ is where two values differ if g, and nothing if they are equal.
func (r *Run) differ(a, b *Term, g BDD, at string) string {
	if a == b || r.sat(g) == False {
		return ""
	}
	if a == nil || b == nil {
		return at + ": missing"
	}
	if a.op == OGamma || b.op == OGamma {
		swap := a.op != OGamma
		if swap {
			a, b = b, a
		}
		for i := range a.a {
			gi := r.And(g, a.g[i])
			if gi == False || r.sat(gi) == False {
				continue
			}
			x, y := a.a[i], b
			if swap {
				x, y = y, x
			}
			if d := r.differ(x, y, gi, at); d != "" {
				return d
			}
		}
		return ""
	}
	if a.op == OStruct || b.op == OStruct {
		if structBase(a) != structBase(b) {
			if r.must(g, r.Eq(a, b)) {
				return ""
			}
			return r.differs(a, b, g, at)
		}
		names := map[string]bool{}
		for _, t := range []*Term{a, b} {
			if t.op == OStruct {
				for _, n := range t.names {
					names[n] = true
				}
			}
		}
		var ns []string
		for n := range names {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			if d := r.differ(r.Sel(a, n, nil), r.Sel(b, n, nil), g, at+"."+n); d != "" {
				return d
			}
		}
		return ""
	}
	if a.op == b.op && (a.op == OList || a.op == OIface || a.op == OTuple) && len(a.a) == len(b.a) && a.typ == b.typ {
		for i := range a.a {
			p := at
			if a.op != OIface {
				p = fmt.Sprintf("%s[%d]", at, i)
			}
			if d := r.differ(a.a[i], b.a[i], g, p); d != "" {
				return d
			}
		}
		return ""
	}
	if ma, ok := mapEntries(a); ok {
		if mb, ok := mapEntries(b); ok {
			for k := range ma {
				if mb[k] == nil {
					return fmt.Sprintf("%s: the key %s is not expected", at, r.Show(k))
				}
			}
			var ks []*Term
			for k := range mb {
				ks = append(ks, k)
			}
			sort.Slice(ks, func(i, j int) bool { return r.Show(ks[i]) < r.Show(ks[j]) })
			for _, k := range ks {
				if ma[k] == nil {
					return fmt.Sprintf("%s: the key %s is missing", at, r.Show(k))
				}
				if d := r.differ(ma[k], mb[k], g, at+"["+r.Show(k)+"]"); d != "" {
					return d
				}
			}
			return ""
		}
	}
	if r.must(g, r.Eq(a, b)) {
		return ""
	}
	return r.differs(a, b, g, at)
}

func (r *Run) differs(a, b *Term, g BDD, at string) string {
	return fmt.Sprintf("%s is %s, not %s", at, trunc(r.Show(r.Simp(a, g)), 400), trunc(r.Show(b), 400))
}

// equal requires that two values are the same whenever g.
func (r *Run) equal(key, pos string, got, want *Term, g BDD, what string) bool {
	if got == nil {
		return r.c.ok(false, key, pos, "%s is missing", what)
	}
	d := r.differ(got, want, g, "")
	return r.c.ok(d == "", key, pos, "%s%s", what, d)
}

// cond is a value that depends on a condition.
func (r *Run) cond(g BDD, a, b *Term) *Term {
	return r.Gamma([]BDD{g, r.Not(g)}, []*Term{a, b})
}
