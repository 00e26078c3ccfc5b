package main

import (
	"fmt"
	"go/types"
)

// Rules about the lists of a service: returns, components, routes.

// identity are the fields that tell two entries of a list apart, each with two different values.
type identity struct {
	path []string
	a, b any
}

func (c *Ctx) listRule() {
	rt := c.typ("", "ReturnType")
	ft := c.field()
	str := types.Typ[types.String]
	prefix := func(ids []identity, with ...string) []identity {
		var out []identity
		for _, i := range ids {
			i.path = append(append([]string{}, with...), i.path...)
			out = append(out, i)
		}
		return out
	}
	typeIds := []identity{
		{[]string{"Type"}, "A", "B"}, {[]string{"Package"}, "p", "q"}, {[]string{"SliceType"}, "A", "B"}, {[]string{"ArrayType"}, "A", "B"}, {[]string{"ArrayLength"}, 1, 2},
		{[]string{"MapKeyType"}, "A", "B"}, {[]string{"MapKeyPackage"}, "p", "q"}, {[]string{"MapValueType"}, "A", "B"},
	}
	for _, l := range []struct {
		fn  string
		typ types.Type
		ids []identity
	}{
		{"AddReturnType", rt, append([]identity{{[]string{"StatusCode"}, 200, 201}, {[]string{"ContentType"}, "a", "b"}}, prefix(typeIds, "Field")...)},
		{"AddComponent", ft, []identity{{[]string{"Name"}, "A", "B"}, {[]string{"Package"}, "p", "q"}}},
	} {
		f := c.fn("", l.fn)
		set := func(r *Run, v *Term, path []string, x any) *Term {
			if len(path) == 1 {
				return r.With(v, path[0], r.val(x))
			}
			in := r.Sel(v, path[0], fieldType(l.typ, path[0]))
			return r.With(v, path[0], r.With(in, path[1], r.val(x)))
		}
		get := func(r *Run, v *Term, path []string) *Term {
			t := l.typ
			for _, p := range path {
				t = fieldType(t, p)
				v = r.Sel(v, p, t)
			}
			return v
		}
		pos := c.p.pos(f)
		add := func(r *Run, prev *Term, n ...*Term) []*Term {
			r.eval(f, []*Term{prev, r.list(l.typ, n...)})
			c.ok(r.ret == True, "ends: "+l.fn, pos, "it does not end if %s", r.ShowG(r.Not(r.ret)))
			return nil
		}
		// is requires a list of these entries if g.
		is := func(r *Run, key string, g BDD, want ...*Term) {
			got := r.Simp(r.out(0), g)
			bad := ""
			r.alternatives(got, g, func(t *Term, gi BDD) {
				if bad != "" || r.sat(gi) == False {
					return
				}
				xs, ok := r.listOf(t)
				if !ok {
					if len(want) == 0 && t.isNil() {
						return
					}
					bad = r.Show(t)
					return
				}
				if len(xs) != len(want) {
					bad = fmt.Sprintf("%d entries: %s if %s", len(xs), r.Show(t), r.ShowG(gi))
					return
				}
				for i := range xs {
					if !r.same(r.resolve(xs[i], r.st), want[i], gi) {
						bad = fmt.Sprintf("entry %d is %s", i, r.Show(xs[i]))
					}
				}
			})
			c.ok(bad == "", key, pos, "%s gives a list other than the expected %d entries: %s", l.fn, len(want), trunc(bad, 500))
		}
		for n := 0; n <= 3; n++ {
			var names []*Term
			c.scenario(fmt.Sprintf("%s to %d", l.fn, n), func() {
				r := c.begin(nil)
				prev := r.elems("entry", n, l.typ)
				names = prev.a
				x := r.RootT("new", l.typ)
				add(r, prev, x)
				// Different in one of the identifying fields from every entry: appended, all others are kept.
				g := True
				for _, p := range names {
					d := False
					for _, id := range l.ids {
						d = r.Or(d, r.Not(r.Eq(get(r, p, id.path), get(r, x, id.path))))
					}
					g = r.And(g, d)
				}
				is(r, fmt.Sprintf("keeps: %s: new to %d", l.fn, n), g, append(append([]*Term{}, names...), x)...)
				// Nothing to add.
				r2 := c.begin(nil)
				prev = r2.elems("entry", n, l.typ)
				add(r2, prev)
				is(r2, fmt.Sprintf("nothing: %s: to %d", l.fn, n), True, prev.a...)
			})
			for i := 0; i < n; i++ {
				c.scenario(fmt.Sprintf("%s same %d of %d", l.fn, i, n), func() {
					r := c.begin(nil)
					prev := r.elems("entry", n, l.typ)
					x := prev.a[i]
					if l.fn == "AddComponent" { // the rest is given by the type
						x = r.RootT("new", l.typ)
						for _, id := range l.ids {
							x = set(r, x, id.path, get(r, prev.a[i], id.path))
						}
					}
					add(r, prev, x)
					is(r, fmt.Sprintf("once: %s: %d of %d", l.fn, i, n), True, prev.a...)
				})
			}
		}
		// Several at once.
		c.scenario(l.fn+" several", func() {
			r := c.begin(nil)
			base := func(name string) *Term {
				v := r.zero(l.typ)
				for _, id := range l.ids {
					v = set(r, v, id.path, id.a)
				}
				return set(r, v, l.ids[0].path, map[string]any{"StatusCode": map[string]any{"a": 1, "b": 2, "c": 3}[name], "Name": name}[l.ids[0].path[0]])
			}
			a, b, d := base("a"), base("b"), base("c")
			add(r, r.list(l.typ, a), b, a, b, d, d)
			is(r, "several: "+l.fn, True, a, b, d)
			add(r, r.nilT, b, b)
			is(r, "several: "+l.fn+" to nothing", True, b)
		})
		// Every identifying field on its own, for a concrete entry.
		for _, id := range l.ids {
			c.scenario(l.fn+" identity", func() {
				r := c.begin(nil)
				v := r.zero(l.typ)
				for _, o := range l.ids {
					v = set(r, v, o.path, o.a)
				}
				w := set(r, v, id.path, id.b)
				add(r, r.list(l.typ, v), w)
				is(r, fmt.Sprintf("identity: %s: %v", l.fn, id.path), True, v, w)
				// And if the others are empty.
				v, w = set(r, r.zero(l.typ), id.path, id.a), set(r, r.zero(l.typ), id.path, id.b)
				add(r, r.list(l.typ, v), w)
				is(r, fmt.Sprintf("identity: %s: only %v", l.fn, id.path), True, v, w)
			})
		}
	}
	c.scenario("anonymous structs", func() {
		r := c.begin(nil)
		f := c.fn("", "AddReturnType")
		mk := func(n string) *Term {
			return r.zero(rt, "StatusCode", 200, "Field", r.zero(ft, "Type", "struct", "StructFields", r.fields(n, r.zero(ft, "Type", "string"))))
		}
		v, w := mk("A"), mk("B")
		r.eval(f, []*Term{r.list(rt, v), r.list(rt, w)})
		l, ok := r.listOf(r.out(0))
		c.ok(ok && len(l) == 2, "identity: AddReturnType: anonymous structs", c.p.pos(f), "different anonymous structs are taken for the same: %s", r.Show(r.out(0)))
	})
	// Routes.
	rtT := c.typ("", "Route")
	c.scenario("AddRoute", func() {
		f := c.method("", "Service", "AddRoute")
		r := c.begin(nil)
		s := r.service()
		x := r.RootT("route", rtT)
		old := r.content(r.st, s)
		r.eval(f, []*Term{s, x})
		r.structAs("route: AddRoute", c.p.pos(f), s, c.typ("", "Service"), old, map[string]*Term{"Routes": r.Append(r.Sel(old, "Routes", nil), r.list(rtT, x))})
	})
	for n := 0; n <= 3; n++ {
		c.scenario(fmt.Sprintf("ReplaceRoute %d", n), func() {
			f := c.method("", "Service", "ReplaceRoute")
			r := c.begin(nil)
			routes := r.elems("route", n, rtT)
			s := r.serviceWith("Routes", routes)
			old := r.content(r.st, s)
			x := r.RootT("new", rtT)
			r.eval(f, []*Term{s, x})
			now := r.resolve(r.Sel(r.deref(r.st, s), "Routes", nil), r.st)
			same := func(i int) BDD {
				return r.And(r.Eq(r.Sel(routes.a[i], "Path", str), r.Sel(x, "Path", str)), r.Eq(r.Sel(routes.a[i], "Method", str), r.Sel(x, "Method", str)))
			}
			// A path has one route for a method.
			unique := True
			for i := 0; i < n; i++ {
				for j := 0; j < i; j++ {
					unique = r.And(unique, r.Not(r.And(same(i), same(j))))
				}
			}
			for i := 0; i < n; i++ {
				e := r.Simp(r.resolve(r.Elem(now, r.Int(int64(i)), rtT), r.st), unique)
				r.equal(fmt.Sprintf("route: ReplaceRoute: %d of %d", i, n), c.p.pos(f), e, r.cond(same(i), x, routes.a[i]), unique, "a route")
			}
			c.ok(r.must(unique, r.Eq(r.Len(now), r.Int(int64(n)))), fmt.Sprintf("route: ReplaceRoute: number %d", n), c.p.pos(f), "the number of routes changes: %s", r.Show(now))
			st := c.typ("", "Service").Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if fl := st.Field(i); fl.Name() != "Routes" {
					r.equal("route: ReplaceRoute: keeps "+fl.Name(), c.p.pos(f), r.Sel(r.deref(r.st, s), fl.Name(), fl.Type()), r.Sel(old, fl.Name(), fl.Type()), True, fl.Name())
				}
			}
		})
	}
}

func init() {
	register(&Rule{ID: "P19", Min: 120,
		What:      "for lists of 0 to 3 arbitrary entries and an arbitrary new one: it is appended after all earlier entries whenever it differs from each of them in an identifying field, and the list is unchanged if it is one of them; each identifying field counts alone; several additions are added one after the other; adding a route appends it, replacing a route changes exactly the one with its path and method",
		NotCovers: "lists of more than three entries are covered by the uniformity of the loop only",
		Run:       func(c *Ctx) { c.listRule() }})
}
