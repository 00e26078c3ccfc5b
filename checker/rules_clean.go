package main

import (
	"fmt"
	"go/types"
)

// Rules about cleaning: the main package and substituted types, in every place a type can be in.

// cleanSpec is what cleaning makes of a field. The fields of the field are cleaned likewise.
func (r *Run) cleanSpec(f *Term, mainPkg string) *Term {
	ft := r.c.field()
	sel := func(n string) *Term { return r.Sel(f, n, fieldType(ft, n)) }
	name, pkg := sel("Name"), sel("Package")
	is := func(p, n string) BDD { return r.And(r.Eq(pkg, r.Str(p)), r.Eq(name, r.Str(n))) }
	out := f
	set := func(g BDD, n string, v *Term) {
		out = r.With(out, n, r.cond(g, v, r.Sel(out, n, fieldType(ft, n))))
	}
	set(r.Eq(pkg, r.Str(mainPkg)), "Package", r.Str("main"))
	set(r.Eq(sel("MapKeyPackage"), r.Str(mainPkg)), "MapKeyPackage", r.Str("main"))
	fields := sel("StructFields")
	if fs, ok := mapEntries(fields); ok && fields.op == OMapUpd {
		m := fields
		for k, v := range fs {
			m = r.MapUpd(m, k, r.cleanSpec(v, mainPkg))
		}
		set(True, "StructFields", m)
	}
	sub := False
	for _, s := range []struct{ p, n, t string }{{"time", "Duration", "int"}, {"", "error", "string"}} {
		set(is(s.p, s.n), "Type", r.Str(s.t))
		sub = r.Or(sub, is(s.p, s.n))
	}
	set(sub, "SliceType", r.Str(""))
	set(sub, "MapValueType", r.Str(""))
	set(sub, "StructFields", r.Zero(fieldType(ft, "StructFields")))
	return out
}

func (c *Ctx) cleanRule() {
	f := c.method("", "Service", "Clean")
	pos := c.p.pos(f)
	rt, pt, bt, ret := c.typ("", "Route"), c.typ("", "Param"), c.typ("", "BodyParam"), c.typ("", "ReturnType")
	ft := c.field()
	const mp = "example.com/app/.astra/astramain"
	names := []struct{ pkg, name string }{
		{mp, "Main"}, {"example.com/app", "Thing"}, {"time", "Duration"}, {"", "error"}, {"time", "Time"}, {"example.com/app/.astra", "astramain"}, {"mytime", "Duration"}, {"", "Duration"},
	}
	var mk func(r *Run, name string, depth, i int) *Term
	mk = func(r *Run, name string, depth, i int) *Term {
		n := names[i%len(names)]
		x := r.some(name, ft, "Name", n.name, "Package", n.pkg, "MapKeyPackage", names[(i/2)%2].pkg)
		if depth == 0 {
			return r.with(x, "StructFields", r.Zero(fieldType(ft, "StructFields")))
		}
		return r.with(x, "StructFields", r.mapCell(name, r.fields("A", mk(r, name+".A", depth-1, i+1), "B", mk(r, name+".B", depth-1, i+3))))
	}
	places := []struct {
		name string
		typ  types.Type
	}{{"ReturnTypes", ret}, {"PathParams", pt}, {"QueryParams", pt}, {"Body", bt}, {"RequestHeaders", pt}, {"ResponseHeaders", pt}}
	for shift := range names {
		c.scenario(fmt.Sprintf("clean %d", shift), func() {
			r := c.begin(nil)
			r.recLimit = 6
			r.opaque["(*~.Service).Cache"] = true
			r.hook = func(k *Call) (*Term, bool) {
				if k.Name == "(*~.Service).GetMainPackageName" {
					return r.Tuple(r.Str(mp), r.nilT), true
				}
				return nil, false
			}
			depth := 1
			if shift%2 == 0 {
				depth = 2
			}
			n := shift
			comps := []*Term{mk(r, "component0", depth, n), mk(r, "component1", 0, n+1), mk(r, "component2", 1, n+2)}
			var routes, want []*Term
			for i := 0; i < 2; i++ {
				route := r.RootT(fmt.Sprintf("route%d", i), rt)
				exp := route
				for pi, p := range places {
					var es, ws []*Term
					for j := 0; j < 2; j++ {
						e := r.RootT(fmt.Sprintf("route%d.%s%d", i, p.name, j), p.typ)
						x := mk(r, fmt.Sprintf("route%d.%s%d.Field", i, p.name, j), (j+1)%2, n+i+j+pi)
						es = append(es, r.With(e, "Field", x))
						ws = append(ws, r.With(e, "Field", r.cleanSpec(r.resolve(x, r.st), mp)))
					}
					route = r.With(route, p.name, r.list(p.typ, es...))
					exp = r.With(exp, p.name, r.list(p.typ, ws...))
				}
				routes = append(routes, route)
				want = append(want, exp)
			}
			var cw []*Term
			for _, x := range comps {
				cw = append(cw, r.cleanSpec(r.resolve(x, r.st), mp))
			}
			s := r.serviceWith("Routes", r.list(rt, routes...), "Components", r.list(ft, comps...))
			r.eval(f, []*Term{s})
			g := r.okBDD()
			c.ok(r.sat(g) != False, "succeeds: Clean", pos, "cleaning never succeeds")
			for n, w := range map[string]*Term{"Components": r.list(ft, cw...), "Routes": r.list(rt, want...)} {
				r.equal(fmt.Sprintf("cleaned: %s %d", n, shift), pos, r.Simp(r.at(s, n), g), w, g, n)
			}
		})
	}
}

// okBDD is when the entry point returns and the last result, an error, is nil.
func (r *Run) okBDD() BDD {
	return r.And(r.ret, r.Eq(r.res[len(r.res)-1], r.nilT))
}

func init() {
	register(&Rule{
		ID:   "P33",
		What: "abstract interpretation of Service.Clean on services with described types of every kind of name in every place; the final state of every field is compared with the specified one",
		Min:  16,
		Assume: []string{
			"recursion over nested fields is followed for three levels",
		},
		Run: func(c *Ctx) { c.cleanRule() },
	})
}
