package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about options, builders and the configuration.

// structUnchanged requires that the fields of a struct are as expected, and the others as they were.
func (r *Run) structAs(key, pos string, ptr *Term, t types.Type, old *Term, want map[string]*Term) {
	st := t.Underlying().(*types.Struct)
	now := r.deref(r.st, ptr)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		got := r.resolve(r.Sel(now, f.Name(), f.Type()), r.st)
		w := want[f.Name()]
		if w == nil {
			r.equal(key+": keeps "+f.Name(), pos, got, r.Sel(old, f.Name(), f.Type()), r.ret, f.Name())
			continue
		}
		r.equal(key+": sets "+f.Name(), pos, got, w, r.ret, f.Name())
	}
	for n := range want {
		if fieldType(t, n) == nil {
			stop("there is no field %s in %s", n, t)
		}
	}
}

type optCase struct {
	rel, name string
	args      func(r *Run, f *ssa.Function) []*Term
	want      func(r *Run, s *Term, args []*Term) map[string]*Term
	check     func(r *Run, s *Term, args []*Term) []string // fields that check looked at
}

func rootArgs(r *Run, f *ssa.Function) []*Term {
	var out []*Term
	for i, p := range f.Params {
		out = append(out, r.RootT(fmt.Sprintf("value%d", i), p.Type()))
	}
	return out
}

func (c *Ctx) optionRule() {
	svcT := c.typ("", "Service")
	str := types.Typ[types.String]
	yes := func(r *Run) *Term { return r.Bool(True) }
	appended := func(r *Run, s *Term, list string) *Term {
		return nil
	}
	_ = appended
	one := func(field string) func(r *Run, s *Term, a []*Term) map[string]*Term {
		return func(r *Run, s *Term, a []*Term) map[string]*Term { return map[string]*Term{field: a[0]} }
	}
	added := func(field string, ok func(r *Run, x *Term, a []*Term) string) func(r *Run, s *Term, a []*Term) []string {
		return func(r *Run, s *Term, a []*Term) []string {
			l := r.at(s, field)
			x := lastOf(l)
			if c.ok(l.op == OAppend && l.a[0] == r.Sel(s, field, nil) && len(l.a) == 2, "adds: "+fnName(r.fn), c.p.pos(r.fn), "%s does not add one entry to %s: %s", fnName(r.fn), field, trunc(r.Show(l), 300)) {
				bad := ok(r, x, a)
				c.ok(bad == "", "adds: "+fnName(r.fn)+" value", c.p.pos(r.fn), "%s", bad)
			}
			return []string{field}
		}
	}
	path := func(r *Run) *Term { return r.RootT("path", str) }
	cases := []optCase{
		{rel: "", name: "WithCustomWorkDir", want: one("WorkDir")},
		{rel: "", name: "WithConfig", want: one("Config")},
		{rel: "", name: "WithCustomLogger", want: one("Log")},
		{rel: "", name: "WithCustomFunc", check: added("CustomFuncs", func(r *Run, x *Term, a []*Term) string {
			if r.resolve(x, r.st) != a[0] {
				return "the function that is added is " + r.Show(x)
			}
			return ""
		})},
		{rel: "", name: "WithPathDenyListFunc", check: added("PathDenyList", func(r *Run, x *Term, a []*Term) string {
			n := len(r.effects)
			v := r.applyTerm(x, path(r))
			if r.resolve(x, r.st) == a[0] {
				return ""
			}
			if len(r.effects) == n+1 && r.effects[n].Kind == "dyn" && r.effects[n].Args[0] == a[0] && r.effects[n].Args[1] == path(r) && v == r.effects[n].Result {
				return ""
			}
			return "the function that is added is " + r.Show(x)
		})},
		{rel: "", name: "WithPathDenyList", check: added("PathDenyList", func(r *Run, x *Term, a []*Term) string {
			v := r.applyTerm(x, path(r))
			if v == nil || !r.same(r.resolve(v, r.st), r.Bool(r.Eq(path(r), a[0])), True) {
				return "a path is denied if " + r.Show(v)
			}
			return ""
		})},
		{rel: "", name: "WithPathDenyListRegex", check: added("PathDenyList", func(r *Run, x *Term, a []*Term) string {
			v := r.resolve(r.applyTerm(x, path(r)), r.st)
			ok := v.op == OBool && len(r.Support(v.b)) == 1
			if ok {
				at := r.atoms[r.Support(v.b)[0]]
				ok = at.op == OAtomVal && at.a[0].op == OCall && at.a[0].s == "(*regexp.Regexp).MatchString" && at.a[0].a[0] == a[0] && at.a[0].a[1] == path(r) && v.b == r.atom(at)
			}
			if v.op == OCall {
				ok = v.s == "(*regexp.Regexp).MatchString" && v.a[0] == a[0] && v.a[1] == path(r)
			}
			if !ok {
				return "a path is denied if " + r.Show(v)
			}
			return ""
		})},
		{rel: "", name: "WithCustomTypeMappingSingle", want: func(r *Run, s *Term, a []*Term) map[string]*Term {
			v := r.zero(c.typ("", "TypeFormat"), "Type", a[1], "Format", a[2])
			return map[string]*Term{"CustomTypeMapping": r.MapUpd(r.Sel(s, "CustomTypeMapping", nil), a[0], v)}
		}},
		{rel: "", name: "WithCustomTypeMapping", args: func(r *Run, f *ssa.Function) []*Term {
			tf := c.typ("", "TypeFormat")
			return []*Term{r.mapT(types.NewMap(str, tf), "a", r.RootT("A", tf), "b", r.RootT("B", tf))}
		}, want: func(r *Run, s *Term, a []*Term) map[string]*Term {
			tf := c.typ("", "TypeFormat")
			m := r.Sel(s, "CustomTypeMapping", nil)
			return map[string]*Term{"CustomTypeMapping": r.MapUpd(r.MapUpd(m, r.Str("a"), r.RootT("A", tf)), r.Str("b"), r.RootT("B", tf))}
		}},
		{rel: "cache", name: "WithCache", want: func(r *Run, s *Term, a []*Term) map[string]*Term {
			return map[string]*Term{"CacheEnabled": yes(r)}
		}},
		{rel: "cache", name: "WithCustomCachePath", want: func(r *Run, s *Term, a []*Term) map[string]*Term {
			return map[string]*Term{"CacheEnabled": yes(r), "CachePath": a[0]}
		}},
		{rel: "cli", name: "WithCLI", want: func(r *Run, s *Term, a []*Term) map[string]*Term {
			return map[string]*Term{"CacheEnabled": yes(r), "CLIMode": r.Str("setup")}
		}},
		{rel: "cli", name: "WithCLIBuilder", want: func(r *Run, s *Term, a []*Term) map[string]*Term {
			return map[string]*Term{"CLIMode": r.Str("builder")}
		}},
	}
	for i, l := range []string{"trace", "debug", "info", "warn", "error", "fatal", "panic", "\x00other"} {
		lvl := []int{-1, 0, 1, 2, 3, 4, 5, 1}[i]
		cases = append(cases, optCase{rel: "", name: "WithCustomLogLevel", args: func(r *Run, f *ssa.Function) []*Term { return []*Term{r.Str(l)} },
			check: func(r *Run, s *Term, a []*Term) []string {
				v := r.at(s, "Log")
				ok := v.op == OCall && strings.HasSuffix(v.s, "zerolog.Logger).Level") && v.a[0] == r.Sel(s, "Log", nil) && r.same(v.a[1], r.Int(int64(lvl)), True)
				c.ok(ok, "sets: level "+strings.Trim(l, "\x00"), c.p.pos(r.fn), "the log level of %q is %s", l, r.Show(v))
				return []string{"Log"}
			}})
	}
	st := svcT.Underlying().(*types.Struct)
	for _, cs := range cases {
		c.scenario(cs.name, func() {
			f := c.fn(cs.rel, cs.name)
			r := c.begin(nil)
			args := rootArgs(r, f)
			if cs.args != nil {
				args = cs.args(r, f)
			}
			r.eval(f, args)
			opt := r.out(0)
			if opt == nil {
				stop("%s returns nothing", cs.name)
			}
			s := r.service()
			old := r.content(r.st, s)
			r.applyTerm(opt, s)
			c.ok(r.ret == True, "ends: "+cs.name, c.p.pos(f), "the option does not return if %s", r.ShowG(r.Not(r.ret)))
			want := map[string]*Term{}
			if cs.want != nil {
				want = cs.want(r, s, args)
			}
			if cs.check != nil {
				st0, ret := r.st.clone(), r.ret
				for _, n := range cs.check(r, s, args) {
					want[n] = r.resolve(r.Sel(r.deref(st0, s), n, nil), st0)
				}
				r.st, r.ret = st0, ret
			}
			key := "option: " + cs.name
			now := r.deref(r.st, s)
			for i := 0; i < st.NumFields(); i++ {
				fl := st.Field(i)
				got := r.resolve(r.Sel(now, fl.Name(), fl.Type()), r.st)
				if w := want[fl.Name()]; w != nil {
					r.equal(key+": sets "+fl.Name(), c.p.pos(f), got, w, r.ret, fl.Name())
					continue
				}
				if !fl.Exported() {
					continue // an internal cache may be dropped
				}
				r.equal(key+": keeps "+fl.Name(), c.p.pos(f), got, r.Sel(old, fl.Name(), fl.Type()), r.ret, fl.Name())
			}
			for n := range want {
				if fieldType(svcT, n) == nil {
					stop("there is no field %s in Service", n)
				}
			}
		})
	}
	// Inputs and outputs are added; what is in them is the matter of P05.
	for _, io := range []struct{ rel, list string }{{"outputs", "Outputs"}, {"inputs", "Inputs"}} {
		c.scenario(io.rel, func() {
			for _, f := range optionFns(c, io.rel) {
				r := c.begin(nil)
				r.eval(f, rootArgs(r, f))
				s := r.service()
				old := r.content(r.st, s)
				r.applyTerm(r.out(0), s)
				now := r.deref(r.st, s)
				for i := 0; i < st.NumFields(); i++ {
					fl := st.Field(i)
					got := r.Simp(r.resolve(r.Sel(now, fl.Name(), fl.Type()), r.st), r.ret)
					if fl.Name() == io.list {
						c.ok(got.op == OAppend && len(got.a) == 2 && got.a[0] == r.Sel(s, io.list, nil), "option: "+fnName(f)+": adds", c.p.pos(f), "%s does not add one entry: %s", fnName(f), trunc(r.Show(got), 300))
						for _, n := range []string{"Generate", "CreateRoutes", "ParseRoutes", "Mode"} {
							if x := lastOf(got); x != nil && fieldType(c.typ("", strings.TrimSuffix(io.list, "s")), n) != nil {
								v := r.resolve(r.Sel(x, n, nil), r.st)
								c.ok(!v.isNil() && !r.same(v, r.Str(""), True), "option: "+fnName(f)+": "+n, c.p.pos(f), "%s of the entry is missing", n)
							}
						}
						continue
					}
					if fl.Exported() {
						r.equal("option: "+fnName(f)+": keeps "+fl.Name(), c.p.pos(f), got, r.Sel(old, fl.Name(), fl.Type()), r.ret, fl.Name())
					}
				}
			}
		})
	}
	// A new service has the options applied in order, each once.
	c.scenario("New", func() {
		r := c.begin(nil)
		f := c.fn("", "New")
		opts := r.elems("opt", 3, c.typ("", "Option"))
		r.eval(f, []*Term{opts})
		es := r.pick(func(e *Effect) bool { return e.Kind == "dyn" })
		if !c.ok(len(es) == 3, "new: options", c.p.pos(f), "%d of 3 options are applied", len(es)) {
			return
		}
		for i, e := range es {
			c.ok(e.Raw[0] == opts.a[i] && e.Raw[1] == es[0].Raw[1] && e.Guard == True, "new: order", r.where(e), "option %d is %s for %s if %s", i, r.Show(e.Raw[0]), r.Show(e.Raw[1]), r.ShowG(e.Guard))
		}
		c.ok(r.res[0] == es[0].Raw[1], "new: service", c.p.pos(f), "the service of the options is not the one that is returned")
		s := es[0].Raw[1]
		v := r.deref(es[0].St, s)
		for i := 0; i < st.NumFields(); i++ {
			fl := st.Field(i)
			x := r.resolve(r.Sel(v, fl.Name(), fl.Type()), es[0].St)
			switch fl.Name() {
			case "Log", "fullTypeMapping":
			case "CustomTypeMapping":
				c.ok(x.op == OMapEmpty, "new: "+fl.Name(), c.p.pos(f), "%s is %s before the options", fl.Name(), r.Show(x))
			default:
				switch fl.Type().Underlying().(type) {
				case *types.Slice:
					c.ok(r.Empty(x) == True || x.isNil() || x.op == OZero, "new: "+fl.Name(), c.p.pos(f), "%s is %s before the options", fl.Name(), r.Show(x))
				default:
					r.equal("new: "+fl.Name(), c.p.pos(f), x, r.Zero(fl.Type()), True, fl.Name()+" before the options")
				}
			}
		}
		// The options are the last word.
		for _, e := range r.effects {
			if e.Seq > es[2].Seq {
				c.ok(e.Kind != "store", "new: last", r.where(e), "something is set after the options were applied")
			}
		}
		end := r.deref(r.st, s)
		c.ok(end == r.deref(es[2].St, s) || r.havocked(end), "new: after", c.p.pos(f), "the service is changed after the options were applied: %s", trunc(r.Show(end), 300))
	})
	c.configRule()
	c.contextBuilderRule()
}

// havocked: an unknown call may have changed a value, nothing else.
func (r *Run) havocked(t *Term) bool { return t.op == OCall || t.op == ORoot }

func (c *Ctx) configRule() {
	cfgT := c.typ("", "Config")
	str := types.Typ[types.String]
	bt := c.typ("", "ConfigBuilder")
	builder := func(r *Run) (b, cfg *Term) {
		f := c.fn("", "NewConfigBuilder")
		r.eval(f, nil)
		return r.res[0], nil
	}
	ms := types.NewMethodSet(types.NewPointer(bt))
	n := 0
	for i := 0; i < ms.Len(); i++ {
		name := ms.At(i).Obj().Name()
		if !strings.HasPrefix(name, "Set") || !ms.At(i).Obj().Exported() {
			continue
		}
		n++
		c.scenario(name, func() {
			field := strings.TrimPrefix(name, "Set")
			if fieldType(cfgT, field) == nil {
				return // not a setter of a field
			}
			f := c.method("", "ConfigBuilder", name)
			r := c.begin(nil)
			b, _ := builder(r)
			// After any other calls: what Build returns is arbitrary.
			bf := c.method("", "ConfigBuilder", "Build")
			cell := r.configCell(bf, b)
			if cell == nil {
				stop("the configuration of the builder is not found")
			}
			any := r.RootT("set before", cfgT)
			r.st.m[cell] = any
			v := r.RootT("value", f.Params[1].Type())
			r.eval(f, []*Term{b, v})
			c.ok(r.res[0] == b, "builder: "+name+" result", c.p.pos(f), "the result is %s, not the builder", r.Show(r.res[0]))
			r.structAs("builder: "+name, c.p.pos(f), cell, cfgT, any, map[string]*Term{field: v})
		})
	}
	c.ok(n >= 9, "coverage: setters", "", "only %d setters of the configuration", n)
	for _, which := range []string{"Validate", "Build"} {
		c.scenario(which, func() {
			r := c.begin(nil)
			any := r.RootT("any", cfgT)
			var cell *Term
			var f *ssa.Function
			if which == "Validate" {
				f = c.method("", "Config", "Validate")
				cell = r.RootT("config", ptrTo(cfgT))
				r.st.m[cell] = any
				r.eval(f, []*Term{cell})
			} else {
				f = c.method("", "ConfigBuilder", "Build")
				b, _ := builder(r)
				cell = r.configCell(f, b)
				if cell == nil {
					stop("the configuration of the builder is not found")
				}
				r.st.m[cell] = any
				r.eval(f, []*Term{b})
			}
			ei := len(r.res) - 1
			valid := r.Not(r.Eq(r.Sel(any, "Port", types.Typ[types.Int]), r.Int(0)))
			c.ok(r.ret == True, "validate: "+which+" ends", c.p.pos(f), "it does not return")
			ok := r.Eq(r.res[ei], r.nilT)
			c.ok(r.must(ok, valid), "validate: "+which+" port", c.p.pos(f), "a configuration without port is accepted if %s", r.ShowG(r.And(ok, r.Not(valid))))
			c.ok(r.must(valid, ok), "validate: "+which+" accepts", c.p.pos(f), "a configuration with a port is refused if %s", r.ShowG(r.And(valid, r.Not(ok))))
			if which == "Build" {
				c.ok(r.same(r.Simp(r.res[0], valid), cell, valid), "validate: Build result", c.p.pos(f), "the result is %s", r.Show(r.Simp(r.res[0], valid)))
			}
			st := cfgT.Underlying().(*types.Struct)
			now := r.deref(r.st, cell)
			for i := 0; i < st.NumFields(); i++ {
				fl := st.Field(i)
				old := r.Sel(any, fl.Name(), fl.Type())
				want := old
				if d := map[string]string{"Host": "localhost", "BasePath": "/"}[fl.Name()]; d != "" {
					want = r.cond(r.Eq(old, r.Str("")), r.Str(d), old)
				}
				r.equal("validate: "+which+": "+fl.Name(), c.p.pos(f), r.resolve(r.Sel(now, fl.Name(), fl.Type()), r.st), want, valid, fl.Name()+" of a valid configuration")
			}
		})
	}
	c.scenario("new builder", func() {
		r := c.begin(nil)
		b, _ := builder(r)
		cell := r.configCell(c.method("", "ConfigBuilder", "Build"), b)
		if cell == nil {
			stop("the configuration of the builder is not found")
		}
		c.ok(cell.op == OAlloc, "builder: new", c.p.pos(r.fn), "builders share their configuration: %s", r.Show(cell))
		r.equal("builder: new is empty", c.p.pos(r.fn), r.deref(r.st, cell), r.Zero(cfgT), True, "a new configuration")
	})
	c.scenario("SetConfig", func() {
		f := c.method("", "Service", "SetConfig")
		r := c.begin(nil)
		s := r.service()
		old := r.content(r.st, s)
		v := r.RootT("config", ptrTo(cfgT))
		r.eval(f, []*Term{s, v})
		c.ok(r.res[0] == s, "builder: SetConfig result", c.p.pos(f), "the result is %s", r.Show(r.res[0]))
		r.structAs("builder: SetConfig", c.p.pos(f), s, c.typ("", "Service"), old, map[string]*Term{"Config": v})
	})
	_ = str
}

// configCell is where a builder keeps its configuration: what Build returns.
func (r *Run) configCell(build *ssa.Function, b *Term) *Term {
	v := r.deref(r.st, b)
	var found *Term
	for _, a := range append([]*Term{v}, v.a...) {
		x := a
		if x == nil {
			continue
		}
		if x.ty != nil && types.Identical(x.ty, ptrTo(r.c.typ("", "Config"))) {
			found = x
		}
	}
	if found == nil {
		if st, ok := r.c.typ("", "ConfigBuilder").Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if types.Identical(st.Field(i).Type(), ptrTo(r.c.typ("", "Config"))) {
					found = r.Sel(v, st.Field(i).Name(), st.Field(i).Type())
				}
			}
		}
	}
	return found
}

// contextBuilderRule: the operations of the builder of a custom function look at the arguments of the call in their order.
func (c *Ctx) contextBuilderRule() {
	ops := []string{"Ignored", "StatusCode", "ExpressionResult", "Value"}
	perms := [][]int{{0, 1, 2, 3}, {1, 2, 3, 0}, {2, 3, 0, 1}, {3, 0, 1, 2}, {3, 2, 1, 0}, {1, 1}, {2}, {}}
	const at = "astTraversal"
	trT := c.typ(at, "CallExpressionTraverser")
	for _, perm := range perms {
		for _, nargs := range []int{len(perm), len(perm) - 1} {
			if nargs < 0 {
				continue
			}
			what := ""
			for _, i := range perm {
				what += " " + ops[i]
			}
			what = fmt.Sprintf("%s with %d arguments", strings.TrimSpace(what), nargs)
			c.scenario("builder "+what, func() {
				r := c.begin(nil)
				route := r.RootT("route", ptrTo(c.typ("", "Route")))
				tr := r.RootT("traverser", ptrTo(trT))
				var args *Term
				r.hook = func(cl *Call) (*Term, bool) {
					switch cl.Name {
					case "(*~/astTraversal.CallExpressionTraverser).Args":
						return args, true
					}
					return nil, false
				}
				for _, n := range []string{"(*~/astTraversal.BaseTraverser).ExtractStatusCode", "(*~/astTraversal.BaseTraverser).Expression", "(*~/astTraversal.ExpressionTraverser).Type", "(*~/astTraversal.ExpressionTraverser).Value", "(*~/astTraversal.ExpressionTraverser).Result", "(*~/astTraversal.BaseTraverser).Type", "(*~/astTraversal.TypeTraverser).Result"} {
					r.opaque[n] = true
				}
				argsT := c.method(at, "CallExpressionTraverser", "Args").Signature.Results().At(0).Type()
				args = r.elems("argument", nargs, argsT.Underlying().(*types.Slice).Elem())
				r.eval(c.fn("", "NewContextFuncBuilder"), []*Term{route, tr})
				b := r.res[0]
				for _, i := range perm {
					f := c.method("", "ContextFuncBuilder", ops[i])
					r.eval(f, []*Term{b})
					c.ok(r.res[0] == b, "context: "+ops[i]+" result", c.p.pos(f), "the result is not the builder")
				}
				bf := c.method("", "ContextFuncBuilder", "Build")
				mapper := r.RootT("mapper", bf.Params[1].Type())
				r.effects = nil
				r.eval(bf, []*Term{b, mapper})
				pos := c.p.pos(bf)
				enough := True
				for p, i := range perm {
					if i != 0 && p >= nargs {
						enough = False
					}
				}
				var call *Effect
				n := 0
				for _, e := range r.effects {
					if e.Kind == "dyn" && e.Raw[0] == mapper {
						call = e
						n++
					}
				}
				if enough == False {
					c.ok(n == 0 || r.sat(call.Guard) == False, "context: "+what+": refused", pos, "the mapper is called although there are too few arguments")
					c.ok(r.never(r.ret, r.Eq(r.res[1], r.nilT)), "context: "+what+": error", pos, "there are too few arguments, but no error")
					r.equal("context: "+what+": route", pos, r.out(0), route, r.ret, "the route of a failed builder")
					return
				}
				if !c.ok(n == 1, "context: "+what+": mapper", pos, "the mapper is called %d times", n) {
					return
				}
				ok := True
				for _, e := range r.effects {
					if er := errOf(e); er != nil && e.Seq < call.Seq {
						ok = r.And(ok, r.Eq(er, r.nilT))
					}
				}
				c.ok(r.must(ok, call.Guard) && r.must(call.Guard, ok), "context: "+what+": condition", pos, "the mapper is called if %s, not if every step succeeded", trunc(r.ShowG(call.Guard), 300))
				r.equal("context: "+what+": mapper route", pos, call.Args[1], route, call.Guard, "the route that is given to the mapper")
				xs, isList := r.listOf(call.Args[2])
				if !c.ok(isList && len(xs) == len(perm), "context: "+what+": results", pos, "the results are %s", trunc(r.Show(call.Args[2]), 300)) {
					return
				}
				for p, i := range perm {
					x := xs[p]
					about := func(names ...string) bool {
						cur := r.resolve(x, call.St)
						if cur.op == OIface {
							cur = cur.a[0]
						}
						return mentions(cur, func(t *Term) bool { return t == args.a[p] }) && r.derives(cur, names)
					}
					good := false
					switch ops[i] {
					case "Ignored":
						good = x.isNil()
					case "StatusCode":
						good = about("ExtractStatusCode")
					case "Value":
						good = about("ExpressionTraverser).Value", "BaseTraverser).Expression")
					case "ExpressionResult":
						good = about("TypeTraverser).Result", "BaseTraverser).Type", "ExpressionTraverser).Type", "BaseTraverser).Expression")
					}
					for q, a := range args.a {
						if q != p && mentions(x, func(t *Term) bool { return t == a }) {
							good = false
						}
					}
					c.ok(good, "context: "+what+": "+ops[i], pos, "result %d is %s", p, trunc(r.Show(x), 300))
				}
				// Errors come back with the original route, success with the one of the mapper.
				er := errOf(call)
				done := r.And(call.Guard, r.Eq(er, r.nilT))
				r.equal("context: "+what+": success", pos, r.out(0), call.Result.a[0], r.And(r.ret, done), "the route of a successful builder")
				r.equal("context: "+what+": failure", pos, r.out(0), route, r.And(r.ret, r.Not(done)), "the route of a failed builder")
				isNil := r.Eq(r.res[1], r.nilT)
				c.ok(r.must(r.ret, r.iff(isNil, done)), "context: "+what+": reported", pos, "an error is returned if %s", trunc(r.ShowG(r.Not(isNil)), 300))
			})
		}
	}
}

func (r *Run) iff(a, b BDD) BDD { return r.Or(r.And(a, b), r.And(r.Not(a), r.Not(b))) }

// derives: a value comes from calls of the given functions.
func (r *Run) derives(t *Term, names []string) bool {
	for _, n := range names {
		if !mentions(t, func(x *Term) bool { return x.op == OCall && strings.HasSuffix(x.s, n) }) {
			return false
		}
	}
	return true
}

func init() {
	register(&Rule{ID: "P34", Min: 300,
		What: "every option and builder method, applied to an arbitrary service or configuration: the settings it is named after have exactly the given value afterwards, every other exported setting is unchanged, lists grow by exactly one entry; options are applied in order and last; the operations of the context function builder yield the analysis of the argument at their own position, and too few arguments are an error",
		Run:  func(c *Ctx) { c.optionRule() }})
}
