package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about the stages of the service.

// service is an arbitrary service.
func (r *Run) service() *Term { return r.RootT("s", ptrTo(r.c.typ("", "Service"))) }

// serviceWith is a service of which some fields are given.
func (r *Run) serviceWith(kv ...any) *Term {
	s := r.service()
	v := r.content(r.st, s)
	for i := 0; i+1 < len(kv); i += 2 {
		v = r.With(v, kv[i].(string), kv[i+1].(*Term))
	}
	r.st.m[s] = v
	return s
}

// elems is a list of n arbitrary elements.
func (r *Run) elems(name string, n int, t types.Type) *Term {
	var xs []*Term
	for i := 0; i < n; i++ {
		xs = append(xs, r.RootT(fmt.Sprintf("%s%d", name, i), t))
	}
	l := r.List(xs...)
	l.ty = types.NewSlice(t)
	return l
}

// argsFor makes arbitrary arguments for a function.
func (r *Run) argsFor(f *ssa.Function) []*Term {
	var args []*Term
	for i, p := range f.Params {
		n := fmt.Sprintf("arg%d", i)
		if types.Identical(p.Type(), ptrTo(r.c.typ("", "Service"))) {
			args = append(args, r.service())
			continue
		}
		args = append(args, r.RootT(n, p.Type()))
	}
	return args
}

// errorRule requires that an error of a step makes the entry point return an error (or exit with a failure).
func (r *Run) errorRule(what string, except func(e *Effect) string) int {
	n := 0
	for _, e := range r.effects {
		if e.Kind == "panic" || e.Kind == "exit" || e.Kind == "store" {
			continue
		}
		if e.Name == "net/url.PathUnescape" {
			continue // whether a text is escaped, not a step of the generation
		}
		er := errOf(e)
		if er == nil {
			continue
		}
		key := "error: " + what + ": " + e.Name
		if except != nil {
			if why := except(e); why != "" {
				continue
			}
		}
		k := r.And(e.Guard, r.Not(r.Eq(er, r.nilT)))
		if r.sat(k) == False {
			continue
		}
		n++
		cond, within, ok := r.chainUp(k, e.Loops)
		if !ok {
			r.c.fail(key, r.where(e), "an error of %s does not end the loop around it (%s)", e.Name, stackNames(e))
			continue
		}
		k2 := r.And(cond, within)
		// It may exit instead.
		bad := r.And(r.ret, k2)
		if len(r.res) > 0 {
			bad = r.And(bad, r.Eq(r.res[len(r.res)-1], r.nilT))
		}
		r.c.ok(r.sat(bad) == False, key, r.where(e), "an error of %s does not reach the caller: success is reported if %s (%s)", e.Name, trunc(r.ShowG(bad), 800), stackNames(e))
	}
	return n
}

// bestEffort are the steps of which errors are not passed on, and why.
func bestEffort(e *Effect) string {
	switch e.Name {
	case "os.Stat", "os.Lstat":
		return "only asks whether there is a file"
	case "(*os.File).Close":
		return "closing comes after the error of the write was checked"
	}
	for _, f := range e.Stack {
		if fnName(f) == "(*~.Service).Teardown" {
			return "the outputs are already written when the temporary files are removed"
		}
	}
	return ""
}

// noErr is: every fallible step before seq succeeded.
func (r *Run) noErr(before int, but func(e *Effect) bool) BDD {
	g := True
	for _, e := range r.effects {
		if e.Seq >= before || e.Kind == "panic" || e.Kind == "exit" {
			continue
		}
		if er := errOf(e); er != nil && !but(e) {
			g = r.And(g, r.Eq(er, r.nilT))
		}
	}
	return g
}

// sequence requires that the effects that sel names happen exactly in the given order, each exactly if base holds and the
// ones before it succeeded.
func (r *Run) sequence(key string, base BDD, sel func(e *Effect) string, want []string) []*Effect {
	var got []*Effect
	var names []string
	for _, e := range r.effects {
		if n := sel(e); n != "" {
			got = append(got, e)
			names = append(names, n)
		}
	}
	if !r.c.ok(strings.Join(names, ", ") == strings.Join(want, ", "), "sequence: "+key, r.pos(r.fn.Pos()), "the steps are [%s], not [%s]", strings.Join(names, ", "), strings.Join(want, ", ")) {
		return nil
	}
	g := base
	for i, e := range got {
		r.c.ok(r.must(e.Guard, base), "condition: "+key+": "+want[i], r.where(e), "%s happens where it should not: if %s", want[i], trunc(r.ShowG(r.And(e.Guard, r.Not(base))), 400))
		r.c.ok(r.must(e.Guard, g), "order: "+key+": "+want[i], r.where(e), "%s happens although a step before it failed: if %s", want[i], trunc(r.ShowG(r.And(e.Guard, r.Not(g))), 400))
		ok := r.And(g, r.noErr(e.Seq, func(x *Effect) bool { return bestEffort(x) != "" }))
		r.c.ok(r.must(ok, e.Guard), "always: "+key+": "+want[i], r.where(e), "%s is skipped although nothing failed: if %s", want[i], trunc(r.ShowG(r.And(ok, r.Not(e.Guard))), 400))
		if er := errOf(e); er != nil {
			g = r.And(g, r.Eq(er, r.nilT))
		}
	}
	return got
}

var stages = []string{"Setup", "CreateRoutes", "ParseRoutes", "Clean", "Generate", "Teardown"}

func svcMethod(n string) string { return "(*~.Service)." + n }

// cliCommands are the functions that the commands of the CLI run.
func (c *Ctx) cliCommands() []*ssa.Function {
	pk := c.p.pkg("cli/astra/cmd")
	if pk == nil {
		stop("there is no package cli/astra/cmd")
	}
	var out []*ssa.Function
	for _, f := range c.p.funcsOf(pk) {
		sg := f.Signature
		if sg.Recv() == nil && sg.Params().Len() == 2 && strings.HasSuffix(sg.Params().At(0).Type().String(), "cobra.Command") && sg.Params().At(1).Type().String() == "[]string" {
			out = append(out, f)
		}
	}
	if len(out) == 0 {
		stop("the CLI has no commands")
	}
	return out
}

// outputFns are the functions that make the generators of the outputs.
var outputFns = []string{"outputs/json", "outputs/openapi", "outputs/azureFunctions"}

// generate analyses the generation of an output.
func (r *Run) generate(rel string, arg *Term, s *Term) {
	for _, n := range []string{"(*~.Service).GetTypeMapping", "~.IsAcceptedType", "~.ContentTypeToBindingTag", "~.BindingTagToContentTypes"} {
		r.opaque[n] = true
	}
	r.eval(r.c.fn(rel, "Generate"), []*Term{arg})
	f := r.out(0)
	r.effects = nil
	r.applyTerm(f, s)
}

// outputRuns analyses the generation of every output for an arbitrary path, once for arbitrary routes and once for arbitrary components.
func (c *Ctx) outputRuns(f func(r *Run, what string, s, path *Term)) {
	for _, rel := range outputFns {
		for _, part := range []string{"Routes", "Components"} {
			if rel != "outputs/openapi" && part == "Components" {
				continue
			}
			c.scenario(rel, func() {
				r := c.begin(nil)
				s := r.service()
				what := rel
				if rel == "outputs/openapi" {
					what += " " + part
					if part == "Routes" {
						s = r.serviceWith("Components", r.List())
					} else {
						s = r.serviceWith("Routes", r.List(), "Components", r.list(c.field(), r.anyComponent("component")))
					}
				}
				path := r.RootT("path", types.Typ[types.String])
				r.generate(rel, path, s)
				f(r, what, s, path)
			})
		}
	}
}

func (r *Run) opaqueSvc(names ...string) {
	for _, n := range names {
		r.opaque[svcMethod(n)] = true
	}
}

func init() {
	register(&Rule{ID: "P01", Min: 80,
		What: "for every call that can fail, in the context of every entry point: if its error is not nil, the loops around it are left and the entry point returns a non-nil error (the CLI: exits with a non-zero status), on every path",
		Run: func(c *Ctx) {
			for _, m := range []string{"Setup", "CreateRoutes", "ParseRoutes", "Clean", "Generate", "SetupParse", "CompleteParse", "Parse", "Cache", "LoadCache", "ClearCache", "LoadCacheFromCustomPath", "SetupTempOutputDir", "MoveTempOutputDir", "GetMainPackageName"} {
				c.scenario(m, func() {
					r := c.begin(nil)
					f := c.method("", "Service", m)
					r.eval(f, r.argsFor(f))
					n := r.errorRule("Service."+m, bestEffort)
					c.ok(n > 0, "steps: "+m, c.p.pos(f), "no step of %s can fail", m)
				})
			}
			c.outputRuns(func(r *Run, what string, s, path *Term) {
				n := r.errorRule(what, bestEffort)
				c.ok(n > 0, "steps: "+what, "", "no step of %s can fail", what)
			})
			c.scenario("gin.CreateRoutes", func() {
				r := c.begin(nil)
				f := c.fn("inputs/gin", "CreateRoutes")
				r.eval(f, r.argsFor(f))
				r.applyTerm(r.out(0), r.service())
				n := r.errorRule("gin.CreateRoutes", bestEffort)
				c.ok(n > 0, "steps: gin.CreateRoutes", "", "no step can fail")
			})
			c.scenario("gin.ParseRoutes", func() {
				r := c.begin(nil)
				r.opaque["go/ast.Inspect"] = true
				r.opaqueSvc("GetMainPackageName")
				r.opaque["(*~/astTraversal.PackageManager).Get"] = true
				f := c.fn("inputs/gin", "ParseRoutes")
				r.eval(f, nil)
				r.applyTerm(r.out(0), r.service())
				n := r.errorRule("gin.ParseRoutes", func(e *Effect) string {
					if e.Name == svcMethod("GetMainPackageName") {
						return "called by the package manager"
					}
					return bestEffort(e)
				})
				c.ok(n > 0, "steps: gin.ParseRoutes", "", "no step can fail")
			})
			for _, f := range c.cliCommands() {
				c.scenario("CLI", func() {
					r := c.begin(nil)
					r.opaqueSvc("LoadCacheFromCustomPath", "CompleteParse")
					r.eval(f, []*Term{r.RootT("cmd", f.Params[0].Type()), r.RootT("args", f.Params[1].Type())})
					r.errorRule("CLI", bestEffort)
					r.exitRule("CLI")
				})
			}
			c.scenario("main", func() {
				r := c.begin(nil)
				f := c.fn("cli/astra", "main")
				r.eval(f, nil)
				n := r.errorRule("main", bestEffort)
				r.exitRule("main")
				c.ok(n > 0, "steps: main", "", "main does not run a command that can fail")
			})
			// Config
			c.scenario("Config", func() {
				r := c.begin(nil)
				f := c.method("", "ConfigBuilder", "Build")
				r.eval(f, []*Term{r.RootT("c", f.Params[0].Type())})
				bad := r.And(r.ret, r.And(r.Eq(r.out(1), r.nilT), r.Eq(r.Sel(r.Sel(r.RootT("c", nil), "config", nil), "Port", nil), r.Int(0))))
				c.ok(r.sat(bad) == False, "error: ConfigBuilder.Build without a port", c.p.pos(f), "a configuration without a port is accepted")
			})
		}})

	register(&Rule{ID: "P02", Min: 60,
		What: "the effects of the entry points, in order, are exactly the stages, each under exactly the condition that there are inputs and outputs and every earlier stage succeeded; every stage calls the function of every input or output once, in order, with the service",
		Run: func(c *Ctx) {
			isStage := func(e *Effect) string {
				for _, m := range append(stages, "SetupParse", "CompleteParse") {
					if e.Name == svcMethod(m) {
						return m
					}
				}
				if e.Kind == "pure" {
					return ""
				}
				return e.Name
			}
			for m, want := range map[string][]string{"Parse": stages, "SetupParse": stages[:2], "CompleteParse": stages[2:]} {
				c.scenario(m, func() {
					r := c.begin(nil)
					r.opaqueSvc(stages...)
					s := r.service()
					in := r.Empty(r.Sel(s, "Inputs", nil))
					out := r.Empty(r.Sel(s, "Outputs", nil))
					r.eval(c.method("", "Service", m), []*Term{s})
					base := r.And(r.Not(in), r.Not(out))
					es := r.sequence(m, base, isStage, want)
					for i, e := range es {
						c.ok(len(e.Args) > 0 && r.baseIs(e.Raw[0], s), "service: "+m+": "+want[i], r.where(e), "%s is called on another service", want[i])
					}
					bad := r.And(r.ret, r.And(r.Not(base), r.Eq(r.res[0], r.nilT)))
					c.ok(r.sat(bad) == False, "refuses: "+m, c.p.pos(r.fn), "%s reports success without inputs or outputs", m)
					good := r.And(base, r.noErr(1<<30, func(e *Effect) bool { return false }))
					c.ok(r.must(r.And(good, r.ret), r.Eq(r.res[0], r.nilT)), "succeeds: "+m, c.p.pos(r.fn), "%s fails although every stage succeeded", m)
				})
			}
			for _, st := range []struct{ m, list, fn, typ string }{{"CreateRoutes", "Inputs", "CreateRoutes", "Input"}, {"ParseRoutes", "Inputs", "ParseRoutes", "Input"}, {"Generate", "Outputs", "Generate", "Output"}} {
				c.scenario(st.m, func() {
					r := c.begin(nil)
					r.opaqueSvc("Cache")
					l := r.elems("io", 3, c.typ("", st.typ))
					s := r.serviceWith(st.list, l)
					r.eval(c.method("", "Service", st.m), []*Term{s})
					var want []string
					for i := range l.a {
						want = append(want, fmt.Sprintf("io%d.%s", i, st.fn))
					}
					es := r.sequence(st.m, True, func(e *Effect) string {
						if e.Kind == "dyn" {
							return r.Show(e.Raw[0])
						}
						if e.Name == svcMethod("Cache") || e.Kind == "pure" {
							return ""
						}
						return e.Name
					}, want)
					for i, e := range es {
						c.ok(len(e.Raw) == 2 && e.Raw[1] == s, "service: "+st.m, r.where(e), "%s is not called with the service", want[i])
					}
				})
				// For a list of any length: the loop goes on unless a step fails.
				c.scenario(st.m+" loop", func() {
					r := c.begin(nil)
					r.opaqueSvc("Cache")
					s := r.service()
					r.eval(c.method("", "Service", st.m), []*Term{s})
					n := 0
					for _, e := range r.effects {
						if e.Kind != "dyn" || len(e.Loops) == 0 {
							continue
						}
						l := e.Loops[len(e.Loops)-1]
						n++
						c.ok(l.domain != nil && l.domain == r.Sel(s, st.list, nil), "loop: "+st.m, r.where(e), "the loop does not go over all of the %s: %s", st.list, r.Show(l.domain))
						g := r.And(l.entry, l.cond)
						c.ok(r.must(g, e.Guard), "loop: "+st.m+" every element", r.where(e), "some of the %s are skipped: unless %s", st.list, r.ShowG(e.Guard))
						ok := r.Eq(errOf(e), r.nilT)
						for k, x := range l.exits {
							if strings.HasPrefix(k, "exit ") {
								c.ok(r.never(r.And(g, ok), x), "loop: "+st.m+" goes on", r.where(e), "the loop ends early although nothing failed: if %s", r.ShowG(x))
							}
						}
					}
					c.ok(n > 0, "loop: "+st.m+" exists", "", "no loop over the %s calls their functions", st.list)
				})
			}
		}})

	register(&Rule{ID: "P03", Min: 15,
		What: "in every stage, exactly one call saves the cache, after every other effect, with the service as the stage leaves it, under exactly the condition that caching is enabled and the stage succeeded",
		Run: func(c *Ctx) {
			for _, m := range []string{"Setup", "CreateRoutes", "ParseRoutes", "Clean", "Generate"} {
				c.scenario(m, func() {
					r := c.begin(nil)
					r.opaqueSvc("Cache", "GetMainPackageName")
					s := r.serviceWith("Inputs", r.elems("in", 1, c.typ("", "Input")), "Outputs", r.elems("out", 1, c.typ("", "Output")))
					f := c.method("", "Service", m)
					r.eval(f, []*Term{s})
					var es []*Effect
					last := -1
					for _, e := range r.effects {
						if e.Name == svcMethod("Cache") {
							es = append(es, e)
						} else if e.Kind != "pure" && e.Seq > last {
							last = e.Seq
						}
					}
					if !c.ok(len(es) == 1, "saved: "+m, c.p.pos(f), "the cache is saved by %d calls in %s", len(es), m) {
						return
					}
					e := es[0]
					en := r.ToBDD(r.Sel(s, "CacheEnabled", nil))
					c.ok(r.must(e.Guard, en), "enabled: "+m, r.where(e), "the cache is saved although caching is not enabled")
					ok := r.noErr(e.Seq, func(x *Effect) bool { return bestEffort(x) != "" })
					c.ok(r.must(r.And(en, ok), e.Guard), "always: "+m, r.where(e), "the cache is not saved after %s if %s", m, trunc(r.ShowG(r.And(r.And(en, ok), r.Not(e.Guard))), 400))
					c.ok(len(e.Loops) == 0, "once: "+m, r.where(e), "the cache is saved in a loop")
					c.ok(e.Seq > last, "after: "+m, r.where(e), "the cache is saved before %s is complete", m)
					c.ok(e.Raw[0] == s, "service: "+m, r.where(e), "another service is saved")
					// Nothing changes after it.
					a, b := r.resolve(r.content(e.St, s), e.St), r.resolve(r.content(r.st, s), r.st)
					done := r.And(e.Guard, r.And(r.ret, ok))
					c.ok(r.same(a, b, done), "complete: "+m, r.where(e), "the service changes after it was saved: %s, not %s", r.Show(r.Simp(b, done)), r.Show(r.Simp(a, done)))
				})
			}
		}})

	register(&Rule{ID: "P06", Min: 10,
		What: "in Teardown, the working files are removed under exactly the conditions of the policy, only paths below them are removed, and the result is success",
		Run: func(c *Ctx) {
			c.scenario("Teardown", func() {
				r := c.begin(nil)
				s := r.service()
				f := c.method("", "Service", "Teardown")
				r.eval(f, []*Term{s})
				dir := r.pathJoin([]*Term{r.Sel(s, "WorkDir", nil), r.Str(".astra")})
				own := r.And(r.Not(r.ToBDD(r.Sel(s, "CacheEnabled", nil))), r.Eq(r.Sel(s, "CLIMode", nil), r.Str("")))
				removed := False
				main := False
				for _, e := range r.effects {
					if !fsMutator(e.Name) {
						continue
					}
					if e.Name == "os.RemoveAll" && len(e.Args) == 1 {
						switch {
						case e.Args[0] == dir:
							c.ok(r.must(e.Guard, own), "policy: keeps the cache", r.where(e), "the working files are removed although a cache or the CLI still needs them: if %s", r.ShowG(e.Guard))
							removed = r.Or(removed, e.Guard)
							continue
						case r.under(e.Args[0], dir) != "":
							c.ok(!strings.Contains(r.Show(e.Args[0]), "cache"), "policy: keeps the cache file", r.where(e), "Teardown removes %s", r.Show(e.Args[0]))
							main = r.Or(main, r.statGuard(e))
							continue
						}
					}
					c.fail("policy: "+e.Name, r.where(e), "Teardown changes %s with %s", r.Show(e.Args[0]), e.Name)
				}
				c.ok(r.must(own, removed), "policy: removes the working files", c.p.pos(f), "the working files stay behind unless %s", r.ShowG(removed))
				c.ok(main != False && r.must(r.And(r.Not(own), True), r.Or(main, removed)), "policy: removes the temporary main package", c.p.pos(f), "the temporary main package stays behind unless %s", r.ShowG(main))
				c.ok(r.must(r.ret, r.Eq(r.res[0], r.nilT)) && r.ret == True, "policy: succeeds", c.p.pos(f), "Teardown fails after the outputs were written")
			})
			// The path of the temporary main package is the one that was created.
			c.scenario("same main package", func() {
				r := c.begin(nil)
				s := r.service()
				r.eval(c.method("", "Service", "GetMainPackageName"), []*Term{s})
				made := map[*Term]bool{}
				for _, e := range r.effects {
					if e.Name == "os.Mkdir" || e.Name == "os.MkdirAll" {
						made[e.Args[0]] = true
					}
				}
				r.effects = nil
				r.eval(c.method("", "Service", "Teardown"), []*Term{s})
				n := 0
				dir := r.pathJoin([]*Term{r.Sel(s, "WorkDir", nil), r.Str(".astra")})
				for _, e := range r.effects {
					if e.Name == "os.RemoveAll" && e.Args[0] != dir {
						n++
						c.ok(made[e.Args[0]], "policy: the same temporary main package", r.where(e), "%s is removed but was not created", r.Show(e.Args[0]))
					}
				}
				c.ok(n > 0, "policy: a temporary main package", "", "the temporary main package is not removed")
			})
			c.scenario("modes", func() {
				for opt, want := range map[string][2]string{"WithCLI": {"setup", "true"}, "WithCLIBuilder": {"builder", ""}} {
					r := c.begin(nil)
					s := r.service()
					f := c.fn("cli", opt)
					r.eval(f, nil)
					r.applyTerm(r.out(0), s)
					m, _ := r.at(s, "CLIMode").str()
					c.ok(m == want[0], "mode: "+opt, c.p.pos(f), "%s sets the mode to %q", opt, m)
					en := r.at(s, "CacheEnabled")
					if want[1] == "true" {
						c.ok(en == r.trueT, "mode: "+opt+" cache", c.p.pos(f), "%s does not enable the cache", opt)
					} else {
						c.ok(en == r.Sel(s, "CacheEnabled", nil) || en == r.trueT, "mode: "+opt+" cache", c.p.pos(f), "%s disables the cache", opt)
					}
				}
			})
		}})
}

// statGuard is the condition of an effect apart from whether there was a file.
func (r *Run) statGuard(e *Effect) BDD {
	g := e.Guard
	return r.Exists(g, func(v int) bool {
		return !mentions(r.atoms[v], func(t *Term) bool { return t.op == OCall && t.s == "os.Stat" })
	})
}

// exitRule requires that the program only exits with a failure, when a step failed.
func (r *Run) exitRule(what string) {
	for _, e := range r.effects {
		if e.Kind != "exit" {
			continue
		}
		if e.Name == "os.Exit" && len(e.Args) == 1 {
			n, known := e.Args[0].int()
			c := r.c
			if known && n == 0 {
				ok := true
				for _, x := range r.effects {
					if er := errOf(x); er != nil && bestEffort(x) == "" && !r.never(e.Guard, r.Not(r.Eq(er, r.nilT))) {
						ok = false
					}
				}
				c.ok(ok, "exit: "+what, r.where(e), "the program exits with status 0 after a step failed")
			} else {
				c.ok(known, "exit: "+what, r.where(e), "the exit status %s is not known", r.Show(e.Args[0]))
			}
		}
	}
}

// baseIs: t is s, or the value s points to with changes.
func (r *Run) baseIs(t, s *Term) bool {
	for t.op == OStruct || t.op == OIface {
		t = t.a[0]
	}
	return t == s
}

func (p *Program) pos(f *ssa.Function) string {
	if f == nil || !f.Pos().IsValid() {
		return ""
	}
	pp := p.Prog.Fset.Position(f.Pos())
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(pp.Filename, p.Root+"/"), pp.Line)
}

func (p *Program) posAt(at token.Pos) string {
	if !at.IsValid() {
		return ""
	}
	pp := p.Prog.Fset.Position(at)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(pp.Filename, p.Root+"/"), pp.Line)
}
