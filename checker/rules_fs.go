package main

import (
	"fmt"
	"go/types"
	"path"
	"strings"
)

// Rules about files.

var fsReaders = map[string]bool{
	"os.Stat": true, "os.Lstat": true, "os.Open": true, "os.ReadFile": true, "os.ReadDir": true, "os.Getwd": true, "os.Getenv": true, "os.LookupEnv": true,
	"os.Environ": true, "os.Executable": true, "os.Getpid": true, "os.UserHomeDir": true, "os.TempDir": true, "os.Exit": true, "os.IsNotExist": true, "os.IsExist": true, "os.DirFS": true,
	"io/ioutil.ReadFile": true, "io/ioutil.ReadDir": true, "os.Hostname": true, "os.Getuid": true, "os.Readlink": true, "os.SameFile": true,
}

// fsMutator reports whether a function changes the file system (or the process, as far as other functions see it).
func fsMutator(name string) bool {
	p := pkgOf(name)
	if p == "os/exec" || p == "syscall" || p == "golang.org/x/sys/unix" {
		return true
	}
	if p == "io/ioutil" {
		return !fsReaders[name]
	}
	return p == "os" && !strings.HasPrefix(name, "(") && !fsReaders[name]
}

// under: p is a path below dir, for every value of its parts. It returns what is below, or "".
func (r *Run) under(p, dir *Term) string {
	dp := []*Term{dir}
	if dir.op == OCall && dir.s == "path.Join" {
		dp = dir.a
	}
	if p.op != OCall || p.s != "path.Join" {
		return ""
	}
	pp := p.a
	// The last constant of dir may continue in p.
	if len(pp) < len(dp) {
		return ""
	}
	for i, d := range dp {
		if pp[i] == d {
			continue
		}
		ds, ok1 := d.str()
		ps, ok2 := pp[i].str()
		if i == len(dp)-1 && ok1 && ok2 && strings.HasPrefix(ps, ds+"/") && !strings.Contains(ps, "..") {
			rest := strings.TrimPrefix(ps, ds+"/")
			if !r.safeParts(pp[i+1:]) {
				return ""
			}
			return rest
		}
		return ""
	}
	if len(pp) == len(dp) || !r.safeParts(pp[len(dp):]) {
		return ""
	}
	return r.Show(p)
}

// safeParts: the parts of a path don't go up.
func (r *Run) safeParts(ts []*Term) bool {
	for _, t := range ts {
		if !r.safePart(t) {
			return false
		}
	}
	return true
}

func (r *Run) safePart(t *Term) bool {
	if s, ok := t.str(); ok {
		for _, x := range strings.Split(s, "/") {
			if x == ".." {
				return false
			}
		}
		return true
	}
	switch t.op {
	case OCall:
		return strings.HasSuffix(t.s, "DirEntry).Name") || strings.HasSuffix(t.s, "FileInfo).Name") || t.s == "path.Base"
	case OElem:
		// A part between dots can't be "..".
		if t.a[0].op == OCall && t.a[0].s == "strings.Split" {
			if sep, ok := t.a[0].a[1].str(); ok && (sep == "." || sep == "/" && false) {
				return true
			}
		}
	case OGamma:
		return r.safeParts(t.a)
	}
	return false
}

// alternatives are the values a term may have, with their conditions.
func (r *Run) alternatives(t *Term, g BDD, f func(t *Term, g BDD)) {
	t = r.Simp(t, g)
	if t.op == OGamma {
		for i := range t.a {
			gi := r.And(g, t.g[i])
			if r.sat(gi) == False {
				continue
			}
			r.alternatives(t.a[i], gi, f)
		}
		return
	}
	f(t, g)
}

// confine requires that every change of the file system is at a path that is meant for it.
func (r *Run) confine(what string, allowed func(t *Term, e *Effect, g BDD) string) int {
	n := 0
	for _, e := range r.effects {
		if e.Kind == "pure" || !fsMutator(e.Name) {
			continue
		}
		n++
		key := "confined: " + what + ": " + e.Name
		if len(e.Args) == 0 {
			r.c.fail(key, r.where(e), "%s is not confined", e.Name)
			continue
		}
		k := 1
		if e.Name == "os.Rename" || e.Name == "os.Link" || e.Name == "os.Symlink" {
			k = 2
		}
		if strings.HasPrefix(pkgOf(e.Name), "os/exec") || pkgOf(e.Name) == "syscall" || e.Name == "os.Chdir" || e.Name == "os.Setenv" || e.Name == "os.Unsetenv" {
			r.c.fail(key, r.where(e), "%s changes the process or runs another program", e.Name)
			continue
		}
		for i := 0; i < k && i < len(e.Args); i++ {
			r.alternatives(e.Args[i], e.Guard, func(t *Term, g BDD) {
				why := allowed(t, e, g)
				r.c.ok(why != "", key+": "+r.pathShape(t), r.where(e), "%s changes %s, which is neither a working file nor a configured output or cache file (%s)", e.Name, r.Show(t), stackNames(e))
			})
		}
	}
	return n
}

func (r *Run) pathShape(t *Term) string {
	s := r.Show(t)
	if len(s) > 80 {
		s = s[:80]
	}
	return s
}

// cachePathOf are the paths at which the cache may be.
func (r *Run) isCachePath(s, t *Term) bool {
	return t == r.Sel(s, "CachePath", nil)
}

func (r *Run) joinWD(s *Term, more ...*Term) *Term {
	return r.pathJoin(append([]*Term{r.Sel(s, "WorkDir", nil)}, more...))
}

func init() {
	register(&Rule{ID: "P07", Min: 30,
		What:   "the path argument of every call that changes the file system, in the context of every entry point, is the cache path, the path of an output or below the directory of working files; a directory is only replaced under the condition that it is not above the working files",
		Assume: []string{"the name of a directory entry has no separators"},
		Run: func(c *Ctx) {
			for _, m := range []string{"Setup", "CreateRoutes", "ParseRoutes", "Clean", "Generate", "Parse", "SetupParse", "CompleteParse", "Cache", "LoadCache", "ClearCache", "LoadCacheFromCustomPath", "Teardown", "GetMainPackageName"} {
				c.scenario(m, func() {
					r := c.begin(nil)
					// The working directory is known before, as Setup sets it.
					f := c.method("", "Service", m)
					s := r.service()
					r.eval(f, r.argsFor(f))
					var wd []*Term
					wd = append(wd, r.Sel(s, "WorkDir", nil))
					for _, e := range r.effects {
						if e.Name == "os.Getwd" && e.Result != nil && e.Result.op == OTuple {
							wd = append(wd, e.Result.a[0])
						}
					}
					r.confine(m, func(t *Term, e *Effect, g BDD) string {
						if r.isCachePath(s, t) {
							return "cache path"
						}
						for _, w := range wd {
							dir := r.pathJoin([]*Term{w, r.Str(".astra")})
							if t == dir || r.under(t, dir) != "" {
								return "working file"
							}
						}
						return ""
					})
				})
			}
			c.outputRuns(func(r *Run, what string, s, arg *Term) {
				dir := r.joinWD(s, r.Str(".astra"))
				n := r.confine(what, func(t *Term, e *Effect, g BDD) string {
					if r.under(t, dir) != "" {
						return "working file"
					}
					// The output file.
					if t.op == OCall && t.s == "path.Join" && len(t.a) == 2 && t.a[0] == r.Sel(s, "WorkDir", nil) {
						x := t.a[1]
						if x == arg || x.op == OConcat && len(x.a) == 2 && x.a[0] == arg && x.a[1].isConst() {
							if e.Name == "os.WriteFile" || e.Name == "os.Create" {
								return "output file"
							}
							if (e.Name == "os.RemoveAll" || e.Name == "os.Rename") && r.notAbove(g, t, dir) {
								return "output directory"
							}
						}
					}
					return ""
				})
				c.ok(n > 0, "confined: "+what+" writes", "", "%s writes nothing", what)
			})
			c.scenario("gin", func() {
				r := c.begin(nil)
				f := c.fn("inputs/gin", "CreateRoutes")
				r.eval(f, r.argsFor(f))
				r.applyTerm(r.out(0), r.service())
				r.confine("gin.CreateRoutes", func(t *Term, e *Effect, g BDD) string { return "" })
				c.ok(len(r.effects) > 0, "confined: gin", "", "nothing was analysed")
			})
			for _, f := range c.cliCommands() {
				c.scenario("CLI", func() {
					r := c.begin(nil)
					r.opaqueSvc("LoadCacheFromCustomPath", "CompleteParse")
					r.eval(f, []*Term{r.RootT("cmd", f.Params[0].Type()), r.RootT("args", f.Params[1].Type())})
					r.confine("CLI", func(t *Term, e *Effect, g BDD) string { return "" })
					c.ok(len(r.effects) > 0, "confined: CLI", "", "nothing was analysed")
				})
			}
			// No function of the repository uses others than those.
			used := map[string]string{}
			for _, pk := range c.p.Pkgs {
				for _, f := range c.p.funcsOf(c.p.Prog.Package(pk.Types)) {
					for _, n := range calleesOf(f) {
						if fsMutator(n) && n != "os.init" {
							used[n] = fnName(f)
						}
					}
				}
			}
			for n, f := range used {
				seen := c.kindsHas("confined", n)
				c.ok(seen, "reached: "+n, "", "%s uses %s where no entry point that was analysed leads", f, n)
			}
		}})

	register(&Rule{ID: "P08", Min: 25,
		What: "for every output: the path and the bytes that are written, as a function of the configured path and its extension; generating twice gives the same path",
		Run: func(c *Ctx) {
			str := types.Typ[types.String]
			type sc struct {
				rel, suffix string
				want, enc   string
			}
			scs := []sc{
				{"outputs/json", ".json", "", "encoding/json.MarshalIndent"}, {"outputs/json", "", ".json", "encoding/json.MarshalIndent"},
				{"outputs/json", ".yaml", ".json", "encoding/json.MarshalIndent"},
				{"outputs/openapi", ".json", "", "encoding/json.MarshalIndent"}, {"outputs/openapi", ".yaml", "", "gopkg.in/yaml.v3.Marshal"},
				{"outputs/openapi", ".yml", "", "gopkg.in/yaml.v3.Marshal"}, {"outputs/openapi", "", ".json", "encoding/json.MarshalIndent"},
				{"outputs/openapi", ".txt", ".json", "encoding/json.MarshalIndent"},
			}
			for _, x := range scs {
				name := x.rel + " *" + x.suffix
				c.scenario(name, func() {
					r := c.begin(nil)
					arg := r.RootT("path", str)
					r.fact = suffixFact(r, arg, x.suffix)
					s := r.serviceWith("Routes", r.List(), "Components", r.List())
					f := c.fn(x.rel, "Generate")
					r.eval(f, []*Term{arg})
					gen := r.out(0)
					var prev *Term
					for round := 1; round <= 2; round++ {
						r.effects = nil
						r.applyTerm(gen, s)
						var ws []*Effect
						for _, e := range r.effects {
							if fsMutator(e.Name) {
								ws = append(ws, e)
							}
						}
						if !c.ok(len(ws) == 1 && ws[0].Name == "os.WriteFile", "one file: "+name, c.p.pos(f), "the output is not written by one call of os.WriteFile but by %d calls", len(ws)) {
							return
						}
						e := ws[0]
						want := arg
						if x.want != "" {
							want = r.Concat(arg, r.Str(x.want))
						}
						wantP := r.joinWD(s, want)
						c.ok(e.Args[0] == wantP, fmt.Sprintf("path: %s (%d)", name, round), r.where(e), "the output is written to %s, not to %s", r.Show(e.Args[0]), r.Show(wantP))
						if prev != nil {
							c.ok(prev == e.Args[0], "again: "+name, r.where(e), "generating again writes %s, not %s", r.Show(e.Args[0]), r.Show(prev))
						}
						prev = e.Args[0]
						data := e.Args[1]
						enc := ""
						if data.op == ORes && data.n == 0 && data.a[0].op == OCall {
							enc = data.a[0].s
						}
						c.ok(enc == x.enc, "format: "+name, r.where(e), "the output is encoded by %q, not by %q: %s", enc, x.enc, trunc(r.Show(data), 200))
						// Whenever nothing fails, it is written.
						ok := r.noErr(e.Seq, func(x *Effect) bool { return false })
						if x.rel == "outputs/openapi" {
							ok = r.And(ok, r.Not(r.Eq(r.Sel(s, "Config", nil), r.nilT)))
						}
						c.ok(r.must(ok, e.Guard), "written: "+name, r.where(e), "the output is not written if %s", trunc(r.ShowG(r.And(ok, r.Not(e.Guard))), 300))
						c.ok(r.must(r.And(r.ret, r.Eq(r.res[0], r.nilT)), e.Guard), "written before success: "+name, r.where(e), "success is reported although nothing was written")
						perm, _ := e.Args[2].int()
						c.ok(perm&0o400 != 0 && perm&0o200 != 0, "mode: "+name, r.where(e), "the output can't be read or generated again: mode %o", perm)
					}
				})
			}
			c.scenario("outputs/openapi without a configuration", func() {
				r := c.begin(nil)
				s := r.serviceWith("Config", r.nilT)
				r.generate("outputs/openapi", r.RootT("path", str), s)
				c.ok(r.must(r.ret, r.Not(r.Eq(r.res[0], r.nilT))), "refused: openapi without a configuration", c.p.pos(r.fn), "an OpenAPI output without a configuration is not an error")
				for _, e := range r.effects {
					c.ok(!fsMutator(e.Name), "refused: openapi without a configuration writes", r.where(e), "an output is written without a configuration")
				}
			})
			c.scenario("outputs/azureFunctions", func() { c.azureFiles() })
		}})

	register(&Rule{ID: "P09", Min: 3,
		What: "for every file that is opened in the context of every entry point: whenever opening succeeds, a close of it follows on every path to the end of the entry point",
		Run: func(c *Ctx) {
			n := 0
			check := func(r *Run, what string) {
				for _, e := range r.effects {
					switch e.Name {
					case "os.Open", "os.Create", "os.OpenFile", "os.CreateTemp":
					default:
						continue
					}
					n++
					f := e.Result.a[0]
					open := r.And(e.Guard, r.Eq(errOf(e), r.nilT))
					closed := False
					for _, x := range r.effects {
						if x.Name == "(*os.File).Close" && len(x.Raw) == 1 && r.Simp(x.Raw[0], x.Guard) == f && x.Seq > e.Seq && len(x.Loops) <= len(e.Loops) {
							closed = r.Or(closed, x.Guard)
						}
					}
					left := r.And(open, r.Not(closed))
					// The end of the entry point: on paths that return.
					c.ok(r.sat(r.And(left, r.ret)) == False, "closed: "+what+": "+e.Name, r.where(e), "the file %s stays open if %s (%s)", r.Show(e.Args[0]), trunc(r.ShowG(left), 400), stackNames(e))
					// Nothing uses it afterwards.
					for _, x := range r.effects {
						if x.Name == "(*os.File).Close" || x.Kind == "pure" {
							continue
						}
						for _, y := range r.effects {
							if y.Name == "(*os.File).Close" && r.Simp(y.Raw[0], y.Guard) == f && x.Seq > y.Seq && r.uses(x, f) {
								c.ok(r.never(x.Guard, y.Guard), "use after close: "+what+": "+x.Name, r.where(x), "%s is used after it was closed", r.Show(f))
							}
						}
					}
				}
			}
			for _, m := range []string{"Setup", "Parse", "Cache", "LoadCache", "ClearCache", "LoadCacheFromCustomPath", "GetMainPackageName"} {
				c.scenario(m, func() {
					r := c.begin(nil)
					f := c.method("", "Service", m)
					r.eval(f, r.argsFor(f))
					check(r, m)
				})
			}
			c.outputRuns(func(r *Run, what string, s, path *Term) { check(r, what) })
			c.ok(n >= 3, "coverage: files", "", "only %d opened files were found", n)
			used := map[string]string{}
			for _, pk := range c.p.Pkgs {
				for _, f := range c.p.funcsOf(c.p.Prog.Package(pk.Types)) {
					for _, cn := range calleesOf(f) {
						switch cn {
						case "os.Open", "os.Create", "os.OpenFile", "os.CreateTemp":
							used[fnName(f)] = cn
						}
					}
				}
			}
			for f, n := range used {
				c.ok(c.fns[f], "reached: "+f, "", "%s opens a file with %s, but no entry point that was analysed leads there", f, n)
			}
		}})
}

func (r *Run) uses(e *Effect, t *Term) bool {
	for _, a := range e.Raw {
		if a != nil && mentions(a, func(x *Term) bool { return x == t }) {
			return true
		}
	}
	return false
}

// suffixFact assumes that a string ends in ext, and in no other extension that matters.
func suffixFact(r *Run, arg *Term, ext string) func(*Term) *Term {
	return func(t *Term) *Term {
		if t.op == OCall && (t.s == "strings.HasSuffix") && t.a[0] == arg {
			if s, ok := t.a[1].str(); ok {
				return r.Bool(boolBDD(ext != "" && strings.HasSuffix("x"+ext, s)))
			}
		}
		if t.op == OAtomLt && t.a[0] == r.Len(arg) {
			if n, ok := t.a[1].int(); ok && n <= int64(len(ext)) {
				return r.Bool(False)
			}
		}
		if t.op == OCall && t.s == "path.Ext" && t.a[0] == arg {
			return r.Str(ext)
		}
		return nil
	}
}

func boolBDD(b bool) BDD {
	if b {
		return True
	}
	return False
}

// notAbove: the condition g excludes that the directory p is above (or is) the directory of working files.
func (r *Run) notAbove(g BDD, p, dir *Term) bool {
	// The way from p to the working files has to start with "..".
	ok := False
	for i := range r.atoms {
		a := r.atoms[i]
		if a == nil {
			continue
		}
		rel := func(t *Term) bool {
			return mentions(t, func(x *Term) bool {
				return x.op == OCall && x.s == "path/filepath.Rel" && len(x.a) == 2 && x.a[0] == p && (r.under(x.a[1], dir) != "" || x.a[1] == dir)
			})
		}
		switch a.op {
		case OAtomEq:
			for k := 0; k < 2; k++ {
				if s, isS := a.a[k].str(); isS && s == ".." && rel(a.a[1-k]) {
					ok = r.Or(ok, r.Var(i))
				}
			}
		case OAtomVal:
			t := a.a[0]
			if t.op == OCall && t.s == "strings.HasPrefix" && rel(t.a[0]) {
				if s, isS := t.a[1].str(); isS && (s == "../" || s == "..") {
					ok = r.Or(ok, r.Var(i))
				}
			}
		}
	}
	return r.must(g, ok)
}

func (c *Ctx) kindsHas(kind, name string) bool {
	return c.seenNames[kind+" "+name]
}

func (c *Ctx) azureFiles() {
	r := c.begin(nil)
	s := r.serviceWith("Routes", r.elems("route", 2, c.typ("", "Route")))
	arg := r.RootT("path", types.Typ[types.String])
	r.generate("outputs/azureFunctions", arg, s)
	tmp := ""
	wrote := map[string]bool{}
	var tmpT *Term
	seqW := -1
	for _, e := range r.effects {
		if e.Name == "os.Rename" {
			tmpT = e.Args[0]
		}
	}
	if !c.ok(tmpT != nil, "moved: azure", c.p.pos(r.fn), "the generated files are not moved to the configured directory") {
		return
	}
	tmp = r.Show(tmpT)
	for _, e := range r.effects {
		switch e.Name {
		case "os.WriteFile":
			seqW = e.Seq
			ok := false
			for i := 0; i < 2; i++ {
				h := r.Sel(r.RootT(fmt.Sprintf("route%d", i), nil), "Handler", nil)
				if mentions(e.Args[0], func(t *Term) bool { return t == h }) && r.under(e.Args[0], tmpT) != "" {
					if n := e.Args[0].a; len(n) > 0 {
						if b, isS := n[len(n)-1].str(); isS && path.Base(b) == "function.json" {
							ok = true
							wrote[fmt.Sprint(i)] = true
						}
					}
				}
			}
			c.ok(ok, "path: azure function.json", r.where(e), "a binding is written to %s, not to <function>/function.json below %s", r.Show(e.Args[0]), tmp)
			okG := r.noErr(e.Seq, func(x *Effect) bool { return bestEffort(x) != "" })
			c.ok(r.must(okG, e.Guard), "written: azure", r.where(e), "a binding is not written if %s", trunc(r.ShowG(r.And(okG, r.Not(e.Guard))), 300))
			data := e.Args[1]
			c.ok(data.op == ORes && data.a[0].op == OCall && strings.HasPrefix(data.a[0].s, "encoding/json.Marshal"), "format: azure", r.where(e), "a binding is not JSON: %s", trunc(r.Show(data), 200))
		case "os.Rename":
			c.ok(e.Args[1] == r.joinWD(s, arg), "path: azure directory", r.where(e), "the files are moved to %s, not to the configured directory", r.Show(e.Args[1]))
			c.ok(e.Seq > seqW && seqW >= 0, "order: azure", r.where(e), "the files are moved before they are written")
			c.ok(r.must(r.And(r.ret, r.Eq(r.res[0], r.nilT)), e.Guard), "moved before success: azure", r.where(e), "success is reported although nothing was moved")
		}
	}
	c.ok(len(wrote) == 2, "every route: azure", c.p.pos(r.fn), "%d of 2 routes have a binding", len(wrote))
}
