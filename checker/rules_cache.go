package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about the cache and about the command line tool.

// codecOf is the package and direction of an encoding.
func codecOf(name string) (pkg string, decode bool) {
	for p, n := range map[string]string{"encoding/json": "json", "gopkg.in/yaml.v3": "yaml"} {
		if !strings.Contains(name, p+".") {
			continue
		}
		switch {
		case strings.HasSuffix(name, "NewEncoder"), strings.HasSuffix(name, "NewDecoder"), strings.Contains(name, ".Set"), strings.HasSuffix(name, ".Close"):
			return "", false
		case strings.Contains(name, "Marshal") && !strings.Contains(name, "Unmarshal"), strings.HasSuffix(name, "Encode"):
			return n, false
		case strings.Contains(name, "Unmarshal"), strings.HasSuffix(name, "Decode"):
			return n, true
		}
	}
	return "", false
}

// tagOf is the key of a field in an encoding; hidden if there is none.
func tagOf(st *types.Struct, i int, enc string) (name string, hidden bool) {
	f := st.Field(i)
	tag := reflect.StructTag(st.Tag(i)).Get(enc)
	parts := strings.Split(tag, ",")
	if tag == "-" || !f.Exported() && !(f.Embedded() && enc == "json") {
		return "", true
	}
	if parts[0] != "" {
		return parts[0], false
	}
	if enc == "yaml" {
		return strings.ToLower(f.Name()), false
	}
	return f.Name(), false
}

// inlineTag reports whether the fields of an embedded struct are in the object of the outer one.
func inlineTag(st *types.Struct, i int, enc string) bool {
	f := st.Field(i)
	tag := reflect.StructTag(st.Tag(i)).Get(enc)
	if enc == "yaml" {
		return strings.Contains(tag, ",inline")
	}
	return f.Embedded() && strings.Split(tag, ",")[0] == ""
}

// codable walks over the types that are encoded with a value of a type.
func (c *Ctx) codable(t types.Type, enc, where string, seen map[string]bool) {
	key := enc + " " + t.String()
	if seen[key] {
		return
	}
	seen[key] = true
	bad := func(why string) {
		c.ok(false, "codable: "+enc+": "+where, "", "%s can't be encoded in %s: %s", where, enc, why)
	}
	if n, ok := t.(*types.Named); ok {
		ms := types.NewMethodSet(types.NewPointer(n))
		has := func(m string) bool { return ms.Lookup(n.Obj().Pkg(), m) != nil }
		up := map[string]string{"json": "JSON", "yaml": "YAML"}[enc]
		if has("Marshal"+up) != has("Unmarshal"+up) {
			bad(n.String() + " is encoded in its own way but not decoded so")
		}
		if has("MarshalText") != has("UnmarshalText") {
			bad(n.String() + " is encoded as a text but not decoded so")
		}
		if has("Marshal"+up) || n.Obj().Pkg() != nil && !inModule(n.Obj().Pkg().Path()) {
			return
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		c.ok(u.Info()&(types.IsBoolean|types.IsString|types.IsInteger|types.IsFloat) != 0 && u.Kind() != types.Uintptr, "codable: "+enc+": "+where, "", "%s of type %s can't be encoded in %s", where, t, enc)
	case *types.Signature, *types.Chan:
		bad("it is a " + t.String())
	case *types.Pointer:
		c.codable(u.Elem(), enc, where, seen)
	case *types.Slice:
		c.codable(u.Elem(), enc, where+"[]", seen)
	case *types.Array:
		c.codable(u.Elem(), enc, where+"[]", seen)
	case *types.Map:
		b, ok := u.Key().Underlying().(*types.Basic)
		c.ok(ok && b.Info()&(types.IsString|types.IsInteger) != 0, "codable: "+enc+": keys of "+where, "", "the keys of %s can't be encoded in %s", where, enc)
		c.codable(u.Elem(), enc, where+"{}", seen)
	case *types.Interface:
		c.ok(u.Empty(), "codable: "+enc+": "+where, "", "%s of type %s can't be decoded from %s", where, t, enc)
	case *types.Struct:
		names := map[string]string{}
		c.keys(u, enc, where, names)
		for i := 0; i < u.NumFields(); i++ {
			if _, hidden := tagOf(u, i, enc); !hidden {
				c.codable(u.Field(i).Type(), enc, where+"."+u.Field(i).Name(), seen)
			}
		}
	}
}

// keys requires that no two fields of an object have the same key.
func (c *Ctx) keys(st *types.Struct, enc, where string, names map[string]string) {
	for i := 0; i < st.NumFields(); i++ {
		n, hidden := tagOf(st, i, enc)
		if hidden {
			continue
		}
		if inlineTag(st, i, enc) {
			if in, ok := st.Field(i).Type().Underlying().(*types.Struct); ok {
				c.keys(in, enc, where, names)
				continue
			}
		}
		k := n
		if enc == "json" {
			k = strings.ToLower(n) // decoding ignores the case
		}
		c.ok(names[k] == "", "keys: "+enc+": "+where+"."+st.Field(i).Name(), "", "%s and %s of %s have the same key %q in %s", names[k], st.Field(i).Name(), where, n, enc)
		names[k] = st.Field(i).Name()
	}
}

func (c *Ctx) serviceFields() (saved, own []*types.Var) {
	st := c.typ("", "Service").Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() {
			continue
		}
		if _, hidden := tagOf(st, i, "json"); hidden {
			own = append(own, f)
		} else {
			saved = append(saved, f)
		}
	}
	return
}

func (c *Ctx) cacheRule() {
	str := types.Typ[types.String]
	saved, own := c.serviceFields()
	c.ok(len(saved) >= 6, "coverage: fields", "", "only %d fields of the service are saved", len(saved))
	for _, x := range []struct{ name, ext, enc string }{{"default", "", "json"}, {"*.json", ".json", "json"}, {"*.yaml", ".yaml", "yaml"}, {"*.yml", ".yml", "yaml"}, {"*.other", ".other", ""}} {
		c.scenario(x.name, func() {
			r := c.begin(nil)
			var s *Term
			if x.name == "default" {
				s = r.serviceWith("CachePath", r.Str(""))
			} else {
				s = r.serviceWith("CachePath", r.Concat(r.RootT("cache", str), r.Str(x.ext)))
			}
			want := r.Sel(r.content(r.st, s), "CachePath", nil)
			if x.name == "default" {
				want = r.joinWD(s, r.Str(".astra/cache.json"))
			}
			// Save.
			f := c.method("", "Service", "Cache")
			r.eval(f, []*Term{s})
			success := r.And(r.ret, r.Eq(r.res[0], r.nilT))
			var file *Term
			encs := map[string]BDD{}
			written := False
			for _, e := range r.effects {
				switch e.Name {
				case "os.Create", "os.OpenFile":
					file = e.Result.a[0]
					r.equal("path: saved: "+x.name, r.where(e), e.Args[0], want, e.Guard, "the path of the cache")
				case "os.WriteFile":
					r.equal("path: saved: "+x.name, r.where(e), e.Args[0], want, e.Guard, "the path of the cache")
				}
				writes := e.Name == "os.WriteFile" || strings.HasPrefix(e.Name, "(*os.File).Write") || e.Name == "io.WriteString" || strings.HasPrefix(e.Name, "fmt.Fprint")
				enc, dec := codecOf(e.Name)
				if enc != "" && !dec {
					ok := false
					for _, a := range e.Raw {
						if a != nil && (r.baseIs(a, s) || r.same(r.resolve(a, e.St), r.resolve(r.content(e.St, s), e.St), e.Guard)) {
							ok = true
						}
					}
					c.ok(ok, "content: "+x.name, r.where(e), "the cache does not hold the service but %s", trunc(r.Show(e.Args[len(e.Args)-1]), 200))
					encs[enc] = r.Or(encs[enc], e.Guard)
					if strings.HasSuffix(e.Name, "Encode") {
						writes = true
					}
				}
				if writes {
					ok := false
					for _, a := range e.Args {
						if mentions(a, func(t *Term) bool { e, d := codecOf(t.s); return t.op == OCall && e != "" && !d }) {
							ok = true
						}
						if file != nil && strings.HasSuffix(e.Name, "Encode") && mentions(a, func(t *Term) bool { return t == file }) {
							ok = true
						}
					}
					c.ok(ok, "content: written: "+x.name, r.where(e), "something else than the encoded service is written to the cache: %s", trunc(r.Show(e.Args[len(e.Args)-1]), 200))
					written = r.Or(written, e.Guard)
				}
			}
			c.ok(r.must(success, written), "content: saved: "+x.name, c.p.pos(f), "saving succeeds although nothing was written if %s", r.ShowG(r.And(success, r.Not(written))))
			var savedAs string
			for e, g := range encs {
				if r.sat(g) != False {
					savedAs += e
				}
			}
			if x.enc != "" {
				c.ok(savedAs == x.enc, "format: saved: "+x.name, c.p.pos(f), "the cache is saved as %q", savedAs)
			}
			// Load the same.
			r2 := c.begin(nil)
			s2 := r2.serviceWith("CachePath", r2.Str(""))
			if x.name != "default" {
				s2 = r2.serviceWith("CachePath", r2.Concat(r2.RootT("cache", str), r2.Str(x.ext)))
			}
			want2 := r2.Sel(r2.content(r2.st, s2), "CachePath", nil)
			if x.name == "default" {
				want2 = r2.joinWD(s2, r2.Str(".astra/cache.json"))
			}
			lf := c.method("", "Service", "LoadCache")
			r2.eval(lf, []*Term{s2})
			ok2 := r2.And(r2.ret, r2.Eq(r2.res[0], r2.nilT))
			loadedAs := map[string]bool{}
			var decoded *Term
			opened := False
			for _, e := range r2.effects {
				switch e.Name {
				case "os.Open", "os.OpenFile", "os.ReadFile":
					r2.equal("path: loaded: "+x.name, r2.where(e), e.Args[0], want2, e.Guard, "the path of the cache")
					opened = r2.Or(opened, r2.And(e.Guard, r2.Eq(errOf(e), r2.nilT)))
				}
				if enc, dec := codecOf(e.Name); enc != "" && dec && r2.sat(e.Guard) != False {
					loadedAs[enc] = true
					decoded = e.Result
				}
			}
			c.ok(opened != False, "path: loaded: "+x.name+" at all", c.p.pos(lf), "no cache is loaded")
			if x.enc == "" {
				// Saving has to be refused if loading is.
				c.ok(len(loadedAs) == 1 && loadedAs[savedAs] || r.sat(success) == False, "format: loaded: "+x.name, c.p.pos(lf), "a cache with another extension is saved as %q but can't be loaded", savedAs)
				return
			}
			c.ok(len(loadedAs) == 1 && loadedAs[savedAs], "format: loaded: "+x.name, c.p.pos(lf), "the cache is saved as %q but loaded as %v", savedAs, loadedAs)
			// Loading works whenever the steps do.
			good := r2.noErr(1<<30, func(e *Effect) bool { return e.Name == "(*os.File).Close" })
			c.ok(r2.must(r2.And(good, r2.ret), r2.Eq(r2.res[0], r2.nilT)), "loads: "+x.name, c.p.pos(lf), "loading fails although every step succeeded")
			if decoded == nil {
				return
			}
			var base *Term
			for _, v := range saved {
				got := r2.Simp(r2.resolve(r2.Sel(r2.content(r2.st, s2), v.Name(), v.Type()), r2.st), ok2)
				b := got
				isSel := got.op == OSel && got.s == v.Name()
				if isSel {
					b = got.a[0]
				}
				c.ok(isSel && mentions(b, func(t *Term) bool { return t == decoded || t.op == OCall && decoded.op == OCall && t.s == decoded.s }) && (base == nil || base == b), "restored: "+x.name+": "+v.Name(), c.p.pos(lf), "%s is saved but not restored: it is %s after loading", v.Name(), trunc(r2.Show(got), 300))
				if isSel && base == nil {
					base = b
				}
			}
			for _, v := range own {
				got := r2.resolve(r2.Sel(r2.content(r2.st, s2), v.Name(), v.Type()), r2.st)
				w := r2.Sel(s2, v.Name(), v.Type())
				if v.Name() == "CachePath" {
					continue
				}
				r2.equal("own: "+x.name+": "+v.Name(), c.p.pos(lf), got, w, ok2, v.Name()+" of the running process after loading")
			}
		})
		c.scenario(x.name+" cleared", func() {
			r := c.begin(nil)
			s := r.serviceWith("CachePath", r.Str(""))
			if x.name != "default" {
				s = r.serviceWith("CachePath", r.Concat(r.RootT("cache", str), r.Str(x.ext)))
			}
			want := r.Sel(r.content(r.st, s), "CachePath", nil)
			if x.name == "default" {
				want = r.joinWD(s, r.Str(".astra/cache.json"))
			}
			f := c.method("", "Service", "ClearCache")
			r.eval(f, []*Term{s})
			removed := False
			for _, e := range r.effects {
				if e.Name == "os.Remove" || e.Name == "os.RemoveAll" {
					r.equal("path: cleared: "+x.name, r.where(e), e.Args[0], want, e.Guard, "the path of the cache")
					removed = r.Or(removed, e.Guard)
				}
			}
			c.ok(r.must(r.And(r.ret, r.Eq(r.res[0], r.nilT)), removed), "cleared: "+x.name, c.p.pos(f), "clearing succeeds although nothing was removed")
		})
	}
	// Lookups use what was loaded, whatever was looked up before.
	c.scenario("lookup", func() {
		r := c.begin(nil)
		s := r.serviceWith("CachePath", r.Str(""))
		tf := c.typ("", "TypeFormat")
		v := r.RootT("restored", tf)
		n := 0
		r.hook = func(cl *Call) (*Term, bool) {
			enc, dec := codecOf(cl.Name)
			if enc == "" || !dec {
				return nil, false
			}
			for _, a := range cl.Raw {
				if a != nil && a.op == OIface {
					a = a.a[0]
				}
				if a == nil || a.ty == nil || !types.Identical(a.ty, ptrTo(c.typ("", "Service"))) {
					continue
				}
				n++
				cl.St.m[a] = r.With(r.RootT("decoded", c.typ("", "Service")), "CustomTypeMapping", r.mapT(types.NewMap(str, tf), "example.com/x.Custom", v, "string", v))
				return r.nilT, true
			}
			return nil, false
		}
		lf := c.method("", "Service", "LoadCache")
		r.eval(lf, []*Term{s})
		ok := r.And(r.ret, r.Eq(r.res[0], r.nilT))
		if n == 0 {
			stop("the decoder is not found")
		}
		r.st.m[s] = r.Simp(r.resolve(r.content(r.st, s), r.st), ok)
		gf := c.method("", "Service", "GetTypeMapping")
		for _, k := range []string{"Custom", "string"} {
			r.eval(gf, []*Term{s, r.Str(k), r.Str("example.com/x")})
			r.equal("lookup: "+k, c.p.pos(gf), r.Simp(r.resolve(r.res[0], r.st), ok), v, ok, "the type mapping after loading")
			c.ok(r.must(ok, r.ToBDD(r.res[1])), "lookup: found "+k, c.p.pos(gf), "a restored type mapping is not found")
		}
	})
	seen := map[string]bool{}
	for _, enc := range []string{"json", "yaml"} {
		c.codable(c.typ("", "Service"), enc, "Service", seen)
	}
}

func optionFns(c *Ctx, rel string) []*ssa.Function {
	var out []*ssa.Function
	opt := c.typ("", "Option")
	pk := c.p.pkg(rel)
	if pk == nil {
		stop("there is no package %q", rel)
	}
	for _, f := range c.p.funcsOf(pk) {
		sg := f.Signature
		if f.Object() != nil && f.Object().Exported() && sg.Recv() == nil && sg.Results().Len() == 1 && types.Identical(sg.Results().At(0).Type(), opt) {
			out = append(out, f)
		}
	}
	return out
}

// lastOf is what was appended to a list.
func lastOf(t *Term) *Term {
	if (t.op == OAppend || t.op == OList) && len(t.a) > 0 {
		return t.a[len(t.a)-1]
	}
	return nil
}

func (c *Ctx) rebindRule() {
	cmds := c.cliCommands()
	for _, io := range []struct{ rel, list, typ string }{{"outputs", "Outputs", "Output"}, {"inputs", "Inputs", "Input"}} {
		fns := optionFns(c, io.rel)
		c.ok(len(fns) >= map[string]int{"outputs": 3, "inputs": 1}[io.rel], "kinds: "+io.rel, "", "only %d kinds of %s can be registered", len(fns), io.rel)
		run := func(name string, mk func(r *Run, registered []*Term) (cached []*Term), check func(r *Run, registered []*Term, es []*Effect)) {
			for _, cmd := range cmds {
				c.scenario(io.rel+" "+name, func() {
					r := c.begin(nil)
					r.opaqueSvc("LoadCacheFromCustomPath", "CompleteParse")
					var reg []*Term
					s := r.service()
					for i, f := range fns {
						var args []*Term
						for j, p := range f.Params {
							if _, isPtr := p.Type().Underlying().(*types.Pointer); isPtr {
								args = append(args, r.nilT) // the router is not there in the command line tool
								continue
							}
							a := r.RootT(fmt.Sprintf("value%d_%d", i, j), p.Type())
							args = append(args, a)
						}
						r.eval(f, args)
						opt := r.out(0)
						r.st.m[s] = s
						r.applyTerm(opt, s)
						l := r.at(s, io.list)
						x := lastOf(l)
						if x == nil {
							stop("%s does not register anything", fnName(f))
						}
						c.ok(l.op == OAppend && l.a[0] == r.Sel(s, io.list, nil), "registers: "+fnName(f), c.p.pos(f), "%s does not add to the %s: %s", fnName(f), io.rel, r.Show(l))
						reg = append(reg, x)
					}
					delete(r.st.m, s)
					r.effects = nil
					cached := mk(r, reg)
					r.hook = func(cl *Call) (*Term, bool) {
						if cl.Name == svcMethod("LoadCacheFromCustomPath") {
							p := cl.Raw[0]
							v := r.content(cl.St, p)
							if p.op == OAlloc {
								v = cl.St.m[p]
							}
							v = r.With(v, io.list, r.list(c.typ("", io.typ), cached...))
							other := "Inputs"
							if io.list == "Inputs" {
								other = "Outputs"
							}
							v = r.With(v, other, r.list(c.typ("", other[:len(other)-1])))
							cl.St.m[p] = v
							return r.nilT, true
						}
						return nil, false
					}
					// Every path that the user gives is not empty.
					r.eval(cmd, []*Term{r.RootT("cmd", cmd.Params[0].Type()), r.RootT("args", cmd.Params[1].Type())})
					var es []*Effect
					for _, e := range r.effects {
						if e.Name == svcMethod("CompleteParse") {
							es = append(es, e)
						}
					}
					check(r, reg, es)
				})
			}
		}
		strip := func(r *Run, x *Term) *Term {
			// The functions are not in the cache.
			st := c.typ("", io.typ).Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if _, ok := st.Field(i).Type().Underlying().(*types.Signature); ok {
					x = r.With(x, st.Field(i).Name(), r.nilT)
				}
			}
			return x
		}
		orders := [][]int{nil, nil}
		for i := range fns {
			orders[0] = append(orders[0], i)
			orders[1] = append([]int{i}, orders[1]...)
		}
		orders[1] = append(orders[1], orders[1][0])
		for oi, order := range orders {
			var cached, want []*Term
			run(fmt.Sprintf("order %d", oi), func(r *Run, reg []*Term) []*Term {
				cached, want = nil, nil
				for _, i := range order {
					want = append(want, reg[i])
					cached = append(cached, strip(r, reg[i]))
				}
				return cached
			}, func(r *Run, reg []*Term, es []*Effect) {
				if !c.ok(len(es) == 1, "runs: "+io.rel, c.p.pos(cmds[0]), "the command completes the run %d times", len(es)) {
					return
				}
				e := es[0]
				sv := e.Raw[0]
				v := r.content(e.St, sv)
				got := r.resolve(r.Sel(r.deref(e.St, v), io.list, nil), e.St)
				l, ok := r.listOf(r.Simp(got, e.Guard))
				if !c.ok(ok && len(l) == len(want), "rebound: "+io.rel+" number", r.where(e), "%s were registered, but %s are rebuilt", io.rel, trunc(r.Show(got), 400)) {
					return
				}
				// With a valid configuration, it gets there.
				empty := False
				for i, f := range fns {
					for j, p := range f.Params {
						if types.Identical(p.Type(), types.Typ[types.String]) {
							empty = r.Or(empty, r.Eq(r.RootT(fmt.Sprintf("value%d_%d", i, j), nil), r.Str("")))
						}
					}
				}
				ok1 := r.And(r.Not(empty), r.noErr(e.Seq, func(x *Effect) bool { return false }))
				c.ok(r.must(ok1, e.Guard), "accepted: "+io.rel, r.where(e), "registered %s are refused if %s", io.rel, trunc(r.ShowG(r.And(ok1, r.Not(e.Guard))), 300))
				for k, i := range order {
					st := c.typ("", io.typ).Underlying().(*types.Struct)
					for fi := 0; fi < st.NumFields(); fi++ {
						n := st.Field(fi).Name()
						a, b := r.resolve(r.Sel(l[k], n, nil), e.St), r.resolve(r.Sel(want[k], n, nil), e.St)
						c.ok(r.same(a, b, e.Guard), "rebound: "+fnName(fns[i])+": "+n, r.where(e), "%s of position %d is rebuilt as %s, but registered as %s", n, k, trunc(r.Show(a), 300), trunc(r.Show(b), 300))
					}
				}
			})
		}
		refuse := func(name string, mk func(r *Run, reg []*Term) []*Term) {
			run(name, mk, func(r *Run, reg []*Term, es []*Effect) {
				for _, e := range es {
					c.ok(r.sat(e.Guard) == False, "refused: "+io.rel+": "+name, r.where(e), "%s %s are accepted", io.rel, name)
				}
				c.ok(r.sat(r.ret) == False, "refused: "+io.rel+": "+name+" status", c.p.pos(cmds[0]), "the command ends with success for %s %s", io.rel, name)
				n := 0
				for _, e := range r.effects {
					if e.Name == "os.Exit" {
						k, known := e.Args[0].int()
						c.ok(known && k != 0, "refused: "+io.rel+": "+name+" exit", r.where(e), "the exit status is %s", r.Show(e.Args[0]))
						n++
					}
				}
				c.ok(n > 0, "refused: "+io.rel+": "+name+" exits", c.p.pos(cmds[0]), "the command does not exit")
			})
		}
		refuse("of an unknown kind", func(r *Run, reg []*Term) []*Term {
			return []*Term{r.With(strip(r, reg[0]), "Mode", r.Str("\x00unknown"))}
		})
		for i := range fns {
			hasConf := fieldType(c.typ("", io.typ), "Configuration") != nil
			if !hasConf {
				continue
			}
			ct := fieldType(c.typ("", io.typ), "Configuration")
			refuse("without configuration: "+fnName(fns[i]), func(r *Run, reg []*Term) []*Term {
				return []*Term{r.With(strip(r, reg[i]), "Configuration", r.mapT(ct))}
			})
			refuse("with an empty path: "+fnName(fns[i]), func(r *Run, reg []*Term) []*Term {
				conf := r.Sel(reg[i], "Configuration", nil)
				m := r.mapT(ct)
				for x := conf; x.op == OMapUpd; x = x.a[0] {
					m = r.MapUpd(m, x.a[1], r.Iface(types.Typ[types.String], r.Str("")))
				}
				return []*Term{r.With(strip(r, reg[i]), "Configuration", m)}
			})
		}
	}
	// The command completes the service that it loaded, in the mode of the command line tool.
	for _, cmd := range cmds {
		c.scenario("command", func() {
			r := c.begin(nil)
			r.opaqueSvc("LoadCacheFromCustomPath", "CompleteParse")
			r.eval(cmd, []*Term{r.RootT("cmd", cmd.Params[0].Type()), r.RootT("args", cmd.Params[1].Type())})
			var load, complete *Effect
			for _, e := range r.effects {
				switch e.Name {
				case svcMethod("LoadCacheFromCustomPath"):
					load = e
				case svcMethod("CompleteParse"):
					complete = e
				}
			}
			if !c.ok(load != nil && complete != nil, "command: steps", c.p.pos(cmd), "the command does not load the cache and complete the run") {
				return
			}
			c.ok(load.Raw[0] == complete.Raw[0], "command: service", r.where(complete), "the service that is completed is not the one that was loaded")
			m, _ := r.resolve(r.Sel(r.deref(complete.St, complete.Raw[0]), "CLIMode", nil), complete.St).str()
			c.ok(m == "builder", "command: mode", r.where(complete), "the mode is %q", m)
			wd := r.resolve(r.Sel(r.deref(complete.St, complete.Raw[0]), "WorkDir", nil), complete.St)
			c.ok(!r.same(wd, r.Str(""), True), "command: working directory", r.where(complete), "the working directory is not set: %s", r.Show(wd))
		})
	}
}

func init() {
	register(&Rule{ID: "P04", Min: 60,
		What:      "for every kind of cache path: the path that is saved, loaded and cleared is the same, the decoder is the one of the encoder, exactly the service is encoded, every encoded field of the service is assigned from the decoded one and no other is changed; every type that is encoded can be decoded and no object has two fields of the same key",
		NotCovers: "that the decoders of encoding/json and yaml.v3 are the inverse of their encoders",
		Run:       func(c *Ctx) { c.cacheRule() }})
	register(&Rule{ID: "P05", Min: 30,
		What: "for every function that registers an output or input: the value that the command of the CLI rebuilds from what is cached is equal to the registered one, in every position of the list; unknown kinds and missing paths lead to a non-zero exit and never to the completion of the run",
		Run:  func(c *Ctx) { c.rebindRule() }})
}
