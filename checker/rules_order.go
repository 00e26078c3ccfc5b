package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Rules about what a result depends on: the order of maps, the time, and earlier generations.

// sameDone ends a scenario of another rule after its documents were compared.
type sameDone struct{}

// inOrders analyses f three times: in one order of all maps, once more on the state that it left, and in the reverse
// order, from the state before. It returns what f returned.
func (r *Run) inOrders(f func() *Term) (first, again, reverse *Term) {
	st := r.st.clone()
	first = f()
	again = f()
	r.st = st
	r.mapReverse = true
	reverse = f()
	r.mapReverse = false
	return
}

// notRandom: nothing in a value comes from the time, the process or a random source.
func (r *Run) notRandom(t *Term) string {
	bad := ""
	mentions(t, func(x *Term) bool {
		if x.op == OCall && (strings.HasPrefix(x.s, "time.Now") || strings.HasPrefix(x.s, "time.Since") || strings.HasPrefix(x.s, "math/rand") || strings.HasPrefix(x.s, "crypto/rand") || strings.HasPrefix(x.s, "os.Getpid") ||
			strings.HasPrefix(x.s, "os.Hostname") || strings.HasPrefix(x.s, "hash/maphash") || strings.Contains(x.s, "uuid.New")) {
			bad = x.s
		}
		return bad != ""
	})
	return bad
}

// orderOf compares the documents of the same service.
func (c *Ctx) orderOf(o *oapi, gen, s *Term) {
	r := o.r
	g := True
	n := 0
	left := c.leftAlone(r, s, o.where)
	defer left()
	first, again, reverse := r.inOrders(func() *Term {
		n++
		o.doc = nil
		r.effects = nil
		if os.Getenv("ASTRACHECK_DEBUG") != "" {
			fmt.Println("generation", n, time.Now())
		}
		r.applyTerm(gen, s)
		if o.doc == nil {
			stop("no document is encoded")
		}
		g = r.And(g, o.g)
		return o.doc
	})
	c.sameDoc(r, "document", o.where, first, again, reverse, g)
}

// leftAlone: what the other outputs of a service use is not changed.
func (c *Ctx) leftAlone(r *Run, s *Term, where string) func() {
	parts := []string{"Routes", "Components", "CustomTypeMapping", "Inputs", "Outputs"}
	var before []*Term
	for _, p := range parts {
		before = append(before, r.at(s, p))
	}
	return func() {
		r.ret = True
		for i, p := range parts {
			d := r.differ(r.at(s, p), before[i], True, "")
			c.ok(d == "", "unchanged: "+p, where, "generating changes the %s of the service: %s", p, d)
		}
	}
}

func (c *Ctx) sameDoc(r *Run, what, where string, first, again, reverse *Term, g BDD) {
	c.decided++
	key := fmt.Sprintf("%s %d", what, c.decided)
	if again != nil {
		d := r.differ(again, first, g, "")
		c.ok(d == "", "again: "+key, where, "generating a second time gives another result: %s", d)
	}
	d := r.differ(reverse, first, g, "")
	c.ok(d == "", "order: "+key, where, "the result depends on the order of a map: %s", d)
	b := r.notRandom(first)
	c.ok(b == "", "fixed: "+key, where, "the result depends on %s", b)
}

func (c *Ctx) orderRule() {
	// The OpenAPI document, for all the services of the other rules.
	c.orders = true
	c.schemaRule()
	c.hidingRule()
	c.namesRule()
	c.parametersRule()
	c.bodiesRule()
	c.methodsRule()
	c.configurationRule()
	c.orders = false
	// The other outputs.
	for _, rel := range []string{"outputs/json", "outputs/azureFunctions"} {
		c.scenario(rel, func() {
			r := c.begin(nil)
			rt := c.typ("", "Route")
			pt := c.typ("", "Param")
			var docs []*Term
			r.hook = func(k *Call) (*Term, bool) {
				switch k.Name {
				case "encoding/json.MarshalIndent", "encoding/json.Marshal":
					docs = append(docs, k.resolved(r.Interp)[0])
					return r.Tuple(r.RootT(fmt.Sprintf("bytes%d", len(docs)), types.NewSlice(types.Typ[types.Byte])), r.nilT), true
				}
				return nil, false
			}
			r.eval(c.fn(rel, "Generate"), []*Term{r.Str("out")})
			gen := r.out(0)
			var rs []*Term
			for i := 0; i < 2; i++ {
				l := fmt.Sprintf("route%d", i)
				var ps []*Term
				for j, n := range []string{"id", "rest"} {
					ps = append(ps, r.some(l+n, pt, "Name", n, "IsRequired", j == 0, "Field", r.some(l+n+" field", c.field(), "Type", "string")))
				}
				rs = append(rs, r.some(l, rt, "Handler", fmt.Sprintf("main.H%d", i), "Path", "/a/:id/*rest", "Method", "GET", "PathParams", r.list(pt, ps...)))
			}
			s := r.serviceWith("Routes", r.list(rt, rs...), "Components", r.list(c.field(), r.anyComponent("component")))
			left := c.leftAlone(r, s, c.p.pos(c.fn(rel, "Generate")))
			defer left()
			first, again, reverse := r.inOrders(func() *Term {
				docs = nil
				r.effects = nil
				r.applyTerm(gen, s)
				if len(docs) == 0 {
					stop("nothing is encoded")
				}
				return r.Tuple(docs...)
			})
			c.sameDoc(r, rel, c.p.pos(c.fn(rel, "Generate")), first, again, reverse, True)
		})
	}
	// What the analysis makes of a type.
	c.scenario("result", func() {
		f := c.fn("", "ParseResultToField")
		rt := c.typ("astTraversal", "Result")
		r := c.begin(nil)
		r.recLimit = 5
		fieldsT := fieldType(rt, "StructFields")
		r.hook = func(k *Call) (*Term, bool) {
			if k.Name == "(*~/astTraversal.PackageNode).Path" {
				return r.intern(&Term{op: OCall, s: "path of", a: []*Term{k.Raw[0]}, ty: types.Typ[types.String]}), true
			}
			return nil, false
		}
		mk := func(l string, kv ...any) *Term {
			return r.some(l, rt, append([]any{"StructFields", r.Zero(fieldsT)}, kv...)...)
		}
		in := r.mapT(fieldsT, "X", mk("x"), "Y", mk("y"))
		res := mk("result", "Type", "struct", "StructFields", r.mapT(fieldsT, "A", mk("a", "Type", "string"), "B", mk("b", "Type", "struct", "StructFields", in), "C", mk("c", "Name", "C")))
		first, again, reverse := r.inOrders(func() *Term {
			r.eval(f, []*Term{res})
			return r.out(0)
		})
		c.sameDoc(r, "result", c.p.pos(f), first, again, reverse, True)
	})
	// Cleaning.
	c.scenario("clean", func() {
		f := c.method("", "Service", "Clean")
		r := c.begin(nil)
		r.recLimit = 5
		r.opaque["(*~.Service).Cache"] = true
		const mp = "example.com/app/.astra/astramain"
		r.hook = func(k *Call) (*Term, bool) {
			if k.Name == "(*~.Service).GetMainPackageName" {
				return r.Tuple(r.Str(mp), r.nilT), true
			}
			return nil, false
		}
		ft := c.field()
		none := r.Zero(fieldType(ft, "StructFields"))
		leaf := func(l, pkg, name string) *Term {
			return r.some(l, ft, "Name", name, "Package", pkg, "StructFields", none)
		}
		first, _, reverse := r.inOrders(func() *Term {
			comp := r.some("component", ft, "Name", "T", "Package", mp, "StructFields", r.mapCell("component", r.fields("A", leaf("A", mp, "X"), "B", leaf("B", "time", "Duration"), "C", leaf("C", "", "error"))))
			s := r.serviceWith("Routes", r.list(c.typ("", "Route")), "Components", r.list(ft, comp))
			r.eval(f, []*Term{s})
			return r.at(s, "Components")
		})
		c.sameDoc(r, "clean", c.p.pos(f), first, nil, reverse, True)
	})
	// The definition that is found for a name in another file.
	c.scenario("definition", func() {
		f := c.method("astTraversal", "PackageNode", "FindObjectForIdentFuzzy")
		r := c.begin(nil)
		ident := f.Params[1].Type()
		it := ident.(*types.Pointer).Elem()
		pos := r.intern(&Term{op: OAlloc, s: "asked", ty: ident})
		r.st.m[pos] = r.zero(it, "Name", "Thing")
		pkgT := c.typ("astTraversal", "PackageNode")
		pp := fieldType(pkgT, "Package").(*types.Pointer)
		infoT := fieldType(pp.Elem(), "TypesInfo").(*types.Pointer)
		defsT := fieldType(infoT.Elem(), "Defs")
		objT := defsT.Underlying().(*types.Map).Elem()
		var kv []any
		for i, n := range []string{"Other", "Thing", "Thing"} {
			k := r.intern(&Term{op: OAlloc, s: fmt.Sprintf("ident%d", i), ty: ident})
			r.st.m[k] = r.zero(it, "Name", n)
			kv = append(kv, k, r.RootT(fmt.Sprintf("object%d", i), objT))
		}
		r.fact = func(t *Term) *Term { return nil }
		r.hook = func(k *Call) (*Term, bool) {
			switch {
			case strings.HasSuffix(k.Name, ".Info).ObjectOf"), strings.HasSuffix(k.Name, ".Scope).Lookup"):
				return r.nilT, true
			case strings.HasSuffix(k.Name, ".Pos"):
				for i := 0; i < 3; i++ {
					if k.Raw[0] == r.RootT(fmt.Sprintf("object%d", i), nil) {
						return r.Int(int64(10 + i)), true
					}
				}
			}
			return nil, false
		}
		info := r.cellOf("info", infoT.Elem(), r.with(r.RootT("info value", infoT.Elem()), "Defs", r.mapT(defsT, kv...)))
		pkg := r.cellOf("package", pp.Elem(), r.with(r.RootT("package value", pp.Elem()), "TypesInfo", info))
		node := r.cellOf("node", pkgT, r.with(r.RootT("node value", pkgT), "Package", pkg))
		first, again, reverse := r.inOrders(func() *Term {
			r.eval(f, []*Term{node, pos})
			return r.out(0)
		})
		c.sameDoc(r, "definition", c.p.pos(f), first, again, reverse, True)
		c.ok(mentions(first, func(t *Term) bool { return t.op == ORoot && strings.HasPrefix(t.s, "object") }), "definition: found", c.p.pos(f), "no definition is found: %s", trunc(r.Show(first), 300))
	})
	// The service does nothing at the same time.
	for _, pk := range c.p.Pkgs {
		for _, fn := range c.p.funcsOf(c.p.Prog.Package(pk.Types)) {
			bad := ""
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch in.(type) {
					case *ssa.Go, *ssa.Select:
						bad = c.p.posAt(in.Pos())
					}
				}
			}
			c.ok(bad == "", "sequential: "+fnName(fn), bad, "%s starts something that runs at the same time: the order of its effects is not decided", fnName(fn))
		}
	}
}

func init() {
	register(&Rule{
		ID: "P31", Min: 1500,
		What:      "abstract interpretation of every generator (and of cleaning, the conversion of types and the lookup of definitions), on the services of the other rules, with all maps iterated in one order, in the reverse order, and a second time on the state that the first one left: the encoded values are equal, and contain no time, random value or the like; no function starts a goroutine",
		NotCovers: "maps of which the entries are not known, iterated by a generic step; whether the encoders of the standard library and yaml.v3 sort keys (they do)",
		Run:       func(c *Ctx) { c.orderRule() },
	})
}
