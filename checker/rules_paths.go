package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Rules about the parameters of paths.

// pathParamRE is a parameter: its marker, and everything up to the end of the segment.
const pathParamRE = `[:*][^/]+`

// pathHook gives the matches of path parameters in a path that is made of parts. Expressions that are used have to be
// equivalent to pathParamRE.
func (r *Run) pathHook(path *Term, matches []*Term, segs []*Term) func(cl *Call) (*Term, bool) {
	c := r.c
	str := types.Typ[types.String]
	return func(cl *Call) (*Term, bool) {
		if !strings.HasPrefix(cl.Name, "(*regexp.Regexp).") {
			return nil, false
		}
		as := cl.resolved(r.Interp)
		if len(as) < 2 || as[1] != path {
			return nil, false
		}
		expr, ok := regexOf(as[0])
		if !ok {
			stop("the regular expression of %s is not known: %s", r.pos(cl.Pos), r.Show(as[0]))
		}
		eq, text := regexEqual(expr, pathParamRE)
		c.ok(eq, "regex: "+expr, r.pos(cl.Pos), "the expression %s does not find the parameters of paths: it differs for %q", expr, text)
		switch strings.TrimPrefix(cl.Name, "(*regexp.Regexp).") {
		case "MatchString":
			return r.Bool(boolBDD(len(matches) > 0)), true
		case "FindAllString":
			n, known := as[2].int()
			if !known || n >= 0 {
				stop("the number of matches at %s is limited", r.pos(cl.Pos))
			}
			if len(matches) == 0 {
				return r.nilT, true
			}
			return r.list(str, matches...), true
		case "FindString":
			if len(matches) == 0 {
				return r.Str(""), true
			}
			return matches[0], true
		case "ReplaceAllStringFunc":
			parts := []*Term{segs[0]}
			for i, m := range matches {
				v, _ := r.apply(cl.frame, cl.In, cl.Raw[2], []*Term{m}, nil, cl.St, cl.G)
				parts = append(parts, v, segs[i+1])
			}
			return r.Concat(parts...), true
		}
		stop("%s is not supported at %s", cl.Name, r.pos(cl.Pos))
		return nil, false
	}
}

// paramPath is a path with the given markers of parameters.
func (r *Run) paramPath(markers string) (path *Term, matches, names, segs []*Term) {
	str := types.Typ[types.String]
	segs = []*Term{r.RootT("segment0", str)}
	parts := []*Term{segs[0]}
	for i, m := range markers {
		n := r.RootT(fmt.Sprintf("name%d", i), str)
		names = append(names, n)
		x := r.Concat(r.Str(string(m)), n)
		matches = append(matches, x)
		s := r.RootT(fmt.Sprintf("segment%d", i+1), str)
		segs = append(segs, s)
		parts = append(parts, x, s)
	}
	return r.Concat(parts...), matches, names, segs
}

func (c *Ctx) pathRule() {
	prm := c.typ("", "Param")
	for _, markers := range []string{"", ":", "*", "::", ":*", "::*"} {
		c.scenario("extract "+markers, func() {
			f := c.fn("utils", "ExtractParamsFromPath")
			r := c.begin(nil)
			path, matches, names, segs := r.paramPath(markers)
			for i := range names {
				n := names[i]
				old := r.fact
				r.fact = func(t *Term) *Term {
					if t.op == OAtomEq && t.a[0] == n && t.a[1] == r.Str("") {
						return r.falseT // a match has a name
					}
					if old != nil {
						return old(t)
					}
					return nil
				}
			}
			r.hook = r.pathHook(path, matches, segs)
			r.eval(f, []*Term{path})
			c.ok(r.ret == True, "extract: ends: "+markers, c.p.pos(f), "it does not end")
			l, ok := r.listOf(r.out(0))
			if !c.ok(ok && len(l) == len(matches) && !r.res[0].isNil(), "extract: number: "+markers, c.p.pos(f), "a path with %d parameters has the parameters %s", len(matches), trunc(r.Show(r.out(0)), 400)) {
				return
			}
			for i := range l {
				want := r.zero(prm, "Name", names[i], "Field", r.zero(c.field(), "Type", "string"), "IsRequired", markers[i] == ':')
				r.equal("extract: "+markers[i:i+1], c.p.pos(f), r.resolve(l[i], r.st), want, True, "a parameter")
			}
		})
		c.scenario("map "+markers, func() {
			f := c.fn("utils", "MapPathParams")
			r := c.begin(nil)
			path, matches, _, segs := r.paramPath(markers)
			r.hook = r.pathHook(path, matches, segs)
			repl := r.RootT("repl", f.Params[1].Type())
			r.eval(f, []*Term{path, repl})
			var es []*Effect
			for _, e := range r.effects {
				if e.Kind == "dyn" {
					es = append(es, e)
				}
			}
			parts := []*Term{segs[0]}
			ok := len(es) == len(matches)
			for i, e := range es {
				if ok {
					ok = e.Raw[0] == repl && e.Args[1] == matches[i]
					parts = append(parts, e.Result, segs[i+1])
				}
			}
			c.ok(ok, "map: calls: "+markers, c.p.pos(f), "the parameters are not replaced one by one")
			if ok {
				r.equal("map: "+markers, c.p.pos(f), r.out(0), r.Concat(parts...), r.ret, "the path")
			}
		})
	}
	// The decision procedure itself: these differ, and these do not.
	for _, x := range []struct {
		a, b string
		eq   bool
	}{{`:[^/]+|\*[^/]+`, pathParamRE, true}, {`:[^/]*|\*[^/]+`, pathParamRE, false}, {`:\w+|\*[^/]+`, pathParamRE, false}, {`:[^/]+?|\*[^/]+`, pathParamRE, false}, {`(?::|\*)[^/][^/]*`, pathParamRE, true}} {
		eq, _ := regexEqual(x.a, x.b)
		c.ok(eq == x.eq, "self-test: "+x.a, "", "the comparison of expressions is wrong")
	}
}

func init() {
	register(&Rule{ID: "P35", Min: 30,
		What:      "the regular expressions applied to the path are equivalent to " + pathParamRE + " (product of deterministic automata with leftmost-first priorities); for 0 to 3 matches of every mixture of markers with arbitrary names, the extracted parameters are exactly name, type string and the requirement of the marker, in order; rewriting replaces exactly the matches by what the function gives",
		NotCovers: "paths with more than three parameters beyond the generic treatment of the list of matches",
		Assume:    []string{"methods of regexp.Regexp behave as documented"},
		Run:       func(c *Ctx) { c.pathRule() }})
}
