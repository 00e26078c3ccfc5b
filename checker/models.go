package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"net/url"
	"path"
	"regexp"
	"slices"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What is known about functions outside of the repository.

// pure functions only compute a value from their arguments.
var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "path": true, "path/filepath": true, "errors": true,
	"go/types": true, "go/ast": true, "go/token": true, "go/constant": true, "reflect": true, "regexp": true, "github.com/iancoleman/strcase": true,
	"bytes": true, "slices": true, "maps": true, "sort": true, "cmp": true, "runtime": true, "net/http": true, "time": true, "math": true,
	"golang.org/x/tools/go/types/typeutil": true, "golang.org/x/tools/go/ast/astutil": true, "io/fs": true, "text/template": true,
	"net/url": true, "mime": true, "golang.org/x/exp/slices": true, "iter": true, "unique": true,
}

var impureNames = map[string]bool{
	"path/filepath.Walk": true, "path/filepath.WalkDir": true, "path/filepath.Glob": true, "path/filepath.EvalSymlinks": true,
	"path/filepath.Abs": false, "runtime.GC": true, "time.Sleep": true, "net/http.Get": true,
	"reflect.Copy": true, "strings.NewReplacer": false,
}

var modelledNames = map[string]bool{
	"maps.Copy": true, "slices.Sort": true, "slices.SortFunc": true, "slices.SortStableFunc": true, "slices.Reverse": true,
	"maps.Clone": true, "slices.Clone": true, "slices.Sorted": true, "maps.Keys": true, "maps.Values": true, "slices.Collect": true,
	"slices.Compact": true, "slices.Max": true, "slices.Min": true, "slices.BinarySearch": true, "maps.DeleteFunc": true, "slices.Insert": true,
	"slices.Concat": true, "slices.Delete": true, "slices.Grow": true, "slices.Clip": true, "slices.DeleteFunc": true, "slices.CompactFunc": true,
	"slices.Equal": true, "maps.Equal": true, "slices.SortedFunc": true, "maps.Insert": true, "maps.Collect": true, "maps.All": true, "slices.All": true, "slices.Values": true,
}

// newLists are the functions that return lists of their own.
var newLists = map[string]bool{"strings.Split": true, "strings.SplitN": true, "strings.Fields": true, "slices.Clone": true, "slices.Sorted": true, "slices.Collect": true}

func (ip *Interp) knownLists(t *Term) bool {
	if t.op == OGamma {
		for _, x := range t.a {
			if !ip.knownLists(x) {
				return false
			}
		}
		return true
	}
	_, ok := ip.listOf(t)
	return ok
}

func modelled(name string) bool { return modelledNames[name] }

func pkgOf(name string) string {
	// "(*pkg/path.Type).Method", "pkg/path.Func", "(pkg.Type).Method"
	s := strings.TrimPrefix(name, "(")
	s = strings.TrimPrefix(s, "*")
	i := strings.LastIndex(s, "/")
	j := strings.Index(s[i+1:], ".")
	if j < 0 {
		return s
	}
	return s[:i+1+j]
}

func isLogging(name string) bool {
	p := pkgOf(name)
	return p == "github.com/rs/zerolog" || p == "github.com/rs/zerolog/log" || p == "github.com/rs/zerolog/pkgerrors"
}

var terminating = map[string]bool{
	"os.Exit": true, "log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true, "runtime.Goexit": true, "log.Panic": true, "log.Panicf": true,
	"syscall.Exit": true,
}

func canonName(name string) string {
	switch name {
	case "path/filepath.Join":
		return "path.Join"
	case "path/filepath.Base":
		return "path.Base"
	case "path/filepath.Dir":
		return "path.Dir"
	case "path/filepath.Ext":
		return "path.Ext"
	case "path/filepath.IsAbs":
		return "path.IsAbs"
	case "path/filepath.Clean":
		return "path.Clean"
	case "(*github.com/rs/zerolog.Logger).Fatal":
		return name
	}
	if strings.HasPrefix(name, "(*go/types.object).") {
		return "(go/types.Object)." + strings.TrimPrefix(name, "(*go/types.object).")
	}
	return name
}

func (ip *Interp) external(fr *frame, in ssa.CallInstruction, name string, fn *ssa.Function, args []*Term, sig *types.Signature, st *State, g BDD) (*Term, BDD) {
	name = canonName(name)
	if strings.HasPrefix(name, "(go/types.Object).") && len(args) > 0 {
		// The embedded object of a concrete object.
		a := args[0]
		if a.op == OAddr && len(a.names) == 1 && a.names[0] == "object" {
			args = append([]*Term{a.a[0]}, args[1:]...)
		}
	} else if o := typesObjectMethod(name); o != "" {
		name = "(go/types.Object)." + o
	}
	if ip.hook != nil {
		if r, ok := ip.hook(ip.mkCall(fr, in, name, fn, args, sig, st, g)); ok {
			return r, g
		}
	}
	if ip.opaque[name] {
		return ip.unknown(fr, in, "opaque", name, args, sig, st, g)
	}
	if terminating[name] {
		ip.effect(fr, "exit", name, args, st, g, posOf(in), nil, sig)
		return nil, False
	}
	if isLogging(name) {
		if strings.HasSuffix(name, ".Msg") || strings.HasSuffix(name, ".Msgf") || strings.HasSuffix(name, ".Send") {
			if len(args) > 0 && mentions(args[0], func(t *Term) bool {
				return t.op == OCall && (strings.HasSuffix(t.s, ".Fatal") || strings.HasSuffix(t.s, ".Panic"))
			}) {
				ip.effect(fr, "exit", name, args, st, g, posOf(in), nil, sig)
				return nil, False
			}
			return nil, g
		}
		return ip.pure(fr, in, name, args, sig, st, g)
	}
	if r, g2, ok := ip.model(fr, in, name, args, sig, st, g); ok {
		if newLists[name] && ip.knownLists(r) {
			// A list of its own, even if another call returns the same.
			a := ip.intern(&Term{op: OAlloc, s: fmt.Sprintf("%s list#%d", fnName(fr.fn), ip.ctx(fr.ctx, fmt.Sprintf("n%p", in))), ty: sig.Results().At(0).Type()})
			st.m[a] = r
			return a, g2
		}
		return r, g2
	}
	pkg := pkgOf(name)
	if im, ok := impureNames[name]; !(ok && im) && (purePkgs[pkg] || name == "(error).Error" || strings.HasPrefix(name, "fmt.Sprint") || name == "(fmt.Stringer).String" || ip.extraPure[name]) {
		// Functions given to a pure function: what they return is what matters.
		for i, a := range args {
			f := a
			if f.op == OIface {
				f = f.a[0]
			}
			if f.op == OClosure && f.fn.Blocks != nil && inModule(pkgPathOf(f.fn)) {
				_, r, _ := ip.callback(fr, in, name, f, func(info *Loop) []*Term {
					var as []*Term
					for k := 0; k < f.fn.Signature.Params().Len(); k++ {
						as = append(as, ip.RootT(fmt.Sprintf("%s arg %d", name, k), f.fn.Signature.Params().At(k).Type()))
					}
					return as
				}, st, g)
				if r == nil {
					r = ip.nilT
				}
				args = append(append(append([]*Term{}, args[:i]...), ip.resolve(r, st)), args[i+1:]...)
			}
		}
		return ip.pure(fr, in, name, args, sig, st, g)
	}
	inst := ip.ctx(fr.ctx, fmt.Sprintf("u%p.%s", in, name))
	e := ip.effect(fr, "call", name, args, st, g, posOf(in), nil, sig)
	e.Result = ip.result(name, e.Args, inst, sig)
	// Functions given to it may be called.
	for i, a := range args {
		f := a
		if f.op == OIface {
			f = f.a[0]
		}
		if f.op == OClosure && f.fn.Blocks != nil && inModule(pkgPathOf(f.fn)) && !ip.onStack(fr, f.fn) {
			ip.callback(fr, in, name, f, func(info *Loop) []*Term {
				var as []*Term
				for k := 0; k < f.fn.Signature.Params().Len(); k++ {
					as = append(as, ip.RootT(fmt.Sprintf("%s %d arg %d.%d", name, inst, i, k), f.fn.Signature.Params().At(k).Type()))
				}
				return as
			}, st, g)
		}
	}
	// Memory it is given a pointer to.
	if writesArgs(name) {
		for _, a := range args {
			p := a
			if p.op == OIface {
				p = p.a[0]
			}
			if p.op == OAlloc || p.op == OAddr {
				var ty types.Type
				if pt, ok := a.typ, a.op == OIface; ok {
					if pp, ok := pt.Underlying().(*types.Pointer); ok {
						ty = pp.Elem()
					}
				}
				ip.store(st, p, ip.intern(&Term{op: ORes, a: []*Term{firstOf(e.Result)}, n: 100, ty: ty}))
			}
		}
	}
	return e.Result, g
}

func firstOf(t *Term) *Term {
	if t.op == OTuple && len(t.a) > 0 {
		t = t.a[0]
	}
	if t.op == ORes {
		return t.a[0]
	}
	return t
}

func writesArgs(name string) bool {
	return strings.HasSuffix(name, ".Decode") || strings.HasSuffix(name, ".Unmarshal") || strings.HasSuffix(name, ".Read") || strings.HasSuffix(name, ".Scan")
}

func typesObjectMethod(name string) string {
	for _, t := range []string{"TypeName", "Var", "Func", "Const", "PkgName", "Builtin", "Label", "Nil"} {
		if s, ok := strings.CutPrefix(name, "(*go/types."+t+")."); ok {
			switch s {
			case "Name", "Pkg", "Type", "Exported", "Id", "Pos", "Parent":
				return s
			}
		}
	}
	return ""
}

func (ip *Interp) hasPrefix(x, p *Term) BDD {
	if x.op == OGamma {
		r := False
		for i, z := range x.a {
			r = ip.Or(r, ip.And(x.g[i], ip.hasPrefix(z, p)))
		}
		return r
	}
	ps, pok := p.str()
	if pok && ps == "" {
		return True
	}
	if xs, ok := x.str(); ok && pok {
		if strings.HasPrefix(xs, ps) {
			return True
		}
		return False
	}
	if x.op == OConcat && pok {
		if s, ok := x.a[0].str(); ok {
			if len(s) >= len(ps) {
				if strings.HasPrefix(s, ps) {
					return True
				}
				return False
			}
			if !strings.HasPrefix(ps, s) {
				return False
			}
			return ip.hasPrefix(ip.Concat(x.a[1:]...), ip.Str(ps[len(s):]))
		}
	}
	if pok && len(ps) == 1 {
		return ip.And(ip.Not(ip.Empty(x)), ip.Eq(ip.Elem(x, ip.Int(0), types.Typ[types.Byte]), ip.Int(int64(ps[0]))))
	}
	return ip.ToBDD(ip.withFact(ip.intern(&Term{op: OCall, s: "strings.HasPrefix", a: []*Term{x, p}, ty: types.Typ[types.Bool]})))
}

func (ip *Interp) hasSuffix(x, p *Term) BDD {
	if x.op == OGamma {
		r := False
		for i, z := range x.a {
			r = ip.Or(r, ip.And(x.g[i], ip.hasSuffix(z, p)))
		}
		return r
	}
	ps, pok := p.str()
	if pok && ps == "" {
		return True
	}
	if xs, ok := x.str(); ok && pok {
		if strings.HasSuffix(xs, ps) {
			return True
		}
		return False
	}
	if x.op == OConcat && pok {
		if s, ok := x.a[len(x.a)-1].str(); ok {
			if len(s) >= len(ps) {
				if strings.HasSuffix(s, ps) {
					return True
				}
				return False
			}
			if !strings.HasSuffix(ps, s) {
				return False
			}
		}
	}
	if x.op == OCall && x.s == "path.Join" && pok {
		if s, ok := x.a[len(x.a)-1].str(); ok {
			s = path.Clean("/" + s)[1:]
			if s != "" && !strings.HasPrefix(s, "..") && (len(s) >= len(ps) || !strings.HasSuffix(ps, s)) {
				if strings.HasSuffix(s, ps) {
					return True
				}
				return False
			}
		}
	}
	return ip.ToBDD(ip.withFact(ip.intern(&Term{op: OCall, s: "strings.HasSuffix", a: []*Term{x, p}, ty: types.Typ[types.Bool]})))
}

// spread applies f to every alternative of the merged arguments.
func (ip *Interp) spread(args []*Term, f func([]*Term) *Term) *Term {
	for i, a := range args {
		if a.op == OGamma {
			return ip.mapGamma(a, func(x *Term) *Term {
				as := append([]*Term{}, args...)
				as[i] = x
				return ip.spread(as, f)
			})
		}
	}
	return f(args)
}

func (ip *Interp) strList(ss []string) *Term {
	var items []*Term
	for _, s := range ss {
		items = append(items, ip.Str(s))
	}
	return ip.List(items...)
}

func (ip *Interp) model(fr *frame, in ssa.CallInstruction, name string, args []*Term, sig *types.Signature, st *State, g BDD) (*Term, BDD, bool) {
	strArgs := func() ([]string, bool) {
		var out []string
		for _, a := range args {
			s, ok := a.str()
			if !ok {
				return nil, false
			}
			out = append(out, s)
		}
		return out, true
	}
	_ = strArgs
	str := types.Typ[types.String]
	mk := func(n string, as ...*Term) *Term {
		return ip.withFact(ip.intern(&Term{op: OCall, s: n, a: as, ty: str}))
	}
	un := func(f func(string) string) (*Term, BDD, bool) {
		return ip.spread(args[:1], func(as []*Term) *Term {
			if s, ok := as[0].str(); ok {
				return ip.Str(f(s))
			}
			return mk(name, as[0])
		}), g, true
	}
	switch name {
	case "strings.ToLower":
		return un(strings.ToLower)
	case "strings.ToUpper":
		return un(strings.ToUpper)
	case "strings.TrimSpace":
		return un(strings.TrimSpace)
	case "path.Base":
		return un(path.Base)
	case "path.Dir":
		return un(path.Dir)
	case "path.Ext":
		return un(path.Ext)
	case "path.Clean":
		return un(path.Clean)
	case "strconv.Quote":
		return un(strconv.Quote)
	case "strings.HasPrefix":
		return ip.spread(args, func(as []*Term) *Term { return ip.Bool(ip.hasPrefix(as[0], as[1])) }), g, true
	case "strings.HasSuffix":
		return ip.spread(args, func(as []*Term) *Term { return ip.Bool(ip.hasSuffix(as[0], as[1])) }), g, true
	case "strings.TrimPrefix", "strings.CutPrefix":
		var has BDD
		t := ip.spread(args, func(as []*Term) *Term {
			c := ip.hasPrefix(as[0], as[1])
			p, ok := as[1].str()
			if !ok {
				return mk("strings.TrimPrefix", as...)
			}
			return ip.Gamma([]BDD{c, ip.Not(c)}, []*Term{ip.Slice(as[0], ip.Int(int64(len(p))), nil), as[0]})
		})
		if name == "strings.CutPrefix" {
			has = ip.ToBDD(ip.spread(args, func(as []*Term) *Term { return ip.Bool(ip.hasPrefix(as[0], as[1])) }))
			return ip.Tuple(t, ip.Bool(has)), g, true
		}
		return t, g, true
	case "strings.TrimSuffix", "strings.CutSuffix":
		t := ip.spread(args, func(as []*Term) *Term {
			c := ip.hasSuffix(as[0], as[1])
			p, ok := as[1].str()
			if x, xok := as[0].str(); ok && xok {
				return ip.Str(strings.TrimSuffix(x, p))
			}
			if !ok {
				return mk("strings.TrimSuffix", as...)
			}
			return ip.Gamma([]BDD{c, ip.Not(c)}, []*Term{ip.Slice(as[0], nil, ip.Bin(token.SUB, ip.Len(as[0]), ip.Int(int64(len(p))))), as[0]})
		})
		if name == "strings.CutSuffix" {
			has := ip.ToBDD(ip.spread(args, func(as []*Term) *Term { return ip.Bool(ip.hasSuffix(as[0], as[1])) }))
			return ip.Tuple(t, ip.Bool(has)), g, true
		}
		return t, g, true
	case "strings.Contains":
		return ip.spread(args, func(as []*Term) *Term {
			x, ok1 := as[0].str()
			y, ok2 := as[1].str()
			if ok1 && ok2 {
				if strings.Contains(x, y) {
					return ip.trueT
				}
				return ip.falseT
			}
			return ip.withFact(ip.intern(&Term{op: OCall, s: name, a: as, ty: types.Typ[types.Bool]}))
		}), g, true
	case "strings.Index", "strings.LastIndex", "strings.Count":
		return ip.spread(args, func(as []*Term) *Term {
			x, ok1 := as[0].str()
			y, ok2 := as[1].str()
			if ok1 && ok2 {
				switch name {
				case "strings.Index":
					return ip.Int(int64(strings.Index(x, y)))
				case "strings.Count":
					return ip.Int(int64(strings.Count(x, y)))
				}
				return ip.Int(int64(strings.LastIndex(x, y)))
			}
			return ip.withFact(ip.intern(&Term{op: OCall, s: name, a: as, ty: types.Typ[types.Int]}))
		}), g, true
	case "strings.Split":
		return ip.spread(args, func(as []*Term) *Term {
			x, ok1 := as[0].str()
			y, ok2 := as[1].str()
			if ok1 && ok2 {
				return ip.strList(strings.Split(x, y))
			}
			return ip.withFact(ip.intern(&Term{op: OCall, s: name, a: as, ty: sig.Results().At(0).Type()}))
		}), g, true
	case "strings.Fields":
		return ip.spread(args, func(as []*Term) *Term {
			if x, ok := as[0].str(); ok {
				return ip.strList(strings.Fields(x))
			}
			return ip.withFact(ip.intern(&Term{op: OCall, s: name, a: as, ty: sig.Results().At(0).Type()}))
		}), g, true
	case "strings.Cut":
		r := ip.spread(args, func(as []*Term) *Term {
			x, ok1 := as[0].str()
			y, ok2 := as[1].str()
			if ok1 && ok2 {
				b, a, ok := strings.Cut(x, y)
				return ip.Tuple(ip.Str(b), ip.Str(a), boolTerm(ip, ok))
			}
			return ip.result(name, as, 0, sig)
		})
		return r, g, true
	case "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimFunc":
		return ip.spread(args, func(as []*Term) *Term {
			x, ok1 := as[0].str()
			y, ok2 := as[1].str()
			if ok1 && ok2 {
				switch name {
				case "strings.Trim":
					return ip.Str(strings.Trim(x, y))
				case "strings.TrimLeft":
					return ip.Str(strings.TrimLeft(x, y))
				}
				return ip.Str(strings.TrimRight(x, y))
			}
			return mk(name, as...)
		}), g, true
	case "strings.Replace", "strings.ReplaceAll":
		return ip.spread(args, func(as []*Term) *Term {
			n := int64(-1)
			if name == "strings.Replace" {
				k, ok := as[3].int()
				if !ok {
					return mk(name, as...)
				}
				n = k
			}
			x, ok1 := as[0].str()
			y, ok2 := as[1].str()
			z, ok3 := as[2].str()
			if ok1 && ok2 && ok3 {
				return ip.Str(strings.Replace(x, y, z, int(n)))
			}
			if n < 0 {
				return mk("strings.ReplaceAll", as[:3]...)
			}
			return mk(name, as...)
		}), g, true
	case "strings.Join":
		return ip.spread([]*Term{ip.deref(st, args[0]), args[1]}, func(as []*Term) *Term {
			if l, ok := ip.listOf(as[0]); ok {
				var parts []*Term
				for i, x := range l {
					if i > 0 {
						parts = append(parts, as[1])
					}
					parts = append(parts, x)
				}
				return ip.Concat(parts...)
			}
			return mk(name, ip.resolve(as[0], st), as[1])
		}), g, true
	case "net/url.PathUnescape":
		if x, ok := args[0].str(); ok {
			if u, err := url.PathUnescape(x); err == nil {
				return ip.Tuple(ip.Str(u), ip.nilT), g, true
			}
			return ip.Tuple(ip.Str(""), ip.RootT("error of an escaped path", errType)), g, true
		}
	case "strings.Title":
		return un(strings.Title)
	case "strings.EqualFold":
		return ip.spread(args, func(as []*Term) *Term {
			x, ok1 := as[0].str()
			y, ok2 := as[1].str()
			if ok1 && ok2 {
				return boolTerm(ip, strings.EqualFold(x, y))
			}
			return ip.withFact(ip.intern(&Term{op: OCall, s: name, a: as, ty: types.Typ[types.Bool]}))
		}), g, true
	case "strings.Compare":
		return ip.spread(args, func(as []*Term) *Term {
			if as[0].isConst() && as[1].isConst() {
				x, _ := as[0].str()
				y, _ := as[1].str()
				return ip.Int(int64(strings.Compare(x, y)))
			}
			if as[0] == as[1] {
				return ip.Int(0)
			}
			return mk(name, as...)
		}), g, true
	case "strconv.Itoa":
		return ip.spread(args, func(as []*Term) *Term {
			if n, ok := as[0].int(); ok {
				return ip.Str(strconv.FormatInt(n, 10))
			}
			return mk(name, as[0])
		}), g, true
	case "path.Join":
		l, ok := ip.listOf(ip.deref(st, args[0]))
		if !ok {
			return nil, g, false
		}
		return ip.spread(l, func(as []*Term) *Term { return ip.pathJoin(as) }), g, true
	case "fmt.Sprintf":
		l, ok := ip.listOf(ip.deref(st, args[1]))
		if f, fok := args[0].str(); ok && fok {
			if t := ip.sprintf(f, l, st); t != nil {
				return t, g, true
			}
		}
		return nil, g, false
	case "fmt.Sprint":
		l, ok := ip.listOf(ip.deref(st, args[0]))
		if ok && len(l) == 1 {
			if t := ip.sprintf("%v", l, st); t != nil {
				return t, g, true
			}
		}
		return nil, g, false
	case "fmt.Errorf", "errors.New":
		var as []*Term
		for _, a := range args {
			as = append(as, ip.Simp(ip.resolve(a, st), g))
		}
		n := 0
		if name == "errors.New" {
			n = ip.ctx(fr.ctx, fmt.Sprintf("e%p", in))
		}
		return ip.intern(&Term{op: OCall, s: name, a: as, n: n, ty: errType}), g, true
	case "errors.Is", "os.IsNotExist", "os.IsExist":
		x := args[0]
		var y *Term
		switch name {
		case "errors.Is":
			y = ip.resolve(args[1], st)
		case "os.IsNotExist":
			y = ip.RootT("error io/fs.ErrNotExist", errType)
		default:
			y = ip.RootT("error io/fs.ErrExist", errType)
		}
		return ip.spread([]*Term{x, y}, func(as []*Term) *Term {
			if as[0].isNil() {
				return ip.Bool(ip.Eq(as[1], ip.nilT))
			}
			if as[0] == as[1] {
				return ip.trueT
			}
			a := ip.ToBDD(ip.withFact(ip.intern(&Term{op: OCall, s: "errors.Is", a: as, ty: types.Typ[types.Bool]})))
			return ip.Bool(ip.And(ip.Not(ip.Eq(as[0], ip.nilT)), a))
		}), g, true
	case "maps.Copy":
		src := ip.deref(st, args[1])
		if gl := globalCell(args[0]); gl != nil && !ip.anyIniting() {
			ip.effect(fr, "store", gl.s, args, st, g, posOf(in), nil, nil)
		}
		ip.modify(st, args[0], func(old *Term) *Term { return ip.mapMerge(old, src) })
		return nil, g, true
	case "maps.Clone":
		a := ip.intern(&Term{op: OAlloc, s: fmt.Sprintf("clone#%d", ip.ctx(fr.ctx, fmt.Sprintf("a%p", in))), ty: sig.Results().At(0).Type()})
		st.m[a] = ip.deref(st, args[0])
		return a, g, true
	case "slices.Clone":
		a := ip.intern(&Term{op: OAlloc, s: fmt.Sprintf("clone#%d", ip.ctx(fr.ctx, fmt.Sprintf("a%p", in))), ty: sig.Results().At(0).Type()})
		st.m[a] = ip.deref(st, args[0])
		return a, g, true
	case "slices.Sort", "sort.Strings", "sort.Ints":
		ip.modify(st, args[0], func(old *Term) *Term { return ip.sortConst(old) })
		return nil, g, true
	case "slices.SortFunc", "slices.SortStableFunc", "sort.Slice", "sort.SliceStable":
		p := args[0]
		if p.op == OIface {
			p = p.a[0]
		}
		f := ip.Simp(ip.resolve(args[1], st), g)
		st0 := st.clone()
		ip.modify(st, p, func(old *Term) *Term { return ip.sortKnown(fr, in, name, args[1], f, old, st0, g) })
		return nil, g, true
	case "slices.Reverse":
		ip.modify(st, args[0], func(old *Term) *Term {
			if l, ok := ip.listOf(old); ok {
				var r []*Term
				for i := len(l) - 1; i >= 0; i-- {
					r = append(r, l[i])
				}
				return ip.List(r...)
			}
			if old.op == OReversed {
				return old.a[0]
			}
			return ip.intern(&Term{op: OReversed, a: []*Term{old}, ty: old.ty})
		})
		return nil, g, true
	case "slices.Sorted":
		x := ip.resolve(args[0], st)
		if l := ip.keysOf(x, st); l != nil {
			r := ip.sortConst(l)
			r.ty = sig.Results().At(0).Type()
			return r, g, true
		}
		return ip.intern(&Term{op: OSorted, a: []*Term{x}, ty: sig.Results().At(0).Type()}), g, true
	case "slices.Collect":
		if l := ip.keysOf(ip.resolve(args[0], st), st); l != nil {
			l.ty = sig.Results().At(0).Type()
			return l, g, true
		}
	case "slices.Concat":
		l, ok := ip.listOf(ip.deref(st, args[0]))
		if !ok {
			return nil, g, false
		}
		r := ip.List()
		for _, x := range l {
			r = ip.Append(r, ip.deref(st, x))
		}
		return r, g, true
	case "slices.Grow", "slices.Clip":
		return args[0], g, true
	case "go/ast.Inspect":
		root := ip.Simp(ip.resolve(args[0], st), g)
		if root.op == OIface {
			root = root.a[0]
		}
		nodes := ip.intern(&Term{op: OCall, s: "ast.nodes", a: []*Term{root}})
		var nodeT types.Type
		if sig != nil {
			nodeT = sig.Params().At(0).Type()
		}
		info, _, g2 := ip.callback(fr, in, name, args[1], func(info *Loop) []*Term {
			info.domain = nodes
			return []*Term{ip.Elem(nodes, ip.intern(&Term{op: OIdx, loop: info, ty: types.Typ[types.Int]}), nodeT)}
		}, st, g)
		info.domain = nodes
		return nil, g2, true
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString":
		ip.store(st, ip.extend(args[0], "$text", nil, nil), ip.Concat(ip.builderText(st, args[0]), args[1]))
		return ip.Tuple(ip.Len(args[1]), ip.nilT), g, true
	case "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune":
		c := ip.intern(&Term{op: OCall, s: "string", a: []*Term{args[1]}, ty: str})
		if n, ok := args[1].int(); ok {
			c = ip.Str(string(rune(n)))
		}
		ip.store(st, ip.extend(args[0], "$text", nil, nil), ip.Concat(ip.builderText(st, args[0]), c))
		if strings.HasSuffix(name, "Rune") {
			return ip.Tuple(ip.Int(1), ip.nilT), g, true
		}
		return ip.nilT, g, true
	case "(*strings.Builder).String", "(*bytes.Buffer).String", "(*bytes.Buffer).Bytes":
		return ip.builderText(st, args[0]), g, true
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		return ip.Len(ip.builderText(st, args[0])), g, true
	case "(*strings.Builder).Grow":
		return nil, g, true
	case "(*sync.Once).Do":
		fn := args[1]
		_, g2 := ip.apply(fr, in, fn, nil, nil, st, g)
		return nil, g2, true
	case "(*regexp.Regexp).MatchString", "(*regexp.Regexp).FindAllString", "(*regexp.Regexp).FindString", "(*regexp.Regexp).ReplaceAllString":
		expr, ok := regexOf(ip.Simp(ip.resolve(args[0], st), g))
		sub, ok2 := ip.Simp(args[1], g).str()
		re, err := regexp.Compile(expr)
		if !ok || !ok2 || err != nil {
			break
		}
		switch name {
		case "(*regexp.Regexp).MatchString":
			return ip.Bool(boolBDD(re.MatchString(sub))), g, true
		case "(*regexp.Regexp).FindString":
			return ip.Str(re.FindString(sub)), g, true
		case "(*regexp.Regexp).FindAllString":
			if n, ok := args[2].int(); ok {
				l := re.FindAllString(sub, int(n))
				if l == nil {
					return ip.nilT, g, true
				}
				return ip.strList(l), g, true
			}
		case "(*regexp.Regexp).ReplaceAllString":
			if to, ok := args[2].str(); ok {
				return ip.Str(re.ReplaceAllString(sub, to)), g, true
			}
		}
	case "(*regexp.Regexp).ReplaceAllStringFunc":
		if expr, ok := regexOf(ip.Simp(ip.resolve(args[0], st), g)); ok {
			if sub, ok := ip.Simp(args[1], g).str(); ok {
				if re, err := regexp.Compile(expr); err == nil {
					var parts []*Term
					at := 0
					for _, m := range re.FindAllStringIndex(sub, -1) {
						parts = append(parts, ip.Str(sub[at:m[0]]))
						at = m[1]
						v, g2 := ip.apply(fr, in, args[2], []*Term{ip.Str(sub[m[0]:m[1]])}, nil, st, g)
						g = g2
						parts = append(parts, v)
					}
					return ip.Concat(append(parts, ip.Str(sub[at:]))...), g, true
				}
			}
		}
		if args[2].op == OClosure {
			m := ip.RootT("match", str)
			r, _ := ip.apply(fr, in, args[2], []*Term{m}, nil, st.clone(), g)
			re := ip.resolve(args[0], st)
			return mk(name, re, args[1], ip.Simp(r, g)), g, true
		}
	case "reflect.DeepEqual":
		x, y := ip.Simp(ip.resolve(args[0], st), g), ip.Simp(ip.resolve(args[1], st), g)
		return ip.Bool(ip.deepEqual(x, y, 0)), g, true
	}
	return nil, g, false
}

// keysOf are the keys of a known map that are given by maps.Keys.
func (ip *Interp) keysOf(x *Term, st *State) *Term {
	if x.op != OCall || x.s != "maps.Keys" || len(x.a) != 1 {
		return nil
	}
	ks, ok := constKeys(ip.deref(st, x.a[0]))
	if !ok {
		return nil
	}
	if ip.mapReverse {
		slices.Reverse(ks)
	}
	return ip.List(ks...)
}

// sortConst sorts a list of constants.
func (ip *Interp) sortConst(x *Term) *Term {
	if x.op == OGamma {
		return ip.mapGamma(x, ip.sortConst)
	}
	l, ok := ip.listOf(x)
	for _, e := range l {
		ok = ok && e.isConst() && l[0].isConst() && e.k.Kind() == l[0].k.Kind()
	}
	if !ok {
		return ip.sorted(x, nil)
	}
	l = append([]*Term{}, l...)
	slices.SortStableFunc(l, func(a, b *Term) int {
		if constant.Compare(a.k, token.LSS, b.k) {
			return -1
		}
		if a == b {
			return 0
		}
		return 1
	})
	r := ip.List(l...)
	if r.ty == nil {
		r.ty = x.ty
	}
	return r
}

// sortKnown sorts a list of known length by a function, if the order of its elements is known. Lists of up to twelve
// elements are sorted by insertion, so elements of the same rank keep their order.
func (ip *Interp) sortKnown(fr *frame, in ssa.CallInstruction, name string, fn, shown, old *Term, st *State, g BDD) *Term {
	if old.op == OGamma {
		return ip.mapGamma(old, func(x *Term) *Term { return ip.sortKnown(fr, in, name, fn, shown, x, st, g) })
	}
	l, ok := ip.listOf(old)
	if !ok || len(l) > 12 {
		return ip.sorted(old, shown)
	}
	if len(l) < 2 {
		return old
	}
	idx := make([]int, len(l))
	known := true
	less := func(a, b int) bool {
		if !known {
			return false
		}
		args := []*Term{l[a], l[b]}
		if strings.HasPrefix(name, "sort.") {
			args = []*Term{ip.Int(int64(a)), ip.Int(int64(b))}
		}
		n := len(ip.effects)
		r, _ := ip.apply(fr, in, fn, args, nil, st.clone(), g)
		ip.effects = ip.effects[:n]
		if r == nil {
			known = false
			return false
		}
		c := False
		if strings.HasPrefix(name, "sort.") {
			c = ip.decide(g, ip.ToBDD(r))
		} else {
			c = ip.decide(g, ip.Lt(r, ip.Int(0)))
		}
		if c != True && c != False {
			known = false
		}
		return c == True
	}
	for i := range idx {
		idx[i] = i
		for j := i; j > 0 && less(idx[j], idx[j-1]); j-- {
			idx[j], idx[j-1] = idx[j-1], idx[j]
		}
	}
	if !known {
		return ip.sorted(old, shown)
	}
	if !strings.Contains(name, "Stable") {
		// The order of elements that are equal is not defined: it is as bad as it can be.
		for i := 0; i < len(idx); {
			j := i + 1
			for j < len(idx) && !less(idx[j-1], idx[j]) {
				j++
			}
			slices.Reverse(idx[i:j])
			i = j
		}
		if !known {
			return ip.sorted(old, shown)
		}
	}
	var out []*Term
	for _, i := range idx {
		out = append(out, l[i])
	}
	r := ip.List(out...)
	if r.ty == nil {
		r.ty = old.ty
	}
	return r
}

// deepEqual is reflect.DeepEqual.
func (ip *Interp) deepEqual(x, y *Term, depth int) BDD {
	if x == y {
		return True
	}
	if x.op == OGamma {
		r := False
		for i, z := range x.a {
			r = ip.Or(r, ip.And(x.g[i], ip.deepEqual(z, y, depth)))
		}
		return r
	}
	if y.op == OGamma {
		return ip.deepEqual(y, x, depth)
	}
	if x.op == OIface && y.op == OIface {
		if !types.Identical(x.typ, y.typ) {
			return False
		}
		return ip.deepEqual(x.a[0], y.a[0], depth)
	}
	ty := x.ty
	for _, t := range []*Term{x, y} {
		if ty == nil && t.op == OZero {
			ty = t.typ
		}
		if ty == nil {
			ty = t.ty
		}
	}
	if ty != nil {
		if _, ok := ty.Underlying().(*types.Basic); ok {
			return ip.Eq(x, y)
		}
		if st, ok := isStruct(ty); ok && depth < 4 {
			r := True
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				r = ip.And(r, ip.deepEqual(ip.Sel(x, f.Name(), f.Type()), ip.Sel(y, f.Name(), f.Type()), depth+1))
				if r == False {
					break
				}
			}
			return r
		}
	}
	if x.isNil() && ip.nonNil(y) || y.isNil() && ip.nonNil(x) {
		return False
	}
	if x.op == OList && y.op == OList {
		if len(x.a) != len(y.a) {
			return False
		}
		r := True
		for i := range x.a {
			r = ip.And(r, ip.deepEqual(x.a[i], y.a[i], depth))
		}
		return r
	}
	if kx, ok := mapEntries(x); ok {
		if ky, ok := mapEntries(y); ok {
			if len(kx) != len(ky) {
				return False
			}
			r := True
			for k, v := range kx {
				w, ok := ky[k]
				if !ok {
					return False
				}
				r = ip.And(r, ip.deepEqual(v, w, depth))
			}
			return r
		}
	}
	if x.isConst() && y.isConst() {
		return ip.Eq(x, y)
	}
	if y.id < x.id {
		x, y = y, x
	}
	return ip.ToBDD(ip.withFact(ip.intern(&Term{op: OCall, s: "reflect.DeepEqual", a: []*Term{x, y}, ty: types.Typ[types.Bool]})))
}

// mapEntries are the entries of a map with constant keys.
func mapEntries(t *Term) (map[*Term]*Term, bool) {
	if t.op != OMapUpd && t.op != OMapEmpty {
		return nil, false
	}
	out := map[*Term]*Term{}
	for t.op == OMapUpd {
		if !t.a[1].isConst() {
			return nil, false
		}
		if _, ok := out[t.a[1]]; !ok {
			out[t.a[1]] = t.a[2]
		}
		t = t.a[0]
	}
	return out, t.op == OMapEmpty
}

func boolTerm(ip *Interp, b bool) *Term {
	if b {
		return ip.trueT
	}
	return ip.falseT
}

func (ip *Interp) builderText(st *State, p *Term) *Term {
	t := ip.load(st, ip.extend(p, "$text", nil, nil), types.Typ[types.String])
	if t.op == OFresh && strings.HasPrefix(t.s, "zero.$text") {
		return ip.Str("")
	}
	if t.op == OGamma {
		return ip.mapGamma(t, func(x *Term) *Term {
			if x.op == OFresh && strings.HasPrefix(x.s, "zero.$text") {
				return ip.Str("")
			}
			return x
		})
	}
	return t
}

func (ip *Interp) mapMerge(old, src *Term) *Term {
	if src.op == OMapEmpty || src.isNil() {
		return old
	}
	if old.op == OMapEmpty {
		return ip.intern(&Term{op: OMapMerge, a: []*Term{old, src}, ty: old.ty})
	}
	return ip.intern(&Term{op: OMapMerge, a: []*Term{old, src}, ty: old.ty})
}

func (ip *Interp) sorted(x, f *Term) *Term {
	if f == nil {
		return ip.intern(&Term{op: OSorted, a: []*Term{x}, ty: x.ty})
	}
	return ip.intern(&Term{op: OSorted, a: []*Term{x, f}, ty: x.ty})
}

func (ip *Interp) pathJoin(as []*Term) *Term {
	var out []*Term
	for _, a := range as {
		parts := []*Term{a}
		if a.op == OCall && a.s == "path.Join" {
			parts = a.a
		}
		for _, p := range parts {
			if s, ok := p.str(); ok {
				if s == "" {
					continue
				}
				if len(out) > 0 {
					if s0, ok := out[len(out)-1].str(); ok {
						out[len(out)-1] = ip.Str(path.Join(s0, s))
						continue
					}
				}
				if len(out) > 0 {
					s = path.Clean(s)
					if s == "." {
						continue
					}
				}
				p = ip.Str(s)
			}
			out = append(out, p)
		}
	}
	if len(out) == 1 {
		if s, ok := out[0].str(); ok {
			return ip.Str(path.Clean(s))
		}
	}
	return ip.withFact(ip.intern(&Term{op: OCall, s: "path.Join", a: out, ty: types.Typ[types.String]}))
}

// sprintf is fmt.Sprintf for the verbs whose result is the string or number itself.
func (ip *Interp) sprintf(f string, args []*Term, st *State) *Term {
	var parts []*Term
	lit := ""
	k := 0
	flush := func() {
		if lit != "" {
			parts = append(parts, ip.Str(lit))
			lit = ""
		}
	}
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		i++
		if i >= len(f) {
			return nil
		}
		if f[i] == '%' {
			lit += "%"
			continue
		}
		if k >= len(args) {
			return nil
		}
		a := args[k]
		k++
		flush()
		p := ip.verb(f[i], a, st)
		if p == nil {
			return nil
		}
		parts = append(parts, p)
	}
	flush()
	if k != len(args) {
		return nil
	}
	return ip.Concat(parts...)
}

func (ip *Interp) verb(v byte, a *Term, st *State) *Term {
	if a.op == OGamma {
		bad := false
		r := ip.mapGamma(a, func(x *Term) *Term {
			y := ip.verb(v, x, st)
			if y == nil {
				bad = true
				return ip.nilT
			}
			return y
		})
		if bad {
			return nil
		}
		return r
	}
	if a.op != OIface {
		return ip.intern(&Term{op: OCall, s: "fmt %" + string(v), a: []*Term{ip.resolve(a, st)}, ty: types.Typ[types.String]})
	}
	b, ok := a.typ.Underlying().(*types.Basic)
	if ok && b.Info()&types.IsString != 0 && (v == 's' || v == 'v') && !hasMethod(a.typ, "String") && !hasMethod(a.typ, "Error") {
		return a.a[0]
	}
	if ok && b.Info()&types.IsInteger != 0 && (v == 'd' || v == 'v') && !hasMethod(a.typ, "String") {
		if n, ok := a.a[0].int(); ok {
			return ip.Str(strconv.FormatInt(n, 10))
		}
		return ip.withFact(ip.intern(&Term{op: OCall, s: "strconv.Itoa", a: []*Term{a.a[0]}, ty: types.Typ[types.String]}))
	}
	if ok && v == 'q' && b.Info()&types.IsString != 0 {
		if s, ok := a.a[0].str(); ok {
			return ip.Str(strconv.Quote(s))
		}
		return ip.intern(&Term{op: OCall, s: "strconv.Quote", a: []*Term{a.a[0]}, ty: types.Typ[types.String]})
	}
	return ip.intern(&Term{op: OCall, s: "fmt %" + string(v), a: []*Term{ip.resolve(a.a[0], st)}, ty: types.Typ[types.String]})
}

func hasMethod(t types.Type, name string) bool {
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, name)
	_, ok := o.(*types.Func)
	return ok
}
