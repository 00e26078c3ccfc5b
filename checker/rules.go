package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A rule decides one property by analysing entry points of the repository under the assumptions of scenarios and
// comparing what the analysis says about their effects and results with what the property requires.

type Rule struct {
	ID        string
	What      string   // the rule that is applied
	Min       int      // obligations that are there at least
	Assume    []string // what is assumed
	NotCovers string   // what the rule does not decide
	Run       func(c *Ctx)
}

var allRules = map[string]*Rule{}

func register(r *Rule) { allRules[r.ID] = r }

type Finding struct {
	Key  string // rule and construct, without lines
	Pos  string
	Text string
}

type Ctx struct {
	orders    bool // only compare the documents for different orders
	decided   int
	shared    func(r *Run) // only compare the documents of a service alone and after another one
	before    []ftype      // components of a service that is generated first
	watch     func(r *Run) // sees the operations that can fail
	p         *Program
	id        string
	tier      string
	findings  []Finding
	obls      int
	good      int
	samples   []string
	kinds     map[string]int
	fns       map[string]bool
	runs      int
	effects   int
	blocks    int
	loops     int
	calls     int
	terms     int
	entry     map[string]int
	seenNames map[string]bool
}

// ok records an obligation.
func (c *Ctx) ok(cond bool, key string, pos string, f string, args ...any) bool {
	c.obls++
	k := key
	if i := strings.Index(k, ":"); i >= 0 {
		k = k[:i]
	}
	c.kinds[k]++
	c.note(key)
	if cond {
		c.good++
		if c.kinds[k] <= 3 {
			c.samples = append(c.samples, strings.TrimSpace(key+" "+pos))
		}
		return true
	}
	for _, x := range c.findings {
		if x.Key == key && x.Pos == pos {
			return false
		}
	}
	c.findings = append(c.findings, Finding{Key: key, Pos: pos, Text: fmt.Sprintf(f, args...)})
	return false
}

func (c *Ctx) fail(key, pos, f string, args ...any) { c.ok(false, key, pos, f, args...) }

// stop gives up on the rest of a scenario: what is needed to decide it is not there.
func stop(f string, args ...any) { panic(undecided{fmt.Sprintf(f, args...)}) }

// scenario runs one part of a rule.
func (c *Ctx) scenario(name string, f func()) {
	if os.Getenv("ASTRACHECK_DEBUG") != "" {
		t := time.Now()
		fmt.Println("  begin", name)
		defer func() { fmt.Println("  end", name, time.Since(t)) }()
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(sameDone); ok {
				return
			}
			if u, ok := r.(undecided); ok {
				c.fail("undecided: "+name, "", "%s: %s", name, u.msg)
				return
			}
			c.fail("undecided: "+name, "", "%s: the analysis failed: %v", name, r)
			if os.Getenv("ASTRACHECK_DEBUG") != "" {
				debug.PrintStack()
			}
		}
	}()
	f()
}

// method finds a method of the repository.
func (c *Ctx) method(rel, typ, name string) *ssa.Function {
	f := c.p.method(rel, typ, name)
	if f == nil {
		stop("there is no method %s.%s in %q", typ, name, rel)
	}
	return f
}

func (c *Ctx) fn(rel, name string) *ssa.Function {
	f := c.p.fn(rel, name)
	if f == nil {
		stop("there is no function %s in %q", name, rel)
	}
	return f
}

func (c *Ctx) typ(rel, name string) types.Type {
	t := c.p.typ(rel, name)
	if t == nil {
		stop("there is no type %s in %q", name, rel)
	}
	return t
}

// Run is one analysis of an entry point.
type Run struct {
	*Interp
	c    *Ctx
	fn   *ssa.Function
	res  []*Term
	st   *State
	ret  BDD
	fr   *frame
	nfr  int
	cnt0 int
}

func (c *Ctx) begin(setup func(r *Run)) *Run {
	r := &Run{Interp: newInterp(c.p), c: c}
	r.st = newState()
	r.wantIdx = c.watch != nil
	if setup != nil {
		setup(r)
	}
	return r
}

// initial: the variables of a package have what the initialisation leaves in them.
func (r *Run) initial(rel string) {
	for k, v := range r.initState(r.c.p.pkg(rel)).m {
		if _, ok := r.st.m[k]; !ok {
			r.st.m[k] = v
		}
	}
}

// run analyses a function with the given arguments.
func (c *Ctx) run(fn *ssa.Function, args []*Term, setup func(r *Run)) *Run {
	r := c.begin(setup)
	r.eval(fn, args)
	return r
}

func (r *Run) eval(fn *ssa.Function, args []*Term) {
	if fn == nil {
		stop("an entry point is missing")
	}
	if fn.Blocks == nil {
		stop("%s has no body", fnName(fn))
	}
	r.fn = fn
	c := r.c
	c.runs++
	if c.entry == nil {
		c.entry = map[string]int{}
	}
	c.entry[fnName(fn)]++
	r.nfr++
	st := r.st
	res, st2, g := r.evalFunc(fn, args, nil, st, True, r.ctx(0, fmt.Sprintf("root %d", r.nfr)), nil)
	r.res, r.ret = res, g
	if st2 != nil {
		r.st = st2
	}
	r.account()
}

func (r *Run) account() {
	c := r.c
	if c.watch != nil {
		c.watch(r)
	}
	for f := range r.inlined {
		c.fns[fnName(f)] = true
	}
	c.effects += len(r.effects)
	c.loops += len(r.loops)
	c.blocks += r.nblocks
	c.calls += r.ncalls
	c.terms += r.nterm
	r.nblocks, r.ncalls = 0, 0
}

// applyTerm analyses a call of a function value after the entry point returned.
func (r *Run) applyTerm(f *Term, args ...*Term) *Term {
	r.nfr++
	if r.fr == nil {
		r.fr = &frame{ctx: r.ctx(0, "rule"), env: map[ssa.Value]*Term{}}
	}
	r.fr.ctx = r.ctx(0, fmt.Sprintf("rule %d", r.nfr))
	res, g := r.apply(r.fr, nil, f, args, nil, r.st, True)
	r.ret = g
	r.account()
	switch {
	case res == nil:
		r.res = nil
	case res.op == OTuple:
		r.res = res.a
	default:
		r.res = []*Term{res}
	}
	return res
}

// must: whenever g, f.
func (r *Run) must(g, f BDD) bool {
	if g == False {
		return true
	}
	return r.And(g, r.Not(f)) == False || r.decide(g, f) == True || r.sat(r.And(g, r.Not(f))) == False
}

// never: g and f exclude each other.
func (r *Run) never(g, f BDD) bool { return r.must(g, r.Not(f)) }

// sat is False if a condition contradicts what is known about its atoms.
func (r *Run) sat(g BDD) BDD {
	if g == False {
		return False
	}
	return r.decide(True, r.strengthen(g, g))
}

// out is a result of the entry point with everything resolved.
func (r *Run) out(i int) *Term {
	if i >= len(r.res) || r.res[i] == nil {
		return nil
	}
	return r.Simp(r.resolve(r.res[i], r.st), r.ret)
}

// at is what is at an access path after the run.
func (r *Run) at(ptr *Term, path ...string) *Term {
	t := ptr
	v := r.deref(r.st, t)
	for _, f := range path {
		v = r.Sel(v, f, nil)
		v = r.deref(r.st, v)
	}
	return r.Simp(r.resolve(v, r.st), r.ret)
}

func (r *Run) where(e *Effect) string {
	return r.pos(e.Pos)
}

// errOf is the error an effect may return.
func errOf(e *Effect) *Term {
	if e.Sig == nil {
		return nil
	}
	n := e.Sig.Results().Len()
	if n == 0 || !types.Identical(e.Sig.Results().At(n-1).Type(), errType) {
		return nil
	}
	if e.Result == nil {
		return nil
	}
	if n == 1 {
		return e.Result
	}
	if e.Result.op == OTuple && len(e.Result.a) == n {
		return e.Result.a[n-1]
	}
	return nil
}

// chainUp goes from a condition in an iteration to what is known after the loops around it: some iteration leaves the
// loop early. It returns False if that is not certain, together with the conditions of the iterations.
func (r *Run) chainUp(k BDD, loops []*Loop) (after BDD, within BDD, ok bool) {
	cond := k
	within = k
	for i := len(loops) - 1; i >= 0; i-- {
		l := loops[i]
		// The iteration is the one that leaves the loop, by one of the exits.
		all := False
		any := False
		rest := True
		ats := False
		for name, c := range l.exits {
			if !strings.HasPrefix(name, "exit ") {
				continue
			}
			at := r.ToBDD(r.intern(&Term{op: OAtomEx, loop: l, s: name}))
			if r.never(cond, c) {
				rest = r.And(rest, r.Not(at))
				continue
			}
			any = r.And(any, r.Not(at))
			any = r.Or(any, r.And(at, r.And(c, r.Not(ats))))
			all = r.Or(all, c)
			ats = r.Or(ats, at)
		}
		any = r.And(any, rest)
		if !r.must(cond, all) {
			return False, within, false
		}
		cond = r.And(any, l.entry)
		within = r.And(within, any)
	}
	return cond, within, true
}

func stackNames(e *Effect) string {
	var s []string
	for _, f := range e.Stack {
		s = append(s, fnName(f))
	}
	return strings.Join(s, " < ")
}

func (r *Run) byName(name string) []*Effect {
	var out []*Effect
	for _, e := range r.effects {
		if e.Name == name {
			out = append(out, e)
		}
	}
	return out
}

func (r *Run) pick(f func(e *Effect) bool) []*Effect {
	var out []*Effect
	for _, e := range r.effects {
		if f(e) {
			out = append(out, e)
		}
	}
	return out
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Reports

type evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int            `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions"`
	WallS       float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

type known struct{ prop, key, what string }

func knownFindings(dir string) []known {
	b, err := os.ReadFile(filepath.Join(dir, "KNOWN_FINDINGS"))
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		parts := strings.SplitN(strings.TrimPrefix(l, "finding: property="), " | ", 3)
		if len(parts) == 3 {
			out = append(out, known{strings.TrimSpace(parts[0]), strings.TrimSpace(parts[1]), strings.TrimSpace(parts[2])})
		}
	}
	return out
}

func runRule(p *Program, loadErr error, id, root, out, tier string, start time.Time) int {
	rule := allRules[id]
	if rule == nil {
		fmt.Println("no rule", id)
		return 2
	}
	c := &Ctx{p: p, id: id, tier: tier, kinds: map[string]int{}, fns: map[string]bool{}}
	if loadErr != nil {
		c.fail("load: the repository", "", "the repository cannot be analysed: %v", loadErr)
	} else {
		c.scenario(id, func() { rule.Run(c) })
		if c.obls < rule.Min {
			c.fail("coverage: too few obligations", "", "only %d obligations were found where there are at least %d", c.obls, rule.Min)
		}
	}
	sort.SliceStable(c.findings, func(i, j int) bool { return c.findings[i].Key < c.findings[j].Key })
	var viol []Finding
	seenKnown := map[string]bool{}
	for _, f := range c.findings {
		isKnown := false
		for _, k := range knownFindings(out) {
			if k.prop == id && k.key == f.Key {
				isKnown = true
				if !seenKnown[k.key] {
					fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, k.key, k.what)
				}
				seenKnown[k.key] = true
			}
		}
		if !isKnown {
			viol = append(viol, f)
		}
	}
	var fns []string
	for f := range c.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	seed := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	if tier == "" {
		tier = "quick"
	}
	cov := map[string]any{
		"explanation":        "static value-flow analysis (abstract interpretation over the type-checked SSA form, all paths merged under guards, loops by a generic iteration); rule: " + rule.What,
		"rule":               rule.What,
		"obligations":        c.obls,
		"discharged":         c.good,
		"obligation_kinds":   c.kinds,
		"entry_points":       c.entry,
		"functions_analysed": fns,
		"analysis_runs":      c.runs,
		"basic_blocks":       c.blocks,
		"inlined_calls":      c.calls,
		"effects":            c.effects,
		"loops":              c.loops,
		"samples":            c.samples,
		"findings":           c.findings,
	}
	if rule.NotCovers != "" {
		cov["not_covered"] = rule.NotCovers
	}
	ev := evidence{Property: id, Tier: tier, Seed: seed, Level: "other", Coverage: cov,
		Assumptions: append([]string{"the Go type checker and the SSA construction of x/tools are right", "models of the standard library and of third-party packages in checker/models.go"}, rule.Assume...),
		WallS:       time.Since(start).Seconds(), Violations: len(viol)}
	dir := filepath.Join(out, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	evp := filepath.Join(dir, id+".json")
	if err := os.WriteFile(evp, append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	for _, f := range viol {
		fmt.Printf("  %s %s\n      %s\n", f.Key, f.Pos, f.Text)
	}
	fmt.Printf("%s: %d of %d obligations hold, %d functions analysed in %d runs, %.1fs\n", id, c.good, c.obls, len(c.fns), c.runs, time.Since(start).Seconds())
	if len(viol) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, evp)
		return 1
	}
	return 0
}

var _ = token.NoPos

func ptrTo(t types.Type) types.Type { return types.NewPointer(t) }

// note remembers which calls the obligations were about.
func (c *Ctx) note(key string) {
	if c.seenNames == nil {
		c.seenNames = map[string]bool{}
	}
	parts := strings.Split(key, ": ")
	for _, p := range parts[1:] {
		c.seenNames[parts[0]+" "+p] = true
	}
}

// calleesOf are the functions that a function calls or refers to.
func calleesOf(f *ssa.Function) []string {
	var out []string
	var rands []*ssa.Value
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
				out = append(out, canonName(short(ci.Common().Method.FullName())))
			}
			rands = in.Operands(rands[:0])
			for _, o := range rands {
				if *o == nil {
					continue
				}
				if g, ok := (*o).(*ssa.Function); ok {
					out = append(out, canonName(fnName(g)))
				}
			}
		}
	}
	return out
}
