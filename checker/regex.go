package main

import (
	"fmt"
	"regexp/syntax"
	"sort"
	"strings"
)

// Equivalence of regular expressions: the matches that begin at a position of a text have the same ends, for every text.
// Both programs are made deterministic with ordered threads (leftmost-first), and the product is searched for a state in
// which they differ.

type reProg struct {
	p *syntax.Prog
}

func compileRE(expr string) (*reProg, error) {
	re, err := syntax.Parse(expr, syntax.Perl)
	if err != nil {
		return nil, err
	}
	p, err := syntax.Compile(re.Simplify())
	if err != nil {
		return nil, err
	}
	for i := range p.Inst {
		if p.Inst[i].Op == syntax.InstEmptyWidth {
			return nil, fmt.Errorf("it looks around")
		}
	}
	return &reProg{p}, nil
}

// closure follows the instructions that read nothing. Threads after a match are cut off.
func (r *reProg) closure(pcs []uint32) (out []uint32, match bool) {
	seen := map[uint32]bool{}
	var rec func(pc uint32) bool
	rec = func(pc uint32) bool {
		if seen[pc] {
			return false
		}
		seen[pc] = true
		in := &r.p.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			return rec(in.Out) || rec(in.Arg)
		case syntax.InstCapture, syntax.InstNop:
			return rec(in.Out)
		case syntax.InstMatch:
			match = true
			return true
		case syntax.InstFail:
			return false
		}
		out = append(out, pc)
		return false
	}
	for _, pc := range pcs {
		if rec(pc) {
			break
		}
	}
	return
}

func (r *reProg) step(pcs []uint32, c rune) []uint32 {
	var out []uint32
	for _, pc := range pcs {
		in := &r.p.Inst[pc]
		if in.MatchRune(c) {
			out = append(out, in.Out)
		}
	}
	return out
}

// sampleRunes has one rune of every class that the programs tell apart.
func sampleRunes(ps ...*reProg) []rune {
	cuts := map[rune]bool{0: true}
	for _, p := range ps {
		for i := range p.p.Inst {
			in := &p.p.Inst[i]
			rs := in.Rune
			if in.Op == syntax.InstRuneAnyNotNL {
				rs = []rune{'\n'}
			}
			if in.Op == syntax.InstRuneAny {
				continue
			}
			for k := 0; k < len(rs); k++ {
				cuts[rs[k]] = true
				cuts[rs[k]+1] = true
			}
			if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
				for c := rune(0); c < 0x250; c++ { // letters of which the case is ignored
					cuts[c] = true
				}
			}
		}
	}
	var out []rune
	for c := range cuts {
		if c >= 0 && c <= 0x10FFFF {
			out = append(out, c)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// regexEqual: two expressions find the same matches. If not, it gives a text.
func regexEqual(a, b string) (bool, string) {
	pa, err := compileRE(a)
	if err != nil {
		return a == b, err.Error()
	}
	pb, err := compileRE(b)
	if err != nil {
		return a == b, err.Error()
	}
	runes := sampleRunes(pa, pb)
	type st struct {
		a, b []uint32
		text string
	}
	key := func(s st) string { return fmt.Sprint(s.a, "|", s.b) }
	seen := map[string]bool{}
	start := st{[]uint32{uint32(pa.p.Start)}, []uint32{uint32(pb.p.Start)}, ""}
	work := []st{start}
	for len(work) > 0 {
		s := work[0]
		work = work[1:]
		ca, ma := pa.closure(s.a)
		cb, mb := pb.closure(s.b)
		if ma != mb {
			return false, s.text
		}
		s.a, s.b = ca, cb
		k := key(s)
		if seen[k] {
			continue
		}
		seen[k] = true
		if len(seen) > 20000 {
			return a == b, "too many states"
		}
		for _, c := range runes {
			na, nb := pa.step(ca, c), pb.step(cb, c)
			if len(na) == 0 && len(nb) == 0 {
				continue
			}
			work = append(work, st{na, nb, s.text + string(c)})
		}
	}
	return true, ""
}

// regexOf is the expression of a compiled regular expression.
func regexOf(t *Term) (string, bool) {
	if t != nil && t.op == ORes {
		t = t.a[0]
	}
	if t == nil || t.op != OCall || !strings.HasPrefix(t.s, "regexp.") || strings.Contains(t.s, "POSIX") || len(t.a) != 1 {
		return "", false
	}
	return t.a[0].str()
}
