package main

// Reduced ordered binary decision diagrams: the canonical form of every guard
// (the condition under which a block, an effect or a merged value is reached).

type BDD int32

const (
	False BDD = 0
	True  BDD = 1
)

type bddNode struct {
	v      int32 // variable, ordered by creation
	lo, hi BDD
}

type bddKey struct {
	v      int32
	lo, hi BDD
}

type iteKey struct{ f, g, h BDD }

type bddMgr struct {
	limit  int // of nodes, if there is one
	nodes  []bddNode
	unique map[bddKey]BDD
	iteC   map[iteKey]BDD
	resC   map[[2]BDD]BDD
	over   bool
}

const bddTerminal = int32(1 << 30)

func newBDD() *bddMgr {
	m := &bddMgr{unique: map[bddKey]BDD{}, iteC: map[iteKey]BDD{}, resC: map[[2]BDD]BDD{}}
	m.nodes = append(m.nodes, bddNode{v: bddTerminal}, bddNode{v: bddTerminal})
	return m
}

func (m *bddMgr) mk(v int32, lo, hi BDD) BDD {
	if lo == hi {
		return lo
	}
	k := bddKey{v, lo, hi}
	if r, ok := m.unique[k]; ok {
		return r
	}
	r := BDD(len(m.nodes))
	if m.limit > 0 && len(m.nodes) > m.limit {
		panic(undecided{"the conditions are too large"})
	}
	m.nodes = append(m.nodes, bddNode{v, lo, hi})
	m.unique[k] = r
	return r
}

func (m *bddMgr) Var(v int) BDD { return m.mk(int32(v), False, True) }

func (m *bddMgr) ite(f, g, h BDD) BDD {
	switch {
	case f == True:
		return g
	case f == False:
		return h
	case g == h:
		return g
	case g == True && h == False:
		return f
	}
	k := iteKey{f, g, h}
	if r, ok := m.iteC[k]; ok {
		return r
	}
	v := m.nodes[f].v
	if m.nodes[g].v < v {
		v = m.nodes[g].v
	}
	if m.nodes[h].v < v {
		v = m.nodes[h].v
	}
	f0, f1 := m.cof(f, v)
	g0, g1 := m.cof(g, v)
	h0, h1 := m.cof(h, v)
	r := m.mk(v, m.ite(f0, g0, h0), m.ite(f1, g1, h1))
	m.iteC[k] = r
	return r
}

func (m *bddMgr) cof(f BDD, v int32) (BDD, BDD) {
	n := m.nodes[f]
	if n.v == v {
		return n.lo, n.hi
	}
	return f, f
}

func (m *bddMgr) And(a, b BDD) BDD { return m.ite(a, b, False) }
func (m *bddMgr) Or(a, b BDD) BDD  { return m.ite(a, True, b) }
func (m *bddMgr) Not(a BDD) BDD    { return m.ite(a, False, True) }

// Implies reports whether a entails b.
func (m *bddMgr) Implies(a, b BDD) bool { return m.ite(a, m.Not(b), False) == False }

// Restrict simplifies f using care as the set of valuations that matter.
func (m *bddMgr) Restrict(f, care BDD) BDD {
	if care == True || f == True || f == False {
		return f
	}
	if care == False {
		return False
	}
	if f == care {
		return True
	}
	k := [2]BDD{f, care}
	if r, ok := m.resC[k]; ok {
		return r
	}
	fv, cv := m.nodes[f].v, m.nodes[care].v
	var r BDD
	switch {
	case cv < fv:
		n := m.nodes[care]
		r = m.Restrict(f, m.Or(n.lo, n.hi))
	default:
		f0, f1 := m.cof(f, fv)
		c0, c1 := m.cof(care, fv)
		switch {
		case c0 == False:
			r = m.Restrict(f1, c1)
		case c1 == False:
			r = m.Restrict(f0, c0)
		default:
			r = m.mk(fv, m.Restrict(f0, c0), m.Restrict(f1, c1))
		}
	}
	m.resC[k] = r
	return r
}

// Exists removes variable v from f by existential quantification.
func (m *bddMgr) Exists(f BDD, keep func(v int) bool) BDD {
	memo := map[BDD]BDD{}
	var rec func(BDD) BDD
	rec = func(f BDD) BDD {
		if f == True || f == False {
			return f
		}
		if r, ok := memo[f]; ok {
			return r
		}
		n := m.nodes[f]
		lo, hi := rec(n.lo), rec(n.hi)
		var r BDD
		if keep(int(n.v)) {
			r = m.ite(m.Var(int(n.v)), hi, lo)
		} else {
			r = m.Or(lo, hi)
		}
		memo[f] = r
		return r
	}
	return rec(f)
}

// Support returns the variables f depends on.
func (m *bddMgr) Support(f BDD) []int {
	seen := map[BDD]bool{}
	vars := map[int]bool{}
	var out []int
	var rec func(BDD)
	rec = func(f BDD) {
		if f == True || f == False || seen[f] {
			return
		}
		seen[f] = true
		n := m.nodes[f]
		if !vars[int(n.v)] {
			vars[int(n.v)] = true
			out = append(out, int(n.v))
		}
		rec(n.lo)
		rec(n.hi)
	}
	rec(f)
	return out
}
