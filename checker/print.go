package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// Rendering of values and guards, for reports.

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (in *In) Show(t *Term) string { return in.show(t, 12) }

func (in *In) show(t *Term, d int) string {
	if t == nil {
		return "_"
	}
	if d == 0 {
		return "…"
	}
	sub := func(x *Term) string { return in.show(x, d-1) }
	list := func(ts []*Term) string {
		var ss []string
		for _, x := range ts {
			ss = append(ss, sub(x))
		}
		return strings.Join(ss, ", ")
	}
	switch t.op {
	case OConst:
		return t.k.String()
	case ONil:
		return "nil"
	case OBool:
		return "⟨" + in.ShowG(t.b) + "⟩"
	case OZero:
		return shortType(t.typ) + "{}"
	case ORoot:
		return t.s
	case OSel:
		return sub(t.a[0]) + "." + t.s
	case OElem:
		return sub(t.a[0]) + "[" + sub(t.a[1]) + "]"
	case OIdx:
		return "#" + strconv.Itoa(t.loop.id)
	case OKey:
		return "key" + strconv.Itoa(t.loop.id)
	case OLookup:
		return sub(t.a[0]) + "[" + sub(t.a[1]) + "]"
	case OAssert:
		return sub(t.a[0]) + ".(" + shortType(t.typ) + ")"
	case OCall:
		s := t.s
		if t.n != 0 {
			s += "@" + strconv.Itoa(t.n)
		}
		return s + "(" + list(t.a) + ")"
	case ORes:
		return sub(t.a[0]) + "!" + strconv.Itoa(t.n)
	case OBin:
		return "(" + sub(t.a[0]) + t.s + sub(t.a[1]) + ")"
	case OConcat:
		var ss []string
		for _, x := range t.a {
			ss = append(ss, sub(x))
		}
		return "(" + strings.Join(ss, " ++ ") + ")"
	case OGamma:
		var ss []string
		for i, x := range t.a {
			ss = append(ss, "["+in.ShowG(t.g[i])+"]→"+sub(x))
		}
		return "{" + strings.Join(ss, " | ") + "}"
	case OStruct:
		var ss []string
		for i, n := range t.names {
			ss = append(ss, n+": "+sub(t.a[i+1]))
		}
		return sub(t.a[0]) + "{" + strings.Join(ss, ", ") + "}"
	case OList:
		return "[" + list(t.a) + "]"
	case OAppend:
		return "append(" + list(t.a) + ")"
	case OSpread:
		return "append(" + sub(t.a[0]) + ", " + sub(t.a[1]) + "...)"
	case OUpd, OMapUpd:
		return sub(t.a[0]) + "[" + sub(t.a[1]) + ":=" + sub(t.a[2]) + "]"
	case OSlice:
		return sub(t.a[0]) + "[" + sub(t.a[1]) + ":" + sub(t.a[2]) + "]"
	case OMapEmpty:
		return "map{}"
	case OMapDel:
		return "delete(" + list(t.a) + ")"
	case OMapMerge:
		return "merge(" + list(t.a) + ")"
	case OLoopVar:
		return "loop" + strconv.Itoa(t.loop.id) + "<" + t.s + ">"
	case OClosure:
		return "func " + fnName(t.fn) + "(" + list(t.a) + ")"
	case OAlloc:
		return "&" + t.s
	case OAddr:
		s := "&" + sub(t.a[0])
		k := 1
		for _, n := range t.names {
			if n == "[]" {
				s += "[" + sub(t.a[k]) + "]"
				k++
			} else {
				s += "." + n
			}
		}
		return s
	case OGlobal:
		return "&" + t.s
	case OIface:
		return "iface<" + shortType(t.typ) + ">(" + sub(t.a[0]) + ")"
	case OTuple:
		return "(" + list(t.a) + ")"
	case OFresh:
		return "?" + t.s
	case OAtomEq:
		return sub(t.a[0]) + "==" + sub(t.a[1])
	case OAtomLt:
		return sub(t.a[0]) + "<" + sub(t.a[1])
	case OAtomIs:
		return sub(t.a[0]) + " is " + shortType(t.typ)
	case OAtomOk:
		return sub(t.a[1]) + " in " + sub(t.a[0])
	case OAtomEx:
		return "ex" + strconv.Itoa(t.loop.id) + "(" + t.s + ")"
	case OAtomNext:
		return "next" + strconv.Itoa(t.loop.id)
	case OAtomVal:
		return sub(t.a[0])
	case OSorted:
		return "sorted(" + list(t.a) + ")"
	case OReversed:
		return "reversed(" + list(t.a) + ")"
	}
	return fmt.Sprintf("op%d", t.op)
}

// ShowG renders a guard as a disjunction of paths of its decision diagram.
func (in *In) ShowG(g BDD) string {
	if g == True {
		return "true"
	}
	if g == False {
		return "false"
	}
	var out []string
	n := 0
	var rec func(g BDD, lits []string)
	rec = func(g BDD, lits []string) {
		if n > 6 {
			return
		}
		if g == False {
			return
		}
		if g == True {
			n++
			if n > 6 {
				out = append(out, "…")
				return
			}
			out = append(out, strings.Join(lits, " ∧ "))
			return
		}
		nd := in.nodes[g]
		a := in.show(in.atoms[nd.v], 6)
		rec(nd.hi, append(append([]string{}, lits...), a))
		rec(nd.lo, append(append([]string{}, lits...), "¬"+a))
	}
	rec(g, nil)
	return strings.Join(out, " ∨ ")
}
