package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	dump := flag.String("dump", "", "function to show the analysis of")
	root := flag.String("repo", "/repo", "repository")
	prop := flag.String("prop", "", "property to decide, or all")
	out := flag.String("out", "/verif", "directory of the evidence")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "tier")
	prof := flag.String("cpuprofile", "", "file for a profile of the checker")
	flag.Parse()
	if *prof != "" {
		f, err := os.Create(*prof)
		if err == nil {
			pprof.StartCPUProfile(f)
			go func() {
				time.Sleep(40 * time.Second)
				pprof.StopCPUProfile()
				f.Close()
				buf := make([]byte, 1<<20)
				fmt.Println(string(buf[:runtime.Stack(buf, true)]))
				os.Exit(3)
			}()
		}
	}
	t := time.Now()
	p, err := loadProgram(*root)
	if *prop != "" {
		code := 0
		var ids []string
		if *prop == "all" {
			for id := range allRules {
				ids = append(ids, id)
			}
			sort.Strings(ids)
		} else {
			ids = strings.Split(*prop, ",")
		}
		for _, id := range ids {
			if c := runRule(p, err, id, *root, *out, *tier, t); c > code {
				code = c
			}
			t = time.Now()
		}
		os.Exit(code)
	}
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if *dump != "" {
		dumpFn(p, *dump)
	}
	fmt.Println(time.Since(t))
}

func findFn(p *Program, name string) *ssa.Function {
	for _, pk := range p.Pkgs {
		for _, f := range p.funcsOf(p.Prog.Package(pk.Types)) {
			if fnName(f) == name {
				return f
			}
		}
	}
	return nil
}

func dumpFn(p *Program, name string) {
	f := findFn(p, name)
	if f == nil {
		fmt.Println("no such function; have:")
		for _, pk := range p.Pkgs {
			for _, f := range p.funcsOf(p.Prog.Package(pk.Types)) {
				fmt.Println("  ", fnName(f))
			}
		}
		return
	}
	ip := newInterp(p)
	res, st, g := ip.evalFunc(f, nil, nil, newState(), True, 0, nil)
	for _, e := range ip.effects {
		fmt.Printf("%3d %s %s %s\n", e.Seq, e.Kind, e.Name, ip.pos(e.Pos))
		for _, a := range e.Args {
			fmt.Println("       arg", ip.Show(a))
		}
		for _, l := range e.Loops {
			fmt.Println("       loop", l.id, ip.pos(l.pos), ip.Show(l.domain))
		}
		fmt.Println("       if", ip.ShowG(e.Guard))
	}
	for _, l := range ip.loops {
		fmt.Println("loop", l.id, ip.pos(l.pos), "over", ip.Show(l.domain), "cond", ip.ShowG(l.cond))
		for n, v := range l.vars {
			fmt.Println("   var", n, "init", ip.Show(v.init), "step", ip.Show(v.step))
		}
		for k, c := range l.exits {
			fmt.Println("   exit", k, ip.ShowG(c))
		}
	}
	fmt.Println("returns if", ip.ShowG(g))
	for i, r := range res {
		if r != nil {
			fmt.Println("  result", i, ip.Show(ip.Simp(ip.resolve(r, st), g)))
		}
	}
	for c, v := range st.m {
		if c.op != OAlloc {
			fmt.Println("  state", ip.Show(c), "=", ip.Show(v))
		}
	}
	fmt.Println("blocks", ip.nblocks, "calls", ip.ncalls, "terms", ip.nterm, "nodes", len(ip.nodes), "loops", len(ip.loops))
}
