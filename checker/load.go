package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

const modulePath = "github.com/ls6-events/astra"

// Program is the type-checked program and its SSA form.
type Program struct {
	Root    string
	Pkgs    []*packages.Package          // packages of the repository
	ByPath  map[string]*packages.Package // every package, also dependencies
	Prog    *ssa.Program
	Funcs   int
	built   map[*ssa.Package]bool
	mutated map[*ssa.Global]bool
}

func inModule(path string) bool {
	return path == modulePath || strings.HasPrefix(path, modulePath+"/")
}

// excluded packages are not part of the product.
func excluded(path string) bool {
	return strings.HasPrefix(path, modulePath+"/tests") || strings.HasPrefix(path, modulePath+"/examples") ||
		strings.Contains(path, "/testfiles") || strings.Contains(path, "petstore")
}

// loadProgram loads every package of the repository (the library and the CLI, a module of its own)
// in one type universe, from the current source.
func loadProgram(root string) (*Program, error) {
	goBin := "/opt/veriftools/go1.23.12/bin"
	if _, err := os.Stat(goBin); err == nil {
		os.Setenv("PATH", goBin+":"+os.Getenv("PATH"))
	}
	os.Unsetenv("GOROOT")
	tmp, err := os.MkdirTemp("", "astracheck")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)

	// The CLI is a module of its own without the sums of the library: use a copy of its go.mod with both.
	cliDir := filepath.Join(root, "cli", "astra")
	mod, err := os.ReadFile(filepath.Join(cliDir, "go.mod"))
	if err != nil {
		return nil, err
	}
	sums := map[string]bool{}
	for _, f := range []string{filepath.Join(root, "go.sum"), filepath.Join(cliDir, "go.sum")} {
		data, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, line := range strings.Split(string(data), "\n") {
			if strings.TrimSpace(line) != "" {
				sums[line] = true
			}
		}
	}
	var lines []string
	for l := range sums {
		lines = append(lines, l)
	}
	sort.Strings(lines)
	modFile := filepath.Join(tmp, "cli.mod")
	if err := os.WriteFile(modFile, mod, 0644); err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(tmp, "cli.sum"), []byte(strings.Join(lines, "\n")+"\n"), 0644); err != nil {
		return nil, err
	}

	env := os.Environ()
	env = append(env, "GOWORK=off", "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "CGO_ENABLED=0", "PWD="+cliDir)
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax | packages.NeedModule,
		Dir:        cliDir,
		Env:        env,
		BuildFlags: []string{"-modfile=" + modFile},
	}
	pkgs, err := packages.Load(cfg, "./...", modulePath+"/...")
	if err != nil {
		return nil, err
	}
	p := &Program{Root: root, ByPath: map[string]*packages.Package{}, built: map[*ssa.Package]bool{}}
	var errs []string
	packages.Visit(pkgs, nil, func(pkg *packages.Package) {
		p.ByPath[pkg.PkgPath] = pkg
		if inModule(pkg.PkgPath) {
			for _, e := range pkg.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	seen := map[string]bool{}
	for _, pkg := range pkgs {
		if inModule(pkg.PkgPath) && !excluded(pkg.PkgPath) && !seen[pkg.PkgPath] {
			seen[pkg.PkgPath] = true
			p.Pkgs = append(p.Pkgs, pkg)
		}
	}
	sort.Slice(p.Pkgs, func(i, j int) bool { return p.Pkgs[i].PkgPath < p.Pkgs[j].PkgPath })
	if len(p.Pkgs) < 12 {
		return nil, fmt.Errorf("only %d packages of the repository were found", len(p.Pkgs))
	}

	p.Prog = ssa.NewProgram(p.Pkgs[0].Fset, ssa.InstantiateGenerics)
	created := map[*types.Package]bool{}
	packages.Visit(pkgs, nil, func(pkg *packages.Package) {
		if pkg.Types == nil || created[pkg.Types] || pkg.TypesInfo == nil {
			return
		}
		created[pkg.Types] = true
		p.Prog.CreatePackage(pkg.Types, pkg.Syntax, pkg.TypesInfo, true)
	})
	for _, pkg := range p.Pkgs {
		p.Prog.Package(pkg.Types).Build()
	}
	for _, path := range []string{"slices", "maps", "cmp"} {
		if pkg := p.ByPath[path]; pkg != nil {
			if sp := p.Prog.Package(pkg.Types); sp != nil {
				sp.Build()
			}
		}
	}
	return p, nil
}

func (p *Program) pkg(rel string) *ssa.Package {
	path := modulePath
	if rel != "" {
		path += "/" + rel
	}
	if pk := p.ByPath[path]; pk != nil {
		return p.Prog.Package(pk.Types)
	}
	return nil
}

// fn finds a package-level function.
func (p *Program) fn(rel, name string) *ssa.Function {
	if pk := p.pkg(rel); pk != nil {
		return pk.Func(name)
	}
	return nil
}

// method finds a method of a named type (of the type itself or of its pointer).
func (p *Program) method(rel, typ, name string) *ssa.Function {
	pk := p.pkg(rel)
	if pk == nil {
		return nil
	}
	obj := pk.Pkg.Scope().Lookup(typ)
	if obj == nil {
		return nil
	}
	for _, t := range []types.Type{types.NewPointer(obj.Type()), obj.Type()} {
		sel := types.NewMethodSet(t).Lookup(pk.Pkg, name)
		if sel != nil {
			return p.Prog.MethodValue(sel)
		}
	}
	return nil
}

// typ finds a named type.
func (p *Program) typ(rel, name string) types.Type {
	pk := p.pkg(rel)
	if pk == nil {
		return nil
	}
	obj := pk.Pkg.Scope().Lookup(name)
	if obj == nil {
		return nil
	}
	return obj.Type()
}
