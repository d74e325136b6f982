package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/yoheimuta/go-protoparser/v4"

// Program is the analysed program.
type Program struct {
	dir      string
	fset     *token.FileSet
	prog     *ssa.Program
	pkgs     map[string]*packages.Package // by path relative to the module
	spkgs    map[string]*ssa.Package
	repoPkgs []*ssa.Package // in dependency order
	isRepo   map[*ssa.Package]bool
	fns      []*ssa.Function // all source functions of the repository
	globals  []*ssa.Global
	fis      map[*ssa.Function]*FnInfo
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:   dir,
		Env:   append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0"),
		Tests: false,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			return
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages found in %s", dir)
	}
	p := &Program{
		dir:    dir,
		pkgs:   map[string]*packages.Package{},
		spkgs:  map[string]*ssa.Package{},
		isRepo: map[*ssa.Package]bool{},
		fis:    map[*ssa.Function]*FnInfo{},
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	p.prog = prog
	p.fset = prog.Fset
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("package %s cannot be built", pkgs[i].PkgPath)
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(pkgs[i].PkgPath, modPath), "/")
		p.pkgs[rel] = pkgs[i]
		p.spkgs[rel] = sp
		p.isRepo[sp] = true
	}
	prog.Build()
	// dependency order
	seen := map[*packages.Package]bool{}
	var visit func(q *packages.Package)
	visit = func(q *packages.Package) {
		if seen[q] || !strings.HasPrefix(q.PkgPath, modPath) {
			return
		}
		seen[q] = true
		var names []string
		for n := range q.Imports {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			visit(q.Imports[n])
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(q.PkgPath, modPath), "/")
		if sp := p.spkgs[rel]; sp != nil {
			p.repoPkgs = append(p.repoPkgs, sp)
		}
	}
	for _, q := range pkgs {
		visit(q)
	}
	all := ssautil.AllFunctions(prog)
	gl := map[*ssa.Global]bool{}
	for fn := range all {
		if !p.inRepoFn(fn) || len(fn.Blocks) == 0 {
			continue
		}
		if fn.Synthetic == "" {
			p.fns = append(p.fns, fn)
		}
		var ops []*ssa.Value
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ops = in.Operands(ops[:0])
				for _, o := range ops {
					if g, ok := (*o).(*ssa.Global); ok {
						gl[g] = true
					}
				}
			}
		}
	}
	sort.Slice(p.fns, func(i, j int) bool {
		a, b := p.fns[i], p.fns[j]
		if a.RelString(nil) != b.RelString(nil) {
			return a.RelString(nil) < b.RelString(nil)
		}
		return a.Pos() < b.Pos()
	})
	for g := range gl {
		p.globals = append(p.globals, g)
	}
	sort.Slice(p.globals, func(i, j int) bool { return p.globals[i].String() < p.globals[j].String() })
	return p, nil
}

func (p *Program) inRepo(sp *ssa.Package) bool { return sp != nil && p.isRepo[sp] }

func (p *Program) inRepoFn(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return p.isRepo[f.Pkg]
		}
		if o := f.Origin(); o != nil && o != f {
			return p.inRepoFn(o)
		}
		if f.Parent() == nil && f.Object() != nil && f.Object().Pkg() != nil {
			return strings.HasPrefix(f.Object().Pkg().Path(), modPath)
		}
	}
	return false
}

func (p *Program) isInit(fn *ssa.Function) bool {
	return fn.Name() == "init" && fn.Synthetic != ""
}

func (p *Program) posStr(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.fset.Position(pos)
	name := q.Filename
	if r, err := filepath.Rel(p.dir, name); err == nil && !strings.HasPrefix(r, "..") {
		name = r
	}
	return fmt.Sprintf("%s:%d", name, q.Line)
}

// fn finds a package level function.
func (p *Program) fn(pkg, name string) *ssa.Function {
	sp := p.spkgs[pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// typ finds a named type.
func (p *Program) typ(pkg, name string) *types.Named {
	sp := p.spkgs[pkg]
	if sp == nil {
		return nil
	}
	t := sp.Type(name)
	if t == nil {
		return nil
	}
	n, _ := t.Type().(*types.Named)
	return n
}

// method finds a method of a pointer or value receiver.
func (p *Program) method(pkg, typ, name string) *ssa.Function {
	n := p.typ(pkg, typ)
	if n == nil {
		return nil
	}
	for _, t := range []types.Type{n, types.NewPointer(n)} {
		ms := p.prog.MethodSets.MethodSet(t)
		if sel := ms.Lookup(n.Obj().Pkg(), name); sel != nil {
			f := p.prog.MethodValue(sel)
			if f != nil && f.Synthetic == "" {
				return f
			}
		}
	}
	return nil
}

// fieldIndex finds the index of a field of a struct type, or -1.
func fieldIndex(t types.Type, name string) int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}
