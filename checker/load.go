package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Module path prefix of the analysed repository.
const modulePath = "github.com/rodb-io/rodb"

// Program is the resolved program under analysis: every non-test package of
// the repository, type-checked with the tags of the real build, and its SSA.
type Program struct {
	root   string
	fset   *token.FileSet
	pkgs   []*packages.Package
	byPath map[string]*packages.Package
	prog   *ssa.Program
	ssa    map[string]*ssa.Package
	funcs  []*ssa.Function // every source function, closures included
	syntax map[*types.Func]*ast.FuncDecl

	fieldIndex  map[string][]ssa.Value
	siteIndex   map[*ssa.Function][]ssa.CallInstruction
	resourceFns map[*ssa.Function]bool
	callerIndex map[*ssa.Function][]*ssa.Function
}

func repoRoot() string {
	if r := os.Getenv("VERIF_REPO"); r != "" {
		return r
	}
	return "/repo"
}

func loadProgram() (*Program, error) {
	root := repoRoot()
	env := append([]string{}, os.Environ()...)
	set := func(k, v string) { env = append(env, k+"="+v) }
	set("GOFLAGS", "-mod=readonly")
	set("GOPROXY", "off")
	set("GOTOOLCHAIN", "local")
	set("CGO_ENABLED", "0")
	set("GOWORK", "off")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo |
			packages.NeedTypesSizes | packages.NeedExportFile | packages.NeedModule,
		Dir:        root,
		Env:        env,
		BuildFlags: []string{"-tags=sqlite_fts5"},
		Fset:       token.NewFileSet(),
	}
	if os.Getenv("VERIF_LOADSYNTAX") == "" {
		cfg.Mode &^= packages.NeedDeps
	}
	pkgs, err := packages.Load(cfg, "./cmd/...", "./pkg/...")
	if err != nil {
		return nil, fmt.Errorf("cannot load the repository: %w", err)
	}
	p := &Program{
		root: root, fset: cfg.Fset, byPath: map[string]*packages.Package{},
		ssa: map[string]*ssa.Package{}, syntax: map[*types.Func]*ast.FuncDecl{},
	}
	for _, pkg := range pkgs {
		for _, e := range pkg.Errors {
			return nil, fmt.Errorf("the repository does not type-check: %v", e)
		}
		if pkg.Types == nil || pkg.TypesInfo == nil {
			return nil, fmt.Errorf("no type information for %s", pkg.PkgPath)
		}
		p.pkgs = append(p.pkgs, pkg)
		p.byPath[pkg.PkgPath] = pkg
	}
	sort.Slice(p.pkgs, func(i, j int) bool { return p.pkgs[i].PkgPath < p.pkgs[j].PkgPath })
	prog, ssaPkgs := ssautil.Packages(p.pkgs, ssa.InstantiateGenerics|ssa.BareInits)
	prog.Build()
	p.prog = prog
	for i, pkg := range p.pkgs {
		if ssaPkgs[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", pkg.PkgPath)
		}
		p.ssa[pkg.PkgPath] = ssaPkgs[i]
		for _, f := range pkg.Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					if obj, ok := pkg.TypesInfo.Defs[fd.Name].(*types.Func); ok {
						p.syntax[obj] = fd
					}
				}
			}
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks != nil && fn.Pkg != nil && p.ssa[fn.Pkg.Pkg.Path()] == fn.Pkg && fn.Synthetic == "" {
			p.funcs = append(p.funcs, fn)
		}
	}
	sort.Slice(p.funcs, func(i, j int) bool { return p.funcs[i].Pos() < p.funcs[j].Pos() })
	if len(p.funcs) == 0 {
		return nil, fmt.Errorf("no function found")
	}
	return p, nil
}

func (p *Program) inRepo(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	if fn.Pkg != nil {
		return strings.HasPrefix(fn.Pkg.Pkg.Path(), modulePath)
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return strings.HasPrefix(o.Pkg().Path(), modulePath)
	}
	if fn.Parent() != nil {
		return p.inRepo(fn.Parent())
	}
	return false
}

// pos renders a position relative to the repository root.
func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.fset.Position(pos)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, p.root+"/"), ps.Line)
}
