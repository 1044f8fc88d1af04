package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/pbnjay/grate"

// Prog is the type-checked program and its SSA form.
type Prog struct {
	Dir   string
	Fset  *token.FileSet
	Pkgs  []*packages.Package
	SSA   *ssa.Program
	ByPkg map[string]*ssa.Package // module packages by import path
	Files map[string][]byte
	Funcs []*ssa.Function // every function of the module with a body

	noPanic  map[string]bool
	elemOK   map[string]bool
	ewrites  map[*ssa.Function]map[string]bool
	refs     map[*ssa.Function]map[*ssa.Function]bool // function => functions referring to it
	gvals    map[*ssa.Global]*Term
	gstores  map[*ssa.Global][]*ssa.Store
	gescapes map[*ssa.Global][]ssa.Instruction
}

// Load parses, type-checks and builds the current working tree of the repository.
func Load(dir string) (*Prog, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir, Env: env,
	}
	cfg.Mode |= packages.NeedDeps
	cfg.Mode &^= packages.NeedDeps
	cfg.Mode |= packages.NeedExportFile
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Prog{Dir: dir, Pkgs: pkgs, SSA: prog, ByPkg: map[string]*ssa.Package{}, Fset: prog.Fset}
	for i, p := range pkgs {
		if spkgs[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", p.PkgPath)
		}
		P.ByPkg[p.PkgPath] = spkgs[i]
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Blocks != nil && P.InModule(f) {
			P.Funcs = append(P.Funcs, f)
		}
	}
	sort.Slice(P.Funcs, func(i, j int) bool {
		a, b := P.Funcs[i], P.Funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	if len(P.Funcs) == 0 {
		return nil, fmt.Errorf("no functions found")
	}
	return P, nil
}

func fnPkg(f *ssa.Function) *types.Package {
	for f != nil {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg()
		}
		if f.Parent() == nil && f.Signature.Recv() != nil {
			if n := namedOf(f.Signature.Recv().Type()); n != nil {
				return n.Obj().Pkg()
			}
		}
		f = f.Parent()
	}
	return nil
}

func inModPath(p string) bool { return p == modPath || strings.HasPrefix(p, modPath+"/") }

// InModule tells whether f is source of the repository.
func (p *Prog) InModule(f *ssa.Function) bool {
	pk := fnPkg(f)
	return pk != nil && inModPath(pk.Path())
}

// InLib is InModule without the commands.
func (p *Prog) InLib(f *ssa.Function) bool {
	pk := fnPkg(f)
	return pk != nil && inModPath(pk.Path()) && !strings.HasPrefix(pk.Path(), modPath+"/cmd/")
}

func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	r, err := filepath.Rel(p.Dir, q.Filename)
	if err != nil {
		r = q.Filename
	}
	return fmt.Sprintf("%s:%d", r, q.Line)
}

// InstrPos finds a usable position for an instruction.
func (p *Prog) InstrPos(i ssa.Instruction) string {
	if i == nil {
		return "?"
	}
	if i.Pos().IsValid() {
		return p.Pos(i.Pos())
	}
	b := i.Block()
	if b != nil {
		idx := -1
		for k, x := range b.Instrs {
			if x == i {
				idx = k
			}
		}
		for k := idx; k >= 0; k-- {
			if b.Instrs[k].Pos().IsValid() {
				return p.Pos(b.Instrs[k].Pos())
			}
		}
		for k := idx + 1; k < len(b.Instrs) && k > 0; k++ {
			if b.Instrs[k].Pos().IsValid() {
				return p.Pos(b.Instrs[k].Pos())
			}
		}
	}
	return p.Pos(i.Parent().Pos())
}

func namedOf(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

// isNamed tests for a (pointer to a) named type.
func isNamed(t types.Type, pkg, name string) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

// Lookup finds a package-level function.
func (p *Prog) Func(pkg, name string) *ssa.Function {
	sp := p.ByPkg[pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// Type finds a package-level type.
func (p *Prog) Type(pkg, name string) types.Type {
	sp := p.ByPkg[pkg]
	if sp == nil {
		return nil
	}
	t := sp.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}

// Method finds the function implementing a method.
func (p *Prog) Method(t types.Type, name string) *ssa.Function {
	if t == nil {
		return nil
	}
	ms := p.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.SSA.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (p *Prog) Iface(pkg, name string) *types.Interface {
	t := p.Type(pkg, name)
	if t == nil {
		return nil
	}
	i, _ := t.Underlying().(*types.Interface)
	return i
}

// Implementers lists the library types T or *T that implement the interface.
func (p *Prog) Implementers(i *types.Interface) []types.Type {
	var res []types.Type
	var paths []string
	for k := range p.ByPkg {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		if strings.HasPrefix(k, modPath+"/cmd/") {
			continue
		}
		sc := p.ByPkg[k].Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			t := tn.Type()
			if types.IsInterface(t) {
				continue
			}
			if types.Implements(t, i) {
				res = append(res, t)
			} else if types.Implements(types.NewPointer(t), i) {
				res = append(res, types.NewPointer(t))
			}
		}
	}
	return res
}

func fullName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return f.String()
}

func shortName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return strings.ReplaceAll(f.String(), modPath, "grate")
}

// PMethod finds a method of a named type or of a pointer to it.
func (p *Prog) PMethod(pkg, typ, name string) *ssa.Function {
	t := p.Type(pkg, typ)
	if t == nil {
		return nil
	}
	f := p.Method(types.NewPointer(t), name)
	if f != nil && f.Synthetic != "" {
		// the wrapper of a method with a value receiver
		if g := p.Method(t, name); g != nil {
			return g
		}
	}
	return f
}
