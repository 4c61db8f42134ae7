package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/bobg/fab"

// Program is the loaded, type-checked and SSA-built repository.
type Program struct {
	writes    map[inputKey]bool
	repo      string
	pkgs      map[string]*packages.Package // by path, module packages and go-generics
	modPkgs   []*packages.Package          // packages of the module, sorted by path
	all       map[string]*packages.Package // every package in the import graph
	prog      *ssa.Program
	ssaPkgs   map[string]*ssa.Package
	srcFns    []*ssa.Function // all functions of the module with bodies, incl. anonymous ones
	mutable   map[string]bool // fields and globals written after construction
	constMaps map[*ssa.Global]bool
	impls     []types.Type // concrete types of the module implementing Target
}

func repoDir() string {
	if d := os.Getenv("FABCHECK_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func loadEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "GOFLAGS", "GOROOT", "GOPATH", "GOTOOLCHAIN", "GOPROXY", "CGO_ENABLED", "PATH", "GOWORK", "GO111MODULE", "GOOS", "GOARCH":
			continue
		}
		env = append(env, e)
	}
	path := os.Getenv("PATH")
	if _, err := os.Stat("/opt/veriftools/go1.23.12/bin/go"); err == nil {
		path = "/opt/veriftools/go1.23.12/bin:" + path
	}
	// Without cgo the loader needs no C compiler and no build cache; no package of the module uses cgo itself.
	return append(env, "PATH="+path, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOPATH=/root/go", "CGO_ENABLED=0", "GOWORK=off")
}

const loadMode = packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
	packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule |
	packages.NeedEmbedFiles | packages.NeedEmbedPatterns

func load(overlay map[string][]byte, extra ...string) (*Program, error) {
	repo := repoDir()
	cfg := &packages.Config{Mode: loadMode, Dir: repo, Env: loadEnv(), Overlay: overlay}
	patterns := append([]string{"./...", "github.com/bobg/go-generics/v2/maps", "github.com/bobg/go-generics/v2/slices", "github.com/bobg/go-generics/v2/set"}, extra...)
	initial, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, fmt.Errorf("loading: %w", err)
	}
	p := &Program{repo: repo, pkgs: map[string]*packages.Package{}, all: map[string]*packages.Package{}, ssaPkgs: map[string]*ssa.Package{}}
	var errs []string
	packages.Visit(initial, nil, func(pkg *packages.Package) {
		p.all[pkg.PkgPath] = pkg
		if pkg.Module != nil && pkg.Module.Path == modPath {
			for _, e := range pkg.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if os.Getenv("FABCHECK_DEBUG") != "" {
		packages.Visit(initial, nil, func(pkg *packages.Package) {
			if len(pkg.Errors) > 0 || len(pkg.TypeErrors) > 0 {
				fmt.Println(pkg.PkgPath, pkg.IllTyped, pkg.Errors, pkg.TypeErrors)
			}
		})
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	for _, pkg := range initial {
		p.pkgs[pkg.PkgPath] = pkg
		if pkg.PkgPath == modPath || strings.HasPrefix(pkg.PkgPath, modPath+"/") {
			p.modPkgs = append(p.modPkgs, pkg)
		}
	}
	sort.Slice(p.modPkgs, func(i, j int) bool { return p.modPkgs[i].PkgPath < p.modPkgs[j].PkgPath })
	if len(p.modPkgs) < 6 {
		return nil, fmt.Errorf("loaded only %d packages of the module", len(p.modPkgs))
	}
	// An error in the type checking of a dependency (a library may be unsuited to this checker's own version of go/types)
	// makes everything that imports it "ill-typed" for ssautil. The module's own packages are known to have no errors.
	for _, pkg := range p.all {
		if pkg.IllTyped && len(pkg.TypeErrors) == 0 && len(pkg.Errors) == 0 {
			pkg.IllTyped = false
		}
	}
	prog, spkgs := ssautil.Packages(initial, ssa.InstantiateGenerics)
	prog.Build()
	p.prog = prog
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s: types=%v illtyped=%v errors=%v", initial[i].PkgPath, initial[i].Types, initial[i].IllTyped, initial[i].Errors)
		}
		p.ssaPkgs[sp.Pkg.Path()] = sp
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks != nil && p.inModule(fn) {
			p.srcFns = append(p.srcFns, fn)
		}
	}
	sort.Slice(p.srcFns, func(i, j int) bool {
		a, b := p.srcFns[i], p.srcFns[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	p.findMutable()
	p.findImpls()
	p.findNonNil()
	return p, nil
}

func fnPkgPath(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
		if obj := f.Object(); obj != nil && obj.Pkg() != nil {
			return obj.Pkg().Path()
		}
	}
	return ""
}

func (p *Program) inModule(fn *ssa.Function) bool {
	pp := fnPkgPath(fn)
	return pp == modPath || strings.HasPrefix(pp, modPath+"/")
}

func isModPath(pp string) bool { return pp == modPath || strings.HasPrefix(pp, modPath+"/") }

// fieldKey names a struct field by its declaring struct type.
func fieldKey(t types.Type, i int) string {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	return fmt.Sprintf("%s.%d", originString(t), i)
}

func originString(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Origin().Obj().Pkg().Path() + "." + n.Origin().Obj().Name()
	}
	return types.TypeString(t, nil)
}

func named(t types.Type) *types.Named {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

// findMutable finds the fields and globals that are stored to after construction:
// through a base that is not an allocation of the same function, or outside package initializers.
func (p *Program) findMutable() {
	p.mutable = map[string]bool{}
	for _, fn := range p.srcFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				switch a := st.Addr.(type) {
				case *ssa.FieldAddr:
					if _, fresh := a.X.(*ssa.Alloc); fresh {
						continue
					}
					p.mutable[fieldKey(a.X.Type(), a.Field)] = true
				case *ssa.Global:
					if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
						continue
					}
					p.mutable[a.String()] = true
				}
			}
		}
	}
}

func (p *Program) findImpls() {
	tgt := p.targetIface()
	if tgt == nil {
		return
	}
	for _, pkg := range p.modPkgs {
		sc := pkg.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			t := tn.Type()
			if types.IsInterface(t) {
				continue
			}
			if nt, ok := t.(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			if types.Implements(t, tgt) {
				p.impls = append(p.impls, t)
			} else if types.Implements(types.NewPointer(t), tgt) {
				p.impls = append(p.impls, types.NewPointer(t))
			}
		}
	}
}

func (p *Program) targetIface() *types.Interface {
	obj := p.root().Types.Scope().Lookup("Target")
	if obj == nil {
		return nil
	}
	i, _ := obj.Type().Underlying().(*types.Interface)
	return i
}

func (p *Program) root() *packages.Package { return p.pkgs[modPath] }

// fn finds a package-level function, "Name", or method, "Type.Name", in a package of the module ("" is the root).
func (p *Program) fn(sub, name string) *ssa.Function {
	path := modPath
	if sub != "" {
		path += "/" + sub
	}
	sp := p.ssaPkgs[path]
	if sp == nil {
		return nil
	}
	if tn, mn, ok := strings.Cut(name, "."); ok {
		obj, _ := sp.Pkg.Scope().Lookup(tn).(*types.TypeName)
		if obj == nil {
			return nil
		}
		return p.method(obj.Type(), mn)
	}
	return sp.Func(name)
}

func (p *Program) method(t types.Type, name string) *ssa.Function {
	for _, tt := range []types.Type{types.NewPointer(t), t} {
		if _, isPtr := t.(*types.Pointer); isPtr && tt != t {
			continue
		}
		ms := p.prog.MethodSets.MethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			sel := ms.At(i)
			if sel.Obj().Name() == name {
				// Prefer the declared function over a synthetic wrapper.
				if f := p.prog.FuncValue(sel.Obj().(*types.Func)); f != nil && f.Blocks != nil {
					return f
				}
				return p.prog.MethodValue(sel)
			}
		}
	}
	return nil
}

func (p *Program) rel(file string) string {
	if r, err := filepath.Rel(p.repo, file); err == nil && !strings.HasPrefix(r, "..") {
		return r
	}
	return file
}

func (p *Program) posStr(pos tokenPos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.prog.Fset.Position(pos)
	return fmt.Sprintf("%s:%d", p.rel(ps.Filename), ps.Line)
}

func (p *Program) instrPos(in ssa.Instruction) string {
	if in == nil {
		return "-"
	}
	if in.Pos().IsValid() {
		return p.posStr(in.Pos())
	}
	// fall back on a neighbour with a position
	if b := in.Block(); b != nil {
		idx := -1
		for i, x := range b.Instrs {
			if x == in {
				idx = i
			}
		}
		for d := 1; d < len(b.Instrs); d++ {
			for _, j := range []int{idx - d, idx + d} {
				if j >= 0 && j < len(b.Instrs) && b.Instrs[j].Pos().IsValid() {
					return p.posStr(b.Instrs[j].Pos())
				}
			}
		}
		if f := b.Parent(); f != nil && f.Pos().IsValid() {
			return p.posStr(f.Pos()) + "+"
		}
	}
	return "-"
}

// findNonNil finds the package variables that are initialized with a non-nil value and never changed.
func (p *Program) findNonNil() {
	for _, sp := range p.ssaPkgs {
		init := sp.Func("init")
		if init == nil {
			continue
		}
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok || p.mutable[g.String()] {
					continue
				}
				switch v := st.Val.(type) {
				case *ssa.Const:
				case *ssa.Call:
					if f := v.Call.StaticCallee(); f != nil {
						n := fnName(f)
						if neverNil(n) || strings.HasPrefix(n, "generics/set.New") || strings.HasPrefix(n, "fab") {
							nonNilGlobals[g] = true
						}
					}
				case *ssa.MakeMap, *ssa.Alloc, *ssa.MakeInterface, *ssa.Function, *ssa.MakeSlice:
					nonNilGlobals[g] = true
				}
			}
		}
	}
}
