package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/nareix/joy5"

// Prog is the type-checked, SSA-built form of /repo's current working tree.
type Prog struct {
	Dir       string
	Fset      *token.FileSet
	SSA       *ssa.Program
	Pkgs      map[string]*ssa.Package // by import path relative to the module
	TPkgs     map[string]*packages.Package
	AllFuncs  []*ssa.Function // every source function of the module, sorted
	errGlob   map[*ssa.Global]bool
	globInit  map[*ssa.Global]ssa.Value
	effects   map[*ssa.Function]*Effect
	fieldLens map[string]int64
	fieldNN   map[string]bool
	fieldPos  map[string]bool
	chaGraph  *callgraph.Graph
	tabs      map[string][]int64
	tabOnce   sync.Once
}

func inModule(path string) bool {
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}

func relPkg(path string) string {
	return strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
}

func fnPkgPath(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if f.Origin() != nil && f.Origin().Pkg != nil {
		return f.Origin().Pkg.Pkg.Path()
	}
	// synthetic wrappers: look at the receiver
	if r := f.Signature.Recv(); r != nil {
		if n := namedOf(r.Type()); n != nil && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	if len(f.FreeVars) > 0 && strings.HasSuffix(f.Name(), "$bound") {
		if n := namedOf(f.FreeVars[0].Type()); n != nil && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	return ""
}

func namedOf(t types.Type) *types.Named {
	for {
		switch x := t.(type) {
		case *types.Pointer:
			t = x.Elem()
		case *types.Named:
			return x
		case *types.Alias:
			t = types.Unalias(x)
		default:
			return nil
		}
	}
}

func loadProg(dir string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:   dir,
		Env:   append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "GOTOOLCHAIN=local"),
		Tests: false,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if inModule(p.PkgPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Prog{Dir: dir, Fset: pkgs[0].Fset, SSA: prog, Pkgs: map[string]*ssa.Package{}, TPkgs: map[string]*packages.Package{}}
	for _, pk := range pkgs {
		if !inModule(pk.PkgPath) {
			continue
		}
		sp := prog.Package(pk.Types)
		if sp == nil {
			return nil, fmt.Errorf("no SSA package for %s", pk.PkgPath)
		}
		sp.Build()
		p.Pkgs[relPkg(pk.PkgPath)] = sp
		p.TPkgs[relPkg(pk.PkgPath)] = pk
	}
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		if pk.PkgPath == "encoding/binary" {
			if sp := prog.Package(pk.Types); sp != nil {
				sp.Build()
			}
		}
	})
	p.collect()
	p.scanGlobals()
	return p, nil
}

func (p *Prog) collect() {
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		p.AllFuncs = append(p.AllFuncs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, sp := range p.Pkgs {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := p.SSA.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						fn := p.SSA.MethodValue(ms.At(i))
						if fn != nil && fn.Synthetic == "" {
							add(fn)
						}
					}
				}
			}
		}
	}
	sort.Slice(p.AllFuncs, func(i, j int) bool { return fnName(p.AllFuncs[i]) < fnName(p.AllFuncs[j]) })
}

// scanGlobals finds package-level variables that are assigned exactly once, in
// the package initialiser; for error-typed ones initialised with a non-nil
// constructor a load is known to be non-nil.
func (p *Prog) scanGlobals() {
	p.errGlob = map[*ssa.Global]bool{}
	p.globInit = map[*ssa.Global]ssa.Value{}
	stores := map[*ssa.Global]int{}
	scan := func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						stores[g]++
						p.globInit[g] = st.Val
					}
					continue
				}
				// address taken otherwise (not plain load)?
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
							continue
						}
						switch in.(type) {
						case *ssa.FieldAddr, *ssa.IndexAddr:
							continue
						}
						stores[g] += 2
					}
				}
			}
		}
	}
	for _, f := range p.AllFuncs {
		scan(f)
	}
	for _, sp := range p.Pkgs {
		if f := sp.Func("init"); f != nil {
			scan(f)
			for _, a := range f.AnonFuncs {
				scan(a)
			}
		}
	}
	for g, n := range stores {
		if n != 1 {
			delete(p.globInit, g)
		}
	}
}

func fnName(f *ssa.Function) string {
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s
}

// fn looks up "pkg.Func" or "pkg.Type.Method" (pkg relative to the module).
func (p *Prog) fn(pkg, name string) *ssa.Function {
	if i := strings.IndexByte(name, '$'); i > 0 {
		f := p.fn(pkg, name[:i])
		for _, a := range p.AllFuncs {
			if f != nil && a.Parent() == f && a.Name() == f.Name()+name[i:] {
				return a
			}
		}
		return nil
	}
	sp := p.Pkgs[pkg]
	if sp == nil {
		return nil
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		tn, mn := name[:i], name[i+1:]
		t := sp.Type(tn)
		if t == nil {
			return nil
		}
		for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
			sel := p.SSA.MethodSets.MethodSet(ty).Lookup(sp.Pkg, mn)
			if sel != nil {
				if f := p.SSA.MethodValue(sel); f != nil {
					if f.Synthetic != "" {
						continue
					}
					return f
				}
			}
		}
		return nil
	}
	return sp.Func(name)
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.Fset.Position(pos)
	f, err := filepath.Rel(p.Dir, q.Filename)
	if err != nil {
		f = q.Filename
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}
