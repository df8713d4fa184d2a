package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Gen is the verification condition generator for one loaded program.
type Gen struct {
	fset      *token.FileSet
	prog      *ssa.Program
	pkgs      []*ssa.Package
	modPkgs   map[string]bool
	compCache map[types.Type][]Comp
	heapKind  map[string]heapInfo
	tagIDs    map[string]int64
	tagTypes  map[int64]types.Type
	fnIDs     map[string]int64
	fnByID    map[int64]*ssa.Function
	allFns    map[string]*ssa.Function
	spec      *Spec
	repo      string
	slotIDs   map[string]int64
	infos     map[string]*types.Info
	known     map[string][]localVar // the locals the contracts were written for
}

type heapInfo struct {
	kind string
	sort string
}

func (g *Gen) setHeapKind(n, kind, sort string) {
	if _, ok := g.heapKind[n]; !ok {
		g.heapKind[n] = heapInfo{kind, sort}
	}
}

func goEnv(gopath bool) []string {
	var env []string
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GO111MODULE", "GOWORK", "GOENV", "GOPROXY", "GOTOOLCHAIN", "PATH":
			continue
		}
		env = append(env, e)
	}
	p := os.Getenv("PATH")
	for _, d := range []string{"/opt/veriftools/go1.27.3/bin"} {
		if _, err := os.Stat(filepath.Join(d, "go")); err == nil {
			p = d + ":" + p
		}
	}
	env = append(env, "PATH="+p, "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GOENV=off")
	if gopath {
		env = append(env, "GO111MODULE=off", "GOFLAGS=")
	} else {
		env = append(env, "GO111MODULE=on", "GOFLAGS=-mod=mod -buildvcs=false")
	}
	return env
}

func load(repo string, area string) (*Gen, error) {
	g := &Gen{modPkgs: map[string]bool{}, compCache: map[types.Type][]Comp{}, heapKind: map[string]heapInfo{}, tagIDs: map[string]int64{}, tagTypes: map[int64]types.Type{}, fnIDs: map[string]int64{}, fnByID: map[int64]*ssa.Function{}, allFns: map[string]*ssa.Function{}, repo: repo, infos: map[string]*types.Info{}}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedSyntax | packages.NeedTypesSizes | packages.NeedModule,
		Fset: token.NewFileSet(),
	}
	var pats []string
	switch area {
	case "sim":
		cfg.Dir = filepath.Join(repo, "SmartCache/sim")
		cfg.Env = goEnv(false)
		pats = []string{"./cache", "./cache/files", "./cache/queue", "./cache/functions", "./cache/ai/featuremap", "./cache/ai/qlearn"}
	case "qcache":
		cfg.Dir = filepath.Join(repo, "qLearning_smartCache")
		cfg.Env = goEnv(true)
		pats = []string{"./cache", "./qtable"}
	}
	// only the repository's own packages need syntax: load dependencies from export data
	cfg.Mode &^= packages.NeedDeps
	cfg.Mode |= packages.NeedExportFile
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	g.fset = cfg.Fset
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("load %s: %v", p.PkgPath, e)
		}
		g.modPkgs[p.PkgPath] = true
		g.infos[p.PkgPath] = p.TypesInfo
	}
	return g, g.build(ps)
}

func (g *Gen) build(ps []*packages.Package) error {
	// Packages are type-checked against export data, so types of a repository
	// package seen from another one are distinct objects.  Re-link by loading
	// with full dependency syntax only for repository packages.
	prog, pkgs := ssautil.Packages(ps, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	g.prog, g.pkgs = prog, pkgs
	for _, p := range pkgs {
		if p == nil {
			return fmt.Errorf("nil ssa package")
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == nil || !g.modPkgs[fn.Pkg.Pkg.Path()] {
			continue
		}
		g.allFns[g.fnName(fn)] = fn
	}
	// names by role: F$go is what F starts as a goroutine, F$Slice the function
	// F gives to an external function Slice
	for _, n := range sortedKeys(g.allFns) {
		fn := g.allFns[n]
		alias := func(role string, f *ssa.Function) {
			if f == nil || f.Pkg == nil || !g.modPkgs[f.Pkg.Pkg.Path()] {
				return
			}
			for i := 1; ; i++ {
				a := n + "$" + role
				if i > 1 {
					a += strconv.Itoa(i)
				}
				if g.allFns[a] == nil {
					g.allFns[a] = f
					return
				}
			}
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Go:
					if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
						alias("go", mc.Fn.(*ssa.Function))
					} else {
						alias("go", x.Call.StaticCallee())
					}
				case *ssa.Call:
					cal := x.Call.StaticCallee()
					if cal == nil || cal.Pkg == nil || g.modPkgs[cal.Pkg.Pkg.Path()] {
						continue
					}
					for _, a := range x.Call.Args {
						if mc, ok := a.(*ssa.MakeClosure); ok {
							alias(cal.Name(), mc.Fn.(*ssa.Function))
						}
					}
				}
			}
		}
	}
	return nil
}

// fnName is the canonical name: pkg.Func, pkg.(*T).M, pkg.T.M, plus $n for closures.
func (g *Gen) fnName(fn *ssa.Function) string {
	if fn.Parent() != nil {
		base := g.fnName(fn.Parent())
		n := fn.Name()
		if i := strings.LastIndex(n, "$"); i >= 0 {
			return base + n[i:]
		}
		return base + "$" + n
	}
	pk := ""
	if fn.Pkg != nil {
		pk = fn.Pkg.Pkg.Name()
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			return pk + ".(*" + typeBase(p.Elem()) + ")." + fn.Name()
		}
		return pk + "." + typeBase(t) + "." + fn.Name()
	}
	return pk + "." + fn.Name()
}

func typeBase(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

func (g *Gen) pkgByName(n string) *ssa.Package {
	for _, p := range g.pkgs {
		if p.Pkg.Name() == n {
			return p
		}
	}
	return nil
}

func (g *Gen) fnID(fn *ssa.Function) *Term {
	n := g.fnName(fn)
	if id, ok := g.fnIDs[n]; ok {
		return intLit(id)
	}
	id := int64(len(g.fnIDs) + 1)
	g.fnIDs[n] = id
	g.fnByID[id] = fn
	return intLit(id)
}

func (g *Gen) fnNames() []string {
	var ns []string
	for n := range g.allFns {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

func (g *Gen) ownedSlot(k string) string {
	if g.spec != nil && g.spec.Owned[k] {
		return k
	}
	return ""
}

func (g *Gen) posOf(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := g.fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, g.repo+"/"), q.Line)
}
