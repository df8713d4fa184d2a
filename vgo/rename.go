package main

import (
	"encoding/json"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// localVar is a variable declared by a function.
type localVar struct{ Name, Type string }

// locals lists the variables a function (with its closures) declares, in
// order of declaration, parameters included.
func (g *Gen) locals(fn *ssa.Function) []localVar {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	syn, ok := fn.Syntax().(*ast.FuncDecl)
	if !ok || fn.Pkg == nil {
		return nil
	}
	info := g.infos[fn.Pkg.Pkg.Path()]
	if info == nil {
		return nil
	}
	q := func(p *types.Package) string { return p.Name() }
	var vs []*types.Var
	ast.Inspect(syn, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.Ident:
			if v, ok := info.Defs[x].(*types.Var); ok && !v.IsField() && v.Name() != "_" {
				vs = append(vs, v)
			}
		case *ast.TypeSwitchStmt:
			for _, c := range x.Body.List {
				if v, ok := info.Implicits[c].(*types.Var); ok {
					vs = append(vs, v)
				}
			}
		}
		return true
	})
	sort.SliceStable(vs, func(i, j int) bool { return vs[i].Pos() < vs[j].Pos() })
	var out []localVar
	seen := map[localVar]bool{}
	for _, v := range vs {
		l := localVar{v.Name(), types.TypeString(v.Type(), q)}
		if !seen[l] {
			seen[l] = true
			out = append(out, l)
		}
	}
	return out
}

var _ token.Pos

// renames maps the names of variables a function no longer declares to those it
// declares instead: the first missing variable of a type to the first new one of
// that type, and so on.  Functions that did not exist when the contracts were
// written count as part of their callers.  The map only says which value a
// clause of the contract speaks of; the clause is proved all the same.
func (g *Gen) renames(fn *ssa.Function) map[string]string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	was, ok := g.known[g.fnName(fn)]
	if !ok {
		return nil
	}
	var now []localVar
	visited := map[*ssa.Function]bool{}
	var collect func(f *ssa.Function)
	collect = func(f *ssa.Function) {
		if visited[f] {
			return
		}
		visited[f] = true
		if f.Parent() == nil {
			now = append(now, g.locals(f)...)
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					if k := c.Common().StaticCallee(); k != nil && k.Pkg != nil && g.modPkgs[k.Pkg.Pkg.Path()] && k.Parent() == nil {
						if _, old := g.known[g.fnName(k)]; !old {
							collect(k)
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			collect(a)
		}
	}
	collect(fn)
	has := func(ls []localVar, n string) bool {
		for _, l := range ls {
			if l.Name == n {
				return true
			}
		}
		return false
	}
	m := map[string]string{}
	used := map[string]bool{}
	for _, w := range was {
		if has(now, w.Name) {
			continue
		}
		for _, n := range now {
			if n.Type == w.Type && !has(was, n.Name) && !used[n.Name] {
				m[w.Name] = n.Name
				used[n.Name] = true
				break
			}
		}
	}
	return m
}

func loadLocals(p, area string) map[string][]localVar {
	m := map[string]map[string][]localVar{}
	if b, err := os.ReadFile(p); err == nil {
		json.Unmarshal(b, &m)
	}
	return m[area]
}

// saveLocals records the variables of all functions of an area.
func (g *Gen) saveLocals(p, area string) {
	m := map[string]map[string][]localVar{}
	if b, err := os.ReadFile(p); err == nil {
		json.Unmarshal(b, &m)
	}
	m[area] = map[string][]localVar{}
	for n, f := range g.allFns {
		if f.Parent() == nil && f.Syntax() != nil {
			m[area][n] = g.locals(f)
		}
	}
	b, _ := json.MarshalIndent(m, "", " ")
	os.WriteFile(p, append(b, 10), 0o644)
}
