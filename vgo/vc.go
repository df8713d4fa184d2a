package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (vc *VC) useLemma(n string) { vc.lemUsed[n] = true }

func (vc *VC) entryEnv() *Env {
	return &Env{vc: vc, st: vc.entry, old: vc.entry, vars: vc.params}
}

// syncDefines makes the opaque invariants of the function under verification
// reflect the current private state.
func (vc *VC) syncDefines(st *State, guard *Term) {
	if vc.c == nil {
		return
	}
	for _, d := range vc.c.Defines {
		e := &Env{vc: vc, st: st, old: vc.entry, vars: vc.params, guard: guard}
		deps := vc.stateKey(st, d.Ghost)
		if vc.lastSync[d.Src] == deps {
			continue
		}
		t := e.boolean(d.E)
		ref := e.scalar(d.Arg)
		vc.setGhost(st, d.Ghost, ref, vc.named("def."+d.Ghost, t))
		vc.lastSync[d.Src] = vc.stateKey(st, d.Ghost)
	}
}

func (vc *VC) stateKey(st *State, gh string) string {
	var sb strings.Builder
	for _, k := range sortedKeys(st.H) {
		if strings.HasPrefix(k, "it!") {
			continue
		}
		sb.WriteString(k + "=" + st.H[k].op + ";")
	}
	return sb.String()
}

func (vc *VC) assumeDefines(st *State, guard *Term) {
	if vc.c == nil {
		return
	}
	for _, d := range vc.c.Defines {
		e := &Env{vc: vc, st: st, old: vc.entry, vars: vc.params, guard: guard}
		t := e.boolean(d.E)
		ref := e.scalar(d.Arg)
		gh := vc.ghost(st, d.Ghost, ref)
		vc.assume(And(guard, gh), t)
		vc.lastSync[d.Src] = vc.stateKey(st, d.Ghost)
	}
}

func (vc *VC) ghost(st *State, name string, ref *Term) *Term {
	s := arrSort(SInt, vc.g.spec.Ghosts[name].Sort)
	vc.g.setHeapKind("X:"+name, "ghost", s)
	return Sel(vc.get(st, "X:"+name, s), ref)
}
func (vc *VC) setGhost(st *State, name string, ref, v *Term) {
	gh, ok := vc.g.spec.Ghosts[name]
	if !ok {
		unsup("unknown ghost %s", name)
	}
	s := arrSort(SInt, gh.Sort)
	vc.g.setHeapKind("X:"+name, "ghost", s)
	vc.setAt(st, "X:"+name, s, ref, v)
}

func (vc *VC) applyWitness(e *Env, w Witness, st *State) {
	e.st = st
	t := e.scalar(w.E)
	ref := e.scalar(w.Arg)
	vc.setGhost(st, w.Ghost, ref, t)
}

// verifyFn generates the obligations of one function under contract.
func (g *Gen) verifyFn(c *Contract) (vc *VC, err error) {
	fn := g.allFns[strings.SplitN(c.Name, "@", 2)[0]]
	vc = newVC(g, c.Name)
	vc.c = c
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				err = fmt.Errorf("%s: outside the verified subset: %s (near %s)", c.Name, x.msg, vc.curPos)
			case evalErr:
				err = fmt.Errorf("%s: contract: %s (near %s)", c.Name, x.msg, vc.curPos)
			default:
				if os.Getenv("VGO_TRACE") != "" {
					panic(r)
				}
				err = fmt.Errorf("%s: internal: %v (near %s)", c.Name, r, vc.curPos)
			}
		}
	}()
	if fn == nil {
		return vc, fmt.Errorf("%s: function under contract not found in the code", c.Name)
	}
	vc.curFn = c.Name
	vc.rename = g.renames(fn)
	st := &State{H: map[string]*Term{}, al: vc.al0}
	vc.entry = st.clone()
	var args []Val
	for i, p := range fn.Params {
		v := vc.freshVal("a."+p.Name(), p.Type())
		if i < len(c.Params) {
			if d, ok := c.Dyns[c.Params[i]]; ok {
				t := (&Env{vc: vc, st: st}).resolveType(d)
				if t == nil {
					return vc, fmt.Errorf("%s: dyn %s: unknown type", c.Name, c.Params[i])
				}
				v.C = append([]*Term{vc.g.tagOf(t)}, v.C[1:]...)
				v.Dyn = t
				v.DynV = &Val{T: t, C: []*Term{v.C[1]}}
				vc.assume(tTrue, vc.typeFacts(*v.DynV, vc.al0))
			}
		}
		args = append(args, v)
		vc.assume(tTrue, vc.typeFacts(v, vc.al0))
		ov := v
		if v.DynV != nil {
			ov = *v.DynV
		}
		if pt, ok := ov.T.Underlying().(*types.Pointer); ok && len(ov.C) == 1 {
			// an object lies in allocated memory with all the structs embedded in it
			if n := vc.g.size(pt.Elem()); n > 1 {
				vc.assume(tTrue, Imp(Gt(ov.C[0], t0), Le(Add(ov.C[0], intLit(n)), vc.al0)))
			}
		}
	}
	vc.args = args
	var bind []Val
	for _, f := range fn.FreeVars {
		v := vc.freshVal("fv."+f.Name(), f.Type())
		vc.assume(tTrue, vc.typeFacts(v, vc.al0))
		vc.assume(tTrue, Gt(v.C[0], t0))
		bind = append(bind, v)
	}
	cs, vars := vc.effective(c, args)
	vc.params = vars[len(vars)-1]
	if len(c.Params) == 0 {
		for i, p := range fn.Params {
			if p.Name() != "_" && p.Name() != "" {
				v := args[i]
				v.T = p.Type()
				vc.params[p.Name()] = v
			}
		}
	}
	for i, f := range fn.FreeVars {
		// the variable a closure shares with its parent
		if p, ok := f.Type().Underlying().(*types.Pointer); ok {
			v := (&fctx{vc: vc, fn: fn, st: st, cur: tTrue}).load(bind[i])
			v.T = p.Elem()
			vc.assume(tTrue, vc.typeFacts(v, vc.al0))
			vc.params[f.Name()] = v
		}
	}
	for i, k := range cs {
		for _, m := range k.Mods {
			// evaluate effective modifies in the scope of its own contract
			vc.fnmods = append(vc.fnmods, vc.rescope(m, vars[i]))
		}
	}
	nc := 0
	for i, k := range cs {
		e := &Env{vc: vc, st: st, old: vc.entry, vars: vars[i]}
		for _, r := range k.Requires {
			vc.assumeSpec(e, r, tTrue)
			nc++
		}
	}
	if strings.HasPrefix(fn.Synthetic, "package init") {
		// runs once
		vc.assume(tTrue, Not(vc.get(st, "G:"+fn.Pkg.Pkg.Name()+".init$guard", SBool)))
	}
	vc.entry = st.clone()
	vc.assumeDefines(st, tTrue)
	for _, l := range c.Lets {
		e := &Env{vc: vc, st: st, old: vc.entry, vars: vc.params}
		v := e.eval(l.E)
		vc.params[l.Name] = v
	}
	if nc > 0 {
		o := vc.obligation("cover", "requires satisfiable", tTrue, tFalse, nil)
		if o != nil {
			o.Cover = true
		}
	}
	fc := vc.newFctx(fn, args, bind, nil)
	vc.stack = []*ssa.Function{fn}
	if len(fn.Blocks) == 0 {
		return vc, fmt.Errorf("%s: no body", c.Name)
	}
	fc.run(st, tTrue)
	if len(fc.rets) == 0 {
		return vc, nil
	}
	for ri := range fc.rets {
		r := &fc.rets[ri]
		vc.scoped(func() { vc.exit(fc, c, cs, vars, r, ri) })
	}
	return vc, nil
}

// rescope binds the free names of a modifies entry to the contract it came from.
func (vc *VC) rescope(m modEntry, vars map[string]Val) modEntry {
	m.vars = vars
	return m
}

func (vc *VC) exit(fc *fctx, c *Contract, cs []*Contract, vars []map[string]Val, r *retRec, ri int) {
	nf := len(vc.facts)
	g := r.guard
	st := r.st.clone()
	tt := fc.fn.Signature.Results()
	var rt types.Type = tt
	if tt.Len() == 1 {
		rt = tt.At(0).Type()
	}
	for i := range r.vals {
		if r.vals[i].T == nil {
			r.vals[i].T = tt.At(i).Type()
		}
	}
	pos := vc.curPos
	vc.curPos = fmt.Sprintf("return %d of %s, %s", ri+1, c.Name, r.pos)
	for i, k := range cs {
		if tt.Len() == 1 {
			n := "res"
			if len(k.Results) > 0 {
				n = k.Results[0]
			}
			v := r.vals[0]
			v.T = rt
			vars[i][n] = v
		} else {
			for j := range r.vals {
				n := fmt.Sprintf("res%d", j)
				if j < len(k.Results) {
					n = k.Results[j]
				}
				v := r.vals[j]
				v.T = tt.At(j).Type()
				vars[i][n] = v
			}
		}
	}
	own := vars[len(vars)-1]
	env := func(i int) *Env { return &Env{vc: vc, st: st, old: vc.entry, vars: vars[i], guard: g} }
	locals := func(n string) (Val, bool) { v, ok := fc.names[n]; return v, ok }
	for _, w := range c.Wit {
		e := &Env{vc: vc, st: st, old: vc.entry, vars: own, guard: g, look: locals}
		vc.applyWitness(e, w, st)
	}
	for _, h := range c.Hints {
		e := &Env{vc: vc, st: st, old: vc.entry, vars: own, guard: g, look: locals}
		vc.hintSpec(e, h, g, "exit")
	}
	ok := tTrue
	if c.OkWhen != nil {
		e := &Env{vc: vc, st: st, old: vc.entry, vars: own, guard: g}
		ok = e.boolean(c.OkWhen)
	}
	for _, d := range c.Defines {
		e := &Env{vc: vc, st: st, old: vc.entry, vars: own, guard: And(g, ok)}
		t := e.boolean(d.E)
		gg := g
		if !isTrue(ok) {
			gg = vc.named("okexit", And(g, ok))
		}
		if !isFalse(gg) {
			vc.check("invariant", d.Ghost, gg, t)
		}
		ref := e.scalar(d.Arg)
		var v *Term = tTrue
		if !isTrue(ok) {
			v = Ite(ok, tTrue, vc.fresh("notok", SBool))
		}
		vc.setGhost(st, d.Ghost, ref, v)
	}
	for i, k := range cs {
		for _, s := range k.Ensures {
			vc.checkSpec(env(i), "ensures", s.Name, s, g)
		}
	}
	// function values stored in fields with a contract
	for _, p := range vc.pendFn {
		vc.verifyStored(p, st, g)
	}
	// frame
	for _, n := range sortedKeys(st.H) {
		if strings.HasPrefix(n, "it!") {
			continue
		}
		h1 := st.H[n]
		h0, ok := vc.init[n]
		if !ok {
			h0 = vc.initial(n, h1.sort)
		}
		if eqT(h0, h1) {
			continue
		}
		if !strings.HasPrefix(h1.sort, "(Array Int") || strings.HasPrefix(n, "G:") {
			allowed := false
			for _, m := range vc.fnmods {
				if m.kind == "global" && strings.HasPrefix(n, "G:"+m.src) || m.kind == "any" {
					allowed = true
				}
			}
			if !allowed {
				vc.obligation("frame", n, g, Eq(h1, h0), nil)
			}
			continue
		}
		if strings.HasPrefix(n, "O:") {
			continue // ownership changes are checked where they happen
		}
		at := vc.fresh("fr", SInt)
		f := vc.frameFact(n, h0, h1, vc.al0, vc.fnmods, vc.entryEnv(), vc.entry, at)
		vc.obligation("frame", n, g, f, nil)
	}
	_ = nf
	vc.curPos = pos
	for i := range cs {
		_ = i
	}
}

// verifyStored checks a closure stored in a function-typed field against the
// contract of that field.
func (vc *VC) verifyStored(p pendFn, st *State, exitG *Term) {
	ct := vc.g.spec.Contracts[p.field]
	if ct == nil || ct.Kind != "fieldfn" {
		return
	}
	guard := vc.named("stored", And(p.guard, exitG))
	fc := &fctx{vc: vc, fn: p.fn.Fn, st: st.clone(), cur: guard, env: map[ssa.Value]Val{}, names: map[string]Val{}}
	var args []Val
	recv := Val{T: vc.g.slotOwnerType(p.field), C: []*Term{p.ref}}
	all := []Val{recv}
	for _, q := range p.fn.Fn.Params {
		v := vc.freshVal("f."+q.Name(), q.Type())
		vc.assume(tTrue, vc.typeFacts(v, st.al))
		args = append(args, v)
		all = append(all, v)
	}
	m := map[string]Val{}
	for i, n := range ct.Params {
		m[n] = all[i]
	}
	e := &Env{vc: vc, st: fc.st, old: fc.st, vars: m, guard: guard}
	for _, r := range ct.Requires {
		vc.assumeSpec(e, r, guard)
	}
	pre := fc.st
	sig := p.fn.Fn.Signature.Results()
	var rt types.Type = sig
	if sig.Len() == 1 {
		rt = sig.At(0).Type()
	}
	saveStack := vc.stack
	vc.stack = nil
	res := fc.inlineFn(p.fn.Fn, args, p.fn.Bind, rt)
	vc.stack = saveStack
	bindResults(ct, m, res, vc.g)
	e2 := &Env{vc: vc, st: fc.st, old: pre, vars: m, guard: fc.cur}
	for _, s := range ct.Ensures {
		vc.checkSpec(e2, "stored", p.field+"."+s.Name, s, fc.cur)
	}
	for _, n := range sortedKeys(fc.st.H) {
		h1 := fc.st.H[n]
		h0 := vc.get(pre, n, h1.sort)
		if !eqT(h0, h1) && !strings.HasPrefix(n, "it!") {
			if strings.HasPrefix(h1.sort, "(Array Int") && !strings.HasPrefix(n, "G:") {
				at := vc.fresh("fr", SInt)
				vc.obligation("stored", p.field+".frame."+n, fc.cur, Imp(And(Ge(at, t0), Lt(at, pre.al)), Eq(Sel(h1, at), Sel(h0, at))), nil)
				continue
			}
			vc.obligation("stored", p.field+".frame."+n, fc.cur, Eq(h1, h0), nil)
		}
	}
}

// verifyLemma generates the obligations of one lemma.
func (g *Gen) verifyLemma(l *Lemma) (vc *VC, err error) {
	vc = newVC(g, "lemma "+l.Name)
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				err = fmt.Errorf("lemma %s: %s", l.Name, x.msg)
			case evalErr:
				err = fmt.Errorf("lemma %s: %s", l.Name, x.msg)
			default:
				if os.Getenv("VGO_TRACE") != "" {
					panic(r)
				}
				err = fmt.Errorf("lemma %s: internal: %v", l.Name, r)
			}
		}
	}()
	vc.curLemma = l.Name
	st := &State{H: map[string]*Term{}, al: vc.al0}
	vc.entry = st
	m := map[string]Val{}
	for i, p := range l.Params {
		m[p] = logic(vc.fresh(p, l.Sorts[i]))
	}
	e := &Env{vc: vc, st: st, old: st, vars: m}
	for _, r := range l.Req {
		vc.assumeSpec(e, r, tTrue)
	}
	if len(l.Req) > 0 {
		if o := vc.obligation("cover", "requires satisfiable", tTrue, tFalse, nil); o != nil {
			o.Cover = true
		}
	}
	if l.Induct != "" {
		// induction hypothesis for the predecessor
		ih := map[string]Val{}
		for k, v := range m {
			ih[k] = v
		}
		n := m[l.Induct].C[0]
		ih[l.Induct] = logic(Sub(n, t1))
		vc.assume(tTrue, Imp(Gt(n, t0), (&Env{vc: vc, st: st, old: st, vars: ih}).lemmaBody(l, ih)))
	}
	for _, h := range l.Hints {
		vc.hintSpec(e, h, tTrue, "lemma")
	}
	for _, s := range l.Ens {
		vc.checkSpec(e, "lemma", s.Name, s, tTrue)
	}
	return vc, nil
}

// axiomFacts are the quantified axioms and automatic lemmas relevant to the
// uninterpreted symbols of a query.
func (g *Gen) axiomFacts(vc *VC) []axFact {
	var out []axFact
	for _, n := range g.spec.LemmaSeq {
		l := g.spec.Lemmas[n]
		if !l.Auto && (!l.Axiom || len(l.Params) > 0) {
			continue
		}
		if vc.curLemma != "" && !l.Axiom && g.lemmaIndex(n) >= g.lemmaIndex(vc.curLemma) {
			continue // lemmas may only use earlier ones
		}
		func() {
			st := &State{H: map[string]*Term{}, al: vc.al0}
			m := map[string]Val{}
			var vs []*Term
			for i, p := range l.Params {
				v := mk(l.Sorts[i], "ax_"+p)
				vs = append(vs, v)
				m[p] = logic(v)
			}
			e := &Env{vc: vc, st: st, old: st, vars: m, bound: 1}
			var rs, es []*Term
			for _, r := range l.Req {
				rs = append(rs, e.boolean(r.E))
			}
			for _, r := range l.Ens {
				es = append(es, e.boolean(r.E))
			}
			var pats [][]*Term
			for _, p := range l.Pats {
				// a; b means two alternatives, pat(x,y) a multi-pattern
				t := e.patTerms(p)
				pats = append(pats, t)
			}
			body := Imp(And(rs...), And(es...))
			if len(vs) > 0 {
				body = Forall(vs, body, pats...)
			}
			syms := map[string]bool{}
			if len(pats) > 0 {
				for _, p := range pats {
					for _, t := range p {
						t.consts(syms)
					}
				}
			} else {
				body.consts(syms)
			}
			var need []string
			for s := range syms {
				if _, ok := g.spec.UFs[s]; ok {
					need = append(need, s)
				}
			}
			out = append(out, axFact{n, body, need, l.Axiom})
		}()
	}
	return out
}

type axFact struct {
	name  string
	t     *Term
	need  []string
	axiom bool
}

func (g *Gen) lemmaIndex(n string) int {
	for i, x := range g.spec.LemmaSeq {
		if x == n {
			return i
		}
	}
	return -1
}
