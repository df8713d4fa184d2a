package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (g *Gen) inModule(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return g.modPkgs[fn.Pkg.Pkg.Path()]
	}
	if fn.Parent() != nil {
		return g.inModule(fn.Parent())
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return g.modPkgs[o.Pkg().Path()]
	}
	return false
}

func (fc *fctx) callInstr(c *ssa.CallCommon, rt types.Type) Val {
	vc := fc.vc
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		return fc.builtin(b, c, rt)
	}
	var args []Val
	if c.IsInvoke() {
		recv := fc.val(c.Value)
		args = append(args, recv)
		for _, a := range c.Args {
			args = append(args, fc.val(a))
		}
		r := fc.invoke(c, recv, args, rt)
		fc.atCall(vc.g.typeKey(c.Value.Type())+"."+c.Method.Name(), args, nil, r)
		return r
	}
	for _, a := range c.Args {
		v := fc.val(a)
		if v.T == nil {
			v.T = a.Type()
		}
		args = append(args, v)
	}
	if f := c.StaticCallee(); f != nil {
		var bind []Val
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			v := fc.val(mc)
			bind = v.Fn.Bind
		}
		name := vc.g.fnName(f)
		if !vc.g.inModule(f) {
			name = f.String()
		}
		if vc.wantsCall(name) {
			va := fc.variadic(c)
			fc.atCallPre(name, args, va)
			r := fc.callFn(f, args, bind, rt)
			fc.atCallPost(name, args, va, r)
			return r
		}
		return fc.callFn(f, args, bind, rt)
	}
	fv := fc.val(c.Value)
	if fv.Fn != nil {
		return fc.callFn(fv.Fn.Fn, args, fv.Fn.Bind, rt)
	}
	if fv.From != "" {
		if ct := vc.g.spec.Contracts[fv.From]; ct != nil && ct.Kind == "fieldfn" {
			fc.nonnilFn(fv)
			recv := Val{T: vc.g.slotOwnerType(fv.From), C: []*Term{fv.FromRef}}
			return fc.callContract(ct, append([]Val{recv}, args...), rt)
		}
	}
	fc.nonnilFn(fv)
	// function-typed parameter
	if p, ok := c.Value.(*ssa.Parameter); ok {
		if ct := vc.g.spec.Contracts[vc.g.fnName(fc.fn)+"."+p.Name()]; ct != nil {
			return fc.callContract(ct, args, rt)
		}
		for i, q := range fc.fn.Params {
			if q == p {
				if ct := vc.g.spec.Contracts[fmt.Sprintf("%s.#%d", vc.g.fnName(fc.fn), i)]; ct != nil {
					return fc.callContract(ct, args, rt)
				}
			}
		}
	}
	if n, ok := types.Unalias(c.Value.Type()).(*types.Named); ok {
		k := vc.g.typeKey(n)
		if ct := vc.g.spec.Contracts[k]; ct != nil && ct.Kind == "fieldfn" {
			return fc.callContract(ct, append([]Val{fv}, args...), rt)
		}
	}
	unsup("call of an unknown function value %s in %s", c, fc.fn)
	return Val{}
}

func (fc *fctx) nonnilFn(v Val) {
	if v.Fn == nil && len(v.C) == 1 {
		fc.nonnil(v.C[0])
	}
}

func (g *Gen) slotOwnerType(slot string) types.Type {
	i := strings.LastIndexByte(slot, '.')
	p := strings.SplitN(slot[:i], ".", 2)
	if pk := g.pkgByName(p[0]); pk != nil {
		if o := pk.Pkg.Scope().Lookup(p[1]); o != nil {
			return types.NewPointer(o.Type())
		}
	}
	return nil
}

func (fc *fctx) callFn(f *ssa.Function, args []Val, bind []Val, rt types.Type) Val {
	vc := fc.vc
	name := vc.g.fnName(f)
	if !vc.g.inModule(f) {
		return fc.external(f, args, rt)
	}
	if vc.c != nil && vc.c.Values {
		if ct := vc.g.spec.Contracts[name]; ct != nil && ct.Pure && !vc.inlineWanted(name) {
			return fc.callContract(ct, args, rt)
		}
		if hasTag(vc.c.Opaque, name) || vc.g.spec.Contracts[name] != nil {
			vc.note("result taken as arbitrary: " + name)
			return vc.freshVal("r."+name, rt)
		}
		return fc.inlineFn(f, args, bind, rt)
	}
	if vc.c != nil && hasTag(vc.c.Unreach, name) {
		vc.check("unreachable", name, fc.cur, tFalse)
		return vc.freshVal("r."+name, rt)
	}
	if vc.c != nil && hasTag(vc.c.Weak, name) {
		ct := vc.g.spec.Contracts[name+"@weak"]
		if ct == nil {
			unsup("no contract %s@weak", name)
		}
		return fc.callContract(ct, args, rt)
	}
	if ct := vc.g.spec.Contracts[name]; ct != nil && !vc.inlineWanted(name) {
		return fc.callContract(ct, args, rt)
	}
	return fc.inlineFn(f, args, bind, rt)
}

func (vc *VC) inlineWanted(name string) bool {
	return vc.c != nil && hasTag(vc.c.Inline, name)
}

func (fc *fctx) inlineFn(f *ssa.Function, args []Val, bind []Val, rt types.Type) Val {
	vc := fc.vc
	name := vc.g.fnName(f)
	if len(f.Blocks) == 0 {
		unsup("no body for %s", name)
	}
	for _, s := range vc.stack {
		if s == f {
			unsup("recursive call of %s without a contract", name)
		}
	}
	if len(vc.stack) > 24 {
		unsup("inlining too deep at %s", name)
	}
	if f.Synthetic == "" {
		vc.inl[name] = true
	}
	vc.stack = append(vc.stack, f)
	pos := vc.curPos
	in := vc.newFctx(f, args, bind, fc)
	in.run(fc.st, fc.cur)
	vc.stack = vc.stack[:len(vc.stack)-1]
	vc.curPos = pos
	return fc.join(in, rt)
}

// join merges the return records of an inlined activation into the caller.
func (fc *fctx) join(in *fctx, rt types.Type) Val {
	vc := fc.vc
	rets := in.rets
	if len(rets) == 0 {
		// never returns
		fc.cur = tFalse
		return vc.freshVal("noret", rt)
	}
	if len(rets) == 1 {
		fc.st = rets[0].st.clone()
		fc.setCur(rets[0].guard)
		return packVals(rt, rets[0].vals)
	}
	var es []inEdge
	for _, r := range rets {
		es = append(es, inEdge{cond: r.guard})
	}
	i := -1
	get := func(e inEdge) *State {
		for _, r := range rets {
			if r.guard == e.cond {
				return r.st
			}
		}
		return rets[0].st
	}
	_ = i
	st := vc.mergeStates(es, get)
	var vals []Val
	for k := range rets[0].vals {
		var vs []Val
		for _, r := range rets {
			vs = append(vs, r.vals[k])
		}
		vals = append(vals, vc.mergeVals(vs[0].T, es, vs))
	}
	fc.st = st
	var gs []*Term
	for _, r := range rets {
		gs = append(gs, r.guard)
	}
	fc.setCur(Or(gs...))
	return packVals(rt, vals)
}

func (fc *fctx) setCur(g *Term) {
	vc := fc.vc
	if eqT(g, fc.cur) {
		return
	}
	if len(g.args) == 0 {
		fc.cur = g
		return
	}
	c := vc.fresh("R", SBool)
	vc.defFact(c, Eq(c, g))
	if len(fc.cur.args) == 0 {
		vc.gpar[c.op] = fc.cur.op
	}
	fc.cur = c
}

func packVals(rt types.Type, vs []Val) Val {
	if len(vs) == 1 {
		v := vs[0]
		v.T = rt
		return v
	}
	out := Val{T: rt}
	for _, v := range vs {
		out.C = append(out.C, v.C...)
	}
	return out
}

func (fc *fctx) invoke(c *ssa.CallCommon, recv Val, args []Val, rt types.Type) Val {
	vc := fc.vc
	if recv.Dyn != nil {
		// known dynamic type: call the method itself
		if f := vc.g.prog.LookupMethod(recv.Dyn, c.Method.Pkg(), c.Method.Name()); f != nil && vc.g.inModule(f) {
			a := append([]Val{vc.unbox(recv, recv.Dyn)}, args[1:]...)
			return fc.callFn(f, a, nil, rt)
		}
	}
	iname := vc.g.typeKey(c.Value.Type()) + "." + c.Method.Name()
	if ct := vc.g.spec.Contracts[iname]; ct != nil {
		fc.safety("nil interface", Neq(recv.C[0], t0))
		return fc.callContract(ct, args, rt)
	}
	pk := c.Method.Pkg()
	if vc.c != nil && vc.c.Values {
		return vc.freshVal("r."+iname, rt)
	}
	if pk != nil && vc.g.modPkgs[pk.Path()] {
		unsup("interface method %s has no contract", iname)
	}
	return fc.externalNamed("iface:"+iname, args, rt, c.Method.Type().(*types.Signature))
}

// ---------- contracts at call sites ----------

type effClause struct {
	c    Clause
	vars map[string]Val
	from string
}

func (vc *VC) effective(c *Contract, args []Val) (cs []*Contract, vars []map[string]Val) {
	add := func(x *Contract) {
		m := map[string]Val{}
		if len(x.Params) > len(args) {
			unsup("contract %s has %d parameters, call has %d", x.Name, len(x.Params), len(args))
		}
		for i, p := range x.Params {
			m[p] = args[i]
		}
		cs = append(cs, x)
		vars = append(vars, m)
	}
	for _, i := range c.Impl {
		ic := vc.g.spec.Contracts[i]
		if ic == nil {
			unsup("contract %s implements unknown %s", c.Name, i)
		}
		add(ic)
	}
	add(c)
	return
}

func bindResults(c *Contract, m map[string]Val, res Val, g *Gen) {
	tt, ok := res.T.(*types.Tuple)
	names := c.Results
	if !ok || tt.Len() == 0 {
		if ok {
			return
		}
		n := "res"
		if len(names) > 0 {
			n = names[0]
		}
		m[n] = res
		return
	}
	p := 0
	for i := 0; i < tt.Len(); i++ {
		n := len(g.comps(tt.At(i).Type()))
		v := Val{T: tt.At(i).Type(), C: res.C[p : p+n]}
		p += n
		if i < len(names) {
			m[names[i]] = v
		} else {
			m[fmt.Sprintf("res%d", i)] = v
		}
	}
}

func (fc *fctx) callContract(ct *Contract, args []Val, rt types.Type) Val {
	vc := fc.vc
	if ct.Values {
		unsup("call of %s, whose contract does not describe memory", ct.Name)
	}
	vc.used[ct.Name] = true
	for i := range args {
		args[i] = fc.unflag(args[i])
		if args[i].A != nil {
			unsup("interior pointer passed to %s", ct.Name)
		}
	}
	cs, vars := vc.effective(ct, args)
	// refresh the opaque invariants defined by the function under verification
	sync := vc.c != nil && len(vc.c.Defines) > 0 && vc.mentionsDefined(cs)
	if sync {
		vc.syncDefines(fc.st, fc.cur)
	}
	pre := fc.st
	for i, c := range cs {
		e := &Env{vc: vc, st: pre, old: pre, vars: vars[i], guard: fc.cur}
		for _, r := range c.Requires {
			vc.checkSpec(e, "requires", ct.Name+"."+r.Name, r, fc.cur)
		}
	}
	for i, c := range cs {
		for _, l := range c.Lets {
			e := &Env{vc: vc, st: pre, old: pre, vars: vars[i], guard: fc.cur}
			vars[i][l.Name] = e.eval(l.E)
		}
	}
	post := pre.clone()
	pure := true
	for i, c := range cs {
		if len(c.Mods) > 0 {
			pure = false
		}
		e := &Env{vc: vc, st: pre, old: pre, vars: vars[i], guard: fc.cur}
		for _, m := range c.Mods {
			vc.havoc(post, pre, m, e)
		}
	}
	if !pure || !ct.Pure {
		post.al = vc.fresh("al", SInt)
		vc.assume(tTrue, Ge(post.al, pre.al))
	}
	res := vc.freshVal("r."+ct.Name, rt)
	vc.assume(fc.cur, vc.typeFacts(res, post.al))
	for i, c := range cs {
		bindResults(c, vars[i], res, vc.g)
		e := &Env{vc: vc, st: post, old: pre, vars: vars[i], guard: fc.cur}
		for _, s := range c.Ensures {
			vc.assumeSpec(e, s, fc.cur)
		}
	}
	fc.st = post
	if sync {
		vc.assumeDefines(post, fc.cur)
	}
	return res
}

// mentionsDefined tells whether the contracts of a call speak about an opaque
// invariant defined by the function under verification.
func (vc *VC) mentionsDefined(cs []*Contract) bool {
	names := map[string]bool{}
	for _, d := range vc.c.Defines {
		names[d.Ghost] = true
	}
	seen := map[string]bool{}
	var has func(e ast.Expr) bool
	has = func(e ast.Expr) bool {
		found := false
		ast.Inspect(e, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if names[id.Name] {
					found = true
				}
				if d := vc.g.spec.Defs[id.Name]; d != nil && !seen[id.Name] {
					seen[id.Name] = true
					if has(d.E) {
						found = true
					}
				}
			}
			return !found
		})
		return found
	}
	for _, c := range cs {
		for _, x := range [][]Clause{c.Requires, c.Ensures, c.Lets} {
			for _, k := range x {
				if has(k.E) {
					return true
				}
			}
		}
	}
	return false
}

func (vc *VC) assumeSpec(e *Env, c Clause, guard *Term) {
	t := vc.safeBool(e, c)
	vc.curTags = c.Tags
	vc.assume(guard, t)
	vc.curTags = nil
}

func (vc *VC) safeBool(e *Env, c Clause) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if ee, ok := r.(evalErr); ok {
				panic(evalErr{ee.msg + " [clause " + c.Name + " in contract for " + vc.name + "]"})
			}
			panic(r)
		}
	}()
	return e.boolean(c.E)
}

func (vc *VC) checkSpec(e *Env, kind, name string, c Clause, guard *Term) {
	t := vc.safeBool(e, c)
	vc.curTags = c.Tags
	vc.check(kind, name, guard, t)
	vc.curTags = nil
}

func (vc *VC) hintSpec(e *Env, c Clause, guard *Term, where string) {
	if vc.g.isLemmaCall(c.E) {
		vc.assumeSpec(e, c, guard)
		return
	}
	vc.checkSpec(e, "hint", where+"."+c.Name, c, guard)
}

// typeOfMod gives the struct types an obj()/owned() entry ranges over.
func (vc *VC) modTypes(v Val) ([]types.Type, *Term) {
	if v.T == nil {
		unsup("modifies of an untyped value")
	}
	switch u := v.T.Underlying().(type) {
	case *types.Pointer:
		return []types.Type{u.Elem()}, v.C[0]
	case *types.Interface:
		if v.Dyn != nil {
			if p, ok := v.Dyn.Underlying().(*types.Pointer); ok {
				return []types.Type{p.Elem()}, v.C[1]
			}
		}
		return vc.g.implementers(v.T), v.C[1]
	}
	unsup("modifies of %s", v.T)
	return nil, nil
}

func (g *Gen) implementers(t types.Type) []types.Type {
	it := t.Underlying().(*types.Interface)
	var out []types.Type
	for _, p := range g.pkgs {
		sc := p.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || types.IsInterface(tn.Type()) {
				continue
			}
			if _, ok := g.structOf(tn.Type()); !ok {
				continue
			}
			if g.implementsByName(types.NewPointer(tn.Type()), it) {
				out = append(out, tn.Type())
			}
		}
	}
	return out
}

// implementsByName tolerates types re-imported from export data.
func (g *Gen) implementsByName(t types.Type, it *types.Interface) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		found := false
		for j := 0; j < ms.Len(); j++ {
			if ms.At(j).Obj().Name() == m.Name() {
				found = true
			}
		}
		if !found {
			return false
		}
	}
	return true
}

type fieldLoc struct {
	heap string
	off  int64
	T    types.Type
	slot string
}

// structFields lists the scalar fields of t and its nested structs.
func (g *Gen) structFields(t types.Type, off int64) []fieldLoc {
	s, ok := g.structOf(t)
	if !ok {
		return nil
	}
	var out []fieldLoc
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if _, ok := g.structOf(ft); ok {
			out = append(out, g.structFields(ft, off+g.fieldOffset(s, i))...)
			continue
		}
		k := g.typeKey(t) + "." + s.Field(i).Name()
		out = append(out, fieldLoc{"F:" + k, off, ft, k})
	}
	return out
}

func (g *Gen) fieldHeapInfo(k string) heapInfo {
	i := strings.LastIndexByte(k, '.')
	t := g.slotOwnerType(k)
	if t == nil {
		panic(evalErr{"no field " + k})
	}
	for _, f := range g.structFields(t.(*types.Pointer).Elem(), 0) {
		if f.slot == k {
			c := g.comps(f.T)[0]
			return heapInfo{c.kind, arrSort(SInt, c.sort)}
		}
	}
	panic(evalErr{"no field " + k[i:]})
}

// ownedHeaps lists the element heaps reachable through owned fields of t.
func (vc *VC) ownedHeaps(t types.Type) map[string]string {
	g := vc.g
	out := map[string]string{}
	elem := func(el types.Type) {
		for _, c := range g.comps(el) {
			n, s := vc.heapComp("E:"+g.typeKey(el), c, "2")
			out[n] = s
		}
	}
	for _, f := range g.structFields(t, 0) {
		if !g.spec.Owned[f.slot] {
			continue
		}
		switch u := f.T.Underlying().(type) {
		case *types.Slice:
			elem(u.Elem())
		case *types.Map:
			ks, _ := g.keySortOf(u.Key())
			n := vc.mapName(u)
			out[n+".dom"] = arrSort(SInt, arrSort(ks, SBool))
			out[n+".mlen"] = arrSort(SInt, SInt)
			for _, c := range g.comps(u.Elem()) {
				nn, _ := vc.mapValH(&State{H: map[string]*Term{}}, u, c)
				out[nn] = arrSort(SInt, arrSort(ks, c.sort))
			}
			if sl, ok := u.Elem().Underlying().(*types.Slice); ok && g.spec.Owned[n] {
				elem(sl.Elem())
			}
		}
	}
	return out
}

func (vc *VC) havoc(post, pre *State, m modEntry, e *Env) {
	g := vc.g
	atRef := func(name, sort string, ref *Term) {
		h := vc.get(post, name, sort)
		vc.slog = append(vc.slog, storeRec{name, ref})
		vc.set(post, name, Sto(h, ref, vc.fresh("hv."+name, elemSort(sort))))
	}
	switch m.kind {
	case "any":
		unsup("modifies any")
	case "obj":
		ts, ref := vc.modTypes(e.eval(m.e))
		done := map[string]bool{}
		offs := map[int64]bool{0: true}
		for _, t := range ts {
			for _, f := range g.structFields(t, 0) {
				offs[f.off] = true
				for _, c := range g.comps(f.T) {
					n, s := vc.heapComp(f.heap, c, "1")
					k := fmt.Sprintf("%s@%d", n, f.off)
					if done[k] {
						continue
					}
					done[k] = true
					atRef(n, s, Add(ref, intLit(f.off)))
				}
			}
		}
		for _, gn := range sortedKeys(g.spec.Ghosts) {
			s := arrSort(SInt, g.spec.Ghosts[gn].Sort)
			g.setHeapKind("X:"+gn, "ghost", s)
			for o := range offs {
				if o == 0 || len(ts) == 1 {
					atRef("X:"+gn, s, Add(ref, intLit(o)))
				}
			}
		}
	case "owned":
		ts, ref := vc.modTypes(e.eval(m.e))
		hs := map[string]string{}
		for _, t := range ts {
			for k, v := range vc.ownedHeaps(t) {
				hs[k] = v
			}
		}
		own := vc.ownH(pre, "O:own")
		for _, n := range sortedKeys(hs) {
			h0 := vc.get(post, n, hs[n])
			h1 := vc.fresh("H."+n, hs[n])
			vc.slog = append(vc.slog, storeRec{n, mk(SInt, "!owned")})
			post.H[n] = h1
			r := mk(SInt, "fr_b")
			vc.assume(tTrue, Forall([]*Term{r}, Imp(And(Lt(r, pre.al), Neq(Sel(own, r), ref)), Eq(Sel(h1, r), Sel(h0, r))), []*Term{Sel(h1, r)}))
		}
		for _, n := range []string{"O:own", "O:slot", "O:key", "O:keyr"} {
			h0 := vc.ownH(post, n)
			h1 := vc.fresh("H."+n, h0.sort)
			post.H[n] = h1
			vc.slog = append(vc.slog, storeRec{n, mk(SInt, "!owned")})
			r := mk(SInt, "fr_b")
			vc.assume(tTrue, Forall([]*Term{r}, Imp(Lt(r, pre.al), Eq(Sel(h1, r), Sel(h0, r))), []*Term{Sel(h1, r)}))
		}
	case "field":
		hs, ref := vc.fieldMod(m, e)
		for _, h := range hs {
			atRef(h.heap, h.slot, ref)
		}
	case "elems":
		v := e.eval(m.e)
		el := v.T.Underlying().(*types.Slice).Elem()
		for _, c := range g.comps(el) {
			n, s := vc.heapComp("E:"+g.typeKey(el), c, "2")
			atRef(n, s, v.C[0])
		}
	case "rows", "unowned":
		own := vc.ownH(pre, "O:own")
		rm := vc.rowMod(m)
		for _, n := range sortedKeys(rm) {
			s := rm[n]
			h0 := vc.get(post, n, s)
			vc.slog = append(vc.slog, storeRec{n, nil})
			h1 := vc.fresh("H."+n, s)
			post.H[n] = h1
			if m.kind == "unowned" {
				r := mk(SInt, "fr_b")
				vc.assume(tTrue, Forall([]*Term{r}, Imp(And(Lt(r, pre.al), Neq(Sel(own, r), t0)), Eq(Sel(h1, r), Sel(h0, r))), []*Term{Sel(h1, r)}))
			}
		}
	case "map":
		v := e.eval(m.e)
		mt := v.T.Underlying().(*types.Map)
		n, d := vc.mapDom(post, mt)
		atRef(n, d.sort, v.C[0])
		n, d = vc.mapLenH(post, mt)
		atRef(n, d.sort, v.C[0])
		for _, c := range g.comps(mt.Elem()) {
			n, h := vc.mapValH(post, mt, c)
			atRef(n, h.sort, v.C[0])
		}
	case "all":
		for n, s := range vc.allMod(m) {
			vc.get(post, n, s)
			vc.slog = append(vc.slog, storeRec{n, nil})
			post.H[n] = vc.fresh("H."+n, s)
		}
	case "global":
		for _, h := range vc.globalMod(m) {
			vc.get(post, h.heap, h.slot)
			vc.slog = append(vc.slog, storeRec{h.heap, nil})
			post.H[h.heap] = vc.fresh("H."+h.heap, h.slot)
		}
	}
}

// fieldMod: heaps (name, sort) for field(e.f) entries.
func (vc *VC) fieldMod(m modEntry, e *Env) ([]fieldLoc, *Term) {
	base, fname := splitSel(m.e)
	if base == nil {
		// ghost: field(QN(q))
		gn, arg := splitGhost(m.e)
		if g, ok := vc.g.spec.Ghosts[gn]; ok {
			s := arrSort(SInt, g.Sort)
			vc.g.setHeapKind("X:"+gn, "ghost", s)
			return []fieldLoc{{heap: "X:" + gn, slot: s}}, e.scalar(arg)
		}
		unsup("modifies field(%s)", m.src)
	}
	b := e.eval(base)
	ts, ref := vc.modTypes(b)
	var out []fieldLoc
	for _, t := range ts {
		for _, f := range vc.g.structFields(t, 0) {
			if strings.HasSuffix(f.slot, "."+fname) {
				for _, c := range vc.g.comps(f.T) {
					n, s := vc.heapComp(f.heap, c, "1")
					out = append(out, fieldLoc{heap: n, slot: s})
				}
				return out, Add(ref, intLit(f.off))
			}
		}
	}
	unsup("modifies field(%s)", m.src)
	return nil, nil
}

func (vc *VC) allMod(m modEntry) map[string]string {
	out := map[string]string{}
	if g, ok := vc.g.spec.Ghosts[m.src]; ok {
		out["X:"+m.src] = arrSort(SInt, g.Sort)
		return out
	}
	t := vc.g.slotOwnerType(m.src)
	if t != nil {
		for _, f := range vc.g.structFields(t.(*types.Pointer).Elem(), 0) {
			if f.slot == m.src {
				for _, c := range vc.g.comps(f.T) {
					n, s := vc.heapComp(f.heap, c, "1")
					out[n] = s
				}
			}
		}
	}
	if len(out) == 0 {
		// all(pkg.T): every field of the type
		p := strings.SplitN(m.src, ".", 2)
		if len(p) == 2 {
			if pk := vc.g.pkgByName(p[0]); pk != nil {
				if o := pk.Pkg.Scope().Lookup(p[1]); o != nil {
					for _, f := range vc.g.structFields(o.Type(), 0) {
						for _, c := range vc.g.comps(f.T) {
							n, s := vc.heapComp(f.heap, c, "1")
							out[n] = s
						}
					}
				}
			}
		}
	}
	if len(out) == 0 {
		unsup("modifies all(%s)", m.src)
	}
	return out
}

// rowMod: the heaps of the arrays with elements of the named type.
func (vc *VC) rowMod(m modEntry) map[string]string {
	var t types.Type
	if o, ok := types.Universe.Lookup(m.src).(*types.TypeName); ok {
		t = o.Type()
	} else if p := strings.SplitN(m.src, ".", 2); len(p) == 2 {
		if pk := vc.g.pkgByName(p[0]); pk != nil {
			if o := pk.Pkg.Scope().Lookup(p[1]); o != nil {
				t = o.Type()
			}
		}
	}
	if t == nil {
		unsup("modifies %s(%s)", m.kind, m.src)
	}
	out := map[string]string{}
	for _, c := range vc.g.comps(t) {
		n, s := vc.heapComp("E:"+vc.g.typeKey(t), c, "2")
		out[n] = s
	}
	return out
}

func (vc *VC) globalMod(m modEntry) []fieldLoc {
	p := strings.SplitN(m.src, ".", 2)
	pk := vc.g.pkgByName(p[0])
	o := pk.Pkg.Scope().Lookup(p[1])
	var out []fieldLoc
	for _, c := range vc.g.comps(o.Type()) {
		n, s := vc.heapComp("G:"+m.src, c, "0")
		out = append(out, fieldLoc{heap: n, slot: s})
	}
	return out
}

// ---------- frames ----------

// modified gives the condition under which row r of heap n may change.
func (vc *VC) modified(n string, r *Term, mods []modEntry, e0 *Env) *Term {
	g := vc.g
	var out []*Term
	for _, m := range mods {
		e := e0
		if m.vars != nil {
			e = e0.with(m.vars)
		}
		switch m.kind {
		case "any":
			return tTrue
		case "obj":
			if !strings.HasPrefix(n, "F:") && !strings.HasPrefix(n, "X:") {
				continue
			}
			ts, ref := vc.modTypes(e.eval(m.e))
			for _, t := range ts {
				if strings.HasPrefix(n, "X:") {
					out = append(out, And(Le(ref, r), Lt(r, Add(ref, intLit(g.size(t))))))
					continue
				}
				for _, f := range g.structFields(t, 0) {
					if n == f.heap || strings.HasPrefix(n, f.heap+".") && compOf(g, f.T, n[len(f.heap):]) {
						out = append(out, Eq(r, Add(ref, intLit(f.off))))
					}
				}
			}
		case "owned":
			if !strings.HasPrefix(n, "E:") && !strings.HasPrefix(n, "M:") {
				continue
			}
			_, ref := vc.modTypes(e.eval(m.e))
			out = append(out, Eq(Sel(vc.ownH(e.st, "O:own"), r), ref))
		case "field":
			hs, ref := vc.fieldMod(m, e)
			for _, h := range hs {
				if h.heap == n {
					out = append(out, Eq(r, ref))
				}
			}
		case "elems":
			if strings.HasPrefix(n, "E:") {
				v := e.eval(m.e)
				out = append(out, Eq(r, v.C[0]))
			}
		case "map":
			if strings.HasPrefix(n, "M:") {
				v := e.eval(m.e)
				out = append(out, Eq(r, v.C[0]))
			}
		case "all":
			if _, ok := vc.allMod(m)[n]; ok {
				return tTrue
			}
		case "rows", "unowned":
			if _, ok := vc.rowMod(m)[n]; ok {
				if m.kind == "rows" {
					return tTrue
				}
				out = append(out, Eq(Sel(vc.ownH(e.st, "O:own"), r), t0))
			}
		}
	}
	return Or(out...)
}

func compOf(g *Gen, t types.Type, suf string) bool {
	for _, c := range g.comps(t) {
		if c.suf == suf {
			return true
		}
	}
	return false
}

func (vc *VC) frameFact(n string, h0, h1, lim *Term, mods []modEntry, e *Env, st *State, at *Term) *Term {
	r := at
	if r == nil {
		r = mk(SInt, "fr_b")
	}
	mod := tFalse
	if !strings.HasPrefix(n, "O:") {
		mod = vc.modified(n, r, mods, e)
	}
	if isTrue(mod) {
		return tTrue
	}
	body := Imp(And(Le(t1, r), Lt(r, lim), Not(mod)), Eq(Sel(h1, r), Sel(h0, r)))
	if at != nil {
		return body
	}
	return Forall([]*Term{r}, body, []*Term{Sel(h1, r)})
}

// ---------- builtins ----------

func (fc *fctx) builtin(b *ssa.Builtin, c *ssa.CallCommon, rt types.Type) Val {
	vc := fc.vc
	arg := func(i int) Val {
		v := fc.val(c.Args[i])
		if v.T == nil {
			v.T = c.Args[i].Type()
		}
		return v
	}
	switch b.Name() {
	case "len":
		v := arg(0)
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			return Val{T: rt, C: []*Term{v.C[2]}}
		case *types.Map:
			_, lh := vc.mapLenH(fc.st, u)
			_, dh := vc.mapDom(fc.st, u)
			l := Sel(lh, v.C[0])
			ks, _ := vc.g.keySortOf(u.Key())
			k := mk(ks, "ml_b")
			d := Sel(Sel(dh, v.C[0]), k)
			vc.assume(fc.cur, Imp(Eq(v.C[0], t0), Eq(l, t0)))
			vc.assume(fc.cur, Ge(l, t0))
			vc.assume(fc.cur, Imp(Eq(l, t0), Forall([]*Term{k}, Not(d), []*Term{d})))
			return Val{T: rt, C: []*Term{l}}
		case *types.Basic:
			ufNames["strlen"] = true
			l := App(SInt, "strlen", v.C[0])
			vc.assume(tTrue, And(Ge(l, t0), Eq(Eq(l, t0), Eq(v.C[0], t0))))
			return Val{T: rt, C: []*Term{l}}
		case *types.Pointer:
			return Val{T: rt, C: []*Term{intLit(u.Elem().Underlying().(*types.Array).Len())}}
		}
		return vc.freshVal("len", rt)
	case "cap":
		v := arg(0)
		if len(v.C) == 4 {
			return Val{T: rt, C: []*Term{v.C[3]}}
		}
		return vc.freshVal("cap", rt)
	case "append":
		return fc.appendB(arg(0), arg(1), rt)
	case "copy":
		return fc.copyB(arg(0), arg(1), rt)
	case "delete":
		m, k := arg(0), arg(1)
		mt := c.Args[0].Type().Underlying().(*types.Map)
		key := vc.mapKey(mt.Key(), k)
		// deleting from a nil map is a no-op; the row of reference 0 is never read as present
		vc.mapDelete(fc.st, mt, m.C[0], key)
		// a map holding some key is not empty
		{
			_, dh := vc.mapDom(fc.st, mt)
			_, lh := vc.mapLenH(fc.st, mt)
			q := mk(key.sort, "md_b")
			d := Sel(Sel(dh, m.C[0]), q)
			vc.assume(fc.cur, Forall([]*Term{q}, Imp(d, Ge(Sel(lh, m.C[0]), t1)), []*Term{d}))
		}
		return Val{T: rt}
	case "print", "println":
		return Val{T: rt}
	case "min", "max":
		v := arg(0)
		t := v.C[0]
		for i := 1; i < len(c.Args); i++ {
			o := arg(i).C[0]
			if b.Name() == "min" {
				t = Ite(Le(t, o), t, o)
			} else {
				t = Ite(Ge(t, o), t, o)
			}
		}
		return Val{T: rt, C: []*Term{t}}
	case "ssa:wrapnilchk":
		v := arg(0)
		fc.nonnil(v.C[0])
		return v
	}
	unsup("builtin %s", b.Name())
	return Val{}
}

func (fc *fctx) appendB(s, x Val, rt types.Type) Val {
	vc := fc.vc
	el := rt.Underlying().(*types.Slice).Elem()
	if bt, ok := x.T.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		unsup("append of a string")
	}
	if len(x.C) == 1 { // untyped nil
		return s
	}
	n, known := x.C[2].intVal()
	if known && n == 0 {
		s.T = rt
		return s
	}
	arr, off, ln, cp := s.C[0], s.C[1], s.C[2], s.C[3]
	newLen := Add(ln, x.C[2])
	grow := vc.named("grow", Gt(newLen, cp))
	r := fc.newRef(1)
	narr := vc.named("arr", Ite(grow, r, arr))
	ncap := vc.fresh("cap", SInt)
	vc.assume(fc.cur, Ite(grow, Ge(ncap, newLen), Eq(ncap, cp)))
	for _, c := range vc.g.comps(el) {
		nm, so := vc.heapComp("E:"+vc.g.typeKey(el), c, "2")
		h := vc.get(fc.st, nm, so)
		row := Sel(h, arr)
		src := Sel(h, x.C[0])
		var nrow *Term
		if known && n <= 8 {
			nrow = row
			for j := int64(0); j < n; j++ {
				nrow = Sto(nrow, Add(Add(off, ln), intLit(j)), Sel(src, Add(x.C[1], intLit(j))))
			}
		} else {
			nrow = vc.fresh("row", row.sort)
			start := Add(off, ln)
			j := mk(SInt, "ap_b")
			d := linDiff(x.C[1], start)
			vc.assume(fc.cur, Forall([]*Term{j}, Eq(Sel(nrow, j), Ite(And(Le(start, j), Lt(j, Add(start, x.C[2]))), Sel(src, Add(j, d)), Sel(row, j))), []*Term{Sel(nrow, j)}))
		}
		vc.setAt(fc.st, nm, so, narr, nrow)
	}
	return Val{T: rt, C: []*Term{narr, off, newLen, ncap}}
}

// linDiff computes a-b, cancelling syntactically equal summands.
func linDiff(a, b *Term) *Term {
	ca, cb := map[string]int64{}, map[string]int64{}
	ts := map[string]*Term{}
	var ka, kb int64
	collectLin(a, 1, ca, &ka, ts)
	collectLin(b, 1, cb, &kb, ts)
	k := ka - kb
	var res *Term = intLit(k)
	first := true
	var out *Term
	for _, s := range sortedKeys(ts) {
		c := ca[s] - cb[s]
		if c == 0 {
			continue
		}
		t := ts[s]
		switch {
		case c == 1:
		default:
			t = Mul(intLit(c), t)
		}
		if first {
			out = t
			first = false
		} else {
			out = Add(out, t)
		}
	}
	if out == nil {
		return res
	}
	return Add(out, res)
}

func collectLin(t *Term, s int64, m map[string]int64, k *int64, ts map[string]*Term) {
	if n, ok := t.intVal(); ok {
		*k += s * n
		return
	}
	if t.op == "+" {
		for _, a := range t.args {
			collectLin(a, s, m, k, ts)
		}
		return
	}
	if t.op == "-" && len(t.args) == 2 {
		collectLin(t.args[0], s, m, k, ts)
		collectLin(t.args[1], -s, m, k, ts)
		return
	}
	if t.op == "-" && len(t.args) == 1 {
		collectLin(t.args[0], -s, m, k, ts)
		return
	}
	key := t.String()
	m[key] += s
	ts[key] = t
}

func (fc *fctx) copyB(d, x Val, rt types.Type) Val {
	vc := fc.vc
	if len(x.C) != 4 {
		unsup("copy from a string")
	}
	el := d.T.Underlying().(*types.Slice).Elem()
	n := vc.named("n", Ite(Le(d.C[2], x.C[2]), d.C[2], x.C[2]))
	if eqT(d.C[2], x.C[2]) {
		n = d.C[2]
	}
	for _, c := range vc.g.comps(el) {
		nm, so := vc.heapComp("E:"+vc.g.typeKey(el), c, "2")
		h := vc.get(fc.st, nm, so)
		row, src := Sel(h, d.C[0]), Sel(h, x.C[0])
		nrow := vc.fresh("row", row.sort)
		j := mk(SInt, "cp_b")
		df := linDiff(x.C[1], d.C[1])
		vc.assume(fc.cur, Forall([]*Term{j}, Eq(Sel(nrow, j), Ite(And(Le(d.C[1], j), Lt(j, Add(d.C[1], n))), Sel(src, Add(j, df)), Sel(row, j))), []*Term{Sel(nrow, j)}))
		vc.setAt(fc.st, nm, so, d.C[0], nrow)
	}
	return Val{T: rt, C: []*Term{n}}
}

func (vc *VC) wantsCall(name string) bool {
	if vc.c == nil {
		return false
	}
	for _, a := range vc.c.AtCalls {
		if a.Target == name {
			return true
		}
	}
	return false
}

// variadic gives the values a call lists for its variadic parameter.
func (fc *fctx) variadic(c *ssa.CallCommon) []Val {
	if !c.Signature().Variadic() || len(c.Args) == 0 {
		return nil
	}
	sl, ok := c.Args[len(c.Args)-1].(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok || al.Comment != "varargs" {
		return nil
	}
	at := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
	out := make([]Val, at.Len())
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil
		}
		for _, r2 := range *ia.Referrers() {
			if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
				v := fc.val(st.Val)
				if v.T == nil {
					v.T = st.Val.Type()
				}
				out[k.Int64()] = v
			}
		}
	}
	return out
}

func (fc *fctx) atEnv(args, va []Val) *Env {
	vc := fc.vc
	e := &Env{vc: vc, st: fc.st, old: vc.entry, vars: map[string]Val{}, guard: fc.cur}
	for k, v := range vc.params {
		e.vars[k] = v
	}
	put := func(p string, vs []Val) {
		for i, v := range vs {
			if v.DynV != nil {
				v = *v.DynV
			}
			e.vars[fmt.Sprintf("%s%d", p, i)] = v
		}
	}
	put("a", args)
	put("v", va)
	e.look = func(n string) (Val, bool) {
		for f := fc; f != nil; f = f.up {
			if v, ok := f.names[n]; ok {
				return v, true
			}
		}
		return fc.renamed(n)
	}
	return e
}

// atCallPre states the conditions required of the calls of a function.
func (fc *fctx) atCallPre(name string, args, va []Val) {
	vc := fc.vc
	for _, a := range vc.c.AtCalls {
		if a.Target == name && a.Ghost == "" {
			vc.checkSpec(fc.atEnv(args, va), "call", name+"."+a.C.Name, a.C, fc.cur)
		}
	}
}

// atCallPost counts them.
func (fc *fctx) atCallPost(name string, args, va []Val, r Val) {
	vc := fc.vc
	for _, a := range vc.c.AtCalls {
		if a.Target != name || a.Ghost == "" {
			continue
		}
		e := fc.atEnv(args, va)
		if tt, ok := r.T.(*types.Tuple); ok {
			p := 0
			for i := 0; i < tt.Len(); i++ {
				n := len(vc.g.comps(tt.At(i).Type()))
				e.vars[fmt.Sprintf("r%d", i)] = Val{T: tt.At(i).Type(), C: r.C[p : p+n]}
				p += n
			}
		} else {
			e.vars["r0"] = r
		}
		t := e.scalar(a.C.E)
		vc.setGhost(fc.st, a.Ghost, t0, Add(vc.ghost(fc.st, a.Ghost, t0), t))
	}
}

func (fc *fctx) atCall(name string, args, va []Val, r Val) {
	if fc.vc.wantsCall(name) {
		fc.atCallPre(name, args, va)
		fc.atCallPost(name, args, va, r)
	}
}

// quiet: a deferred function that calls nothing the contract speaks about.
func (vc *VC) quiet(f *ssa.Function, depth int) bool {
	if !vc.g.inModule(f) {
		return !vc.wantsCall(f.String())
	}
	if depth > 5 || vc.wantsCall(vc.g.fnName(f)) {
		return false
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select:
				return false
			case *ssa.Call:
				if g := x.Call.StaticCallee(); g != nil {
					if !vc.quiet(g, depth+1) {
						return false
					}
				} else if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
					return false
				}
			}
		}
	}
	return true
}
