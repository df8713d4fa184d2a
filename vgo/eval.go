package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

// Env evaluates contract expressions to terms.
type Env struct {
	vc    *VC
	st    *State
	old   *State
	pre   *State
	prev  *State
	prior map[string]Val
	vars  map[string]Val
	look  func(string) (Val, bool)
	bound int
	guard *Term
	depth int
}

type evalErr struct{ msg string }

func (e *Env) fail(x ast.Expr, f string, a ...any) {
	panic(evalErr{fmt.Sprintf(f, a...) + " in " + types.ExprString(x)})
}

func (e *Env) with(vars map[string]Val) *Env {
	n := *e
	n.vars = map[string]Val{}
	for k, v := range e.vars {
		n.vars[k] = v
	}
	for k, v := range vars {
		n.vars[k] = v
	}
	return &n
}
func (e *Env) in(st *State) *Env {
	n := *e
	n.st = st
	return &n
}

func logic(t *Term) Val { return Val{C: []*Term{t}} }

func (e *Env) boolean(x ast.Expr) *Term {
	v := e.eval(x)
	if len(v.C) != 1 || v.C[0].sort != SBool {
		e.fail(x, "not boolean")
	}
	return v.C[0]
}
func (e *Env) scalar(x ast.Expr) *Term {
	v := e.eval(x)
	return e.scal(x, v)
}
func (e *Env) scal(x ast.Expr, v Val) *Term {
	if len(v.C) == 1 {
		return v.C[0]
	}
	if v.T != nil {
		switch v.T.Underlying().(type) {
		case *types.Interface:
			return v.C[1]
		case *types.Slice:
			return v.C[0]
		}
	}
	e.fail(x, "not scalar")
	return nil
}

func (e *Env) factsFor(v Val, ref *Term) {
	if e.bound > 0 {
		return
	}
	t := e.vc.typeFacts(v, e.st.al)
	if isTrue(t) {
		return
	}
	g := tTrue
	if ref != nil {
		g = And(Lt(ref, e.st.al), Ge(ref, t0))
	}
	if e.guard != nil {
		g = And(e.guard, g)
	}
	e.vc.assume(g, t)
}

func (e *Env) resolveType(x ast.Expr) types.Type {
	switch n := x.(type) {
	case *ast.StarExpr:
		t := e.resolveType(n.X)
		if t == nil {
			return nil
		}
		return types.NewPointer(t)
	case *ast.ArrayType:
		t := e.resolveType(n.Elt)
		if t == nil {
			return nil
		}
		return types.NewSlice(t)
	case *ast.ParenExpr:
		return e.resolveType(n.X)
	case *ast.SelectorExpr:
		if id, ok := n.X.(*ast.Ident); ok {
			if p := e.vc.g.pkgByName(id.Name); p != nil {
				if o := p.Pkg.Scope().Lookup(n.Sel.Name); o != nil {
					if tn, ok := o.(*types.TypeName); ok {
						return tn.Type()
					}
				}
			}
		}
		return nil
	case *ast.Ident:
		switch n.Name {
		case "int":
			return types.Typ[types.Int]
		case "int64":
			return types.Typ[types.Int64]
		case "float64":
			return types.Typ[types.Float64]
		case "bool":
			return types.Typ[types.Bool]
		case "string":
			return types.Typ[types.String]
		}
	}
	return nil
}

func (e *Env) eval(x ast.Expr) Val {
	e.depth++
	if e.depth > 400 {
		e.fail(x, "too deep")
	}
	defer func() { e.depth-- }()
	vc := e.vc
	switch n := x.(type) {
	case *ast.ParenExpr:
		return e.eval(n.X)
	case *ast.BasicLit:
		switch n.Kind {
		case token.INT:
			v, err := strconv.ParseInt(n.Value, 0, 64)
			if err != nil && strings.Trim(n.Value, "0123456789") == "" {
				return logic(mk(SInt, n.Value))
			}
			return logic(intLit(v))
		case token.FLOAT:
			return logic(floatConst(constant.MakeFromLiteral(n.Value, n.Kind, 0)))
		case token.STRING:
			s, _ := strconv.Unquote(n.Value)
			return logic(vc.strConst(s))
		}
	case *ast.Ident:
		switch n.Name {
		case "true":
			return logic(tTrue)
		case "false":
			return logic(tFalse)
		case "nil":
			return Val{C: []*Term{t0}, T: types.Typ[types.UntypedNil]}
		}
		if v, ok := e.vars[n.Name]; ok {
			return v
		}
		if e.look != nil {
			if v, ok := e.look(n.Name); ok {
				if v.Cell != nil {
					w := vc.loadAddr(e.st, v.Cell)
					e.factsFor(w, v.Cell.ref)
					return w
				}
				return v
			}
		}
		if d, ok := vc.g.spec.Defs[n.Name]; ok && len(d.Params) == 0 {
			return e.eval(d.E)
		}
		if u, ok := vc.g.spec.UFs[n.Name]; ok && len(u.Args) == 0 {
			return logic(mk(u.Res, n.Name))
		}
		if r, ok := vc.rename[n.Name]; ok {
			return e.eval(&ast.Ident{Name: r, NamePos: n.NamePos})
		}
		e.fail(x, "unknown name %s", n.Name)
	case *ast.UnaryExpr:
		switch n.Op {
		case token.SUB:
			return logic(Neg(e.scalar(n.X)))
		case token.NOT:
			return logic(Not(e.boolean(n.X)))
		}
	case *ast.BinaryExpr:
		return e.binary(n)
	case *ast.SelectorExpr:
		return e.selector(n)
	case *ast.IndexExpr:
		b := e.eval(n.X)
		if b.T != nil {
			switch u := b.T.Underlying().(type) {
			case *types.Map:
				k := e.mapKeyOf(u, n.Index)
				v, _ := vc.mapGet(e.st, u, b.C[0], k)
				v = vc.mapElemOff0(u, v)
				e.factsFor(v, b.C[0])
				return v
			case *types.Slice:
				i := e.scalar(n.Index)
				a := &Addr{kind: "elem", heap: "E:" + vc.g.typeKey(u.Elem()), ref: b.C[0], idx: addIdx(b.C[1], i), T: u.Elem()}
				v := vc.loadAddr(e.st, a)
				e.factsFor(v, b.C[0])
				return v
			}
		}
		if len(b.C) == 1 && strings.HasPrefix(b.C[0].sort, "(Array") {
			return logic(Sel(b.C[0], e.scalar(n.Index)))
		}
		e.fail(x, "cannot index")
	case *ast.CallExpr:
		return e.call(n)
	}
	e.fail(x, "unsupported expression")
	return Val{}
}

func (e *Env) mapKeyOf(mt *types.Map, x ast.Expr) *Term {
	v := e.eval(x)
	if _, ok := mt.Key().Underlying().(*types.Interface); ok {
		if v.T != nil {
			if _, ok := v.T.Underlying().(*types.Interface); ok {
				return e.vc.mapKey(mt.Key(), v)
			}
			// concrete value boxed
			return e.vc.mapKey(mt.Key(), e.vc.box(v))
		}
		return v.C[0]
	}
	return e.scal(x, v)
}

// addIdx normalises off+i when i has the form a-off.
func addIdx(off, i *Term) *Term {
	if i.op == "-" && len(i.args) == 2 && eqT(i.args[1], off) {
		return i.args[0]
	}
	return Add(off, i)
}

func floatConst(v constant.Value) *Term {
	v = constant.ToFloat(v)
	if v.Kind() != constant.Float && v.Kind() != constant.Int {
		return realLit("0", "1")
	}
	nu, de := constant.Num(v), constant.Denom(v)
	return realLit(nu.ExactString(), de.ExactString())
}

func (e *Env) binary(n *ast.BinaryExpr) Val {
	switch n.Op {
	case token.LAND:
		return logic(And(e.boolean(n.X), e.boolean(n.Y)))
	case token.LOR:
		return logic(Or(e.boolean(n.X), e.boolean(n.Y)))
	case token.EQL, token.NEQ:
		a, b := e.eval(n.X), e.eval(n.Y)
		t := e.eqVals(n, a, b)
		if n.Op == token.NEQ {
			t = Not(t)
		}
		return logic(t)
	}
	a, b := e.scalar(n.X), e.scalar(n.Y)
	switch n.Op {
	case token.LSS:
		return logic(Lt(a, b))
	case token.LEQ:
		return logic(Le(a, b))
	case token.GTR:
		return logic(Gt(a, b))
	case token.GEQ:
		return logic(Ge(a, b))
	case token.ADD:
		return logic(Add(a, b))
	case token.SUB:
		return logic(Sub(a, b))
	case token.MUL:
		return logic(Mul(a, b))
	case token.QUO:
		if a.sort == SReal || b.sort == SReal {
			return logic(mk(SReal, "/", ToReal(a), ToReal(b)))
		}
		return logic(truncDiv(a, b))
	case token.REM:
		return logic(truncMod(a, b))
	}
	e.fail(n, "operator")
	return Val{}
}

func (e *Env) eqVals(x ast.Expr, a, b Val) *Term {
	isNil := func(v Val) bool { return v.T == types.Typ[types.UntypedNil] }
	if isNil(a) {
		a, b = b, a
	}
	if isNil(b) {
		return Eq(a.C[0], t0)
	}
	if len(a.C) != len(b.C) {
		// interface against pointer: compare references
		return Eq(e.scal(x, a), e.scal(x, b))
	}
	var ts []*Term
	for i := range a.C {
		ts = append(ts, Eq(a.C[i], b.C[i]))
	}
	return And(ts...)
}

func (e *Env) selector(n *ast.SelectorExpr) Val {
	vc := e.vc
	if id, ok := n.X.(*ast.Ident); ok {
		_, isVar := e.vars[id.Name]
		if !isVar && e.look != nil {
			_, isVar = e.look(id.Name)
		}
		if !isVar {
			if p := vc.g.pkgByName(id.Name); p != nil {
				o := p.Pkg.Scope().Lookup(n.Sel.Name)
				switch c := o.(type) {
				case *types.Const:
					if c.Val().Kind() == constant.Int && types.Identical(c.Type().Underlying(), c.Type().Underlying()) {
						if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat == 0 {
							i, _ := constant.Int64Val(c.Val())
							return Val{T: c.Type(), C: []*Term{intLit(i)}}
						}
					}
					if c.Val().Kind() == constant.String {
						return logic(vc.strConst(constant.StringVal(c.Val())))
					}
					return logic(floatConst(c.Val()))
				case *types.Var:
					a := &Addr{kind: "global", heap: "G:" + p.Pkg.Name() + "." + n.Sel.Name, T: c.Type()}
					return vc.loadAddr(e.st, a)
				}
				e.fail(n, "unknown package member")
			}
		}
	}
	b := e.eval(n.X)
	return e.field(n, b, n.Sel.Name)
}

func (e *Env) field(x ast.Expr, b Val, name string) Val {
	vc := e.vc
	if b.T == nil {
		e.fail(x, "untyped selector base")
	}
	t := b.T
	isPtr := false
	if p, ok := t.Underlying().(*types.Pointer); ok {
		isPtr = true
		t = p.Elem()
	}
	st, ok := vc.g.structOf(t)
	if !ok {
		e.fail(x, "not a struct: %s", t)
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return e.fieldIdx(b, t, st, i, isPtr)
		}
	}
	// promoted through embedding
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Embedded() {
			continue
		}
		ft := f.Type()
		if p, ok := ft.Underlying().(*types.Pointer); ok {
			ft = p.Elem()
		}
		if _, ok := vc.g.structOf(ft); !ok {
			continue
		}
		if hasField(vc.g, ft, name) {
			return e.field(x, e.fieldIdx(b, t, st, i, isPtr), name)
		}
	}
	e.fail(x, "no field %s in %s", name, t)
	return Val{}
}

func hasField(g *Gen, t types.Type, name string) bool {
	st, ok := g.structOf(t)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return true
		}
		if st.Field(i).Embedded() {
			ft := st.Field(i).Type()
			if p, ok := ft.Underlying().(*types.Pointer); ok {
				ft = p.Elem()
			}
			if hasField(g, ft, name) {
				return true
			}
		}
	}
	return false
}

func (e *Env) fieldIdx(b Val, t types.Type, st *types.Struct, i int, isPtr bool) Val {
	vc := e.vc
	ft := st.Field(i).Type()
	if isPtr {
		if b.A != nil {
			a := *b.A
			a.heap += "." + st.Field(i).Name()
			a.T = ft
			return vc.loadAddr(e.st, &a)
		}
		if _, ok := vc.g.structOf(ft); ok {
			// embedded or nested struct: keep as pointer for further selection
			return Val{T: types.NewPointer(ft), C: []*Term{Add(b.C[0], intLit(vc.g.fieldOffset(st, i)))}}
		}
		a := vc.fieldAddr(t, i, b.C[0])
		v := vc.loadAddr(e.st, a)
		v = vc.ownedOff0(a, v)
		e.factsFor(v, b.C[0])
		if e.bound == 0 {
			g := tTrue
			if e.guard != nil {
				g = e.guard
			}
			vc.ownerFacts(e.st, a, v, And(g, Lt(b.C[0], e.st.al)))
		}
		return v
	}
	p := 0
	for j := 0; j < i; j++ {
		p += len(vc.g.comps(st.Field(j).Type()))
	}
	return Val{T: ft, C: b.C[p : p+len(vc.g.comps(ft))]}
}

func (e *Env) bindVar(name, sort string, ty types.Type) (*Env, *Term) {
	// named by nesting depth so that equal formulas print equally
	v := mk(sort, fmt.Sprintf("%s_b%d", strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, name), e.bound))
	n := e.with(map[string]Val{name: {T: ty, C: []*Term{v}}})
	n.bound = e.bound + 1
	return n, v
}

func (e *Env) pats(args []ast.Expr) [][]*Term {
	var out [][]*Term
	for _, a := range args {
		c, ok := a.(*ast.CallExpr)
		if !ok {
			e.fail(a, "pattern")
		}
		if id, ok := c.Fun.(*ast.Ident); !ok || id.Name != "pat" {
			e.fail(a, "pattern")
		}
		var p []*Term
		for _, x := range c.Args {
			v := e.eval(x)
			p = append(p, v.C[0])
		}
		out = append(out, p)
	}
	return out
}

func (e *Env) call(n *ast.CallExpr) Val {
	vc := e.vc
	name := ""
	switch f := n.Fun.(type) {
	case *ast.Ident:
		name = f.Name
	case *ast.SelectorExpr:
		name = types.ExprString(f)
	}
	A := n.Args
	arg := func(i int) *Term { return e.scalar(A[i]) }
	need := func(k int) {
		if len(A) < k {
			e.fail(n, "want %d arguments", k)
		}
	}
	switch name {
	case "forall", "exists":
		need(4)
		id := A[0].(*ast.Ident).Name
		lo, hi := e.scalar(A[1]), e.scalar(A[2])
		ne, v := e.bindVar(id, SInt, nil)
		body := ne.boolean(A[3])
		rng := And(Le(lo, v), Lt(v, hi))
		if name == "exists" {
			return logic(Exists([]*Term{v}, And(rng, body)))
		}
		full := Imp(rng, body)
		form := Forall([]*Term{v}, full, ne.pats(A[4:])...)
		offs := map[string]*Term{}
		offsets(body, v, offs)
		if len(offs) > 0 && form.op == "forall" {
			// index positions off+i do not match as triggers: also state the
			// fact over absolute positions
			var fs []*Term
			if len(form.pats) > 0 {
				fs = append(fs, form)
			}
			for _, k := range sortedKeys(offs) {
				j := mk(SInt, fmt.Sprintf("abs_b%d", e.bound))
				b2 := reindex(full, v, offs[k], j)
				ps := findPats([]*Term{j}, b2)
				if len(ps) > 0 {
					fs = append(fs, &Term{op: "forall", args: []*Term{b2}, sort: SBool, bound: []*Term{j}, pats: ps})
				}
			}
			if len(fs) > 0 {
				return logic(And(fs...))
			}
		}
		return logic(form)
	case "all", "some", "alls":
		need(3)
		// all(x, type, [y, type, ...] body, pat...)
		ne := e
		var vs []*Term
		i := 0
		for i+2 < len(A) {
			id, ok := A[i].(*ast.Ident)
			if !ok {
				break
			}
			ty, so := e.bindType(A[i+1])
			if so == "" {
				break
			}
			var v *Term
			ne, v = ne.bindVar(id.Name, so, ty)
			vs = append(vs, v)
			i += 2
		}
		body := ne.boolean(A[i])
		if name == "some" {
			return logic(Exists(vs, body))
		}
		form := Forall(vs, body, ne.pats(A[i+1:])...)
		if name == "alls" && form.op == "forall" {
			// as for forall: also over absolute positions
			return logic(And(append([]*Term{form}, absForms(form, e.bound)...)...))
		}
		return logic(form)
	case "each":
		// each(s, i, body): i is the logical index, quantified over absolute positions
		need(3)
		s := e.eval(A[0])
		id := A[1].(*ast.Ident).Name
		ne, v := e.bindVar(id, SInt, nil)
		off, ln := s.C[1], s.C[2]
		ne.vars[id] = logic(Sub(v, off))
		body := ne.boolean(A[2])
		return logic(Forall([]*Term{v}, Imp(And(Le(off, v), Lt(v, Add(off, ln))), body), ne.pats(A[3:])...))
	case "old":
		ne := e.in(e.old)
		if e.old == nil {
			e.fail(n, "no old state")
		}
		return ne.eval(A[0])
	case "prev":
		if e.prev == nil {
			e.fail(n, "no loop-head state")
		}
		return e.in(e.prev).eval(A[0])
	case "prior":
		// prior(x): variable x as the iteration began
		id, ok := A[0].(*ast.Ident)
		if !ok || e.prior == nil {
			e.fail(n, "prior of a variable, in a step")
		}
		v, ok := e.prior[id.Name]
		if !ok {
			e.fail(n, "no loop variable "+id.Name)
		}
		return v
	case "pre":
		if e.pre == nil {
			e.fail(n, "no loop-entry state")
		}
		return e.in(e.pre).eval(A[0])
	case "in":
		m := e.eval(A[1])
		if m.T != nil {
			if mt, ok := m.T.Underlying().(*types.Map); ok {
				k := e.mapKeyOf(mt, A[0])
				_, in := vc.mapGet(e.st, mt, m.C[0], k)
				return logic(in)
			}
		}
		return logic(Sel(m.C[0], arg(0)))
	case "mapkey":
		// the key of a map as the logic sees it
		need(2)
		mt := e.eval(A[0]).T.Underlying().(*types.Map)
		return logic(e.mapKeyOf(mt, A[1]))
	case "imp":
		need(2)
		a := e.boolean(A[0])
		ne := e
		if e.bound == 0 {
			n2 := *e
			if e.guard != nil {
				n2.guard = And(e.guard, a)
			} else {
				n2.guard = a
			}
			ne = &n2
		}
		return logic(Imp(a, ne.boolean(A[1])))
	case "iff":
		return logic(Eq(e.boolean(A[0]), e.boolean(A[1])))
	case "ite":
		c := e.boolean(A[0])
		a, b := e.eval(A[1]), e.eval(A[2])
		if len(a.C) != len(b.C) {
			e.fail(n, "ite shapes")
		}
		v := Val{T: a.T}
		if v.T == nil {
			v.T = b.T
		}
		for i := range a.C {
			v.C = append(v.C, Ite(c, a.C[i], b.C[i]))
		}
		return v
	case "len":
		v := e.eval(A[0])
		switch u := v.T.Underlying().(type) {
		case *types.Slice:
			return logic(v.C[2])
		case *types.Map:
			_, l := vc.mapLenH(e.st, u)
			t := Sel(l, v.C[0])
			if e.bound == 0 {
				vc.assume(tTrue, Imp(And(Ge(v.C[0], t0), Lt(v.C[0], e.st.al)), Ge(t, t0)))
			}
			return logic(t)
		}
		ufNames["strlen"] = true
		return logic(App(SInt, "strlen", v.C[0]))
	case "cap":
		return logic(e.eval(A[0]).C[3])
	case "store":
		a := e.eval(A[0]).C[0]
		return logic(Sto(a, arg(1), arg(2)))
	case "row":
		s := e.eval(A[0])
		u := s.T.Underlying().(*types.Slice)
		c := vc.g.comps(u.Elem())[0]
		suf := ""
		if len(A) > 1 {
			suf = strings.Trim(A[1].(*ast.BasicLit).Value, "\"")
			for _, cc := range vc.g.comps(u.Elem()) {
				if cc.suf == suf {
					c = cc
				}
			}
		}
		nm, so := vc.heapComp("E:"+vc.g.typeKey(u.Elem()), c, "2")
		return logic(Sel(vc.get(e.st, nm, so), s.C[0]))
	case "fieldmap":
		// fieldmap(pkg.T.f): the heap of a scalar field as an array over references
		h := "F:" + types.ExprString(A[0])
		hi, ok := vc.g.heapKind[h]
		if !ok {
			hi = vc.g.fieldHeapInfo(types.ExprString(A[0]))
		}
		return logic(vc.get(e.st, h, hi.sort))
	case "dom", "vals":
		m := e.eval(A[0])
		mt := m.T.Underlying().(*types.Map)
		if name == "dom" {
			_, d := vc.mapDom(e.st, mt)
			return logic(Sel(d, m.C[0]))
		}
		c := vc.g.comps(mt.Elem())[0]
		_, h := vc.mapValH(e.st, mt, c)
		return logic(Sel(h, m.C[0]))
	case "arr":
		return logic(e.eval(A[0]).C[0])
	case "off":
		return logic(e.eval(A[0]).C[1])
	case "ref":
		return logic(arg(0))
	case "tag":
		return logic(e.eval(A[0]).C[0])
	case "pi":
		return logic(e.eval(A[0]).C[1])
	case "pr":
		return logic(e.eval(A[0]).C[2])
	case "fn":
		// fn("pkg.Name"): the value of a function constant
		nm := strings.Trim(A[0].(*ast.BasicLit).Value, "\"")
		f := vc.g.allFns[nm]
		if f == nil {
			e.fail(n, "no function "+nm)
		}
		return logic(vc.g.fnID(f))
	case "typeis":
		t := e.resolveType(A[1])
		if t == nil {
			e.fail(n, "type")
		}
		v := e.eval(A[0])
		if v.T != nil && !types.IsInterface(v.T) {
			if types.Identical(types.Unalias(v.T), types.Unalias(t)) {
				return logic(tTrue)
			}
			return logic(tFalse)
		}
		return logic(Eq(v.C[0], vc.g.tagOf(t)))
	case "cast":
		t := e.resolveType(A[1])
		if t == nil {
			e.fail(n, "type")
		}
		v := e.eval(A[0])
		return Val{T: t, C: []*Term{e.scal(A[0], v)}}
	case "alloc":
		return logic(e.st.al)
	case "fresh":
		return logic(And(Ge(arg(0), e.old.al), Lt(arg(0), e.st.al)))
	case "allocated":
		r := arg(0)
		return logic(And(Gt(r, t0), Lt(r, e.st.al)))
	case "real":
		return logic(ToReal(arg(0)))
	case "toint":
		return logic(mk(SInt, "to_int", arg(0)))
	case "abs":
		a := arg(0)
		z := t0
		if a.sort == SReal {
			z = realLit("0", "1")
		}
		return logic(Ite(Lt(a, z), Neg(a), a))
	case "min":
		a, b := coerce2(arg(0), arg(1))
		return logic(Ite(Le(a, b), a, b))
	case "max":
		a, b := coerce2(arg(0), arg(1))
		return logic(Ite(Le(a, b), b, a))
	case "owner":
		return logic(Sel(vc.get(e.st, "O:own", arrSort(SInt, SInt)), arg(0)))
	case "ownslot":
		return logic(Sel(vc.get(e.st, "O:slot", arrSort(SInt, SInt)), arg(0)))
	case "ownkey":
		return logic(Sel(vc.get(e.st, "O:key", arrSort(SInt, SInt)), arg(0)))
	case "ownkeyr":
		return logic(Sel(vc.get(e.st, "O:keyr", arrSort(SInt, SReal)), arg(0)))
	case "slotcode":
		return logic(vc.slotCode(strings.Trim(A[0].(*ast.BasicLit).Value, "\"")))
	case "same":
		var ts []*Term
		for _, a := range A {
			x, y := e.eval(a), e.in(e.old).eval(a)
			ts = append(ts, e.eqVals(n, x, y))
		}
		return logic(And(ts...))
	case "lam":
		// lam(i, sort, body): a fresh array defined pointwise
		if e.bound > 0 {
			e.fail(n, "lam under a quantifier")
		}
		id := A[0].(*ast.Ident).Name
		_, ks := e.bindType(A[1])
		ne, v := e.bindVar(id, ks, nil)
		body := ne.scalar(A[2])
		arr := vc.fresh("lam", arrSort(ks, body.sort))
		vc.facts = append(vc.facts, Fact{t: Forall([]*Term{v}, Eq(Sel(arr, v), body), []*Term{Sel(arr, v)}), def: arr.op})
		return logic(arr)
	case "choose":
		// choose(i, lo, hi, body): some index in range satisfying body, if any
		need(4)
		if e.bound > 0 {
			e.fail(n, "choose under a quantifier")
		}
		id := A[0].(*ast.Ident).Name
		lo, hi := e.scalar(A[1]), e.scalar(A[2])
		ne, v := e.bindVar(id, SInt, nil)
		body := ne.boolean(A[3])
		c := vc.fresh("choose", SInt)
		rng := And(Le(lo, v), Lt(v, hi), body)
		vc.facts = append(vc.facts, Fact{t: Forall([]*Term{v}, Imp(rng, rng.subst(map[string]*Term{v.op: c}))), def: c.op})
		return logic(c)
	case "constarr":
		// constarr(sort, v)
		s := parseSort(strings.Trim(A[0].(*ast.BasicLit).Value, "\""))
		return logic(constArr(s, arg(1)))
	case "box":
		return vc.box(e.eval(A[0]))
	case "isnil":
		return logic(Eq(e.eval(A[0]).C[0], t0))
	case "typed":
		// typed(e, T): give a logic scalar a Go type
		t := e.resolveType(A[1])
		return Val{T: t, C: []*Term{arg(0)}}
	case "strof":
		return logic(arg(0))
	case "zerotime":
		return logic(t0)
	case "distinct":
		var ts []*Term
		for i := range A {
			for j := i + 1; j < len(A); j++ {
				ts = append(ts, Not(e.eqVals(n, e.eval(A[i]), e.eval(A[j]))))
			}
		}
		return logic(And(ts...))
	}
	if d, ok := vc.g.spec.Defs[name]; ok {
		if len(A) != len(d.Params) {
			e.fail(n, "def arity")
		}
		m := map[string]Val{}
		for i, p := range d.Params {
			m[p] = e.eval(A[i])
		}
		ne := *e
		ne.vars = m
		ne.look = nil
		return ne.eval(d.E)
	}
	if gh, ok := vc.g.spec.Ghosts[name]; ok {
		need(1)
		r := arg(0)
		h := vc.get(e.st, "X:"+name, arrSort(SInt, gh.Sort))
		vc.g.setHeapKind("X:"+name, "ghost", arrSort(SInt, gh.Sort))
		return logic(Sel(h, r))
	}
	if u, ok := vc.g.spec.UFs[name]; ok {
		need(len(u.Args))
		var ts []*Term
		for i := range A {
			t := arg(i)
			if u.Args[i] == SReal {
				t = ToReal(t)
			}
			if t.sort != u.Args[i] {
				e.fail(n, "uf %s argument %d sort %s want %s", name, i, t.sort, u.Args[i])
			}
			ts = append(ts, t)
		}
		return logic(App(u.Res, name, ts...))
	}
	if l, ok := vc.g.spec.Lemmas[name]; ok {
		// lemma instance as a formula
		m := map[string]Val{}
		if len(A) != len(l.Params) {
			e.fail(n, "lemma arity")
		}
		for i, p := range l.Params {
			t := arg(i)
			if l.Sorts[i] == SReal {
				t = ToReal(t)
			}
			if t.sort != l.Sorts[i] {
				e.fail(n, "lemma argument %d sort", i)
			}
			m[p] = logic(t)
		}
		return logic(e.lemmaBody(l, m))
	}
	e.fail(n, "unknown function %s", name)
	return Val{}
}

func (e *Env) lemmaBody(l *Lemma, m map[string]Val) *Term {
	e.vc.useLemma(l.Name)
	ne := *e
	ne.vars = m
	ne.look = nil
	var rs, es []*Term
	for _, c := range l.Req {
		rs = append(rs, ne.boolean(c.E))
	}
	for _, c := range l.Ens {
		es = append(es, ne.boolean(c.E))
	}
	return Imp(And(rs...), And(es...))
}

func (e *Env) bindType(x ast.Expr) (types.Type, string) {
	if id, ok := x.(*ast.Ident); ok {
		switch id.Name {
		case "int", "ref", "int64":
			return nil, SInt
		case "real":
			return nil, SReal
		case "bool":
			return nil, SBool
		}
	}
	if b, ok := x.(*ast.BasicLit); ok && b.Kind == token.STRING {
		return nil, parseSort(strings.Trim(b.Value, "\""))
	}
	if t := e.resolveType(x); t != nil {
		cs := e.vc.g.comps(t)
		if len(cs) == 1 {
			return t, cs[0].sort
		}
	}
	return nil, ""
}

func truncDiv(a, b *Term) *Term {
	// Go truncates toward zero
	if x, ok := a.intVal(); ok {
		if y, ok := b.intVal(); ok && y != 0 {
			return intLit(x / y)
		}
	}
	q := mk(SInt, "div", a, b)
	nq := Neg(mk(SInt, "div", Neg(a), b))
	return Ite(Ge(a, t0), q, nq)
}
func truncMod(a, b *Term) *Term {
	if x, ok := a.intVal(); ok {
		if y, ok := b.intVal(); ok && y != 0 {
			return intLit(x % y)
		}
	}
	q := mk(SInt, "mod", a, b)
	nq := Neg(mk(SInt, "mod", Neg(a), b))
	return Ite(Ge(a, t0), q, nq)
}

func (e *Env) patTerms(x ast.Expr) []*Term {
	if c, ok := x.(*ast.CallExpr); ok {
		if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "pat" {
			var out []*Term
			for _, a := range c.Args {
				out = append(out, e.eval(a).C[0])
			}
			return out
		}
	}
	return []*Term{e.eval(x).C[0]}
}

func splitSel(x ast.Expr) (ast.Expr, string) {
	if s, ok := x.(*ast.SelectorExpr); ok {
		return s.X, s.Sel.Name
	}
	return nil, ""
}
func splitGhost(x ast.Expr) (string, ast.Expr) {
	if c, ok := x.(*ast.CallExpr); ok && len(c.Args) == 1 {
		if id, ok := c.Fun.(*ast.Ident); ok {
			return id.Name, c.Args[0]
		}
	}
	return "", nil
}

// absForms restates a quantified fact over absolute index positions, one
// statement for each choice of the offsets that its patterns use.
func absForms(form *Term, depth int) []*Term {
	cur := []*Term{form}
	changed := false
	for vi := range form.bound {
		var next []*Term
		for _, f := range cur {
			v := f.bound[vi]
			offs := map[string]*Term{}
			for _, p := range f.pats {
				for _, t := range p {
					offsets(t, v, offs)
				}
			}
			if len(offs) == 0 {
				next = append(next, f)
				continue
			}
			for _, k := range sortedKeys(offs) {
				j := mk(v.sort, fmt.Sprintf("abs%d_b%d", vi, depth))
				g := &Term{op: "forall", args: []*Term{reindex(f.args[0], v, offs[k], j)}, sort: SBool}
				for _, b := range f.bound {
					if b == v {
						b = j
					}
					g.bound = append(g.bound, b)
				}
				for _, p := range f.pats {
					var q []*Term
					for _, t := range p {
						q = append(q, reindex(t, v, offs[k], j))
					}
					g.pats = append(g.pats, q)
				}
				next = append(next, g)
				changed = true
			}
		}
		cur = next
	}
	if !changed || len(cur) > 6 {
		return nil
	}
	return cur
}
