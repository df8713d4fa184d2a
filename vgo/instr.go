package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (fc *fctx) val(v ssa.Value) Val {
	vc := fc.vc
	switch x := v.(type) {
	case *ssa.Const:
		return vc.constVal(x)
	case *ssa.Global:
		a := &Addr{kind: "global", heap: "G:" + x.Pkg.Pkg.Name() + "." + x.Name(), T: x.Type().(*types.Pointer).Elem()}
		return Val{T: x.Type(), A: a}
	case *ssa.Function:
		return Val{T: x.Type(), C: []*Term{vc.g.fnID(x)}, Fn: &FnVal{Fn: x}}
	case *ssa.Builtin:
		return Val{T: x.Type()}
	}
	r, ok := fc.env[v]
	if !ok {
		unsup("no value for %s = %s in %s", v.Name(), v, fc.fn)
	}
	return r
}

func (vc *VC) constVal(x *ssa.Const) Val {
	t := x.Type()
	if x.Value == nil {
		return vc.zero(t)
	}
	switch x.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(x.Value) {
			return Val{T: t, C: []*Term{tTrue}}
		}
		return Val{T: t, C: []*Term{tFalse}}
	case constant.String:
		return Val{T: t, C: []*Term{vc.strConst(constant.StringVal(x.Value))}}
	case constant.Int, constant.Float:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return Val{T: t, C: []*Term{floatConst(x.Value)}}
		}
		if i, ok := constant.Int64Val(constant.ToInt(x.Value)); ok {
			return Val{T: t, C: []*Term{intLit(i)}}
		}
		s := constant.ToInt(x.Value).ExactString()
		if strings.HasPrefix(s, "-") {
			return Val{T: t, C: []*Term{mk(SInt, "-", mk(SInt, s[1:]))}}
		}
		return Val{T: t, C: []*Term{mk(SInt, s)}}
	}
	unsup("constant %s", x)
	return Val{}
}

func (fc *fctx) safety(kind string, goal *Term) {
	if isTrue(goal) {
		return
	}
	vc := fc.vc
	if vc.c != nil && vc.c.Values {
		return // crash freedom is not part of such a contract
	}
	if vc.c != nil && vc.c.MayTrap {
		vc.assume(fc.cur, goal)
		return
	}
	key := goal.String()
	for _, n := range vc.nn {
		if n.ref == key && vc.guardCovers(n.guard, fc.cur) {
			return
		}
	}
	vc.check("safe", kind+" in "+vc.g.fnName(fc.fn), fc.cur, goal)
	if len(fc.cur.args) == 0 {
		vc.nn = append(vc.nn, nnRec{key, fc.cur.op})
	}
}

// guardCovers: guard g is an ancestor of (or equal to) cur.
func (vc *VC) guardCovers(g string, cur *Term) bool {
	if g == "true" {
		return true
	}
	if len(cur.args) > 0 {
		return false
	}
	c := cur.op
	for i := 0; i < 100000 && c != ""; i++ {
		if c == g {
			return true
		}
		c = vc.gpar[c]
	}
	return false
}

func (fc *fctx) nonnil(ref *Term) {
	if n, ok := ref.intVal(); ok && n != 0 {
		return
	}
	fc.safety("nil", Neq(ref, t0))
}

// deref gives the address denoted by a pointer value.
func (fc *fctx) deref(p Val) *Addr {
	if p.A != nil {
		return p.A
	}
	pt := p.T.Underlying().(*types.Pointer)
	fc.nonnil(p.C[0])
	return &Addr{kind: "cell", heap: "C:" + fc.vc.g.typeKey(pt.Elem()), ref: p.C[0], T: pt.Elem()}
}

func (fc *fctx) load(p Val) Val {
	vc := fc.vc
	if p.SV != nil {
		return *p.SV
	}
	pt := p.T.Underlying().(*types.Pointer)
	if p.A == nil {
		if _, ok := vc.g.structOf(pt.Elem()); ok {
			fc.nonnil(p.C[0])
			v := vc.loadStruct(fc.st, pt.Elem(), p.C[0])
			vc.assume(fc.cur, vc.typeFacts(v, fc.st.al))
			vc.structFacts(fc.st, pt.Elem(), p.C[0], v, fc.cur)
			return v
		}
	}
	a := fc.deref(p)
	v := vc.loadAddr(fc.st, a)
	v = vc.ownedOff0(a, v)
	vc.ownerFacts(fc.st, a, v, fc.cur)
	vc.assume(fc.cur, vc.typeFacts(v, fc.st.al))
	if a.slot != "" {
		v.From, v.FromRef = a.slot, a.ref
	}
	return v
}

// structFacts: ownership facts for a struct copied out of memory.
func (vc *VC) structFacts(st *State, t types.Type, ref *Term, v Val, guard *Term) {
	s, _ := vc.g.structOf(t)
	p := 0
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		n := len(vc.g.comps(ft))
		if _, ok := vc.g.structOf(ft); !ok {
			a := vc.fieldAddr(t, i, ref)
			fv := Val{T: ft, C: v.C[p : p+n]}
			fv2 := vc.ownedOff0(a, fv)
			copy(v.C[p:p+n], fv2.C)
			vc.ownerFacts(st, a, fv2, guard)
		}
		p += n
	}
}

func (fc *fctx) store(p Val, v Val) {
	vc := fc.vc
	pt := p.T.Underlying().(*types.Pointer)
	v = fc.unflag(v)
	if v.A != nil {
		unsup("interior pointer stored in memory")
	}
	if p.A == nil {
		if _, ok := vc.g.structOf(pt.Elem()); ok {
			fc.nonnil(p.C[0])
			fc.ownStruct(pt.Elem(), p.C[0], v)
			vc.storeStruct(fc.st, pt.Elem(), p.C[0], v)
			return
		}
	}
	a := fc.deref(p)
	if a.slot != "" {
		fc.ownStore(a, v)
		if v.Fn != nil {
			vc.pendFn = append(vc.pendFn, pendFn{a.slot, a.ref, v.Fn, fc.cur, vc.curPos})
		} else if _, ok := a.T.Underlying().(*types.Signature); ok && vc.g.spec.Contracts[a.slot] != nil {
			unsup("unknown function stored in %s", a.slot)
		}
	}
	vc.storeAddr(fc.st, a, v)
}

func (fc *fctx) ownStruct(t types.Type, ref *Term, v Val) {
	s, _ := fc.vc.g.structOf(t)
	p := 0
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		n := len(fc.vc.g.comps(ft))
		fv := Val{T: ft, C: v.C[p : p+n]}
		if _, ok := fc.vc.g.structOf(ft); !ok {
			fc.ownStore(fc.vc.fieldAddr(t, i, ref), fv)
		}
		p += n
	}
}

// unflag turns an IEEE special value into an unspecified real before it is stored.
func (fc *fctx) unflag(v Val) Val {
	if v.Nan == nil && v.Pinf == nil && v.Ninf == nil {
		return v
	}
	c := Or(orF(v.Nan), orF(v.Pinf), orF(v.Ninf))
	fc.vc.note("a NaN or infinite float stored in memory is an unspecified real afterwards")
	o := v
	o.C = []*Term{Ite(c, fc.vc.fresh("nonfinite", SReal), v.C[0])}
	o.Nan, o.Pinf, o.Ninf = nil, nil, nil
	return o
}
func orF(t *Term) *Term {
	if t == nil {
		return tFalse
	}
	return t
}

// ---------- ownership ----------

func (vc *VC) slotCode(s string) *Term {
	if vc.g.slotIDs == nil {
		vc.g.slotIDs = map[string]int64{}
	}
	n, ok := vc.g.slotIDs[s]
	if !ok {
		n = int64(len(vc.g.slotIDs) + 1)
		vc.g.slotIDs[s] = n
	}
	return intLit(n)
}

func (vc *VC) ownH(st *State, n string) *Term {
	s := arrSort(SInt, SInt)
	if n == "O:keyr" {
		s = arrSort(SInt, SReal)
	}
	vc.g.setHeapKind(n, "own", s)
	h := vc.get(st, n, s)
	if n == "O:own" && vc.wfOwn && vc.entry != nil {
		// the owner of an allocated row is allocated
		vc.wfOwn = false
		h0 := vc.get(vc.entry, n, s)
		r := mk(SInt, "fr_b")
		vc.gfacts = append(vc.gfacts, Fact{t: Forall([]*Term{r}, Imp(Lt(r, vc.al0), Lt(Sel(h0, r), vc.al0)), []*Term{Sel(h0, r)})})
	}
	return h
}

func isRefLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	}
	return false
}

func (vc *VC) ownedOff0(a *Addr, v Val) Val {
	if a.slot == "" || vc.g.ownedSlot(a.slot) == "" {
		return v
	}
	if _, ok := v.T.Underlying().(*types.Slice); ok {
		v.C = append([]*Term{}, v.C...)
		v.C[1] = t0
	}
	return v
}
func (vc *VC) mapElemOff0(mt *types.Map, v Val) Val {
	if !vc.g.spec.Owned[vc.mapName(mt)] {
		return v
	}
	if _, ok := v.T.Underlying().(*types.Slice); ok {
		v.C = append([]*Term{}, v.C...)
		v.C[1] = t0
	}
	return v
}

func (vc *VC) ownerFacts(st *State, a *Addr, v Val, guard *Term) {
	if a.slot == "" || vc.g.ownedSlot(a.slot) == "" || !isRefLike(v.T) {
		return
	}
	r := v.C[0]
	vc.assume(guard, Or(Eq(r, t0), And(Eq(Sel(vc.ownH(st, "O:own"), r), a.ref), Eq(Sel(vc.ownH(st, "O:slot"), r), vc.slotCode(a.slot)))))
}

// ownStore records (and checks) that a reference stored in an owned field
// belongs to that field alone.
func (fc *fctx) ownStore(a *Addr, v Val) {
	vc := fc.vc
	if a.slot == "" || vc.g.ownedSlot(a.slot) == "" || !isRefLike(v.T) {
		return
	}
	fc.adopt(v, a.ref, vc.slotCode(a.slot), nil)
}

func (fc *fctx) adopt(v Val, owner, slot, key *Term) {
	vc := fc.vc
	r := v.C[0]
	if eqT(r, t0) {
		return
	}
	if len(v.C) == 4 {
		fc.safety("owned slice starts at 0", Or(Eq(r, t0), Eq(v.C[1], t0)))
	}
	own, sl := vc.ownH(fc.st, "O:own"), vc.ownH(fc.st, "O:slot")
	same := And(Eq(Sel(own, r), owner), Eq(Sel(sl, r), slot))
	kn := "O:key"
	if key != nil {
		if key.sort == SReal {
			kn = "O:keyr"
		}
		same = And(same, Eq(Sel(vc.ownH(fc.st, kn), r), key))
	}
	fc.safety("ownership of "+fmt.Sprint(slot), Or(Eq(r, t0), same, And(Ge(r, vc.al0), Eq(Sel(own, r), t0))))
	vc.setAt(fc.st, "O:own", own.sort, r, owner)
	vc.setAt(fc.st, "O:slot", sl.sort, r, slot)
	if key != nil {
		k := vc.ownH(fc.st, kn)
		vc.setAt(fc.st, kn, k.sort, r, key)
	}
}

// newRef allocates n reference slots.
func (fc *fctx) newRef(n int64) *Term {
	vc := fc.vc
	r := fc.st.al
	fc.st.al = vc.named("al", Add(r, intLit(n)))
	vc.assume(tTrue, Eq(Sel(vc.ownH(fc.st, "O:own"), r), t0))
	return r
}

func (vc *VC) zeroRow(elem types.Type, c Comp) *Term {
	z := t0
	switch c.sort {
	case SReal:
		z = realLit("0", "1")
	case SBool:
		z = tFalse
	}
	return constArr(arrSort(SInt, c.sort), z)
}

func (fc *fctx) zeroElems(elem types.Type, r *Term) {
	vc := fc.vc
	for _, c := range vc.g.comps(elem) {
		n, s := vc.heapComp("E:"+vc.g.typeKey(elem), c, "2")
		vc.setAt(fc.st, n, s, r, vc.zeroRow(elem, c))
	}
}

func (fc *fctx) makeSlice(elem types.Type, ln, cp *Term) Val {
	r := fc.newRef(1)
	fc.zeroElems(elem, r)
	return Val{T: types.NewSlice(elem), C: []*Term{r, t0, ln, cp}}
}

func (fc *fctx) makeMap(mt *types.Map) *Term {
	vc := fc.vc
	r := fc.newRef(1)
	n, d := vc.mapDom(fc.st, mt)
	ks, _ := vc.g.keySortOf(mt.Key())
	vc.setAt(fc.st, n, d.sort, r, constArr(arrSort(ks, SBool), tFalse))
	ln, l := vc.mapLenH(fc.st, mt)
	vc.setAt(fc.st, ln, l.sort, r, t0)
	return r
}

func (fc *fctx) instr(ins ssa.Instruction) {
	vc := fc.vc
	switch i := ins.(type) {
	case *ssa.DebugRef:
		if id, ok := i.Expr.(interface{ String() string }); ok && !i.IsAddr {
			if v, ok := fc.env[i.X]; ok && fc.names[id.String()].Cell == nil {
				fc.setName(id.String(), v)
			}
		}
	case *ssa.Alloc:
		el := i.Type().(*types.Pointer).Elem()
		if at, ok := el.Underlying().(*types.Array); ok {
			r := fc.newRef(1)
			fc.zeroElems(at.Elem(), r)
			fc.env[i] = Val{T: i.Type(), C: []*Term{r}}
			return
		}
		if _, ok := vc.g.structOf(el); ok && valueCell(i) {
			z := vc.zero(el)
			fc.env[i] = Val{T: i.Type(), C: []*Term{t1}, SV: &z}
			return
		}
		if _, ok := vc.g.structOf(el); ok && vc.c != nil && vc.c.Values && hasTag(vc.c.Keeps, vc.g.typeKey(el)) && !localStruct(i) {
			unsup("a tracked variable of type %s is shared", vc.g.typeKey(el))
		}
		if _, ok := vc.g.structOf(el); ok {
			r := fc.newRef(vc.g.size(el))
			vc.storeStruct(fc.st, el, r, vc.zero(el))
			fc.env[i] = Val{T: i.Type(), C: []*Term{r}}
			return
		}
		r := fc.newRef(1)
		p := Val{T: i.Type(), C: []*Term{r}}
		cell := &Addr{kind: "cell", heap: "C:" + vc.g.typeKey(el), ref: r, T: el}
		vc.storeAddr(fc.st, cell, vc.zero(el))
		switch i.Comment {
		case "", "complit", "new", "varargs", "slicelit", "makeslice":
		default:
			fc.setName(i.Comment, Val{T: el, Cell: cell})
		}
		fc.env[i] = p
	case *ssa.BinOp:
		fc.env[i] = fc.binop(i)
	case *ssa.UnOp:
		fc.env[i] = fc.unop(i)
	case *ssa.Call:
		fc.env[i] = fc.callInstr(&i.Call, i.Type())
	case *ssa.ChangeInterface:
		v := fc.val(i.X)
		v.T = i.Type()
		fc.env[i] = v
	case *ssa.ChangeType:
		v := fc.val(i.X)
		v.T = i.Type()
		fc.env[i] = v
	case *ssa.Convert:
		fc.env[i] = fc.convert(i)
	case *ssa.MultiConvert:
		fc.env[i] = vc.freshVal("conv", i.Type())
	case *ssa.Defer:
		vc.note("deferred call not executed: " + i.Call.String())
		if f := i.Call.StaticCallee(); f != nil && vc.c != nil && (vc.c.Values || vc.c.MayTrap) && vc.quiet(f, 0) {
			return
		}
		if f := i.Call.StaticCallee(); f != nil && f.Pkg != nil && vc.g.modPkgs[f.Pkg.Pkg.Path()] {
			unsup("defer of a repository function")
		}
	case *ssa.RunDefers:
	case *ssa.Go:
		vc.note("goroutine started and not modelled: " + i.Call.String())
	case *ssa.Send:
		v := fc.val(i.X)
		v.T = i.X.Type()
		fc.atCall("send", []Val{v}, nil, Val{T: types.NewTuple()})
		vc.note("channel send not modelled (assumed to complete): " + i.Chan.Type().String())
	case *ssa.Select:
		unsup("channel operation")
	case *ssa.Extract:
		v := fc.val(i.Tuple)
		tt := i.Tuple.Type().(*types.Tuple)
		p := 0
		for k := 0; k < i.Index; k++ {
			p += len(vc.g.comps(tt.At(k).Type()))
		}
		n := len(vc.g.comps(tt.At(i.Index).Type()))
		fc.env[i] = Val{T: i.Type(), C: v.C[p : p+n]}
	case *ssa.Field:
		v := fc.val(i.X)
		st, ok := vc.g.structOf(i.X.Type())
		if !ok {
			fc.env[i] = vc.freshVal("extfield", i.Type())
			return
		}
		p := 0
		for k := 0; k < i.Field; k++ {
			p += len(vc.g.comps(st.Field(k).Type()))
		}
		n := len(vc.g.comps(st.Field(i.Field).Type()))
		fc.env[i] = Val{T: i.Type(), C: v.C[p : p+n]}
	case *ssa.FieldAddr:
		if vc.c != nil && vc.c.Values {
			if _, ok := i.X.(*ssa.Alloc); !ok && hasTag(vc.c.Keeps, vc.g.typeKey(i.X.Type().Underlying().(*types.Pointer).Elem())) {
				unsup("access to a tracked type through a pointer")
			}
		}
		fc.env[i] = fc.fieldAddrV(fc.val(i.X), i.Field, i.Type())
	case *ssa.Index:
		v := fc.val(i.X)
		if _, ok := i.X.Type().Underlying().(*types.Basic); ok {
			x := fc.val(i.Index)
			ufNames["strat"] = true
			ufNames["strlen"] = true
			ln := App(SInt, "strlen", v.C[0])
			fc.safety("index", And(Ge(x.C[0], t0), Lt(x.C[0], ln)))
			fc.env[i] = Val{T: i.Type(), C: []*Term{App(SInt, "strat", v.C[0], x.C[0])}}
			return
		}
		unsup("array index by value")
	case *ssa.IndexAddr:
		x, ix := fc.val(i.X), fc.val(i.Index)
		switch u := i.X.Type().Underlying().(type) {
		case *types.Slice:
			fc.safety("index", And(Ge(ix.C[0], t0), Lt(ix.C[0], x.C[2])))
			fc.env[i] = Val{T: i.Type(), A: &Addr{kind: "elem", heap: "E:" + vc.g.typeKey(u.Elem()), ref: x.C[0], idx: Add(x.C[1], ix.C[0]), T: u.Elem()}}
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			if x.A != nil {
				unsup("array inside a structure")
			}
			fc.safety("index", And(Ge(ix.C[0], t0), Lt(ix.C[0], intLit(at.Len()))))
			fc.env[i] = Val{T: i.Type(), A: &Addr{kind: "elem", heap: "E:" + vc.g.typeKey(at.Elem()), ref: x.C[0], idx: ix.C[0], T: at.Elem()}}
		}
	case *ssa.Lookup:
		x, k := fc.val(i.X), fc.val(i.Index)
		mt, ok := i.X.Type().Underlying().(*types.Map)
		if !ok {
			ufNames["strat"] = true
			ufNames["strlen"] = true
			fc.safety("index", And(Ge(k.C[0], t0), Lt(k.C[0], App(SInt, "strlen", x.C[0]))))
			fc.env[i] = Val{T: i.Type(), C: []*Term{App(SInt, "strat", x.C[0], k.C[0])}}
			return
		}
		key := vc.mapKey(mt.Key(), k)
		v, in := vc.mapGet(fc.st, mt, x.C[0], key)
		v = vc.mapElemOff0(mt, v)
		in = vc.named("in", in)
		_, lh := vc.mapLenH(fc.st, mt)
		vc.assume(fc.cur, Imp(Eq(x.C[0], t0), Not(in)))
		vc.assume(fc.cur, Imp(in, Ge(Sel(lh, x.C[0]), t1)))
		vc.assume(fc.cur, Imp(in, vc.typeFacts(v, fc.st.al)))
		z := vc.zero(mt.Elem())
		for k := range v.C {
			v.C[k] = Ite(in, v.C[k], z.C[k])
		}
		if i.CommaOk {
			v.C = append(append([]*Term{}, v.C...), in)
		}
		v.T = i.Type()
		fc.env[i] = v
	case *ssa.MakeChan:
		fc.env[i] = vc.freshVal("chan", i.Type())
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range i.Bindings {
			bs = append(bs, fc.val(b))
		}
		fc.env[i] = Val{T: i.Type(), C: []*Term{vc.fresh("fnval", SInt)}, Fn: &FnVal{Fn: i.Fn.(*ssa.Function), Bind: bs}}
		vc.assume(tTrue, Gt(fc.env[i].C[0], t0))
	case *ssa.MakeInterface:
		v := fc.val(i.X)
		v.T = i.X.Type()
		b := vc.box(v)
		b.T = i.Type()
		fc.env[i] = b
	case *ssa.MakeMap:
		mt := i.Type().Underlying().(*types.Map)
		fc.env[i] = Val{T: i.Type(), C: []*Term{fc.makeMap(mt)}}
	case *ssa.MakeSlice:
		st := i.Type().Underlying().(*types.Slice)
		ln, cp := fc.val(i.Len).C[0], fc.val(i.Cap).C[0]
		fc.safety("makeslice", And(Ge(ln, t0), Ge(cp, ln)))
		v := fc.makeSlice(st.Elem(), ln, cp)
		v.T = i.Type()
		fc.env[i] = v
	case *ssa.MapUpdate:
		m, k, v := fc.val(i.Map), fc.val(i.Key), fc.unflag(fc.val(i.Value))
		mt := i.Map.Type().Underlying().(*types.Map)
		fc.safety("nilmap", Neq(m.C[0], t0))
		key := vc.mapKey(mt.Key(), k)
		if v.A != nil {
			unsup("interior pointer stored in a map")
		}
		if vc.g.spec.Owned[vc.mapName(mt)] && isRefLike(mt.Elem()) {
			own := Sel(vc.ownH(fc.st, "O:own"), m.C[0])
			v.T = mt.Elem()
			fc.adopt(v, own, vc.slotCode(vc.mapName(mt)), key)
		}
		vc.mapSet(fc.st, mt, m.C[0], key, v)
	case *ssa.Next:
		fc.env[i] = fc.next(i)
	case *ssa.Range:
		x := fc.val(i.X)
		mt, ok := i.X.Type().Underlying().(*types.Map)
		if !ok {
			fc.env[i] = Val{T: i.Type()}
			return
		}
		ks, _ := vc.g.keySortOf(mt.Key())
		if vc.dry > 0 {
			// keep names stable between dry and real runs
		}
		fc.itN()
		n := fmt.Sprintf("it!%d!%s", vc.cntIt, i.Name())
		fc.st.H[n] = constArr(arrSort(ks, SBool), tFalse)
		_, d := vc.mapDom(fc.st, mt)
		fc.env[i] = Val{T: i.Type(), It: &iterInfo{name: n, mt: mt, m: x.C[0], ks: ks, dom0: Sel(d, x.C[0]), len0: vc.mapLen0(fc.st, mt, x.C[0])}}
	case *ssa.Slice:
		fc.env[i] = fc.slice(i)
	case *ssa.Store:
		v := fc.val(i.Val)
		if v.T == nil {
			v.T = i.Val.Type()
		}
		if a, ok := i.Addr.(*ssa.Alloc); ok {
			if c, ok := fc.env[a]; ok && c.SV != nil {
				w := v
				w.T = a.Type().(*types.Pointer).Elem()
				fc.env[a] = Val{T: a.Type(), C: []*Term{t1}, SV: &w}
				return
			}
		}
		fc.store(fc.val(i.Addr), v)
	case *ssa.TypeAssert:
		fc.env[i] = fc.typeAssert(i)
	default:
		unsup("instruction %T", ins)
	}
}

func (vc *VC) mapLen0(st *State, mt *types.Map, m *Term) *Term {
	_, lh := vc.mapLenH(st, mt)
	return Sel(lh, m)
}

func (fc *fctx) itN() { fc.vc.cntIt++ }

func (fc *fctx) fieldAddrV(x Val, idx int, t types.Type) Val {
	vc := fc.vc
	st := x.T.Underlying().(*types.Pointer).Elem()
	s, ok := vc.g.structOf(st)
	if !ok {
		unsup("field of external struct %s", st)
	}
	ft := s.Field(idx).Type()
	if x.SV != nil {
		p := 0
		for j := 0; j < idx; j++ {
			p += len(vc.g.comps(s.Field(j).Type()))
		}
		w := Val{T: ft, C: x.SV.C[p : p+len(vc.g.comps(ft))]}
		return Val{T: t, C: []*Term{t1}, SV: &w}
	}
	if x.A != nil {
		a := *x.A
		a.heap += "." + s.Field(idx).Name()
		a.T = ft
		return Val{T: t, A: &a}
	}
	fc.nonnil(x.C[0])
	if _, ok := vc.g.structOf(ft); ok {
		return Val{T: t, C: []*Term{Add(x.C[0], intLit(vc.g.fieldOffset(s, idx)))}}
	}
	return Val{T: t, A: vc.fieldAddr(st, idx, x.C[0])}
}

func (fc *fctx) next(i *ssa.Next) Val {
	vc := fc.vc
	if i.IsString {
		return vc.freshVal("next", i.Type())
	}
	it := fc.val(i.Iter).It
	v := vc.freshVal("next", i.Type()) // ok, key, value
	tt := i.Type().(*types.Tuple)
	ok := v.C[0]
	kt := it.mt.Key()
	nk := len(vc.g.comps(kt))
	var kv Val
	kv = Val{T: kt, C: make([]*Term, nk)}
	for j := 0; j < nk; j++ {
		kv.C[j] = vc.fresh("key", vc.g.comps(kt)[j].sort)
	}
	key := vc.mapKey(kt, kv)
	seen := fc.st.H[it.name]
	_, dh := vc.mapDom(fc.st, it.mt)
	dom := Sel(dh, it.m)
	mv, in := vc.mapGet(fc.st, it.mt, it.m, key)
	mv = vc.mapElemOff0(it.mt, mv)
	_, lh := vc.mapLenH(fc.st, it.mt)
	vc.assume(fc.cur, Imp(ok, And(in, Not(Sel(seen, key)), Neq(it.m, t0), Ge(Sel(lh, it.m), t1))))
	vc.assume(fc.cur, Imp(ok, vc.typeFacts(kv, fc.st.al)))
	vc.assume(fc.cur, Imp(ok, vc.typeFacts(mv, fc.st.al)))
	b := mk(it.ks, "itk_b")
	vc.assume(fc.cur, Imp(Not(ok), Forall([]*Term{b}, Imp(And(Sel(dom, b), Sel(it.dom0, b), Neq(it.m, t0)), Sel(seen, b)), []*Term{Sel(seen, b)}, []*Term{Sel(dom, b)})))
	it.key = key
	fc.setName("rangekey", logic(key))
	if dom.String() == it.dom0.String() {
		// the map is not written in the loop: every entry is met exactly once
		for _, l := range fc.loops {
			if l.inst != nil && l.head == i.Block() {
				vc.assume(fc.cur, Ite(ok, Lt(l.inst.K, it.len0), Imp(Neq(it.m, t0), Eq(l.inst.K, it.len0))))
			}
		}
	}
	fc.st.H[it.name] = vc.named("seen", Ite(ok, Sto(seen, key, tTrue), seen))
	for _, l := range fc.loops {
		if l.inst != nil && l.head == i.Block() {
			fc.setName(fmt.Sprintf("seen%d", l.inst.label), logic(fc.st.H[it.name]))
		}
	}
	vc.slog = append(vc.slog, storeRec{it.name, nil})
	out := Val{T: i.Type(), C: []*Term{ok}}
	if n := len(vc.g.comps(tt.At(1).Type())); n == nk && !isInvalid(tt.At(1).Type()) {
		out.C = append(out.C, kv.C...)
	} else {
		for j := 0; j < n; j++ {
			out.C = append(out.C, t0)
		}
	}
	if n := len(vc.g.comps(tt.At(2).Type())); n == len(mv.C) && !isInvalid(tt.At(2).Type()) {
		out.C = append(out.C, mv.C...)
	} else {
		for j := 0; j < n; j++ {
			out.C = append(out.C, t0)
		}
	}
	return out
}

func isInvalid(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.Invalid
}

func (fc *fctx) slice(i *ssa.Slice) Val {
	vc := fc.vc
	x := fc.val(i.X)
	switch u := i.X.Type().Underlying().(type) {
	case *types.Basic:
		ufNames["substr"] = true
		ufNames["strlen"] = true
		lo, hi := t0, App(SInt, "strlen", x.C[0])
		ln := hi
		if i.Low != nil {
			lo = fc.val(i.Low).C[0]
		}
		if i.High != nil {
			hi = fc.val(i.High).C[0]
		}
		fc.safety("slice", And(Ge(lo, t0), Le(lo, hi), Le(hi, ln)))
		t := App(SInt, "substr", x.C[0], lo, hi)
		vc.assume(fc.cur, Eq(App(SInt, "strlen", t), Sub(hi, lo)))
		return Val{T: i.Type(), C: []*Term{t}}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		n := intLit(at.Len())
		lo, hi := t0, n
		if i.Low != nil {
			lo = fc.val(i.Low).C[0]
		}
		if i.High != nil {
			hi = fc.val(i.High).C[0]
		}
		fc.safety("slice", And(Ge(lo, t0), Le(lo, hi), Le(hi, n)))
		return Val{T: i.Type(), C: []*Term{x.C[0], lo, Sub(hi, lo), Sub(n, lo)}}
	}
	lo, hi := t0, x.C[2]
	if i.Low != nil {
		lo = fc.val(i.Low).C[0]
	}
	if i.High != nil {
		hi = fc.val(i.High).C[0]
	}
	fc.safety("slice", And(Ge(lo, t0), Le(lo, hi), Le(hi, x.C[2])))
	cp := Sub(x.C[3], lo)
	if i.Max != nil {
		cp = Sub(fc.val(i.Max).C[0], lo)
	}
	return Val{T: i.Type(), C: []*Term{x.C[0], Add(x.C[1], lo), vc.named("len", Sub(hi, lo)), cp}}
}

// box converts a concrete value to an interface value.
func (vc *VC) box(v Val) Val {
	out := Val{T: types.NewInterfaceType(nil, nil), Dyn: v.T}
	vv := v
	out.DynV = &vv
	tag := vc.g.tagOf(v.T)
	pi, pr := t0, realLit("0", "1")
	cs := vc.g.comps(v.T)
	set := false
	for i, c := range cs {
		if i >= len(v.C) {
			break
		}
		switch c.sort {
		case SInt:
			if !set {
				pi = v.C[i]
				set = true
			}
		case SReal:
			if len(cs) == 1 {
				pr = v.C[i]
			}
		case SBool:
			if len(cs) == 1 {
				pi = Ite(v.C[i], t1, t0)
			}
		}
	}
	if len(cs) > 1 {
		if _, ok := v.T.Underlying().(*types.Struct); ok {
			// structured value: identified by an uninterpreted code
			pi = vc.fresh("boxed", SInt)
		}
	}
	out.C = []*Term{tag, pi, pr}
	return out
}

func (vc *VC) unbox(v Val, t types.Type) Val {
	if v.DynV != nil && types.Identical(v.Dyn, t) {
		o := *v.DynV
		o.T = t
		return o
	}
	cs := vc.g.comps(t)
	if len(cs) == 1 {
		switch cs[0].sort {
		case SInt:
			return Val{T: t, C: []*Term{v.C[1]}}
		case SReal:
			return Val{T: t, C: []*Term{v.C[2]}}
		case SBool:
			return Val{T: t, C: []*Term{Eq(v.C[1], t1)}}
		}
	}
	return vc.freshVal("unbox", t)
}

func (fc *fctx) typeAssert(i *ssa.TypeAssert) Val {
	vc := fc.vc
	x := fc.val(i.X)
	var ok *Term
	var v Val
	if types.IsInterface(i.AssertedType) {
		v = x
		v.T = i.AssertedType
		if it := i.AssertedType.Underlying().(*types.Interface); it.NumMethods() == 0 {
			ok = Neq(x.C[0], t0)
		} else {
			// decided by the dynamic type when known
			var alts []*Term
			for n, t := range vc.g.tagTypes {
				if types.Implements(t, it) {
					alts = append(alts, Eq(x.C[0], intLit(n)))
				}
			}
			if x.Dyn != nil && types.Implements(x.Dyn, it) {
				ok = tTrue
			} else if types.Implements(i.X.Type(), it) {
				ok = Neq(x.C[0], t0)
			} else {
				ok = vc.fresh("isiface", SBool)
				vc.assume(tTrue, Imp(ok, Neq(x.C[0], t0)))
			}
		}
	} else {
		tag := vc.g.tagOf(i.AssertedType)
		ok = Eq(x.C[0], tag)
		v = vc.unbox(x, i.AssertedType)
		vc.assume(And(fc.cur, ok), vc.typeFacts(v, fc.st.al))
	}
	if !i.CommaOk {
		fc.safety("type assertion", ok)
		return v
	}
	z := vc.zero(i.AssertedType)
	out := Val{T: i.Type()}
	for k := range v.C {
		out.C = append(out.C, Ite(ok, v.C[k], z.C[k]))
	}
	out.C = append(out.C, ok)
	return out
}

func (fc *fctx) convert(i *ssa.Convert) Val {
	vc := fc.vc
	v := fc.val(i.X)
	ft, tt := i.X.Type().Underlying(), i.Type().Underlying()
	fb, ok1 := ft.(*types.Basic)
	tb, ok2 := tt.(*types.Basic)
	if ok1 && ok2 {
		fi, ff, fs := fb.Info()&types.IsInteger != 0, fb.Info()&types.IsFloat != 0, fb.Info()&types.IsString != 0
		ti, tf, ts := tb.Info()&types.IsInteger != 0, tb.Info()&types.IsFloat != 0, tb.Info()&types.IsString != 0
		switch {
		case fi && ti, ff && tf, fs && ts:
			v.T = i.Type()
			if fi && ti && vc.g.intSize(tb) < vc.g.intSize(fb) {
				vc.note("narrowing integer conversion treated as exact")
			}
			return v
		case fi && tf:
			return Val{T: i.Type(), C: []*Term{ToReal(v.C[0])}}
		case ff && ti:
			x := v.C[0]
			t := Ite(Ge(x, realLit("0", "1")), mk(SInt, "to_int", x), Neg(mk(SInt, "to_int", Neg(x))))
			r := vc.named("trunc", t)
			if c := Or(orF(v.Nan), orF(v.Pinf), orF(v.Ninf)); !isFalse(c) {
				r = Ite(c, vc.fresh("convspecial", SInt), r)
			}
			return Val{T: i.Type(), C: []*Term{r}}
		}
	}
	if len(vc.g.comps(i.Type())) == 1 && len(v.C) >= 1 && vc.g.comps(i.Type())[0].sort == SInt && v.C[0].sort == SInt {
		// string <-> bytes and similar: opaque but functional for strings from ints
		if ok1 && fb.Info()&types.IsInteger != 0 {
			ufNames["runestr"] = true
			return Val{T: i.Type(), C: []*Term{App(SInt, "runestr", v.C[0])}}
		}
	}
	// string from bytes, bytes from string
	if sl, ok := tt.(*types.Slice); ok && ok1 {
		ufNames["strbytes"] = true
		ufNames["strlen"] = true
		n := App(SInt, "strlen", v.C[0])
		vc.assume(tTrue, Ge(n, t0))
		o := fc.makeSlice(sl.Elem(), n, n)
		// contents unspecified
		for _, c := range vc.g.comps(sl.Elem()) {
			nm, s := vc.heapComp("E:"+vc.g.typeKey(sl.Elem()), c, "2")
			ufNames["bytesof"] = true
			vc.setAt(fc.st, nm, s, o.C[0], App(arrSort(SInt, SInt), "bytesof", v.C[0]))
		}
		o.T = i.Type()
		return o
	}
	return vc.freshVal("conv", i.Type())
}

func (g *Gen) intSize(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func (fc *fctx) unop(i *ssa.UnOp) Val {
	switch i.Op {
	case token.MUL:
		p := fc.val(i.X)
		if p.T == nil {
			p.T = i.X.Type()
		}
		v := fc.load(p)
		v.T = i.Type()
		return v
	case token.NOT:
		return Val{T: i.Type(), C: []*Term{Not(fc.val(i.X).C[0])}}
	case token.SUB:
		v := fc.val(i.X)
		return Val{T: i.Type(), C: []*Term{Neg(v.C[0])}, Nan: v.Nan, Pinf: v.Ninf, Ninf: v.Pinf}
	case token.ARROW:
		v := fc.vc.freshVal("recv", i.Type())
		fc.vc.assume(tTrue, fc.vc.typeFacts(v, fc.st.al))
		if i.CommaOk {
			fc.atCall("recv", nil, nil, v)
			if tt, ok := v.T.(*types.Tuple); ok {
				fc.setName("received", Val{T: tt.At(0).Type(), C: v.C[:len(fc.vc.g.comps(tt.At(0).Type()))]})
			}
		}
		fc.vc.note("a received value is arbitrary: " + i.X.Type().String())
		return v
	}
	return fc.vc.freshVal("unop", i.Type())
}

func isFloatT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (fc *fctx) binop(i *ssa.BinOp) Val {
	vc := fc.vc
	x, y := fc.val(i.X), fc.val(i.Y)
	xt := i.X.Type().Underlying()
	b := func(t *Term) Val { return Val{T: i.Type(), C: []*Term{t}} }
	if bt, ok := xt.(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		switch i.Op {
		case token.ADD:
			ufNames["strcat"] = true
			ufNames["strlen"] = true
			t := App(SInt, "strcat", x.C[0], y.C[0])
			vc.assume(tTrue, Eq(App(SInt, "strlen", t), Add(App(SInt, "strlen", x.C[0]), App(SInt, "strlen", y.C[0]))))
			return b(t)
		case token.EQL:
			return b(Eq(x.C[0], y.C[0]))
		case token.NEQ:
			return b(Neq(x.C[0], y.C[0]))
		}
		ufNames["strlt"] = true
		l := App(SBool, "strlt", x.C[0], y.C[0])
		g := App(SBool, "strlt", y.C[0], x.C[0])
		switch i.Op {
		case token.LSS:
			return b(l)
		case token.GTR:
			return b(g)
		case token.LEQ:
			return b(Not(g))
		case token.GEQ:
			return b(Not(l))
		}
	}
	if i.Op == token.EQL || i.Op == token.NEQ {
		var t *Term
		if isFloatT(i.X.Type()) {
			t = fcmp(token.EQL, x, y)
		} else if len(x.C) == len(y.C) && len(x.C) > 0 {
			var ts []*Term
			if _, ok := xt.(*types.Slice); ok {
				ts = append(ts, Eq(x.C[0], y.C[0])) // comparison with nil only
			} else if _, ok := xt.(*types.Interface); ok && isNilConst(i.X, i.Y) {
				ts = append(ts, Eq(x.C[0], y.C[0]))
			} else {
				for k := range x.C {
					ts = append(ts, Eq(x.C[k], y.C[k]))
				}
			}
			t = And(ts...)
		} else {
			unsup("comparison %s", i)
		}
		if i.Op == token.NEQ {
			t = Not(t)
		}
		return b(t)
	}
	switch i.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isFloatT(i.X.Type()) {
			return b(fcmp(i.Op, x, y))
		}
		switch i.Op {
		case token.LSS:
			return b(Lt(x.C[0], y.C[0]))
		case token.LEQ:
			return b(Le(x.C[0], y.C[0]))
		case token.GTR:
			return b(Gt(x.C[0], y.C[0]))
		}
		return b(Ge(x.C[0], y.C[0]))
	case token.ADD, token.SUB, token.MUL:
		var t *Term
		switch i.Op {
		case token.ADD:
			t = Add(x.C[0], y.C[0])
		case token.SUB:
			t = Sub(x.C[0], y.C[0])
		default:
			t = Mul(x.C[0], y.C[0])
		}
		v := b(t)
		if s := special(x, y); s != nil {
			// NaN is kept; otherwise an infinite operand gives an unspecified special value
			v.Nan = And(s, Or(orF(x.Nan), orF(y.Nan), vc.fresh("nan", SBool)))
			v.Pinf = And(s, Not(v.Nan), vc.fresh("inf", SBool))
			v.Ninf = And(s, Not(v.Nan), Not(v.Pinf))
		}
		return v
	case token.QUO:
		if isFloatT(i.X.Type()) {
			z := realLit("0", "1")
			a, d := x.C[0], y.C[0]
			dz := Eq(d, z)
			if len(d.args) == 0 && d.op != "0.0" && len(d.op) > 0 && (d.op[0] >= '0' && d.op[0] <= '9') {
				dz = tFalse
			}
			v := b(mk(SReal, "/", a, d))
			if !isFalse(dz) {
				v.Nan, v.Pinf, v.Ninf = And(dz, Eq(a, z)), And(dz, Gt(a, z)), And(dz, Lt(a, z))
			}
			if s := special(x, y); s != nil {
				// finite / infinite = 0, infinite / infinite = NaN, infinite / finite = infinite
				xi, yi := Or(orF(x.Pinf), orF(x.Ninf)), Or(orF(y.Pinf), orF(y.Ninf))
				nan := Or(orF(x.Nan), orF(y.Nan), And(xi, yi))
				zero := And(yi, Not(xi), Not(nan))
				sg := vc.fresh("inf", SBool)
				v.C = []*Term{Ite(zero, z, v.C[0])}
				v.Nan = Or(nan, And(Not(s), orF(v.Nan)))
				v.Pinf = Or(And(s, Not(nan), Not(zero), sg), And(Not(s), orF(v.Pinf)))
				v.Ninf = Or(And(s, Not(nan), Not(zero), Not(sg)), And(Not(s), orF(v.Ninf)))
			}
			return v
		}
		fc.safety("divide", Neq(y.C[0], t0))
		return b(truncDiv(x.C[0], y.C[0]))
	case token.REM:
		fc.safety("divide", Neq(y.C[0], t0))
		return b(truncMod(x.C[0], y.C[0]))
	case token.SHL:
		if n, ok := y.C[0].intVal(); ok && n < 62 {
			return b(Mul(x.C[0], intLit(int64(1)<<uint(n))))
		}
	case token.SHR:
		if n, ok := y.C[0].intVal(); ok && n < 62 {
			return b(mk(SInt, "div", x.C[0], intLit(int64(1)<<uint(n))))
		}
	case token.AND, token.OR:
		if len(x.C) == 1 && x.C[0].sort == SBool {
			if i.Op == token.AND {
				return b(And(x.C[0], y.C[0]))
			}
			return b(Or(x.C[0], y.C[0]))
		}
	}
	n := "bit_" + map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.SHL: "shl", token.SHR: "shr", token.AND_NOT: "andnot"}[i.Op]
	ufNames[n] = true
	return b(App(SInt, n, x.C[0], y.C[0]))
}

func isNilConst(vs ...ssa.Value) bool {
	for _, v := range vs {
		if c, ok := v.(*ssa.Const); ok && c.Value == nil {
			return true
		}
	}
	return false
}

func special(x, y Val) *Term {
	if x.Nan == nil && x.Pinf == nil && x.Ninf == nil && y.Nan == nil && y.Pinf == nil && y.Ninf == nil {
		return nil
	}
	return Or(orF(x.Nan), orF(x.Pinf), orF(x.Ninf), orF(y.Nan), orF(y.Pinf), orF(y.Ninf))
}

// fcmp compares floats with IEEE special values.
func fcmp(op token.Token, x, y Val) *Term {
	var base *Term
	switch op {
	case token.EQL:
		base = Eq(x.C[0], y.C[0])
	case token.LSS:
		base = Lt(x.C[0], y.C[0])
	case token.LEQ:
		base = Le(x.C[0], y.C[0])
	case token.GTR:
		base = Gt(x.C[0], y.C[0])
	default:
		base = Ge(x.C[0], y.C[0])
	}
	if special(x, y) == nil {
		return base
	}
	nan := Or(orF(x.Nan), orF(y.Nan))
	xp, xn, yp, yn := orF(x.Pinf), orF(x.Ninf), orF(y.Pinf), orF(y.Ninf)
	lt := Or(And(xn, Not(yn)), And(Not(xp), yp))
	gt := Or(And(yn, Not(xn)), And(Not(yp), xp))
	eq := Or(And(xp, yp), And(xn, yn))
	inf := Or(xp, xn, yp, yn)
	var t *Term
	switch op {
	case token.EQL:
		t = eq
	case token.LSS:
		t = lt
	case token.LEQ:
		t = Or(lt, eq)
	case token.GTR:
		t = gt
	default:
		t = Or(gt, eq)
	}
	return And(Not(nan), Ite(inf, t, base))
}

// valueCell: a local struct written once, where it is declared, and only read
// afterwards; it is kept as a value, apart from the memory.
func valueCell(a *ssa.Alloc) bool {
	stores := 0
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != a || x.Val == a || x.Block() != a.Block() || x.Block().Index != 0 {
				return false
			}
			if _, ok := x.Val.(*ssa.Parameter); !ok {
				return false
			}
			stores++
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !readOnlyAddr(x) {
				return false
			}
		default:
			return false
		}
	}
	return stores == 1
}

// localStruct: a local struct whose address is used for its fields only.
func localStruct(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != a || x.Val == a {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			for _, q := range *x.Referrers() {
				switch y := q.(type) {
				case *ssa.Store:
					if y.Addr != x || y.Val == x {
						return false
					}
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func readOnlyAddr(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !readOnlyAddr(x) {
				return false
			}
		default:
			return false
		}
	}
	return true
}
