package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const unixEpochNs = "62135596800000000000"

func (fc *fctx) external(f *ssa.Function, args []Val, rt types.Type) Val {
	return fc.externalNamed(f.String(), args, rt, f.Signature)
}

func uf(name string, sort string, args ...*Term) *Term {
	ufNames[name] = true
	if len(args) == 0 {
		return mk(sort, name)
	}
	return App(sort, name, args...)
}

// externalNamed models a function outside the repository.
func (fc *fctx) externalNamed(name string, args []Val, rt types.Type, sig *types.Signature) Val {
	vc := fc.vc
	vc.ext[name] = true
	one := func(t *Term) Val { return Val{T: rt, C: []*Term{t}} }
	fresh := func() Val {
		v := vc.freshVal("x."+lastSeg(name), rt)
		vc.assume(tTrue, vc.typeFacts(v, fc.st.al))
		return v
	}
	z := realLit("0", "1")
	nonNilErr := func() Val {
		v := vc.freshVal("err", rt)
		vc.assume(tTrue, And(Gt(v.C[0], t0), Ge(v.C[1], t0)))
		return v
	}
	switch name {
	case "fmt.Errorf", "errors.New":
		return nonNilErr()
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "os.Exit", "log.Panicln":
		fc.doPanic(name)
		if vc.c != nil && vc.c.MayPanic {
			vc.assume(fc.cur, tFalse)
		}
		return Val{T: rt}
	case "math.IsNaN":
		return one(orF(args[0].Nan))
	case "math.IsInf":
		return one(Or(orF(args[0].Pinf), orF(args[0].Ninf)))
	case "math.Abs":
		return one(Ite(Lt(args[0].C[0], z), Neg(args[0].C[0]), args[0].C[0]))
	case "math.Max":
		return one(Ite(Le(args[0].C[0], args[1].C[0]), args[1].C[0], args[0].C[0]))
	case "math.Min":
		return one(Ite(Le(args[0].C[0], args[1].C[0]), args[0].C[0], args[1].C[0]))
	case "math.Floor":
		return one(ToReal(mk(SInt, "to_int", args[0].C[0])))
	case "math.Ceil":
		return one(Neg(ToReal(mk(SInt, "to_int", Neg(args[0].C[0])))))
	case "math.Exp":
		t := uf("m_exp", SReal, args[0].C[0])
		vc.assume(tTrue, Gt(t, z))
		return one(t)
	case "math.Pow":
		return one(uf("m_pow", SReal, args[0].C[0], args[1].C[0]))
	case "math.Log":
		return one(uf("m_log", SReal, args[0].C[0]))
	case "math.Log2":
		return one(uf("m_log2", SReal, args[0].C[0]))
	case "math.Sqrt":
		return one(uf("m_sqrt", SReal, args[0].C[0]))
	case "math.Inf":
		v := one(vc.fresh("inf", SReal))
		v.Pinf, v.Ninf = Ge(args[0].C[0], t0), Lt(args[0].C[0], t0)
		return v
	case "math/rand.Float64", "(*math/rand.Rand).Float64":
		v := fresh()
		vc.assume(tTrue, And(Ge(v.C[0], z), Lt(v.C[0], realLit("1", "1"))))
		fc.randGhost(v.C[0])
		return v
	case "math/rand.Intn", "(*math/rand.Rand).Intn", "math/rand.Int63n", "(*math/rand.Rand).Int63n", "math/rand.Int31n", "(*math/rand.Rand).Int31n":
		v := fresh()
		n := args[len(args)-1].C[0]
		fc.safety("rand bound", Gt(n, t0))
		vc.assume(tTrue, Imp(Gt(n, t0), And(Ge(v.C[0], t0), Lt(v.C[0], n))))
		return v
	case "math/rand.Seed", "(*math/rand.Rand).Seed":
		return Val{T: rt}
	case "(time.Time).Sub":
		return one(Sub(args[0].C[0], args[1].C[0]))
	case "(time.Time).IsZero":
		return one(Eq(args[0].C[0], t0))
	case "(time.Time).Equal":
		return one(Eq(args[0].C[0], args[1].C[0]))
	case "(time.Time).Before":
		return one(Lt(args[0].C[0], args[1].C[0]))
	case "(time.Time).After":
		return one(Gt(args[0].C[0], args[1].C[0]))
	case "(time.Time).Add":
		return one(Add(args[0].C[0], args[1].C[0]))
	case "(time.Time).Unix":
		return one(mk(SInt, "div", mk(SInt, "-", args[0].C[0], mk(SInt, unixEpochNs)), intLit(1000000000)))
	case "time.Unix":
		return one(mk(SInt, "+", mk(SInt, "+", mk(SInt, "*", args[0].C[0], intLit(1000000000)), args[1].C[0]), mk(SInt, unixEpochNs)))
	case "(time.Time).UTC", "(time.Time).Local":
		return one(args[0].C[0])
	case "(time.Duration).Hours":
		return one(mk(SReal, "/", ToReal(args[0].C[0]), realLit("3600000000000", "1")))
	case "(time.Duration).Minutes":
		return one(mk(SReal, "/", ToReal(args[0].C[0]), realLit("60000000000", "1")))
	case "(time.Duration).Seconds":
		return one(mk(SReal, "/", ToReal(args[0].C[0]), realLit("1000000000", "1")))
	case "strings.Compare":
		e := Eq(args[0].C[0], args[1].C[0])
		l := uf("strlt", SBool, args[0].C[0], args[1].C[0])
		return one(Ite(e, t0, Ite(l, intLit(-1), t1)))
	case "strings.Contains", "strings.HasPrefix", "strings.HasSuffix":
		return one(uf("s_"+lastSeg(name), SBool, args[0].C[0], args[1].C[0]))
	case "path.Ext", "path/filepath.Ext", "path.Base", "path/filepath.Base":
		return one(uf("s_"+lastSeg(name), SInt, args[0].C[0]))
	case "path.Join", "path/filepath.Join":
		return fresh()
	case "strings.ToLower", "strings.ToUpper":
		x := args[0].C[0]
		u := uf("s_"+lastSeg(name), SInt, x)
		if a, ok := vc.strOf(x); ok {
			if name == "strings.ToLower" {
				return one(vc.strConst(strings.ToLower(a)))
			}
			return one(vc.strConst(strings.ToUpper(a)))
		}
		// single letters; i, k and s are also the other case of letters outside ASCII
		for c := 'a'; c <= 'z'; c++ {
			lo, up := vc.strConst(string(c)), vc.strConst(strings.ToUpper(string(c)))
			to := up
			if name == "strings.ToLower" {
				to = lo
			}
			same := Eq(u, to)
			if c == 'i' || c == 'k' || c == 's' {
				vc.assume(tTrue, Imp(Or(Eq(x, lo), Eq(x, up)), same))
			} else {
				vc.assume(tTrue, Eq(same, Or(Eq(x, lo), Eq(x, up))))
			}
		}
		return one(u)
	case "strings.TrimSpace", "strconv.Itoa":
		return one(uf("s_"+lastSeg(name), SInt, args[0].C[0]))
	case "strings.Index", "strings.LastIndex":
		t := uf("s_"+lastSeg(name), SInt, args[0].C[0], args[1].C[0])
		vc.assume(tTrue, And(Ge(t, intLit(-1)), Lt(t, Add(uf("strlen", SInt, args[0].C[0]), t1))))
		return one(t)
	case "strings.Replace", "strings.ReplaceAll":
		return one(uf("s_"+lastSeg(name), SInt, args[0].C[0], args[1].C[0], args[2].C[0]))
	case "strings.Trim", "strings.TrimRight", "strings.TrimLeft", "strings.TrimSuffix", "strings.TrimPrefix":
		return one(uf("s_"+lastSeg(name), SInt, args[0].C[0], args[1].C[0]))
	case "strings.Split":
		// the elements are a function of the arguments
		n := uf("s_splitn", SInt, args[0].C[0], args[1].C[0])
		vc.assume(tTrue, Ge(n, t1))
		row := uf("s_splitrow", arrSort(SInt, SInt), args[0].C[0], args[1].C[0])
		if a, ok := vc.strOf(args[0].C[0]); ok {
			if b, ok := vc.strOf(args[1].C[0]); ok {
				// both known: evaluated
				ps := strings.Split(a, b)
				vc.assume(tTrue, Eq(n, intLit(int64(len(ps)))))
				row = constArr(arrSort(SInt, SInt), t0)
				for i, p := range ps {
					row = Sto(row, intLit(int64(i)), vc.strConst(p))
				}
			}
		}
		v := fc.makeSlice(types.Typ[types.String], n, n)
		vc.setAt(fc.st, "E:string", arrSort(SInt, arrSort(SInt, SInt)), v.C[0], row)
		vc.g.setHeapKind("E:string", "str", arrSort(SInt, arrSort(SInt, SInt)))
		v.T = rt
		return v
	case "strings.Join":
		r := vc.get(fc.st, "E:string", arrSort(SInt, arrSort(SInt, SInt)))
		vc.g.setHeapKind("E:string", "str", arrSort(SInt, arrSort(SInt, SInt)))
		return one(uf("s_join", SInt, Sel(r, args[0].C[0]), args[0].C[1], args[0].C[2], args[1].C[0]))
	case "strconv.ParseFloat", "strconv.ParseInt", "strconv.Atoi", "strconv.ParseBool":
		v := fresh()
		s := "v_" + lastSeg(name)
		as := []*Term{args[0].C[0]}
		if strings.HasSuffix(name, "ParseInt") {
			as = append(as, args[1].C[0], args[2].C[0])
		}
		vc.assume(tTrue, Eq(v.C[0], uf(s, v.C[0].sort, as...)))
		vc.assume(tTrue, Eq(Eq(v.C[1], t0), uf(s+"_ok", SBool, args[0].C[0])))
		return v
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln", "strconv.FormatFloat", "strconv.FormatInt":
		return fresh()
	case "fmt.Println", "fmt.Printf", "fmt.Print", "log.Println", "log.Printf", "log.Print", "fmt.Fprintf", "fmt.Fprintln":
		return vc.freshVal("io", rt)
	case "sort.Search":
		return fc.sortSearch(args, rt)
	case "sort.SliceStable", "sort.Slice", "sort.Sort", "sort.Stable", "sort.Ints", "sort.Strings", "sort.Float64s":
		return fc.sortPerm(name, args, rt)
	case "(*go.uber.org/zap.Logger).Info", "(*go.uber.org/zap.Logger).Debug", "(*go.uber.org/zap.Logger).Error", "(*go.uber.org/zap.Logger).Warn":
		return Val{T: rt}
	}
	if strings.HasPrefix(name, "go.uber.org/zap") || strings.HasPrefix(name, "(*go.uber.org/zap") {
		if strings.Contains(name, "Fatal") || strings.Contains(name, "Panic") {
			fc.doPanic(name)
		}
		return fresh()
	}
	if strings.HasPrefix(name, "time.") || strings.HasPrefix(name, "(time.") {
		return fresh()
	}
	if h, ok := extHooks[name]; ok {
		return h(fc, name, args, rt)
	}
	if name == "encoding/json.Unmarshal" || name == "(*encoding/json.Decoder).Decode" {
		fc.decodeInto(args[len(args)-1])
		return fresh()
	}
	// anything else: arbitrary result; memory reachable from its arguments is
	// assumed unchanged unless it is a decoder
	vc.note("external function assumed not to write repository memory: " + name)
	return fresh()
}

// strOf is the string a term denotes, when it is a known constant.
func (vc *VC) strOf(t *Term) (string, bool) {
	for s, c := range vc.strs {
		if c == t || len(t.args) == 0 && c.op == t.op {
			return s, true
		}
	}
	return "", false
}

var extHooks = map[string]func(fc *fctx, name string, args []Val, rt types.Type) Val{}

func lastSeg(s string) string {
	if i := strings.LastIndexAny(s, "./"); i >= 0 {
		return strings.Trim(s[i+1:], ")")
	}
	return s
}

// decodeInto stores an arbitrary value, with fresh memory behind it, where a
// decoder was told to put its result.
func (fc *fctx) decodeInto(v Val) {
	vc := fc.vc
	if v.DynV == nil {
		unsup("decoder with an unknown target")
	}
	p := *v.DynV
	pt, ok := p.T.Underlying().(*types.Pointer)
	if !ok {
		unsup("decoder target is not a pointer")
	}
	al0 := fc.st.al
	al := vc.fresh("al", SInt)
	vc.assume(tTrue, Ge(al, al0))
	fc.st.al = al
	nv := vc.freshVal("decoded", pt.Elem())
	vc.assume(tTrue, vc.typeFacts(nv, al))
	for i, c := range vc.g.comps(pt.Elem()) {
		if c.kind == "ref" || c.kind == "arr" {
			vc.assume(tTrue, Or(Eq(nv.C[i], t0), Ge(nv.C[i], al0)))
			if c.kind == "ref" && i == 0 && len(nv.C) == 1 {
				vc.note("a decoded pointer is assumed not to be null")
				vc.assume(tTrue, Gt(nv.C[i], t0))
			}
		}
	}
	fc.store(p, nv)
}

func (fc *fctx) randGhost(t *Term) {}

// callPure runs a closure on a copy of the state and returns its result.
func (fc *fctx) callPure(fv Val, args []Val, rt types.Type, guard *Term) *Term {
	vc := fc.vc
	if fv.Fn == nil {
		unsup("sort with an unknown function value")
	}
	in := &fctx{vc: vc, fn: fc.fn, env: fc.env, names: fc.names, st: fc.st.clone(), cur: guard, up: fc.up, depth: fc.depth, outerLoop: fc.curLoop()}
	n := len(vc.slog)
	r := in.callFn(fv.Fn.Fn, args, fv.Fn.Bind, rt)
	if len(vc.slog) > n {
		unsup("comparison closure with side effects")
	}
	return r.C[0]
}

// sortSearch: binary search returns an index r with !f(r-1) and f(r) where defined.
func (fc *fctx) sortSearch(args []Val, rt types.Type) Val {
	vc := fc.vc
	n := args[0].C[0]
	r := vc.fresh("search", SInt)
	vc.assume(fc.cur, And(Ge(r, t0), Imp(Ge(n, t0), Le(r, n)), Imp(Lt(n, t0), Eq(r, t0))))
	bt := types.Typ[types.Bool]
	it := types.Typ[types.Int]
	sub := func(cond *Term, base string) *Term {
		g := vc.fresh(base, SBool)
		vc.defFact(g, Eq(g, And(fc.cur, cond)))
		if len(fc.cur.args) == 0 {
			vc.gpar[g.op] = fc.cur.op
		}
		return g
	}
	// safety of every probe
	j := vc.fresh("probe", SInt)
	gj := sub(And(Le(t0, j), Lt(j, n)), "G")
	fc.callPure(args[1], []Val{{T: it, C: []*Term{j}}}, bt, gj)
	g1 := sub(Lt(r, n), "G")
	v1 := fc.callPure(args[1], []Val{{T: it, C: []*Term{r}}}, bt, g1)
	vc.assume(fc.cur, Imp(g1, v1))
	g0 := sub(Gt(r, t0), "G")
	v0 := fc.callPure(args[1], []Val{{T: it, C: []*Term{Sub(r, t1)}}}, bt, g0)
	vc.assume(fc.cur, Imp(g0, Not(v0)))
	return Val{T: rt, C: []*Term{r}}
}

// sortPerm: the slice elements are permuted; the order itself is stated by hooks.
func (fc *fctx) sortPerm(name string, args []Val, rt types.Type) Val {
	if h, ok := extHooks[name]; ok {
		return h(fc, name, args, rt)
	}
	if fc.vc.c != nil && fc.vc.c.Values {
		// memory is not tracked there
		return Val{T: rt}
	}
	unsup("%s has no model", name)
	return Val{}
}

var _ = fmt.Sprint
