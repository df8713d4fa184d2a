package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Comp is one scalar component of a flattened Go value.
type Comp struct {
	suf  string
	sort string
	kind string // int ref real bool str arr off len cap tag pi pr opq fn
}

// Val is a symbolic Go value.
type Val struct {
	T    types.Type
	C    []*Term
	A    *Addr
	Fn   *FnVal
	Nan  *Term // float flags; nil = finite
	Pinf *Term
	Ninf *Term
	// known dynamic type of an interface value
	Dyn  types.Type
	DynV *Val
	// provenance of a function value loaded from a field
	From    string
	FromRef *Term
	It      *iterInfo
	// a variable that lives in memory: its name stands for what it holds
	Cell *Addr
	SV   *Val // pointer to a local value cell: its contents
}

type iterInfo struct {
	name string // state variable holding the visited set
	mt   *types.Map
	m    *Term
	ks   string
	dom0 *Term
	len0 *Term
	key  *Term // key returned by the latest Next
}

type FnVal struct {
	Fn   *ssa.Function
	Bind []Val
}

type Addr struct {
	kind string // field elem cell global
	heap string // heap name prefix
	ref  *Term
	idx  *Term
	T    types.Type
	slot string // field name pkg.T.f for field locations
}

type Fact struct {
	t      *Term
	def    string
	guard  string
	touch  int      // last time it was stated again
	scope  int      // 0: everywhere, else only for obligations of that scope
	tags   []string // properties of the clause it came from (empty: all)
	strlen bool     // the length of a constant string
}

// usable: a fact from a clause of the properties s serves an obligation of the
// properties t only when every check that includes the obligation also includes
// the obligations the fact rests on.
func usable(s, t []string) bool {
	if len(s) == 0 {
		return true
	}
	if len(t) == 0 {
		return false
	}
	for _, x := range t {
		if !contains(s, x) {
			return false
		}
	}
	return true
}

type Obl struct {
	Name    string
	Kind    string
	Guard   *Term
	Goal    *Term
	NFacts  int
	Pos     string
	Fn      string
	Hints   []*Term
	Cover   bool // must be satisfiable rather than valid
	Status  string
	Solver  string
	Secs    float64
	Out     string
	query   string
	scope   int
	base    int
	Tags    []string // properties the clause belongs to (empty: all)
	Skipped bool
}

type State struct {
	H  map[string]*Term
	al *Term
}

func (s *State) clone() *State {
	n := &State{H: make(map[string]*Term, len(s.H)), al: s.al}
	for k, v := range s.H {
		n.H[k] = v
	}
	return n
}

type storeRec struct {
	name string
	ref  *Term // nil: unknown location
}

// VC is the context of one verification task (one function under contract).
type VC struct {
	dropped bool // a candidate invariant was dropped

	rename map[string]string // names of the contract that the code no longer uses
	g        *Gen
	name     string
	declS    map[string]string
	declSeq  map[string]int
	facts    []Fact
	gfacts   []Fact
	obls     []*Obl
	cnt      map[string]int
	init     map[string]*Term
	al0      *Term
	wfOwn    bool
	notes    map[string]bool
	strs     map[string]*Term
	used     map[string]bool // contracts used at call sites
	inl      map[string]bool // functions inlined
	ext      map[string]bool // external functions modelled
	c        *Contract
	fnmods   []modEntry
	entry    *State
	args     []Val
	slog     []storeRec
	allocs   map[string]int
	gpar     map[string]string
	nn       []nnRec
	dry      int
	loopN    int
	curPos   string
	curFn    string
	stack    []*ssa.Function
	loops    []*LoopInst
	active   map[*LoopSpec]*LoopInst
	pendFn   []pendFn
	onames   map[string]int
	noTerm   map[string]bool
	curTags  []string
	errs     []string
	lemUsed  map[string]bool
	curFc    *fctx
	gdefs    map[string]*Term
	lastSync map[string]string
	params   map[string]Val
	curLemma string
	cntIt    int
	mu       sync.Mutex
	paths    map[string]*pathRes
	scopeN   int
	known    map[string]int // text of a fact -> position
}

type nnRec struct{ ref, guard string }

type pendFn struct {
	field string
	ref   *Term
	fn    *FnVal
	guard *Term
	pos   string
}

func newVC(g *Gen, name string) *VC {
	vc := &VC{g: g, name: name, declS: map[string]string{}, declSeq: map[string]int{}, cnt: map[string]int{}, init: map[string]*Term{}, notes: map[string]bool{}, strs: map[string]*Term{}, used: map[string]bool{}, inl: map[string]bool{}, ext: map[string]bool{}, allocs: map[string]int{}, gpar: map[string]string{}, onames: map[string]int{}, lemUsed: map[string]bool{}, lastSync: map[string]string{}, known: map[string]int{}}
	vc.al0 = vc.fresh("al", SInt)
	vc.wfOwn = true
	vc.gfact(Ge(vc.al0, intLit(1)))
	return vc
}

func (vc *VC) note(s string) { vc.notes[s] = true }

func (vc *VC) fresh(base, sort string) *Term {
	if len(base) > 60 {
		base = base[:60]
	}
	vc.cnt[base]++
	n := symEsc(fmt.Sprintf("%s!%d", base, vc.cnt[base]))
	vc.declS[n] = sort
	vc.declSeq[n] = len(vc.declSeq)
	return mk(sort, n)
}
func (vc *VC) gfact(t *Term) {
	if !isTrue(t) {
		vc.gfacts = append(vc.gfacts, Fact{t: t})
	}
}
func (vc *VC) fact(t *Term) {
	if !isTrue(t) {
		vc.facts = append(vc.facts, Fact{t: t})
	}
}
func (vc *VC) assume(guard, t *Term) {
	if isTrue(t) {
		return
	}
	gs := ""
	if len(guard.args) == 0 && !isTrue(guard) {
		gs = guard.op
	}
	if t.op == "and" {
		for _, a := range t.args {
			vc.assume1(guard, gs, a)
		}
		return
	}
	vc.assume1(guard, gs, t)
}
func (vc *VC) assume1(guard *Term, gs string, t *Term) {
	if isTrue(t) {
		return
	}
	// already known under a weaker guard
	if k, i := vc.knownAt(guard, t, len(vc.facts), 0, vc.curTags); k {
		vc.facts[i].touch = len(vc.facts)
		return
	}
	f := Fact{t: Imp(guard, t), guard: gs, tags: vc.curTags}
	vc.known[f.t.String()] = len(vc.facts)
	vc.facts = append(vc.facts, f)
}

// isKnown: the fact, or the fact under a dominating guard, was recorded.
func (vc *VC) isKnown(guard, t *Term, n int, scope int, tags []string) bool {
	k, _ := vc.knownAt(guard, t, n, scope, tags)
	return k
}

func (vc *VC) knownAt(guard, t *Term, n int, scope int, tags []string) (bool, int) {
	last := 0
	ok := func(s string) bool {
		i, ok := vc.known[s]
		last = i
		return ok && i < n && i < len(vc.facts) && (vc.facts[i].scope == 0 || vc.facts[i].scope == scope) && usable(vc.facts[i].tags, tags) && vc.facts[i].t.String() == s
	}
	s := t.String()
	if ok(s) {
		return true, last
	}
	if len(guard.args) > 0 {
		k := ok(Imp(guard, t).String())
		return k, last
	}
	for g, k := guard.op, 0; g != "" && k < 1000; g, k = vc.gpar[g], k+1 {
		if ok("(=> " + g + " " + s + ")") {
			return true, last
		}
	}
	return false, 0
}
func (vc *VC) defFact(def *Term, t *Term) {
	vc.facts = append(vc.facts, Fact{t: t, def: def.op})
}

// named gives a short name to a term.
func (vc *VC) named(base string, t *Term) *Term {
	if len(t.args) == 0 {
		return t
	}
	if t.op == "-" && len(t.args) == 1 && len(t.args[0].args) == 0 {
		return t
	}
	c := vc.fresh(base, t.sort)
	vc.defFact(c, Eq(c, t))
	return c
}

// check emits an obligation and assumes it afterwards.
func (vc *VC) check(kind, name string, guard, goal *Term) {
	vc.obligation(kind, name, guard, goal, nil)
	vc.assume(guard, goal)
}

func (vc *VC) obligation(kind, name string, guard, goal *Term, hints []*Term) *Obl {
	if isTrue(goal) || isFalse(guard) || vc.dry > 0 {
		return nil
	}
	if goal.op == "and" && kind != "cover" {
		for i, a := range goal.args {
			n := name
			if len(goal.args) > 1 {
				n = fmt.Sprintf("%s.%d", name, i)
			}
			vc.obligation(kind, n, guard, a, hints)
		}
		return nil
	}
	full := kind + ":" + name
	vc.onames[full]++
	if n := vc.onames[full]; n > 1 {
		full = fmt.Sprintf("%s#%d", full, n)
	}
	o := &Obl{Kind: kind, Name: full, Guard: guard, Goal: goal, NFacts: len(vc.facts), Pos: vc.curPos, Fn: vc.name, Hints: hints, Tags: vc.curTags}
	if vc.curFc != nil {
		if l := vc.curFc.curLoop(); l != nil {
			o.base = l.base
		}
	}
	vc.obls = append(vc.obls, o)
	return o
}

// ---------- types ----------

func (g *Gen) isModule(p *types.Package) bool {
	if p == nil {
		return false
	}
	return g.modPkgs[p.Path()]
}

// structOf returns the struct type when t is a struct modelled field by field.
func (g *Gen) structOf(t types.Type) (*types.Struct, bool) {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if !g.isModule(n.Obj().Pkg()) {
			return nil, false
		}
	}
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

func (g *Gen) typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return g.pkgShort(p) })
}

func (g *Gen) pkgShort(p *types.Package) string {
	return p.Name()
}

func (g *Gen) comps(t types.Type) []Comp {
	t = types.Unalias(t)
	if c, ok := g.compCache[t]; ok {
		return c
	}
	c := g.comps0(t)
	g.compCache[t] = c
	return c
}

func (g *Gen) comps0(t types.Type) []Comp {
	if n, ok := t.(*types.Named); ok {
		if !g.isModule(n.Obj().Pkg()) {
			switch n.Underlying().(type) {
			case *types.Struct, *types.Array:
				return []Comp{{"", SInt, "opq"}}
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Comp{{"", SBool, "bool"}}
		case u.Info()&types.IsInteger != 0:
			return []Comp{{"", SInt, "int"}}
		case u.Info()&types.IsFloat != 0:
			return []Comp{{"", SReal, "real"}}
		case u.Info()&types.IsString != 0:
			return []Comp{{"", SInt, "str"}}
		default:
			return []Comp{{"", SInt, "opq"}}
		}
	case *types.Pointer, *types.Map:
		return []Comp{{"", SInt, "ref"}}
	case *types.Chan, *types.Signature:
		return []Comp{{"", SInt, "fn"}}
	case *types.Slice:
		return []Comp{{".arr", SInt, "arr"}, {".off", SInt, "off"}, {".len", SInt, "len"}, {".cap", SInt, "cap"}}
	case *types.Interface:
		return []Comp{{".tag", SInt, "tag"}, {".pi", SInt, "pi"}, {".pr", SReal, "pr"}}
	case *types.Struct:
		var out []Comp
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, c := range g.comps(f.Type()) {
				out = append(out, Comp{"." + f.Name() + c.suf, c.sort, c.kind})
			}
		}
		return out
	case *types.Array:
		return []Comp{{"", SInt, "opq"}}
	case *types.Tuple:
		var out []Comp
		for i := 0; i < u.Len(); i++ {
			for _, c := range g.comps(u.At(i).Type()) {
				out = append(out, Comp{fmt.Sprintf(".%d%s", i, c.suf), c.sort, c.kind})
			}
		}
		return out
	}
	return []Comp{{"", SInt, "opq"}}
}

// size in ref slots
func (g *Gen) size(t types.Type) int64 {
	s, ok := g.structOf(t)
	if !ok {
		return 1
	}
	n := int64(0)
	for i := 0; i < s.NumFields(); i++ {
		if _, ok := g.structOf(s.Field(i).Type()); ok {
			n += g.size(s.Field(i).Type())
		}
	}
	if n < 1 {
		n = 1
	}
	return n
}

// fieldOffset of a struct-typed field.
func (g *Gen) fieldOffset(s *types.Struct, idx int) int64 {
	n := int64(0)
	for i := 0; i < idx; i++ {
		if _, ok := g.structOf(s.Field(i).Type()); ok {
			n += g.size(s.Field(i).Type())
		}
	}
	return n
}

// ---------- state access ----------

func (vc *VC) get(st *State, name, sort string) *Term {
	if vc.blind(name) {
		return vc.fresh("any."+name, sort)
	}
	if t, ok := st.H[name]; ok {
		if t.sort != sort {
			panic(fmt.Sprintf("heap %s sort %s vs %s", name, t.sort, sort))
		}
		return t
	}
	return vc.initial(name, sort)
}
func (vc *VC) initial(name, sort string) *Term {
	if t, ok := vc.init[name]; ok {
		return t
	}
	t := vc.fresh("H0."+name, sort)
	vc.init[name] = t
	return t
}

// blind: the function is verified without tracking this part of memory.
func (vc *VC) blind(name string) bool {
	if vc.c == nil || !vc.c.Values || strings.HasPrefix(name, "X:") || strings.HasPrefix(name, "it!") {
		return false
	}
	if strings.HasPrefix(name, "C:") {
		// variables shared with closures
		for _, k := range vc.c.Keeps {
			if name == "C:"+k || strings.HasPrefix(name, "C:"+k+"#") || strings.HasPrefix(name, "C:"+k+".") {
				return false
			}
		}
	}
	if strings.HasPrefix(name, "F:") {
		for _, k := range vc.c.Keeps {
			if strings.HasPrefix(name, "F:"+k+".") {
				return false
			}
		}
	}
	return true
}

func (vc *VC) set(st *State, name string, t *Term) {
	if vc.blind(name) {
		return
	}
	st.H[name] = vc.named("H."+name, t)
}

// setAt writes one row or cell of an array-valued heap.
func (vc *VC) setAt(st *State, name, sort string, ref, v *Term) {
	if vc.blind(name) {
		return
	}
	h := vc.get(st, name, sort)
	vc.slog = append(vc.slog, storeRec{name, ref})
	vc.set(st, name, Sto(h, ref, v))
}
func (vc *VC) setAll(st *State, name string, t *Term) {
	if vc.blind(name) {
		return
	}
	vc.slog = append(vc.slog, storeRec{name, nil})
	vc.set(st, name, t)
}

func (vc *VC) heapComp(prefix string, c Comp, levels string) (string, string) {
	name := prefix + c.suf
	var sort string
	switch levels {
	case "1":
		sort = arrSort(SInt, c.sort)
	case "2":
		sort = arrSort(SInt, arrSort(SInt, c.sort))
	case "0":
		sort = c.sort
	}
	vc.g.setHeapKind(name, c.kind, sort)
	return name, sort
}

func (vc *VC) loadAddr(st *State, a *Addr) Val {
	cs := vc.g.comps(a.T)
	v := Val{T: a.T}
	for _, c := range cs {
		switch a.kind {
		case "field", "cell":
			n, s := vc.heapComp(a.heap, c, "1")
			v.C = append(v.C, Sel(vc.get(st, n, s), a.ref))
		case "elem":
			n, s := vc.heapComp(a.heap, c, "2")
			v.C = append(v.C, Sel(Sel(vc.get(st, n, s), a.ref), a.idx))
		case "global":
			n, s := vc.heapComp(a.heap, c, "0")
			v.C = append(v.C, vc.get(st, n, s))
		}
	}
	return v
}

func (vc *VC) storeAddr(st *State, a *Addr, v Val) {
	cs := vc.g.comps(a.T)
	if len(cs) != len(v.C) {
		panic(fmt.Sprintf("store comps mismatch %s vs %s (%d/%d)", a.T, v.T, len(cs), len(v.C)))
	}
	for i, c := range cs {
		switch a.kind {
		case "field", "cell":
			n, s := vc.heapComp(a.heap, c, "1")
			vc.setAt(st, n, s, a.ref, v.C[i])
		case "elem":
			n, s := vc.heapComp(a.heap, c, "2")
			h := vc.get(st, n, s)
			vc.setAt(st, n, s, a.ref, Sto(Sel(h, a.ref), a.idx, v.C[i]))
		case "global":
			n, s := vc.heapComp(a.heap, c, "0")
			vc.get(st, n, s)
			vc.setAll(st, n, v.C[i])
		}
	}
}

// loadStruct reads *p for p a numeric pointer to struct type t.
func (vc *VC) loadStruct(st *State, t types.Type, ref *Term) Val {
	s, _ := vc.g.structOf(t)
	v := Val{T: t}
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if _, ok := vc.g.structOf(ft); ok {
			sub := vc.loadStruct(st, ft, Add(ref, intLit(vc.g.fieldOffset(s, i))))
			v.C = append(v.C, sub.C...)
		} else {
			v.C = append(v.C, vc.loadAddr(st, vc.fieldAddr(t, i, ref)).C...)
		}
	}
	return v
}
func (vc *VC) storeStruct(st *State, t types.Type, ref *Term, v Val) {
	s, _ := vc.g.structOf(t)
	p := 0
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		n := len(vc.g.comps(ft))
		fv := Val{T: ft, C: v.C[p : p+n]}
		p += n
		if _, ok := vc.g.structOf(ft); ok {
			vc.storeStruct(st, ft, Add(ref, intLit(vc.g.fieldOffset(s, i))), fv)
		} else {
			vc.storeAddr(st, vc.fieldAddr(t, i, ref), fv)
		}
	}
}

func (vc *VC) fieldAddr(t types.Type, idx int, ref *Term) *Addr {
	s, _ := vc.g.structOf(t)
	f := s.Field(idx)
	k := vc.g.typeKey(t) + "." + f.Name()
	return &Addr{kind: "field", heap: "F:" + k, ref: ref, T: f.Type(), slot: k}
}

func (vc *VC) zero(t types.Type) Val {
	v := Val{T: t}
	for _, c := range vc.g.comps(t) {
		switch c.sort {
		case SInt:
			v.C = append(v.C, t0)
		case SReal:
			v.C = append(v.C, realLit("0", "1"))
		case SBool:
			v.C = append(v.C, tFalse)
		}
	}
	return v
}

func (vc *VC) freshVal(base string, t types.Type) Val {
	v := Val{T: t}
	for _, c := range vc.g.comps(t) {
		v.C = append(v.C, vc.fresh(base+c.suf, c.sort))
	}
	return v
}

// typeFacts are the memory-model invariants of a loaded value.
func (vc *VC) typeFacts(v Val, al *Term) *Term {
	var out []*Term
	cs := vc.g.comps(v.T)
	for i, c := range cs {
		switch c.kind {
		case "ref":
			out = append(out, Ge(v.C[i], t0), Lt(v.C[i], al))
		case "arr":
			a, o, l, k := v.C[i], v.C[i+1], v.C[i+2], v.C[i+3]
			out = append(out, Ge(a, t0), Lt(a, al), Ge(o, t0), Ge(l, t0), Le(l, k), Imp(Eq(a, t0), And(Eq(k, t0), Eq(o, t0))))
		case "tag":
			out = append(out, Ge(v.C[i], t0))
			if it, ok := v.T.Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
				// interfaces with methods hold pointers in this code base
				out = append(out, Imp(Neq(v.C[i], t0), And(Ge(v.C[i+1], t0))))
			}
		case "int":
			if b, ok := v.T.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
				out = append(out, Ge(v.C[i], t0))
			}
		}
	}
	return And(out...)
}

// ---------- maps ----------

func (g *Gen) keySortOf(t types.Type) (string, bool) {
	cs := g.comps(t)
	if len(cs) == 1 {
		return cs[0].sort, true
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return SInt, true
	}
	return SInt, false
}

func (vc *VC) mapKey(kt types.Type, k Val) *Term {
	if _, ok := kt.Underlying().(*types.Interface); ok {
		ufNames["ikey"] = true
		return App(SInt, "ikey", k.C[0], k.C[1])
	}
	if len(k.C) == 1 {
		return k.C[0]
	}
	panic("map key type " + kt.String())
}

func (vc *VC) mapName(mt *types.Map) string {
	return "M:" + vc.g.typeKey(mt.Key()) + ":" + vc.g.typeKey(mt.Elem())
}
func (vc *VC) mapDom(st *State, mt *types.Map) (string, *Term) {
	ks, _ := vc.g.keySortOf(mt.Key())
	n := vc.mapName(mt) + ".dom"
	s := arrSort(SInt, arrSort(ks, SBool))
	vc.g.setHeapKind(n, "dom", s)
	return n, vc.get(st, n, s)
}
func (vc *VC) mapLenH(st *State, mt *types.Map) (string, *Term) {
	n := vc.mapName(mt) + ".mlen"
	vc.g.setHeapKind(n, "mlen", arrSort(SInt, SInt))
	return n, vc.get(st, n, arrSort(SInt, SInt))
}
func (vc *VC) mapValH(st *State, mt *types.Map, c Comp) (string, *Term) {
	ks, _ := vc.g.keySortOf(mt.Key())
	n := vc.mapName(mt) + ".val" + c.suf
	s := arrSort(SInt, arrSort(ks, c.sort))
	vc.g.setHeapKind(n, c.kind, s)
	return n, vc.get(st, n, s)
}

func (vc *VC) mapGet(st *State, mt *types.Map, m *Term, key *Term) (Val, *Term) {
	_, d := vc.mapDom(st, mt)
	in := Sel(Sel(d, m), key)
	v := Val{T: mt.Elem()}
	for _, c := range vc.g.comps(mt.Elem()) {
		_, h := vc.mapValH(st, mt, c)
		v.C = append(v.C, Sel(Sel(h, m), key))
	}
	return v, in
}

func (vc *VC) mapSet(st *State, mt *types.Map, m *Term, key *Term, v Val) {
	dn, d := vc.mapDom(st, mt)
	ln, l := vc.mapLenH(st, mt)
	in := Sel(Sel(d, m), key)
	vc.setAt(st, ln, l.sort, m, Ite(in, Sel(l, m), Add(Sel(l, m), t1)))
	vc.setAt(st, dn, d.sort, m, Sto(Sel(d, m), key, tTrue))
	for i, c := range vc.g.comps(mt.Elem()) {
		n, h := vc.mapValH(st, mt, c)
		vc.setAt(st, n, h.sort, m, Sto(Sel(h, m), key, v.C[i]))
	}
}

func (vc *VC) mapDelete(st *State, mt *types.Map, m *Term, key *Term) {
	dn, d := vc.mapDom(st, mt)
	ln, l := vc.mapLenH(st, mt)
	in := Sel(Sel(d, m), key)
	vc.setAt(st, ln, l.sort, m, Ite(in, Sub(Sel(l, m), t1), Sel(l, m)))
	vc.setAt(st, dn, d.sort, m, Sto(Sel(d, m), key, tFalse))
}

// ---------- strings, tags ----------

func (vc *VC) strConst(s string) *Term {
	if t, ok := vc.strs[s]; ok {
		return t
	}
	if s == "" {
		vc.strs[s] = t0
		return t0
	}
	n := int64(len(vc.strs) + 1000000)
	t := intLit(n)
	vc.strs[s] = t
	ufNames["strlen"] = true
	vc.gfacts = append(vc.gfacts, Fact{t: Eq(App(SInt, "strlen", t), intLit(int64(len(s)))), strlen: true})
	return t
}

func (g *Gen) tagOf(t types.Type) *Term {
	k := g.typeKey(t)
	if n, ok := g.tagIDs[k]; ok {
		return intLit(n)
	}
	n := int64(len(g.tagIDs) + 1)
	g.tagIDs[k] = n
	g.tagTypes[n] = t
	return intLit(n)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// scoped runs f; the facts it records serve only the obligations it emits.
func (vc *VC) scoped(f func()) {
	nf, no := len(vc.facts), len(vc.obls)
	nn := append([]nnRec{}, vc.nn...)
	f()
	vc.scopeN++
	for i := nf; i < len(vc.facts); i++ {
		vc.facts[i].scope = vc.scopeN
	}
	for i := no; i < len(vc.obls); i++ {
		vc.obls[i].scope = vc.scopeN
	}
	vc.nn = nn
}
