package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type unsupported struct{ msg string }

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

type retRec struct {
	guard *Term
	st    *State
	vals  []Val
	pos   string
}

type natLoop struct {
	head   *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	inst   *LoopInst
	parent *natLoop
}

// LoopInst is one loop met while executing a verification task.
type LoopInst struct {
	prior map[string]Val // in a step: the variables as the iteration began
	ord   int
	spec  *LoopSpec
	label int        // number the contract's names use
	auto  []*ssa.Phi // slices known to be allocated here
	K     *Term
	pre   *State
	head  *State // state assumed at the loop head
	phis  []*ssa.Phi
	fc    *fctx
	reach *Term
	nl    *natLoop
	frame []frameRec
	outer *LoopInst
	iter  *iterInfo
	base  int // facts recorded before the loop head
}

type frameRec struct {
	name string
	base *Term // heap at loop entry
}

// fctx is one activation of a function body.
type fctx struct {
	vc        *VC
	fn        *ssa.Function
	env       map[ssa.Value]Val
	bind      []Val
	reach     map[*ssa.BasicBlock]*Term
	out       map[*ssa.BasicBlock]*State
	endG      map[*ssa.BasicBlock]*Term
	econd     map[*ssa.BasicBlock][]*Term
	rets      []retRec
	loops     map[*ssa.BasicBlock]*natLoop
	in        map[*ssa.BasicBlock]*natLoop // innermost loop
	order     []*ssa.BasicBlock
	cur       *Term
	st        *State
	names     map[string]Val
	depth     int
	up        *fctx
	outerLoop *LoopInst
	blk       *ssa.BasicBlock
	seenSt    *State
}

func (vc *VC) newFctx(fn *ssa.Function, args []Val, bind []Val, up *fctx) *fctx {
	fc := &fctx{vc: vc, fn: fn, env: map[ssa.Value]Val{}, bind: bind, reach: map[*ssa.BasicBlock]*Term{}, out: map[*ssa.BasicBlock]*State{}, endG: map[*ssa.BasicBlock]*Term{}, econd: map[*ssa.BasicBlock][]*Term{}, names: map[string]Val{}, up: up}
	for i, p := range fn.Params {
		v := args[i]
		v.T = p.Type()
		fc.env[p] = v
		fc.names[p.Name()] = v
	}
	for i, f := range fn.FreeVars {
		v := bind[i]
		v.T = f.Type()
		fc.env[f] = v
	}
	if up != nil {
		fc.depth = up.depth + 1
		fc.outerLoop = up.curLoop()
	}
	fc.findLoops()
	return fc
}

func (fc *fctx) curLoop() *LoopInst {
	if fc.blk == nil {
		return fc.outerLoop
	}
	return fc.outerCurOf(fc.blk)
}

func (fc *fctx) outerCurOf(b *ssa.BasicBlock) *LoopInst {
	for l := fc.in[b]; l != nil; l = l.parent {
		if l.inst != nil {
			return l.inst
		}
	}
	return fc.outerLoop
}

func (fc *fctx) findLoops() {
	fc.loops = map[*ssa.BasicBlock]*natLoop{}
	fc.in = map[*ssa.BasicBlock]*natLoop{}
	fn := fc.fn
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fc.loops[s]
				if l == nil {
					l = &natLoop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					fc.loops[s] = l
				}
				var stack = []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	// nesting
	for h, l := range fc.loops {
		for h2, l2 := range fc.loops {
			if h2 != h && l2.body[h] {
				if l.parent == nil || len(l2.body) < len(l.parent.body) {
					l.parent = l2
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, l := range fc.loops {
			if l.body[b] {
				if c := fc.in[b]; c == nil || len(l.body) < len(c.body) {
					fc.in[b] = l
				}
			}
		}
	}
	// topological order without back edges
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			s := b.Succs[i]
			if s.Dominates(b) || seen[s] {
				continue
			}
			dfs(s)
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i := len(post) - 1; i >= 0; i-- {
		fc.order = append(fc.order, post[i])
	}
}

// run executes the body from an entry state; results are in fc.rets.
func (fc *fctx) run(st *State, guard *Term) {
	fc.runBlocks(fc.order, fc.fn.Blocks[0], st, guard, nil)
}

func (fc *fctx) runBlocks(order []*ssa.BasicBlock, entry *ssa.BasicBlock, st *State, guard *Term, only map[*ssa.BasicBlock]bool) {
	for _, b := range order {
		if only != nil && !only[b] {
			continue
		}
		if b == entry && only == nil {
			if fc.loops[b] != nil {
				unsup("entry block is a loop head")
			}
			fc.reach[b] = guard
			fc.st = st.clone()
			fc.cur = guard
		} else if b == entry {
			// loop head, already prepared by the caller
			fc.execFrom(b, true)
			continue
		} else {
			if !fc.enter(b) {
				continue
			}
			if l := fc.loops[b]; l != nil {
				fc.enterLoop(l)
				fc.execFrom(b, true)
				continue
			}
			fc.phis(b)
		}
		fc.execFrom(b, false)
	}
}

type inEdge struct {
	pred *ssa.BasicBlock
	idx  int
	cond *Term
}

func (fc *fctx) forwardEdges(b *ssa.BasicBlock) []inEdge {
	var es []inEdge
	seen := map[*ssa.BasicBlock]int{}
	for i, p := range b.Preds {
		if b.Dominates(p) {
			continue
		}
		k := seen[p]
		seen[p]++
		conds, ok := fc.econd[p]
		if !ok {
			continue
		}
		// find the k-th successor slot of p equal to b
		n := 0
		for si, s := range p.Succs {
			if s == b {
				if n == k {
					c := conds[si]
					if !isFalse(c) {
						es = append(es, inEdge{p, i, c})
					}
					break
				}
				n++
			}
		}
	}
	return es
}

// enter computes reachability and the merged state of b.
func (fc *fctx) enter(b *ssa.BasicBlock) bool {
	vc := fc.vc
	es := fc.forwardEdges(b)
	if len(es) == 0 {
		return false
	}
	var cs []*Term
	for _, e := range es {
		cs = append(cs, e.cond)
	}
	r := Or(cs...)
	if len(r.args) > 0 {
		c := vc.fresh("R", SBool)
		vc.defFact(c, Eq(c, r))
		if d := b.Idom(); d != nil {
			if g := fc.endG[d]; g != nil && len(g.args) == 0 {
				vc.gpar[c.op] = g.op
			}
		}
		r = c
	}
	fc.reach[b] = r
	fc.cur = r
	if len(es) == 1 {
		fc.st = fc.out[es[0].pred].clone()
		return true
	}
	fc.st = vc.mergeStates(es, func(e inEdge) *State { return fc.out[e.pred] })
	return true
}

func (vc *VC) mergeStates(es []inEdge, get func(inEdge) *State) *State {
	n := &State{H: map[string]*Term{}}
	names := map[string]string{}
	for _, e := range es {
		for k, v := range get(e).H {
			names[k] = v.sort
		}
	}
	for _, k := range sortedKeys(names) {
		var ts []*Term
		for _, e := range es {
			ts = append(ts, vc.get(get(e), k, names[k]))
		}
		n.H[k] = vc.merge("m."+k, es, ts)
	}
	var as []*Term
	for _, e := range es {
		as = append(as, get(e).al)
	}
	n.al = vc.merge("al", es, as)
	return n
}

func (vc *VC) merge(base string, es []inEdge, ts []*Term) *Term {
	t := ts[len(ts)-1]
	for i := len(ts) - 2; i >= 0; i-- {
		t = Ite(es[i].cond, ts[i], t)
	}
	return vc.named(base, t)
}

func (vc *VC) mergeVals(t types.Type, es []inEdge, vs []Val) Val {
	out := Val{T: t}
	same := true
	for _, v := range vs[1:] {
		if !valEq(vs[0], v) {
			same = false
		}
	}
	if same {
		o := vs[0]
		o.T = t
		return o
	}
	for i, v := range vs {
		if v.A != nil {
			unsup("merge of interior pointers")
		}
		if v.Fn != nil || v.From != "" {
			if i >= 0 {
				// function values: keep the code only
				if len(v.C) == 0 {
					unsup("merge of function values")
				}
			}
		}
		if len(v.C) != len(vs[0].C) {
			unsup("merge of different shapes")
		}
	}
	for i := range vs[0].C {
		var ts []*Term
		for _, v := range vs {
			ts = append(ts, v.C[i])
		}
		out.C = append(out.C, vc.merge("phi", es, ts))
	}
	flag := func(f func(Val) *Term) *Term {
		any := false
		var ts []*Term
		for _, v := range vs {
			x := f(v)
			if x != nil {
				any = true
			} else {
				x = tFalse
			}
			ts = append(ts, x)
		}
		if !any {
			return nil
		}
		return vc.merge("flag", es, ts)
	}
	out.Nan = flag(func(v Val) *Term { return v.Nan })
	out.Pinf = flag(func(v Val) *Term { return v.Pinf })
	out.Ninf = flag(func(v Val) *Term { return v.Ninf })
	return out
}

func valEq(a, b Val) bool {
	if len(a.C) != len(b.C) || (a.A == nil) != (b.A == nil) || a.Fn != b.Fn {
		return false
	}
	if a.Nan != b.Nan || a.Pinf != b.Pinf || a.Ninf != b.Ninf {
		return false
	}
	for i := range a.C {
		if !eqT(a.C[i], b.C[i]) {
			return false
		}
	}
	if a.A != nil {
		x, y := a.A, b.A
		if x.kind != y.kind || x.heap != y.heap || (x.ref == nil) != (y.ref == nil) {
			return false
		}
		if x.ref != nil && !eqT(x.ref, y.ref) {
			return false
		}
		if x.idx != nil && !eqT(x.idx, y.idx) {
			return false
		}
	}
	return true
}

func (fc *fctx) phis(b *ssa.BasicBlock) {
	es := fc.forwardEdges(b)
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		var vs []Val
		for _, e := range es {
			vs = append(vs, fc.val(p.Edges[e.idx]))
		}
		v := fc.vc.mergeVals(p.Type(), es, vs)
		fc.env[p] = v
		fc.setName(p.Comment, v)
	}
}

func (fc *fctx) setName(n string, v Val) {
	if n != "" {
		fc.names[n] = v
	}
}

func (fc *fctx) execFrom(b *ssa.BasicBlock, head bool) {
	vc := fc.vc
	if head {
		fc.st = fc.st.clone()
	}
	fc.blk = b
	for _, ins := range b.Instrs {
		vc.curFc = fc
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		if p := ins.Pos(); p.IsValid() {
			vc.curPos = vc.g.posOf(p)
		}
		switch i := ins.(type) {
		case *ssa.Jump:
			fc.finish(b, []*Term{fc.cur})
			return
		case *ssa.If:
			c := fc.val(i.Cond).C[0]
			t, f := And(fc.cur, c), And(fc.cur, Not(c))
			fc.finish(b, []*Term{t, f})
			return
		case *ssa.Return:
			var vs []Val
			for _, r := range i.Results {
				vs = append(vs, fc.val(r))
			}
			fc.rets = append(fc.rets, retRec{fc.cur, fc.st, vs, vc.curPos})
			fc.endG[b] = fc.cur
			return
		case *ssa.Panic:
			fc.doPanic("panic")
			fc.endG[b] = fc.cur
			return
		default:
			fc.instr(ins)
		}
		if isFalse(fc.cur) {
			return
		}
	}
}

func (fc *fctx) doPanic(what string) {
	vc := fc.vc
	if vc.c != nil && (vc.c.MayPanic || vc.c.Values) {
		return
	}
	vc.check("nopanic", fmt.Sprintf("%s in %s", what, vc.g.fnName(fc.fn)), fc.cur, tFalse)
}

func (fc *fctx) finish(b *ssa.BasicBlock, conds []*Term) {
	fc.out[b] = fc.st
	fc.endG[b] = fc.cur
	for i, s := range b.Succs {
		if s.Dominates(b) && fc.loops[s] != nil && fc.loops[s].inst != nil {
			fc.vc.scoped(func() { fc.backEdge(fc.loops[s], b, conds[i]) })
			conds[i] = tFalse
		}
	}
	for i := range conds {
		if len(conds[i].args) > 0 && len(conds) > 1 {
			conds[i] = fc.vc.named("E", conds[i])
			if len(fc.cur.args) == 0 {
				fc.vc.gpar[conds[i].op] = fc.cur.op
			}
		}
	}
	fc.econd[b] = conds
}

// ---------- loops ----------

type vcSnap struct {
	facts, obls, slog, pend, loopN, nn int
	loops                              int
}

func (vc *VC) snap() vcSnap {
	return vcSnap{len(vc.facts), len(vc.obls), len(vc.slog), len(vc.pendFn), vc.loopN, len(vc.nn), len(vc.loops)}
}
func (vc *VC) restore(s vcSnap) {
	vc.facts = vc.facts[:s.facts]
	vc.obls = vc.obls[:s.obls]
	vc.slog = vc.slog[:s.slog]
	vc.pendFn = vc.pendFn[:s.pend]
	vc.loopN = s.loopN
	vc.nn = vc.nn[:s.nn]
	vc.loops = vc.loops[:s.loops]
}

func (fc *fctx) clone() *fctx {
	n := *fc
	n.env = map[ssa.Value]Val{}
	for k, v := range fc.env {
		n.env[k] = v
	}
	n.reach = map[*ssa.BasicBlock]*Term{}
	for k, v := range fc.reach {
		n.reach[k] = v
	}
	n.out = map[*ssa.BasicBlock]*State{}
	for k, v := range fc.out {
		n.out[k] = v
	}
	n.endG = map[*ssa.BasicBlock]*Term{}
	for k, v := range fc.endG {
		n.endG[k] = v
	}
	n.econd = map[*ssa.BasicBlock][]*Term{}
	for k, v := range fc.econd {
		n.econd[k] = v
	}
	n.names = map[string]Val{}
	for k, v := range fc.names {
		n.names[k] = v
	}
	n.rets = append([]retRec{}, fc.rets...)
	return &n
}

func (fc *fctx) enterLoop(l *natLoop) {
	vc := fc.vc
	b := l.head
	es := fc.forwardEdges(b)
	pre := fc.st
	preR := fc.cur
	var phis []*ssa.Phi
	init := map[*ssa.Phi]Val{}
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		var vs []Val
		for _, e := range es {
			vs = append(vs, fc.val(p.Edges[e.idx]))
		}
		init[p] = vc.mergeVals(p.Type(), es, vs)
	}
	vc.loopN++
	inst := &LoopInst{ord: vc.loopN, label: vc.loopN, pre: pre, phis: phis, fc: fc, nl: l, outer: fc.outerLoop}
	if l.parent != nil && l.parent.inst != nil {
		inst.outer = l.parent.inst
	}
	if vc.c != nil {
		inst.spec = vc.c.Loops[inst.ord]
		if o, ok := vc.c.LoopMap[inst.ord]; ok {
			inst.label = o
		}
	}
	if vc.active == nil {
		vc.active = map[*LoopSpec]*LoopInst{}
	}
	if inst.spec != nil {
		vc.active[inst.spec] = inst
	}
	if os.Getenv("VGO_PHIS") != "" && vc.dry == 0 {
		for _, p := range phis {
			fmt.Println("phi", vc.name, inst.ord, p.Comment, p.Type())
		}
	}
	if inst.spec == nil {
		inst.spec = &LoopSpec{}
		if vc.c != nil && vc.c.LoopMap != nil {
			inst.label = 100 + inst.ord
		}
		if vc.c != nil && vc.c.AutoInv {
			for _, p := range phis {
				if _, ok := p.Type().Underlying().(*types.Slice); ok && offsetKept(p, l) {
					ok = true
					for _, e := range es {
						ok = ok && localSlice(p.Edges[e.idx], map[ssa.Value]bool{})
					}
					if ok {
						inst.auto = append(inst.auto, p)
					}
				}
			}
		}
	}
	mark := len(vc.declSeq)
	// dry runs: find what the body writes
	mods := map[string]*modInfo{}
	for round := 0; ; round++ {
		if round > 6 {
			unsup("loop modifies does not stabilise")
		}
		s := vc.snap()
		vc.dry++
		d := fc.clone()
		saveL := l.inst
		di := *inst
		di.fc = d
		l.inst = &di
		n0 := len(vc.slog)
		d.setupHead(&di, pre, preR, init, mods, true)
		inner := map[*ssa.BasicBlock]*LoopInst{}
		for h, x := range fc.loops {
			if h != b && l.body[h] {
				inner[h] = x.inst
			}
		}
		d.runBlocks(d.order, b, nil, nil, l.body)
		for h, x := range inner {
			fc.loops[h].inst = x
		}
		recs := append([]storeRec{}, vc.slog[n0:]...)
		l.inst = saveL
		vc.dry--
		vc.restore(s)
		changed := false
		for _, r := range recs {
			m := mods[r.name]
			if m == nil {
				m = &modInfo{refs: map[string]*Term{}}
				mods[r.name] = m
				changed = true
			}
			if r.ref == nil {
				if !m.any {
					m.any = true
					changed = true
				}
				continue
			}
			if vc.olderThan(r.ref, mark) {
				k := r.ref.String()
				if _, ok := m.refs[k]; !ok {
					m.refs[k] = r.ref
					changed = true
				}
			} else if !m.inner {
				m.inner = true
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	l.inst = inst
	fc.setupHead(inst, pre, preR, init, mods, false)
	vc.loops = append(vc.loops, inst)
}

type modInfo struct {
	any   bool
	inner bool // some store whose location is not loop invariant
	refs  map[string]*Term
}

func (vc *VC) olderThan(t *Term, mark int) bool {
	m := map[string]bool{}
	t.consts(m)
	for c := range m {
		if n, ok := vc.declSeq[c]; ok && n >= mark {
			return false
		}
	}
	return true
}

func isRecvOwnHeap(n string) bool { return strings.HasPrefix(n, "O:") }

// setupHead establishes the arbitrary-iteration state at a loop head.
func (fc *fctx) setupHead(inst *LoopInst, pre *State, preR *Term, init map[*ssa.Phi]Val, mods map[string]*modInfo, dry bool) {
	vc := fc.vc
	b := inst.nl.head
	// invariants on entry
	for _, p := range inst.phis {
		fc.env[p] = init[p]
		fc.setName(p.Comment, init[p])
	}
	inst.K = t0
	st := pre.clone()
	if !dry {
		fc.st = pre
		inst.head = pre
		inst.pre = pre
		fc.loopWitness(inst, preR)
		pre = fc.st
		st = pre.clone()
		fc.checkInvs(inst, "entry", pre, preR)
	}
	// havoc
	inst.base = len(vc.facts)
	R := vc.fresh("RL", SBool)
	if len(preR.args) == 0 {
		vc.gpar[R.op] = preR.op
	}
	vc.assume(R, preR)
	fc.cur = R
	fc.reach[b] = R
	st.al = vc.fresh("al", SInt)
	vc.assume(tTrue, Ge(st.al, pre.al))
	inst.frame = nil
	var names []string
	for n := range mods {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		m := mods[n]
		h0, ok := pre.H[n]
		if !ok {
			hk := vc.g.heapKind[n]
			if hk.sort == "" {
				hk.sort = vc.declS[vc.init[n].op]
			}
			h0 = vc.initial(n, hk.sort)
		}
		if strings.HasPrefix(h0.sort, "(Array Int") && !m.any && !strings.HasPrefix(n, "it!") {
			if !m.inner {
				t := h0
				for _, k := range sortedKeys(m.refs) {
					t = Sto(t, m.refs[k], vc.fresh("lv."+n, elemSort(h0.sort)))
				}
				st.H[n] = vc.named("H."+n, t)
				continue
			}
		}
		h1 := vc.fresh("H."+n, h0.sort)
		st.H[n] = h1
		if strings.HasPrefix(n, "it!") || m.any && !strings.HasPrefix(h0.sort, "(Array Int") {
			continue
		}
		if !strings.HasPrefix(h0.sort, "(Array Int") {
			continue
		}
		inst.frame = append(inst.frame, frameRec{n, h0})
		vc.assume(tTrue, vc.loopFrame(inst, n, h0, h1, pre, nil))
	}
	inst.K = vc.fresh("K", SInt)
	fc.setName(fmt.Sprintf("K%d", inst.label), logic(inst.K))
	vc.assume(tTrue, Ge(inst.K, t0))
	// phis
	for _, p := range inst.phis {
		iv := init[p]
		if iv.A != nil || len(iv.C) == 0 {
			unsup("loop-carried interior pointer %s", p.Comment)
		}
		v := vc.freshVal("p."+p.Comment, p.Type())
		if step, ok := linearStep(p, inst.nl); ok && len(v.C) == 1 && v.C[0].sort == SInt {
			if step == 0 {
				v = iv
			} else {
				vc.assume(tTrue, Eq(v.C[0], Add(iv.C[0], Mul(intLit(step), inst.K))))
			}
		} else {
			vc.assume(R, vc.typeFacts(v, st.al))
			if len(v.C) == 4 && v.T != nil {
				// slices only grow by append or shrink by reslicing at the end: the offset is kept
				if offsetKept(p, inst.nl) {
					v.C[1] = iv.C[1]
				}
			}
		}
		fc.env[p] = v
		fc.setName(p.Comment, v)
	}
	inst.reach = R
	inst.head = st
	fc.st = st
	fc.rangeBound(inst)
	fc.indexBound(inst)
	for _, p := range inst.auto {
		vc.assume(R, vc.localAlloc(fc.env[p], st))
	}
	for _, iv := range inst.spec.Invs {
		e := fc.loopEnv(inst, st, R)
		if h := vc.c.Houdini; h != nil {
			if h[iv.Name] {
				vc.candidate(iv, func() { vc.assumeSpec(e, iv, R) })
			}
			continue
		}
		vc.assumeSpec(e, iv, R)
	}
	for _, h := range inst.spec.Hints {
		fc.hint(fc.loopEnv(inst, st, R), h, R, fmt.Sprintf("loop%d", inst.ord))
	}
}

// linearStep recognises phi = phi + c on every back edge.
func linearStep(p *ssa.Phi, l *natLoop) (int64, bool) {
	var step int64
	have := false
	for i, pr := range p.Block().Preds {
		if !l.body[pr] {
			continue
		}
		e := p.Edges[i]
		if e == p {
			if have && step != 0 {
				return 0, false
			}
			have = true
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || (b.Op != token.ADD && b.Op != token.SUB) {
			return 0, false
		}
		c, ok := b.Y.(*ssa.Const)
		if !ok || b.X != p || c.Value == nil || c.Value.Kind() != constant.Int {
			return 0, false
		}
		n, _ := constant.Int64Val(c.Value)
		if b.Op == token.SUB {
			n = -n
		}
		if have && step != n {
			return 0, false
		}
		step, have = n, true
	}
	return step, have
}

// localAlloc: the slice has no memory, or memory allocated since the function began.
func (vc *VC) localAlloc(v Val, st *State) *Term {
	return Or(Eq(v.C[3], t0), And(Ge(v.C[0], vc.al0), Lt(v.C[0], st.al)))
}

// localSlice: the value is nil or made in this function.
func localSlice(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.MakeSlice:
		return true
	case *ssa.Slice:
		if _, ok := x.X.(*ssa.Alloc); ok {
			return true
		}
		return localSlice(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !localSlice(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return localSlice(x.Call.Args[0], seen)
		}
	}
	return false
}

// offsetKept: every back-edge value derives from the phi through append or x[:h].
func offsetKept(p *ssa.Phi, l *natLoop) bool {
	seen := map[ssa.Value]bool{}
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		if v == p || seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			if !l.body[x.Block()] {
				return false
			}
			for _, e := range x.Edges {
				if !ok(e) {
					return false
				}
			}
			return true
		case *ssa.Slice:
			return x.Low == nil && ok(x.X)
		case *ssa.Call:
			if b, y := x.Call.Value.(*ssa.Builtin); y && b.Name() == "append" {
				return ok(x.Call.Args[0])
			}
		}
		return false
	}
	for i, pr := range p.Block().Preds {
		if l.body[pr] && !ok(p.Edges[i]) {
			return false
		}
	}
	return true
}

// loopFrame: rows outside the frame keep their loop-entry value.  When at is
// nil the fact is quantified; otherwise it is stated for that location.
func (vc *VC) loopFrame(inst *LoopInst, n string, h0, h1 *Term, pre *State, at *Term) *Term {
	lim := vc.al0
	mods := vc.fnmods
	if len(inst.spec.Mods) > 0 {
		lim = pre.al
		mods = nil
		for _, m := range inst.spec.Mods {
			mods = append(mods, m)
		}
	}
	return vc.frameFact(n, h0, h1, lim, mods, vc.loopModEnv(inst, pre), pre, at)
}

func (vc *VC) loopModEnv(inst *LoopInst, pre *State) *Env {
	if len(inst.spec.Mods) > 0 {
		e := inst.fc.loopEnv(inst, pre, nil)
		return e
	}
	return vc.entryEnv()
}

func (fc *fctx) loopEnv(inst *LoopInst, st *State, guard *Term) *Env {
	vc := fc.vc
	e := &Env{vc: vc, st: st, old: vc.entry, pre: inst.pre, prev: inst.head, vars: map[string]Val{}, guard: guard}
	for k, v := range vc.params {
		e.vars[k] = v
	}
	e.look = func(n string) (Val, bool) { return fc.lookupLoop(inst, n) }
	e.prior = inst.prior
	return e
}

func (fc *fctx) lookupLoop(inst *LoopInst, n string) (Val, bool) {
	switch n {
	case "K":
		return logic(inst.K), true
	case "Kout":
		if inst.outer != nil {
			return logic(inst.outer.K), true
		}
	case "Kout2":
		if inst.outer != nil && inst.outer.outer != nil {
			return logic(inst.outer.outer.K), true
		}
	case "key":
		// the key of the iteration just finished
		for _, ins := range inst.nl.head.Instrs {
			if nx, ok := ins.(*ssa.Next); ok && !nx.IsString {
				if it := fc.env[nx.Iter]; it.It != nil {
					if k := it.It.key; k == nil || len(k.args) == 0 && fc.vc.declS[k.op] == "" {
						return logic(fc.vc.fresh("nokey", it.It.ks)), true
					}
					return logic(it.It.key), true
				}
			}
		}
	case "seen":
		// visited set of the map iterator read in this loop
		for _, ins := range inst.nl.head.Instrs {
			if nx, ok := ins.(*ssa.Next); ok {
				it := fc.env[nx.Iter]
				if it.It != nil {
					ee := fc.seenState(inst)
					return logic(fc.vc.get(ee, it.It.name, arrSort(it.It.ks, SBool))), true
				}
			}
		}
	}
	for _, p := range inst.phis {
		if p.Comment == n {
			return fc.env[p], true
		}
	}
	if inst.spec.Vars != nil {
		if pos, ok := inst.spec.Vars[n]; ok {
			if v, ok := fc.phiAt(inst, pos); ok {
				return v, true
			}
		}
	}
	if v, ok := fc.phiAt(inst, n); ok {
		return v, true
	}
	// phis and locals of enclosing activations
	for f := fc; f != nil; f = f.up {
		if v, ok := f.names[n]; ok {
			return v, true
		}
	}
	if inst.outer != nil && inst.outer.spec != nil && inst.outer.spec.Vars != nil {
		if pos, ok := inst.outer.spec.Vars[n]; ok {
			if v, ok := inst.outer.fc.phiAt(inst.outer, pos); ok {
				return v, ok
			}
		}
	}
	return fc.renamed(n)
}

// renamed finds the value the contract calls n when the code calls it otherwise:
// the variable in the stated position among the ones a loop carries.
func (fc *fctx) renamed(n string) (Val, bool) {
	for sp, inst := range fc.vc.active {
		pos, ok := sp.Vars[n]
		if !ok {
			continue
		}
		nm := pos
		if p := fc.phiPos(inst, pos); p != nil {
			nm = p.Comment
		}
		for f := fc; f != nil; f = f.up {
			if v, ok := f.names[nm]; ok && nm != "" {
				return v, true
			}
		}
	}
	return Val{}, false
}

func (fc *fctx) seenState(inst *LoopInst) *State {
	if fc.seenSt != nil {
		return fc.seenSt
	}
	return inst.head
}

func (fc *fctx) phiAt(inst *LoopInst, pos string) (Val, bool) {
	if len(pos) < 2 {
		return Val{}, false
	}
	want := pos[0]
	k := 0
	if _, err := fmt.Sscanf(pos[1:], "%d", &k); err != nil {
		return Val{}, false
	}
	if want == 'C' {
		// slice variables shared with closures
		for _, b := range fc.fn.Blocks {
			for _, ins := range b.Instrs {
				a, ok := ins.(*ssa.Alloc)
				if !ok || a.Comment == "" {
					continue
				}
				v, ok := fc.names[a.Comment]
				if _, sl := a.Type().(*types.Pointer).Elem().Underlying().(*types.Slice); ok && sl {
					if k == 0 {
						return v, true
					}
					k--
				}
			}
		}
		return Val{}, false
	}
	if want == 'M' {
		// slices made by the function the loop is in
		for _, b := range fc.fn.Blocks {
			for _, ins := range b.Instrs {
				if m, ok := ins.(*ssa.MakeSlice); ok {
					if v, ok := fc.env[m]; ok {
						if k == 0 {
							return v, true
						}
						k--
					}
				}
			}
		}
		return Val{}, false
	}
	if p := fc.phiPos(inst, pos); p != nil {
		return fc.env[p], true
	}
	return Val{}, false
}

func (fc *fctx) phiPos(inst *LoopInst, pos string) *ssa.Phi {
	if len(pos) < 2 {
		return nil
	}
	want := pos[0]
	k := 0
	if _, err := fmt.Sscanf(pos[1:], "%d", &k); err != nil {
		return nil
	}
	for _, p := range inst.phis {
		c := byte('?')
		switch u := p.Type().Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsInteger != 0:
				c = 'I'
			case u.Info()&types.IsFloat != 0:
				c = 'F'
			case u.Info()&types.IsBoolean != 0:
				c = 'B'
			}
		case *types.Slice:
			c = 'S'
		case *types.Pointer, *types.Map:
			c = 'R'
		case *types.Struct:
			c = 'T'
		}
		if want == 'N' && c == 'I' {
			// integers that are not counters
			if _, ok := linearStep(p, inst.nl); !ok {
				c = 'N'
			}
		}
		if c == want {
			if k == 0 {
				return p
			}
			k--
		}
	}
	return nil
}

// candidate runs f; a candidate that means nothing here is dropped.
func (vc *VC) candidate(iv Clause, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(evalErr); !ok {
				panic(r)
			}
			vc.curTags = nil
			delete(vc.c.Houdini, iv.Name)
			vc.dropped = true
		}
	}()
	f()
}

func (fc *fctx) checkInvs(inst *LoopInst, when string, st *State, guard *Term) {
	vc := fc.vc
	e := fc.loopEnv(inst, st, guard)
	fc.seenSt = st
	for _, p := range inst.auto {
		vc.obligation("loopinv", fmt.Sprintf("loop%d.%s is allocated here.%s", inst.ord, p.Comment, when), guard, vc.localAlloc(fc.env[p], st), nil)
	}
	for _, iv := range inst.spec.Invs {
		if h := vc.c.Houdini; h != nil {
			if h[iv.Name] {
				vc.candidate(iv, func() {
					vc.checkSpec(e, "loopinv", fmt.Sprintf("loop%d.%s.%s", inst.ord, iv.Name, when), iv, guard)
				})
			}
			continue
		}
		vc.checkSpec(e, "loopinv", fmt.Sprintf("loop%d.%s.%s", inst.ord, iv.Name, when), iv, guard)
	}
	fc.seenSt = nil
}

func (fc *fctx) loopWitness(inst *LoopInst, guard *Term) {
	for _, w := range inst.spec.Wit {
		fc.vc.applyWitness(fc.loopEnv(inst, fc.st, guard), w, fc.st)
	}
}

func (fc *fctx) backEdge(l *natLoop, from *ssa.BasicBlock, cond *Term) {
	vc := fc.vc
	inst := l.inst
	if isFalse(cond) {
		return
	}
	cond = vc.named("BE", cond)
	if len(fc.cur.args) == 0 {
		vc.gpar[cond.op] = fc.cur.op
	}
	var measure *Term
	if vc.dry == 0 && len(inst.spec.Dec) > 0 {
		measure = fc.measure(inst, inst.head, cond)
	}
	// next values of the phis
	next := map[*ssa.Phi]Val{}
	for i, p := range l.head.Preds {
		if p != from {
			continue
		}
		for _, ph := range inst.phis {
			next[ph] = fc.val(ph.Edges[i])
		}
		break
	}
	saved := map[*ssa.Phi]Val{}
	inst.prior = map[string]Val{}
	for _, ph := range inst.phis {
		inst.prior[ph.Comment] = fc.env[ph]
	}
	for n, pos := range inst.spec.Vars {
		if p := fc.phiPos(inst, pos); p != nil {
			if _, ok := inst.prior[n]; !ok {
				inst.prior[n] = fc.env[p]
			}
		}
	}
	savedNames := fc.names
	fc.names = map[string]Val{}
	for k, v := range savedNames {
		fc.names[k] = v
	}
	for _, ph := range inst.phis {
		saved[ph] = fc.env[ph]
		fc.env[ph] = next[ph]
		fc.setName(ph.Comment, next[ph])
	}
	K := inst.K
	inst.K = Add(K, t1)
	st := fc.st.clone()
	if vc.dry == 0 {
		fc.st = st
		for _, h := range inst.spec.Steps {
			fc.hint(fc.loopEnv(inst, st, cond), h, cond, fmt.Sprintf("loop%d.step", inst.ord))
		}
		for _, w := range inst.spec.Wit {
			vc.applyWitness(fc.loopEnv(inst, st, cond), w, st)
		}
		for _, h := range inst.spec.Hints {
			fc.hint(fc.loopEnv(inst, st, cond), h, cond, fmt.Sprintf("loop%d.next", inst.ord))
		}
		fc.checkInvs(inst, "preserved", st, cond)
		for _, f := range inst.frame {
			at := vc.fresh("fr", SInt)
			vc.obligation("frame", fmt.Sprintf("loop%d.%s", inst.ord, f.name), cond, vc.loopFrame(inst, f.name, f.base, vc.get(st, f.name, f.base.sort), inst.pre, at), nil)
		}
	} else {
		// stores made by witnesses count as modifications
		for _, w := range inst.spec.Wit {
			vc.applyWitness(fc.loopEnv(inst, st, cond), w, st)
		}
	}
	if vc.dry == 0 {
		if m := fc.measure(inst, st, cond); m != nil && measure != nil {
			vc.obligation("terminates", fmt.Sprintf("loop%d.bounded", inst.ord), cond, Ge(measure, t0), nil)
			vc.obligation("terminates", fmt.Sprintf("loop%d.decreases", inst.ord), cond, Lt(m, measure), nil)
		} else {
			fc.terminates(inst, st, cond, saved, next)
		}
	}
	inst.prior = nil
	inst.K = K
	for _, ph := range inst.phis {
		fc.env[ph] = saved[ph]
	}
	fc.names = savedNames
}

func (fc *fctx) hint(e *Env, h Clause, guard *Term, where string) {
	vc := fc.vc
	vc.hintSpec(e, h, guard, where)
}

// isLemmaCall reports whether the expression is only lemma instances.
func (g *Gen) isLemmaCall(x ast.Expr) bool {
	switch n := x.(type) {
	case *ast.ParenExpr:
		return g.isLemmaCall(n.X)
	case *ast.BinaryExpr:
		return n.Op == token.LAND && g.isLemmaCall(n.X) && g.isLemmaCall(n.Y)
	case *ast.CallExpr:
		if id, ok := n.Fun.(*ast.Ident); ok {
			if g.spec.Lemmas[id.Name] != nil {
				return true
			}
			if (id.Name == "all" || id.Name == "forall") && len(n.Args) >= 3 {
				for _, a := range n.Args[2:] {
					if c, ok := a.(*ast.CallExpr); ok {
						if f, ok := c.Fun.(*ast.Ident); ok && f.Name == "pat" {
							continue
						}
					}
					if g.isLemmaCall(a) {
						return true
					}
				}
			}
		}
	}
	return false
}

// rangeBound: a range loop over a slice or array ("rangeindex" from -1, one
// step per iteration, compared with a length taken before the loop) has
// finished at most that many iterations.
func (fc *fctx) rangeBound(inst *LoopInst) {
	b := inst.nl.head
	if len(b.Instrs) == 0 {
		return
	}
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	c, ok := br.Cond.(*ssa.BinOp)
	if !ok || c.Op != token.LSS {
		return
	}
	a, ok := c.X.(*ssa.BinOp)
	if !ok || a.Op != token.ADD {
		return
	}
	p, ok := a.X.(*ssa.Phi)
	if !ok || p.Comment != "rangeindex" || p.Block() != b {
		return
	}
	if step, ok := linearStep(p, inst.nl); !ok || step != 1 {
		return
	}
	y, ok := c.Y.(ssa.Instruction)
	if ok && inst.nl.body[y.Block()] {
		return
	}
	n := fc.val(c.Y)
	if len(n.C) != 1 {
		return
	}
	fc.vc.assume(tTrue, Or(Le(inst.K, n.C[0]), Eq(inst.K, t0)))
	fc.setName(fmt.Sprintf("L%d", inst.label), logic(n.C[0]))
}

// headEval gives a function that evaluates, in a state and with the current
// values of the phis, a value the head block computes from memory and the phis.
func (fc *fctx) headEval(inst *LoopInst, y ssa.Value, phis bool) func(st *State) *Term {
	b := inst.nl.head
	need := map[ssa.Instruction]bool{}
	var want func(v ssa.Value) bool
	want = func(v ssa.Value) bool {
		i, ok := v.(ssa.Instruction)
		if !ok || !inst.nl.body[i.Block()] {
			return true
		}
		if i.Block() != b {
			return false
		}
		if _, ok := i.(*ssa.Phi); ok {
			return phis
		}
		need[i] = true
		switch x := i.(type) {
		case *ssa.UnOp:
			return x.Op == token.MUL && want(x.X)
		case *ssa.FieldAddr:
			return want(x.X)
		case *ssa.Field:
			return want(x.X)
		case *ssa.IndexAddr:
			return want(x.X) && want(x.Index)
		case *ssa.BinOp:
			return phis && (x.Op == token.ADD || x.Op == token.SUB) && want(x.X) && want(x.Y)
		case *ssa.Call:
			bi, ok := x.Call.Value.(*ssa.Builtin)
			return ok && bi.Name() == "len" && want(x.Call.Args[0])
		}
		return false
	}
	if !want(y) {
		return nil
	}
	vc := fc.vc
	return func(st *State) *Term {
		s0, n0 := fc.st, fc.names
		fc.st, fc.names = st, map[string]Val{}
		vc.dry++
		was := map[ssa.Value]Val{}
		for i := range need {
			if v, ok := fc.env[i.(ssa.Value)]; ok {
				was[i.(ssa.Value)] = v
			}
		}
		defer func() {
			vc.dry--
			fc.st, fc.names = s0, n0
			for i := range need {
				delete(fc.env, i.(ssa.Value))
			}
			for v, x := range was {
				fc.env[v] = x
			}
		}()
		for _, i := range b.Instrs {
			if need[i] {
				fc.instr(i)
			}
		}
		if v := fc.val(y); len(v.C) == 1 {
			return v.C[0]
		}
		return nil
	}
}

// unchanging evaluates a value the head block computes, if it is the same on
// every iteration: read from memory the loop does not write.
func (fc *fctx) unchanging(inst *LoopInst, y ssa.Value) *Term {
	at := fc.headEval(inst, y, false)
	if at == nil {
		return nil
	}
	if inst.pre == nil || inst.head == nil {
		return nil
	}
	m, n := at(inst.pre.clone()), at(inst.head.clone())
	if m == nil || n == nil || m.String() != n.String() {
		return nil
	}
	return n
}

// indexBound: a counter tested against a value the loop does not change stays
// on its side of it, since every iteration passed the test at the head.
func (fc *fctx) indexBound(inst *LoopInst) {
	b := inst.nl.head
	if len(b.Instrs) == 0 {
		return
	}
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || !inst.nl.body[b.Succs[0]] || inst.nl.body[b.Succs[1]] {
		return
	}
	c, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return
	}
	p, ok := c.X.(*ssa.Phi)
	if !ok || p.Block() != b {
		return
	}
	step, ok := linearStep(p, inst.nl)
	v := fc.val(p)
	if !ok || len(v.C) != 1 || v.C[0].sort != SInt {
		return
	}
	var lim *Term
	out := func(y ssa.Value) bool {
		i, ok := y.(ssa.Instruction)
		return !ok || !inst.nl.body[i.Block()]
	}
	if out(c.Y) {
		if n := fc.val(c.Y); len(n.C) == 1 {
			lim = n.C[0]
		}
	} else if k, ok := c.Y.(*ssa.Call); ok {
		bi, y := k.Call.Value.(*ssa.Builtin)
		if y && bi.Name() == "len" && out(k.Call.Args[0]) {
			if n := fc.val(k.Call.Args[0]); len(n.C) == 4 {
				lim = n.C[2]
			}
		}
	}
	if lim == nil && !out(c.Y) {
		lim = fc.unchanging(inst, c.Y)
	}
	if lim == nil || lim.sort != SInt {
		return
	}
	x := v.C[0]
	switch {
	case step == 1 && c.Op == token.LSS:
		fc.vc.assume(tTrue, Or(Le(x, lim), Eq(inst.K, t0)))
	case step == 1 && c.Op == token.LEQ:
		fc.vc.assume(tTrue, Or(Le(x, Add(lim, t1)), Eq(inst.K, t0)))
	case step == -1 && c.Op == token.GTR:
		fc.vc.assume(tTrue, Or(Ge(x, lim), Eq(inst.K, t0)))
	case step == -1 && c.Op == token.GEQ:
		fc.vc.assume(tTrue, Or(Ge(Add(x, t1), lim), Eq(inst.K, t0)))
	}
}

// terminates proves that the loop ends: the counter or length tested at its head
// comes closer to the bound on every iteration. A range loop ends by itself.
// Of a loop of another form nothing is proved, which is recorded.
func (fc *fctx) terminates(inst *LoopInst, st *State, cond *Term, was, next map[*ssa.Phi]Val) {
	vc := fc.vc
	b := inst.nl.head
	open := func() {
		if vc.noTerm == nil {
			vc.noTerm = map[string]bool{}
		}
		vc.noTerm[fmt.Sprintf("loop %d of %s ends", inst.ord, vc.name)] = true
	}
	for _, i := range b.Instrs {
		if _, ok := i.(*ssa.Next); ok {
			return
		}
	}
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		open()
		return
	}
	stay := inst.nl.body[b.Succs[0]]
	if stay == inst.nl.body[b.Succs[1]] {
		open()
		return
	}
	c, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		open()
		return
	}
	x, y := c.X, c.Y
	switch c.Op {
	case token.LSS, token.LEQ:
	case token.GTR, token.GEQ:
		x, y = y, x
	default:
		open()
		return
	}
	if !stay {
		x, y = y, x
	}
	if bt, ok := x.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 {
		open()
		return
	}
	ex, ey := fc.headEval(inst, x, true), fc.headEval(inst, y, true)
	if ex == nil || ey == nil {
		open()
		return
	}
	for p, v := range was {
		fc.env[p] = v
	}
	x0, y0 := ex(inst.head.clone()), ey(inst.head.clone())
	for p, v := range next {
		fc.env[p] = v
	}
	x1, y1 := ex(st.clone()), ey(st.clone())
	if x0 == nil || y0 == nil || x1 == nil || y1 == nil {
		open()
		return
	}
	vc.obligation("terminates", fmt.Sprintf("loop%d", inst.ord), cond, Lt(Sub(y1, x1), Sub(y0, x0)), nil)
}

// measure evaluates the measure of the loop, if it means something here.
func (fc *fctx) measure(inst *LoopInst, st *State, guard *Term) (m *Term) {
	if len(inst.spec.Dec) == 0 {
		return nil
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(evalErr); !ok {
				panic(r)
			}
			m = nil
		}
	}()
	s0 := fc.st
	defer func() { fc.st = s0 }()
	fc.st = st
	return fc.loopEnv(inst, st, guard).scalar(inst.spec.Dec[0].E)
}
