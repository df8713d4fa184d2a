package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

// termMu serialises term construction and printing (terms cache their text).
var termMu sync.Mutex

// query renders the SMT-LIB problem of an obligation.
func (vc *VC) query(o *Obl, ax []axFact) string { return vc.querySlice(o, ax, 0) }

func (t *Term) quantified() bool {
	if t.op == "forall" || t.op == "exists" {
		return true
	}
	for _, a := range t.args {
		if a.quantified() {
			return true
		}
	}
	return false
}

// querySlice optionally keeps only the quantified facts that speak about heap
// components the goal depends on (dropping facts is always sound).
func (vc *VC) querySlice(o *Obl, ax []axFact, slice int) string {
	goalSyms := map[string]bool{}
	o.Goal.consts(goalSyms)
	o.Guard.consts(goalSyms)
	for _, h := range o.Hints {
		h.consts(goalSyms)
	}
	defs := map[string][]int{}
	facts := vc.facts[:o.NFacts]
	out := func(f Fact) bool { return f.scope != 0 && f.scope != o.scope || !o.Cover && !usable(f.tags, o.Tags) }
	for i, f := range facts {
		if f.def != "" && !out(f) {
			defs[f.def] = append(defs[f.def], i)
		}
	}
	need := map[string]bool{}
	incl := make([]bool, len(facts))
	var work []string
	addSyms := func(m map[string]bool) {
		for s := range m {
			if !need[s] {
				need[s] = true
				work = append(work, s)
			}
		}
	}
	symsOf := make([]map[string]bool, len(facts))
	syms := func(i int) map[string]bool {
		if symsOf[i] == nil {
			m := map[string]bool{}
			facts[i].t.consts(m)
			symsOf[i] = m
		}
		return symsOf[i]
	}
	addSyms(goalSyms)
	flush := func() {
		for len(work) > 0 {
			s := work[len(work)-1]
			work = work[:len(work)-1]
			for _, i := range defs[s] {
				if !incl[i] {
					incl[i] = true
					addSyms(syms(i))
				}
			}
		}
	}
	flush()
	core := map[string]bool{}
	if slice == 2 {
		for k := range need {
			core[k] = true
		}
	}
	foreign := func(i int) bool {
		if slice == 0 || !facts[i].t.quantified() {
			return false
		}
		if slice == 1 {
			return i < o.base && facts[i].touch < o.base
		}
		for k := range syms(i) {
			if strings.HasPrefix(vc.declS[k], "(Array") && !core[k] {
				return true
			}
		}
		return false
	}
	// guards that matter: those the goal's guard is built from
	for {
		changed := false
		for i, f := range facts {
			if incl[i] || f.def != "" || out(f) {
				continue
			}
			if f.guard != "" && !need[f.guard] {
				continue
			}
			if foreign(i) {
				continue
			}
			incl[i] = true
			changed = true
			addSyms(syms(i))
		}
		flush()
		if !changed {
			break
		}
	}
	var body []string
	all := map[string]bool{}
	for s := range need {
		all[s] = true
	}
	var lens []string
	for _, f := range vc.gfacts {
		if f.strlen {
			lens = append(lens, "(assert "+f.t.String()+")")
			continue
		}
		m := map[string]bool{}
		f.t.consts(m)
		for s := range m {
			all[s] = true
		}
		body = append(body, "(assert "+f.t.String()+")")
	}
	for i, f := range facts {
		if incl[i] {
			body = append(body, "(assert "+f.t.String()+")")
		}
	}
	// axioms whose symbols occur
	used := map[string]bool{}
	for {
		ch := false
		for _, a := range ax {
			if used[a.name] {
				continue
			}
			ok := true
			for _, n := range a.need {
				if !all[n] {
					ok = false
				}
			}
			if !ok {
				continue
			}
			used[a.name] = true
			ch = true
			m := map[string]bool{}
			a.t.consts(m)
			for s := range m {
				all[s] = true
			}
			body = append(body, "(assert "+a.t.String()+")")
		}
		if !ch {
			break
		}
	}
	for _, h := range o.Hints {
		body = append(body, "(assert "+h.String()+")")
	}
	for n := range used {
		if l := vc.g.spec.Lemmas[n]; l != nil {
			vc.mu.Lock()
			vc.lemUsed[n] = true
			vc.mu.Unlock()
		}
	}
	// lengths of constant strings, where lengths matter
	if len(lens) > 0 {
		need := strings.Contains(o.Goal.String(), "(strlen ")
		for i := 0; !need && i < len(body); i++ {
			need = strings.Contains(body[i], "(strlen ")
		}
		if need {
			body = append(lens, body...)
		}
	}
	var sb strings.Builder
	decl := declsFor(vc, body, o)
	sb.WriteString(decl)
	for _, b := range body {
		sb.WriteString(b)
		sb.WriteString("\n")
	}
	sb.WriteString("(assert " + o.Guard.String() + ")\n")
	sb.WriteString("(assert (not " + o.Goal.String() + "))\n")
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

var builtinUF = map[string]string{
	"ikey": "(Int Int) Int", "strlen": "(Int) Int", "strcat": "(Int Int) Int", "strlt": "(Int Int) Bool", "strat": "(Int Int) Int", "substr": "(Int Int Int) Int",
	"strbytes": "(Int) Int", "bytesof": "(Int) (Array Int Int)", "runestr": "(Int) Int",
	"m_exp": "(Real) Real", "m_pow": "(Real Real) Real", "m_log": "(Real) Real", "m_log2": "(Real) Real", "m_sqrt": "(Real) Real",
	"bit_and": "(Int Int) Int", "bit_or": "(Int Int) Int", "bit_xor": "(Int Int) Int", "bit_shl": "(Int Int) Int", "bit_shr": "(Int Int) Int", "bit_andnot": "(Int Int) Int",
	"s_Contains": "(Int Int) Bool", "s_HasPrefix": "(Int Int) Bool", "s_HasSuffix": "(Int Int) Bool",
	"s_ToLower": "(Int) Int", "s_ToUpper": "(Int) Int", "s_TrimSpace": "(Int) Int", "s_Itoa": "(Int) Int",
	"s_Index": "(Int Int) Int", "s_LastIndex": "(Int Int) Int", "s_Replace": "(Int Int Int) Int", "s_ReplaceAll": "(Int Int Int) Int",
	"s_Trim": "(Int Int) Int", "s_TrimRight": "(Int Int) Int", "s_TrimLeft": "(Int Int) Int", "s_TrimSuffix": "(Int Int) Int", "s_TrimPrefix": "(Int Int) Int",
	"s_splitn": "(Int Int) Int", "s_splitrow": "(Int Int) (Array Int Int)",
	"v_ParseFloat": "(Int) Real", "v_ParseFloat_ok": "(Int) Bool", "v_ParseInt": "(Int) Int", "v_ParseInt_ok": "(Int) Bool", "v_Atoi": "(Int) Int", "v_Atoi_ok": "(Int) Bool", "v_ParseBool": "(Int) Bool", "v_ParseBool_ok": "(Int) Bool",
	"ikey_tag": "(Int) Int", "ikey_pi": "(Int) Int",
}

func declsFor(vc *VC, body []string, o *Obl) string {
	syms := map[string]bool{}
	scan := func(s string) {
		i := 0
		for i < len(s) {
			c := s[i]
			if c == '|' {
				j := strings.IndexByte(s[i+1:], '|')
				syms[s[i:i+j+2]] = true
				i += j + 2
				continue
			}
			if c == '(' || c == ')' || c == ' ' || c == '\n' {
				i++
				continue
			}
			j := i
			for j < len(s) && s[j] != '(' && s[j] != ')' && s[j] != ' ' && s[j] != '\n' {
				j++
			}
			syms[s[i:j]] = true
			i = j
		}
	}
	for _, b := range body {
		scan(b)
	}
	scan(o.Goal.String())
	scan(o.Guard.String())
	var sb strings.Builder
	var ns []string
	for s := range syms {
		ns = append(ns, s)
	}
	sort.Strings(ns)
	for _, n := range ns {
		if s, ok := vc.declS[n]; ok {
			fmt.Fprintf(&sb, "(declare-fun %s () %s)\n", n, s)
		} else if u, ok := vc.g.spec.UFs[n]; ok {
			fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", n, strings.Join(u.Args, " "), u.Res)
		} else if u, ok := builtinUF[n]; ok {
			fmt.Fprintf(&sb, "(declare-fun %s %s)\n", n, u)
		}
	}
	if syms["ikey"] {
		if !syms["ikey_tag"] {
			sb.WriteString("(declare-fun ikey_tag (Int) Int)\n(declare-fun ikey_pi (Int) Int)\n")
		}
		sb.WriteString("(assert (forall ((t Int)(p Int)) (! (and (= (ikey_tag (ikey t p)) t) (= (ikey_pi (ikey t p)) p)) :pattern ((ikey t p)))))\n")
	}
	return sb.String()
}

type solverCfg struct {
	name string
	argv []string
	pre  string
}

const z3pre = "(set-option :smt.auto-config false)\n(set-option :smt.mbqi false)\n(set-option :smt.case_split 3)\n(set-option :smt.qi.eager_threshold 50)\n"
const z3pre2 = "(set-option :smt.auto-config false)\n(set-option :smt.mbqi false)\n(set-option :smt.arith.solver 2)\n"

func solvers(secs int) []solverCfg {
	ms := secs * 1000
	return []solverCfg{
		{"z3-new", []string{"z3-new", "-in", fmt.Sprintf("-t:%d", ms)}, "(set-option :smt.auto-config false)\n(set-option :smt.mbqi false)\n"},
		{"z3", []string{"z3", "-in", fmt.Sprintf("-t:%d", ms)}, "(set-option :smt.auto-config false)\n(set-option :smt.mbqi false)\n"},
		{"z3-new-cs3", []string{"z3-new", "-in", fmt.Sprintf("-t:%d", ms)}, z3pre},
		{"cvc5", []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms)}, "(set-logic ALL)\n"},
		{"z3-new-mbqi", []string{"z3-new", "-in", fmt.Sprintf("-t:%d", ms)}, ""},
		{"z3-new-s7", []string{"z3-new", "-in", fmt.Sprintf("-t:%d", ms)}, "(set-option :smt.auto-config false)\n(set-option :smt.mbqi false)\n(set-option :smt.random_seed 7)\n(set-option :smt.relevancy 0)\n"},
		{"z3-arith2", []string{"z3", "-in", fmt.Sprintf("-t:%d", ms)}, z3pre2},
	}
}

// procs bounds the number of solver processes running at once.
var procs = make(chan struct{}, 8)

func runSolver(ctx context.Context, s solverCfg, q string, secs int) (string, float64) {
	select {
	case procs <- struct{}{}:
	case <-ctx.Done():
		return "unknown", 0
	}
	defer func() { <-procs }()
	t := time.Now()
	cctx, cancel := context.WithTimeout(ctx, time.Duration(secs+2)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(cctx, s.argv[0], s.argv[1:]...)
	cmd.Stdin = strings.NewReader(s.pre + q)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	r := strings.TrimSpace(out.String())
	first := r
	if i := strings.IndexByte(r, '\n'); i >= 0 {
		first = r[:i]
	}
	res := "unknown"
	switch {
	case first == "unsat":
		res = "unsat"
	case first == "sat":
		res = "sat"
	case strings.Contains(r, "error"):
		res = "error: " + r
	}
	return res, time.Since(t).Seconds()
}

type solveOpts struct {
	quick    int // seconds of the first attempt
	slow     int // seconds of each fallback
	workers  int
	dump     string
	stop     func() bool
	failed   func(*Obl)
	strategy map[string]map[string]string
}

func (vc *VC) solveAll(os_ []*Obl, ax []axFact, sem chan struct{}, opt solveOpts) {
	var wg sync.WaitGroup
	for _, o := range os_ {
		o := o
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			vc.solveOne(o, ax, opt)
			if o.Status != "ok" && !o.Skipped && opt.failed != nil {
				opt.failed(o)
			}
		}()
	}
	wg.Wait()
}

// attempt is one way of discharging an obligation: a rendering of the query
// (full, loop, slice) and a back end (a solver, or a case split with z3-new).
type attempt struct{ variant, how string }

func (a attempt) String() string { return a.variant + "/" + a.how }

func (vc *VC) rendered(o *Obl, ax []axFact, cache map[string]string, variant string) string {
	if q, ok := cache[variant]; ok {
		return q
	}
	n := map[string]int{"full": 0, "loop": 1, "slice": 2}[variant]
	termMu.Lock()
	q := vc.querySlice(o, ax, n)
	termMu.Unlock()
	cache[variant] = q
	return q
}

func (vc *VC) dumpQuery(o *Obl, dir, prefix, q string) {
	n := strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '.' || r == '-' {
			return r
		}
		return '_'
	}, vc.name+"__"+o.Name)
	if len(n) > 150 {
		n = n[:150]
	}
	os.WriteFile(dir+"/"+prefix+n+".smt2", []byte(solvers(1)[0].pre+q), 0o644)
}

// try runs one attempt; it reports whether the obligation was discharged.
func (vc *VC) try(ctx context.Context, o *Obl, ax []axFact, cache map[string]string, a attempt, secs int, opt solveOpts) (bool, string) {
	if a.variant == "path" {
		return o.Kind != "nopanic" && vc.infeasible(o, ax, opt), "feasible"
	}
	q := cache[a.variant]
	if a.how == "split" {
		op := opt
		op.quick = secs
		ok := vc.splitProve(o, ax, op, q, nil, o.Guard, 0, &splitBudget{n: 16})
		return ok, "split"
	}
	for _, s := range solvers(secs) {
		if s.name != a.how {
			continue
		}
		r, t := runSolver(ctx, s, q, secs)
		vc.mu.Lock()
		o.Secs += t
		vc.mu.Unlock()
		return r == "unsat", firstLine(r)
	}
	return false, "?"
}

func (vc *VC) solveOne(o *Obl, ax []axFact, opt solveOpts) {
	termMu.Lock()
	if !o.Cover && vc.isKnown(o.Guard, o.Goal, o.NFacts, o.scope, o.Tags) {
		termMu.Unlock()
		o.Status, o.Solver = "ok", "syntactic"
		return
	}
	termMu.Unlock()
	cache := map[string]string{}
	q := vc.rendered(o, ax, cache, "full")
	if opt.dump != "" {
		vc.dumpQuery(o, opt.dump, "", q)
	}
	if o.Cover {
		// the preconditions must not be contradictory
		r, t := runSolver(context.Background(), solvers(opt.quick)[0], q, opt.quick)
		o.Secs += t
		if r == "unsat" {
			o.Status = "failed"
			o.Out = "preconditions are contradictory"
		} else {
			o.Status = "ok"
			o.Solver = "z3-new:" + r
		}
		return
	}
	var log []string
	done := func(a attempt) {
		o.Status, o.Solver = "ok", a.String()
		if a.variant == "path" {
			o.Solver = "path"
		}
	}
	seq := func(a attempt, secs int) bool {
		if a.variant != "path" {
			vc.rendered(o, ax, cache, a.variant)
		}
		ok, why := vc.try(context.Background(), o, ax, cache, a, secs, opt)
		if ok {
			done(a)
			return true
		}
		log = append(log, a.String()+"="+why)
		return false
	}
	race := func(as []attempt, secs int) bool {
		for _, a := range as {
			vc.rendered(o, ax, cache, a.variant)
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		type ans struct {
			a   attempt
			ok  bool
			why string
		}
		ch := make(chan ans, len(as))
		for _, a := range as {
			go func(a attempt) {
				ok, why := vc.try(ctx, o, ax, cache, a, secs, opt)
				ch <- ans{a, ok, why}
			}(a)
		}
		for range as {
			x := <-ch
			if x.ok {
				done(x.a)
				return true
			}
			log = append(log, x.a.String()+"="+x.why)
		}
		return false
	}
	fail := func() {
		o.Status, o.Out = "failed", strings.Join(log, " ")
	}
	if opt.stop != nil && opt.stop() {
		o.Status, o.Out = "failed", "not attempted: the run was cut short"
		o.Skipped = true
		return
	}
	looped := o.base > 0
	if rec := opt.strategy[vc.name][o.Name]; rec != "" {
		if i := strings.IndexByte(rec, '/'); i > 0 && (looped || rec[:i] != "loop") {
			secs := opt.quick * 10
			if strings.HasSuffix(rec, "/split") {
				secs = opt.quick
			}
			if seq(attempt{rec[:i], rec[i+1:]}, secs) {
				return
			}
		} else if rec == "path" && seq(attempt{"path", ""}, opt.quick) {
			return
		}
	}
	if looped && seq(attempt{"loop", "z3-new"}, opt.quick) {
		return
	}
	if seq(attempt{"full", "z3-new"}, opt.quick) {
		return
	}
	if strings.HasPrefix(strings.TrimPrefix(log[len(log)-1], "full/z3-new="), "error") {
		fail()
		return
	}
	if seq(attempt{"path", ""}, opt.quick) {
		return
	}
	as := []attempt{{"full", "cvc5"}, {"full", "z3-arith2"}, {"slice", "z3-new"}, {"full", "z3-new-s7"}}
	if looped {
		as = append(as, attempt{"loop", "cvc5"}, attempt{"loop", "z3-arith2"})
	}
	if race(as, opt.quick*2) {
		return
	}
	if opt.stop != nil && opt.stop() {
		fail()
		return
	}
	if looped && seq(attempt{"loop", "split"}, opt.quick) {
		return
	}
	if seq(attempt{"slice", "split"}, opt.quick) || seq(attempt{"full", "split"}, opt.quick) {
		return
	}
	if opt.stop != nil && opt.stop() {
		fail()
		return
	}
	as = nil
	for _, s := range solvers(1) {
		as = append(as, attempt{"full", s.name})
		if looped && s.name != "z3" {
			as = append(as, attempt{"loop", s.name})
		}
	}
	if race(as, opt.slow) {
		return
	}
	fail()
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

type pathRes struct {
	once sync.Once
	dead bool
}

// infeasible reports whether the path condition of an obligation is contradictory.
func (vc *VC) infeasible(o *Obl, ax []axFact, opt solveOpts) bool {
	k := o.Guard.String()
	vc.mu.Lock()
	if vc.paths == nil {
		vc.paths = map[string]*pathRes{}
	}
	p := vc.paths[k]
	if p == nil {
		p = &pathRes{}
		vc.paths[k] = p
	}
	vc.mu.Unlock()
	p.once.Do(func() {
		g := *o
		g.Goal = tFalse
		g.Hints = nil
		// facts recorded before the first obligation of this path
		for _, x := range vc.obls {
			if x.Guard.String() == k {
				g.NFacts = x.NFacts
				break
			}
		}
		termMu.Lock()
		q := vc.query(&g, ax)
		termMu.Unlock()
		r, _ := runSolver(context.Background(), solvers(opt.quick)[0], q, opt.quick)
		p.dead = r == "unsat"
	})
	return p.dead
}

type splitBudget struct{ n int }

// guardDefs maps a guard symbol to its definition.
func (vc *VC) guardDef(sym string) *Term {
	vc.mu.Lock()
	defer vc.mu.Unlock()
	if vc.gdefs == nil {
		vc.gdefs = map[string]*Term{}
		for _, f := range vc.facts {
			if f.def != "" && f.t.op == "=" && len(f.t.args) == 2 && f.t.args[0].op == f.def && f.t.sort == SBool && f.t.args[1].sort == SBool {
				if _, dup := vc.gdefs[f.def]; !dup {
					vc.gdefs[f.def] = f.t.args[1]
				}
			}
		}
	}
	return vc.gdefs[sym]
}

// merge finds the nearest disjunctive definition behind a guard.
func (vc *VC) nearestMerge(g *Term, depth int) []*Term {
	if depth > 60 {
		return nil
	}
	switch {
	case g.op == "or" && len(g.args) > 1:
		return g.args
	case g.op == "and":
		for _, a := range g.args {
			if r := vc.nearestMerge(a, depth+1); r != nil {
				return r
			}
		}
		return nil
	case len(g.args) == 0:
		if d := vc.guardDef(g.op); d != nil {
			return vc.nearestMerge(d, depth+1)
		}
		if p, ok := vc.gpar[g.op]; ok {
			return vc.nearestMerge(mk(SBool, p), depth+1)
		}
	}
	return nil
}

// splitProve proves a query by cases over merges.
func (vc *VC) splitProve(o *Obl, ax []axFact, opt solveOpts, q string, extra []*Term, at *Term, depth int, b *splitBudget) bool {
	if depth > 4 {
		return false
	}
	cases := vc.nearestMerge(at, 0)
	if cases == nil {
		return false
	}
	body := strings.TrimSuffix(q, "(check-sat)\n")
	for _, c := range cases {
		if b.n <= 0 {
			return false
		}
		b.n--
		ex := append(append([]*Term{}, extra...), c)
		// the symbols of the case belong to the guard, hence to the query
		termMu.Lock()
		cs := c.String()
		termMu.Unlock()
		qq := body + "(assert " + cs + ")\n(check-sat)\n"
		r, t := runSolver(context.Background(), solvers(opt.quick)[0], qq, opt.quick)
		vc.mu.Lock()
		o.Secs += t
		vc.mu.Unlock()
		if r == "unsat" {
			continue
		}
		if r == "sat" || strings.HasPrefix(r, "error") {
			return false
		}
		if !vc.splitProve(o, ax, opt, qq, ex, c, depth+1, b) {
			return false
		}
	}
	return true
}
