package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Clause is one named formula of a contract.
type Clause struct {
	Name string
	E    ast.Expr
	Src  string
	Tags []string
}

type modEntry struct {
	kind string // obj owned field elems map all global any
	e    ast.Expr
	src  string
	vars map[string]Val
}

type Witness struct {
	Ghost string
	Arg   ast.Expr
	E     ast.Expr
	Src   string
	Cond  ast.Expr
}

type LoopSpec struct {
	Invs  []Clause
	Hints []Clause
	Steps []Clause
	Dec   []Clause // a measure that falls
	Mods  []modEntry
	Vars  map[string]string
	Wit   []Witness
	Tries []Clause // candidate invariants, kept if they can be shown
}

// Alt is another set of proof annotations (loops, hints, abbreviations) for the
// same contract.
type Alt struct {
	Loops map[int]*LoopSpec
	Hints []Clause
	Lets  []Clause
}

// candidates is the contract with every loop invariant it mentions (of any of its
// annotations, split into conjuncts) as a candidate: those that cannot be shown
// are dropped, until the remaining ones are inductive.
func (c *Contract) candidates() *Contract {
	found := len(c.Alts) > 0
	for _, l := range c.Loops {
		found = found || len(l.Tries) > 0
	}
	if !found {
		return nil
	}
	k := *c
	k.Alts, k.AutoInv, k.Houdini = nil, true, map[string]bool{}
	k.Loops = map[int]*LoopSpec{}
	k.Hints = append([]Clause{}, c.Hints...)
	k.Lets = append([]Clause{}, c.Lets...)
	add := func(ls map[int]*LoopSpec) {
		for n, l := range ls {
			m := k.Loops[n]
			if m == nil {
				m = &LoopSpec{Vars: map[string]string{}}
				k.Loops[n] = m
			}
			var put func(e ast.Expr, iv Clause)
			put = func(e ast.Expr, iv Clause) {
				if p, ok := e.(*ast.ParenExpr); ok {
					put(p.X, iv)
					return
				}
				if b, ok := e.(*ast.BinaryExpr); ok && b.Op == token.LAND {
					put(b.X, iv)
					put(b.Y, iv)
					return
				}
				iv.E = e
				iv.Name = fmt.Sprintf("candidate%d_%d", n, len(m.Invs))
				m.Invs = append(m.Invs, iv)
				k.Houdini[iv.Name] = true
			}
			for _, iv := range append(append([]Clause{}, l.Invs...), l.Tries...) {
				put(iv.E, iv)
			}
			m.Hints = append(m.Hints, l.Hints...)
			m.Steps = append(m.Steps, l.Steps...)
			if len(m.Dec) == 0 {
				m.Dec = l.Dec
			}
			m.Mods = append(m.Mods, l.Mods...)
			m.Wit = append(m.Wit, l.Wit...)
			for n, v := range l.Vars {
				m.Vars[n] = v
			}
		}
	}
	add(c.Loops)
	for _, a := range c.Alts {
		add(a.Loops)
		k.Hints = append(k.Hints, a.Hints...)
		k.Lets = append(k.Lets, a.Lets...)
	}
	return &k
}

// alternatives are the contract under its other annotations: the ones written
// in the contract, and the first ones with the loops numbered differently.
func (c *Contract) alternatives(nLoops int) []*Contract {
	var out []*Contract
	add := func(loops map[int]*LoopSpec, lm map[int]int, hints, lets []Clause) {
		k := *c
		k.Loops, k.LoopMap, k.AutoInv = loops, lm, true
		k.Hints = append(append([]Clause{}, c.Hints...), hints...)
		k.Lets = append(append([]Clause{}, c.Lets...), lets...)
		k.Alts = nil
		out = append(out, &k)
	}
	var spec []int
	for i := 1; i < 40; i++ {
		if c.Loops[i] != nil {
			spec = append(spec, i)
		}
	}
	if nLoops > len(spec) && len(spec) > 0 && len(c.Alts) == 0 {
		add(c.Loops, nil, nil, nil)
	}
	for _, a := range c.Alts {
		loops := map[int]*LoopSpec{}
		for i, l := range c.Loops {
			loops[i] = l
		}
		for i, l := range a.Loops {
			loops[i] = l
		}
		add(loops, nil, a.Hints, a.Lets)
	}
	// order-preserving renumberings
	n := len(spec)
	if m := nLoops; m != n && m > 0 && n > 0 {
		var pick func(from, need, max int, cur []int, done func([]int))
		pick = func(from, need, max int, cur []int, done func([]int)) {
			if need == 0 {
				done(cur)
				return
			}
			for i := from; i <= max; i++ {
				pick(i+1, need-1, max, append(append([]int{}, cur...), i), done)
			}
		}
		try := func(code, sp []int) {
			if len(out) >= 5 {
				return
			}
			loops, lm := map[int]*LoopSpec{}, map[int]int{}
			same := true
			for i := range code {
				loops[code[i]] = c.Loops[sp[i]]
				lm[code[i]] = sp[i]
				same = same && code[i] == sp[i]
			}
			if !same || len(code) < n {
				add(loops, lm, nil, nil)
			}
		}
		if m > n {
			pick(1, n, m, nil, func(code []int) { try(code, spec) })
		} else {
			var code []int
			for i := 1; i <= m; i++ {
				code = append(code, i)
			}
			pick(0, m, n-1, nil, func(ix []int) {
				var sp []int
				for _, i := range ix {
					sp = append(sp, spec[i])
				}
				try(code, sp)
			})
		}
	}
	return out
}

// Contract of one function, interface method or function-typed field.
type Contract struct {
	Houdini map[string]bool // candidate invariants still in use
	Name     string
	Kind     string // func iface fieldfn
	Params   []string
	Results  []string
	Requires []Clause
	Ensures  []Clause
	Hints    []Clause
	Mods     []modEntry
	Loops    map[int]*LoopSpec
	Props    []string
	Impl     []string
	Defines  []Witness
	Wit      []Witness
	MayPanic bool
	Unreach  []string // callees no execution may reach
	Weak     []string // callees taken at their NAME@weak contract
	MayTrap  bool // run-time failures end the run and are not obligations
	Trusted  bool
	Pure     bool
	Area     string
	File     string
	NoVerify bool
	Lets     []Clause
	OkWhen   ast.Expr
	Inline   []string
	Values   bool     // only values are tracked: memory reads are arbitrary
	Keeps    []string // with Values: types whose local variables are tracked
	Opaque   []string // with Values: functions whose result is arbitrary
	AtCalls  []atCall
	Dyns     map[string]ast.Expr // interface parameter -> its dynamic type in this variant
	Alts     []*Alt              // other loop annotations to try when the first ones fail
	LoopMap  map[int]int         // loop of the code -> loop of the contract it takes its names from
	Optional bool                // the code may do without the function
	AutoInv  bool                // loops without annotations get the standard invariants
}

// atCall is a condition on every call of a function, or a count of its calls.
type atCall struct {
	Target string
	Ghost  string // counted in this ghost
	C      Clause
}

type Def struct {
	Name   string
	Params []string
	E      ast.Expr
	Src    string
}

type Ghost struct {
	Name string
	Sort string
}
type UFDecl struct {
	Name string
	Args []string
	Res  string
}
type Lemma struct {
	Name   string
	Params []string // name:sort
	Sorts  []string
	Req    []Clause
	Ens    []Clause
	Induct string
	Hints  []Clause
	Axiom  bool
	Pats   []ast.Expr
	Props  []string
	Auto   bool
	Uses   []string
}

type Spec struct {
	Owned     map[string]bool
	Ghosts    map[string]Ghost
	UFs       map[string]UFDecl
	Defs      map[string]*Def
	Lemmas    map[string]*Lemma
	LemmaSeq  []string
	Contracts map[string]*Contract
	Templates map[string][]string
	Files     []string
}

func newSpec() *Spec {
	return &Spec{Owned: map[string]bool{}, Ghosts: map[string]Ghost{}, UFs: map[string]UFDecl{}, Defs: map[string]*Def{}, Lemmas: map[string]*Lemma{}, Contracts: map[string]*Contract{}, Templates: map[string][]string{}}
}

func parseSort(s string) string {
	s = strings.TrimSpace(s)
	if i := strings.Index(s, "->"); i >= 0 {
		return arrSort(parseSort(s[:i]), parseSort(s[i+2:]))
	}
	switch s {
	case "int", "ref":
		return SInt
	case "real", "float64":
		return SReal
	case "bool":
		return SBool
	}
	panic("sort " + s)
}

type srcLine struct {
	ind  int
	text string
	no   int
}

func loadSpec(dir string, area string) (sp *Spec, err error) {
	sp = newSpec()
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("VGO_TRACE") != "" {
				panic(r)
			}
			err = fmt.Errorf("spec: %v", r)
		}
	}()
	for _, f := range fs {
		b, e := os.ReadFile(f)
		if e != nil {
			return nil, e
		}
		sp.parse(f, string(b), area)
		sp.Files = append(sp.Files, f)
	}
	return sp, nil
}

func balanced(s string) bool {
	d := 0
	for _, c := range s {
		switch c {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		}
	}
	return d <= 0
}

func (sp *Spec) parse(file, text, area string) {
	var lines []srcLine
	raw := strings.Split(text, "\n")
	for i := 0; i < len(raw); i++ {
		l := raw[i]
		if j := strings.Index(l, "//"); j >= 0 {
			l = l[:j]
		}
		if strings.TrimSpace(l) == "" {
			continue
		}
		ind := len(l) - len(strings.TrimLeft(l, " \t"))
		t := strings.TrimSpace(l)
		no := i + 1
		for {
			cont := !balanced(t)
			for _, op := range []string{"&&", "||", "+", "==", ",", "\\", "="} {
				if strings.HasSuffix(t, op) {
					cont = true
				}
			}
			if !cont || i+1 >= len(raw) {
				break
			}
			t = strings.TrimSuffix(t, "\\")
			i++
			n := raw[i]
			if j := strings.Index(n, "//"); j >= 0 {
				n = n[:j]
			}
			t += " " + strings.TrimSpace(n)
		}
		lines = append(lines, srcLine{ind, t, no})
	}
	skip := false
	var cur *Contract
	var curLemma *Lemma
	var curTmpl string
	var loop *LoopSpec
	var alt *Alt
	bad := func(l srcLine, m string) { panic(fmt.Sprintf("%s:%d: %s: %s", filepath.Base(file), l.no, m, l.text)) }
	var handle func(l srcLine)
	handle = func(l srcLine) {
		w, rest := splitWord(l.text)
		switch w {
		case "use":
			for _, n := range splitList(rest) {
				name, arg := n, ""
				if i := strings.IndexByte(n, '('); i >= 0 {
					name, arg = n[:i], strings.TrimSuffix(n[i+1:], ")")
				}
				tl, ok := sp.Templates[name]
				if !ok {
					bad(l, "no template "+name)
				}
				for _, t := range tl {
					if arg != "" {
						t = strings.ReplaceAll(t, "$1", arg)
					}
					handle(srcLine{l.ind, t, l.no})
				}
			}
		case "requires":
			if curLemma != nil {
				curLemma.Req = append(curLemma.Req, clause(l, rest, bad))
			} else {
				cur.Requires = append(cur.Requires, clause(l, rest, bad))
			}
		case "ensures":
			if curLemma != nil {
				curLemma.Ens = append(curLemma.Ens, clause(l, rest, bad))
			} else {
				cur.Ensures = append(cur.Ensures, clause(l, rest, bad))
			}
		case "step":
			if loop == nil {
				bad(l, "step outside a loop")
			} else {
				loop.Steps = append(loop.Steps, clause(l, rest, bad))
			}
		case "decreases":
			if loop == nil {
				bad(l, "decreases outside a loop")
			} else {
				loop.Dec = append(loop.Dec, clause(l, rest, bad))
			}
		case "hint":
			c := clause(l, rest, bad)
			if curLemma != nil {
				curLemma.Hints = append(curLemma.Hints, c)
			} else if loop != nil {
				loop.Hints = append(loop.Hints, c)
			} else if alt != nil {
				alt.Hints = append(alt.Hints, c)
			} else {
				cur.Hints = append(cur.Hints, c)
			}
		case "alternative":
			alt = &Alt{Loops: map[int]*LoopSpec{}}
			cur.Alts = append(cur.Alts, alt)
			loop = nil
		case "let":
			if alt != nil {
				alt.Lets = append(alt.Lets, clause(l, rest, bad))
			} else {
				cur.Lets = append(cur.Lets, clause(l, rest, bad))
			}
		case "inv":
			loop.Invs = append(loop.Invs, clause(l, rest, bad))
		case "try":
			loop.Tries = append(loop.Tries, clause(l, rest, bad))
		case "vars":
			for _, p := range splitList(rest) {
				kv := strings.SplitN(p, ":", 2)
				loop.Vars[strings.TrimSpace(kv[0])] = strings.TrimSpace(kv[1])
			}
		case "modifies":
			ms := parseMods(rest)
			if loop != nil {
				loop.Mods = append(loop.Mods, ms...)
			} else {
				cur.Mods = append(cur.Mods, ms...)
			}
		case "loop":
			n := 0
			fmt.Sscanf(rest, "%d", &n)
			if n == 0 {
				bad(l, "loop number")
			}
			loops := cur.Loops
			if alt != nil {
				loops = alt.Loops
			}
			loop = loops[n]
			if loop == nil {
				loop = &LoopSpec{Vars: map[string]string{}}
				loops[n] = loop
			}
		case "exit":
			loop = nil
		case "props":
			if curLemma != nil {
				curLemma.Props = append(curLemma.Props, splitList(rest)...)
			} else {
				cur.Props = append(cur.Props, splitList(rest)...)
			}
		case "implements":
			cur.Impl = append(cur.Impl, splitList(rest)...)
		case "inline":
			cur.Inline = append(cur.Inline, splitList(rest)...)
		case "dyn":
			f := strings.SplitN(strings.TrimSpace(rest), " ", 2)
			if len(f) != 2 {
				bad(l, "dyn PARAM TYPE")
			}
			if cur.Dyns == nil {
				cur.Dyns = map[string]ast.Expr{}
			}
			cur.Dyns[f[0]] = mustExpr(l, f[1], bad)
		case "values":
			cur.Values = true
		case "keeps":
			cur.Keeps = append(cur.Keeps, splitList(rest)...)
		case "weak":
			cur.Weak = append(cur.Weak, splitList(rest)...)
		case "unreachable":
			cur.Unreach = append(cur.Unreach, splitList(rest)...)
		case "opaque":
			cur.Opaque = append(cur.Opaque, splitList(rest)...)
		case "atcall", "tally":
			// atcall TARGET clause; tally TARGET GHOST expression
			t, r := splitWord(rest)
			a := atCall{Target: t}
			if w == "tally" {
				a.Ghost, r = splitWord(r)
			}
			a.C = clause(l, r, bad)
			cur.AtCalls = append(cur.AtCalls, a)
		case "trusted":
			cur.Trusted = true
		case "optional":
			cur.Optional = true
		case "maytrap":
			cur.MayPanic, cur.MayTrap = true, true
		case "maypanic":
			cur.MayPanic = true
		case "okwhen":
			cur.OkWhen = mustExpr(l, rest, bad)
		case "pure":
			cur.Pure = true
		case "define", "witness":
			eq := splitEq(rest)
			if eq < 0 {
				bad(l, "no =")
			}
			lhs := strings.TrimSpace(rest[:eq])
			i := strings.IndexByte(lhs, '(')
			wt := Witness{Ghost: lhs[:i], Arg: mustExpr(l, lhs[i:], bad), E: mustExpr(l, rest[eq+1:], bad), Src: rest}
			if loop != nil {
				loop.Wit = append(loop.Wit, wt)
			} else if w == "define" {
				cur.Defines = append(cur.Defines, wt)
			} else {
				cur.Wit = append(cur.Wit, wt)
			}
		case "induct":
			curLemma.Induct = strings.TrimSpace(rest)
		case "auto":
			curLemma.Auto = true
			for _, e := range splitTop(rest) {
				curLemma.Pats = append(curLemma.Pats, mustExpr(l, e, bad))
			}
		case "uses":
			curLemma.Uses = append(curLemma.Uses, splitList(rest)...)
		default:
			bad(l, "unknown directive")
		}
	}
	for _, l := range lines {
		w, rest := splitWord(l.text)
		if w == "area" && l.ind == 0 {
			skip = strings.TrimSpace(rest) != area && strings.TrimSpace(rest) != "all"
			continue
		}
		if skip {
			continue
		}
		if l.ind > 0 {
			if curTmpl != "" {
				sp.Templates[curTmpl] = append(sp.Templates[curTmpl], l.text)
				continue
			}
			if cur == nil && curLemma == nil {
				bad(l, "no block")
			}
			handle(l)
			continue
		}
		cur, curLemma, loop, curTmpl, alt = nil, nil, nil, "", nil
		switch w {
		case "owned":
			for _, n := range splitList(rest) {
				sp.Owned[n] = true
			}
		case "ghost":
			n, s := splitWord(rest)
			sp.Ghosts[n] = Ghost{n, parseSort(s)}
		case "uf":
			i := strings.IndexByte(rest, '(')
			j := strings.LastIndexByte(rest, ')')
			u := UFDecl{Name: strings.TrimSpace(rest[:i]), Res: parseSort(rest[j+1:])}
			for _, a := range splitList(rest[i+1 : j]) {
				u.Args = append(u.Args, parseSort(a))
			}
			sp.UFs[u.Name] = u
			ufNames[u.Name] = true
		case "def":
			eq := splitEq(rest)
			n, ps, _ := header(strings.TrimSpace(rest[:eq]))
			sp.Defs[n] = &Def{Name: n, Params: ps, E: mustExpr(l, rest[eq+1:], bad), Src: rest}
		case "tags":
			eq := splitEq(rest)
			tagSets[strings.TrimSpace(rest[:eq])] = splitList(rest[eq+1:])
		case "template":
			curTmpl = strings.TrimSpace(rest)
			sp.Templates[curTmpl] = nil
		case "lemma", "axiom":
			n, ps, _ := header(rest)
			curLemma = &Lemma{Name: n, Axiom: w == "axiom"}
			for _, p := range ps {
				kv := strings.SplitN(p, ":", 2)
				if len(kv) != 2 {
					bad(l, "lemma param sort")
				}
				curLemma.Params = append(curLemma.Params, strings.TrimSpace(kv[0]))
				curLemma.Sorts = append(curLemma.Sorts, parseSort(kv[1]))
			}
			if sp.Lemmas[n] != nil {
				bad(l, "duplicate lemma")
			}
			sp.Lemmas[n] = curLemma
			sp.LemmaSeq = append(sp.LemmaSeq, n)
		case "func", "iface", "fieldfn":
			n, ps, rs := header(rest)
			cur = &Contract{Name: n, Kind: w, Params: ps, Results: rs, Loops: map[int]*LoopSpec{}, Area: area, File: filepath.Base(file)}
			if sp.Contracts[n] != nil {
				bad(l, "duplicate contract")
			}
			sp.Contracts[n] = cur
		default:
			bad(l, "unknown block")
		}
	}
}

// header parses "name(p1, p2) -> (r1, r2)"; the name may contain "(*T)".
func header(s string) (string, []string, []string) {
	s = strings.TrimSpace(s)
	var res []string
	if i := strings.Index(s, ") -> "); i >= 0 {
		r := strings.TrimSpace(s[i+5:])
		r = strings.TrimSuffix(strings.TrimPrefix(r, "("), ")")
		res = splitList(r)
		s = s[:i+1]
	}
	if !strings.HasSuffix(s, ")") {
		return s, nil, res
	}
	d := 0
	for i := len(s) - 1; i >= 0; i-- {
		switch s[i] {
		case ')':
			d++
		case '(':
			d--
			if d == 0 {
				return strings.TrimSpace(s[:i]), splitList(s[i+1 : len(s)-1]), res
			}
		}
	}
	panic("header " + s)
}

func splitEq(s string) int {
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case '=':
			if d == 0 {
				return i
			}
		}
	}
	return -1
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ';':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[st:]); t != "" {
		out = append(out, t)
	}
	return out
}

func splitList(s string) []string {
	var out []string
	d, st := 0, 0
	add := func(t string) {
		if t = strings.TrimSpace(t); t != "" {
			out = append(out, t)
		}
	}
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				add(s[st:i])
				st = i + 1
			}
		}
	}
	add(s[st:])
	return out
}

func splitWord(s string) (string, string) {
	s = strings.TrimSpace(s)
	i := strings.IndexAny(s, " \t")
	if i < 0 {
		return s, ""
	}
	return s[:i], strings.TrimSpace(s[i+1:])
}

// named sets of properties, for clauses that serve several
var tagSets = map[string][]string{}

func clause(l srcLine, s string, bad func(srcLine, string)) Clause {
	// optional "NAME:" or "NAME[P1,P2]:" prefix
	c := Clause{}
	if i := strings.Index(s, ": "); i > 0 && !strings.ContainsAny(s[:i], " (=<>&|") {
		n := s[:i]
		if j := strings.IndexByte(n, '['); j >= 0 {
			for _, g := range splitList(strings.TrimSuffix(n[j+1:], "]")) {
				if ts, ok := tagSets[g]; ok {
					c.Tags = append(c.Tags, ts...)
				} else {
					c.Tags = append(c.Tags, g)
				}
			}
			n = n[:j]
		}
		c.Name = n
		s = s[i+2:]
	}
	c.Src = strings.TrimSpace(s)
	c.E = mustExpr(l, s, bad)
	if c.Name == "" {
		c.Name = short(c.Src)
	}
	return c
}

func short(s string) string {
	s = strings.Join(strings.Fields(s), "")
	if len(s) > 48 {
		s = s[:48]
	}
	return s
}

func mustExpr(l srcLine, s string, bad func(srcLine, string)) ast.Expr {
	e, err := parser.ParseExpr(strings.TrimSpace(s))
	if err != nil {
		bad(l, "parse "+err.Error())
	}
	return e
}

func parseMods(s string) []modEntry {
	var out []modEntry
	for _, m := range splitList(s) {
		if m == "nothing" {
			continue
		}
		if m == "any" {
			out = append(out, modEntry{kind: "any", src: m})
			continue
		}
		i := strings.IndexByte(m, '(')
		if i < 0 {
			panic("modifies " + m)
		}
		k := m[:i]
		a := strings.TrimSuffix(m[i+1:], ")")
		e := modEntry{kind: k, src: a}
		switch k {
		case "obj", "owned", "field", "elems", "map", "repr":
			x, err := parser.ParseExpr(a)
			if err != nil {
				panic("modifies " + m + ": " + err.Error())
			}
			e.e = x
		case "all", "global", "cell", "rows", "unowned":
		default:
			panic("modifies kind " + k)
		}
		out = append(out, e)
	}
	return out
}

func hasTag(ts []string, t string) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}
