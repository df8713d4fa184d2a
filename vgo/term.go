package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Term is an SMT-LIB term.
type Term struct {
	op   string // symbol or operator
	args []*Term
	sort string
	str  string
	// quantifier payload
	bound []*Term
	pats  [][]*Term
}

const (
	SInt  = "Int"
	SReal = "Real"
	SBool = "Bool"
)

func arrSort(k, v string) string { return "(Array " + k + " " + v + ")" }

// elemSort returns the value sort of an array sort.
func elemSort(s string) string {
	if !strings.HasPrefix(s, "(Array ") {
		panic("elemSort of " + s)
	}
	body := s[len("(Array ") : len(s)-1]
	i := splitSort(body)
	return strings.TrimSpace(body[i:])
}
func keySort(s string) string {
	body := s[len("(Array ") : len(s)-1]
	i := splitSort(body)
	return strings.TrimSpace(body[:i])
}
func splitSort(body string) int {
	d := 0
	for i, c := range body {
		switch c {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return i
			}
		}
	}
	panic("splitSort " + body)
}

func mk(sort, op string, args ...*Term) *Term {
	t := &Term{op: op, args: args, sort: sort}
	for _, a := range args {
		if a == nil {
			panic("nil term arg to " + op)
		}
	}
	return t
}

func (t *Term) String() string {
	if t.str != "" {
		return t.str
	}
	var sb strings.Builder
	t.write(&sb)
	t.str = sb.String()
	return t.str
}
func (t *Term) write(sb *strings.Builder) {
	if t.str != "" {
		sb.WriteString(t.str)
		return
	}
	if t.op == "forall" || t.op == "exists" {
		sb.WriteString("(" + t.op + " (")
		for _, b := range t.bound {
			sb.WriteString("(" + b.op + " " + b.sort + ")")
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
			sb.WriteString(t.args[0].String())
			for _, p := range t.pats {
				sb.WriteString(" :pattern (")
				for i, q := range p {
					if i > 0 {
						sb.WriteString(" ")
					}
					sb.WriteString(q.String())
				}
				sb.WriteString(")")
			}
			sb.WriteString(" :qid q_" + strings.Trim(t.bound[0].op, "|"))
			sb.WriteString(")")
		} else {
			sb.WriteString(t.args[0].String())
		}
		sb.WriteString(")")
		return
	}
	if len(t.args) == 0 {
		sb.WriteString(t.op)
		return
	}
	sb.WriteString("(" + t.op)
	for _, a := range t.args {
		sb.WriteString(" ")
		sb.WriteString(a.String())
	}
	sb.WriteString(")")
}

var (
	tTrue  = mk(SBool, "true")
	tFalse = mk(SBool, "false")
	t0     = mk(SInt, "0")
	t1     = mk(SInt, "1")
)

func isTrue(t *Term) bool  { return t.op == "true" && len(t.args) == 0 }
func isFalse(t *Term) bool { return t.op == "false" && len(t.args) == 0 }
func intLit(n int64) *Term {
	if n < 0 {
		return mk(SInt, "-", mk(SInt, strings.TrimPrefix(strconv.FormatInt(n, 10), "-")))
	}
	return mk(SInt, strconv.FormatInt(n, 10))
}
func (t *Term) intVal() (int64, bool) {
	if t.sort != SInt {
		return 0, false
	}
	if len(t.args) == 0 {
		n, err := strconv.ParseInt(t.op, 10, 64)
		return n, err == nil
	}
	if t.op == "-" && len(t.args) == 1 {
		if n, ok := t.args[0].intVal(); ok {
			return -n, true
		}
	}
	return 0, false
}
func realLit(num, den string) *Term {
	neg := strings.HasPrefix(num, "-")
	num = strings.TrimPrefix(num, "-")
	var t *Term
	if den == "1" {
		t = mk(SReal, num+".0")
	} else {
		t = mk(SReal, "/", mk(SReal, num+".0"), mk(SReal, den+".0"))
	}
	if neg {
		t = mk(SReal, "-", t)
	}
	return t
}

func eqT(a, b *Term) bool { return a == b || a.String() == b.String() }

func And(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		if isTrue(t) {
			continue
		}
		if isFalse(t) {
			return tFalse
		}
		if t.op == "and" {
			out = append(out, t.args...)
			continue
		}
		out = append(out, t)
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return out[0]
	}
	return mk(SBool, "and", out...)
}
func Or(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		if isFalse(t) {
			continue
		}
		if isTrue(t) {
			return tTrue
		}
		out = append(out, t)
	}
	switch len(out) {
	case 0:
		return tFalse
	case 1:
		return out[0]
	}
	return mk(SBool, "or", out...)
}
func Not(t *Term) *Term {
	if isTrue(t) {
		return tFalse
	}
	if isFalse(t) {
		return tTrue
	}
	if t.op == "not" {
		return t.args[0]
	}
	return mk(SBool, "not", t)
}
func Imp(a, b *Term) *Term {
	if isTrue(a) {
		return b
	}
	if isFalse(a) || isTrue(b) {
		return tTrue
	}
	return mk(SBool, "=>", a, b)
}
func Eq(a, b *Term) *Term {
	if a.sort != b.sort {
		if a.sort == SInt && b.sort == SReal {
			a = ToReal(a)
		} else if a.sort == SReal && b.sort == SInt {
			b = ToReal(b)
		} else {
			panic(fmt.Sprintf("sort mismatch = : %s:%s vs %s:%s", a, a.sort, b, b.sort))
		}
	}
	if eqT(a, b) {
		return tTrue
	}
	if x, ok := a.intVal(); ok {
		if y, ok := b.intVal(); ok {
			if x == y {
				return tTrue
			}
			return tFalse
		}
	}
	if a.sort == SBool {
		if isTrue(a) {
			return b
		}
		if isTrue(b) {
			return a
		}
		if isFalse(a) {
			return Not(b)
		}
		if isFalse(b) {
			return Not(a)
		}
	}
	return mk(SBool, "=", a, b)
}
func Neq(a, b *Term) *Term { return Not(Eq(a, b)) }
func Ite(c, a, b *Term) *Term {
	if isTrue(c) {
		return a
	}
	if isFalse(c) {
		return b
	}
	if a.sort != b.sort {
		if a.sort == SInt && b.sort == SReal {
			a = ToReal(a)
		} else if a.sort == SReal && b.sort == SInt {
			b = ToReal(b)
		}
	}
	if eqT(a, b) {
		return a
	}
	return mk(a.sort, "ite", c, a, b)
}
func ToReal(a *Term) *Term {
	if a.sort == SReal {
		return a
	}
	if n, ok := a.intVal(); ok {
		return realLit(strconv.FormatInt(n, 10), "1")
	}
	return mk(SReal, "to_real", a)
}
func coerce2(a, b *Term) (*Term, *Term) {
	if a.sort == SInt && b.sort == SReal {
		return ToReal(a), b
	}
	if a.sort == SReal && b.sort == SInt {
		return a, ToReal(b)
	}
	return a, b
}
func Add(a, b *Term) *Term {
	a, b = coerce2(a, b)
	if x, ok := a.intVal(); ok {
		if y, ok := b.intVal(); ok {
			return intLit(x + y)
		}
		if x == 0 {
			return b
		}
	}
	if y, ok := b.intVal(); ok {
		if y == 0 {
			return a
		}
		// (+ (+ a c1) c2) => (+ a c)
		if (a.op == "+" || a.op == "-") && len(a.args) == 2 {
			if c, ok := a.args[1].intVal(); ok {
				if a.op == "-" {
					c = -c
				}
				return Add(a.args[0], intLit(c+y))
			}
		}
		if y < 0 {
			return mk(SInt, "-", a, intLit(-y))
		}
	}
	return mk(a.sort, "+", a, b)
}
func Sub(a, b *Term) *Term {
	a, b = coerce2(a, b)
	if y, ok := b.intVal(); ok {
		return Add(a, intLit(-y))
	}
	if eqT(a, b) && a.sort == SInt {
		return t0
	}
	return mk(a.sort, "-", a, b)
}
func Mul(a, b *Term) *Term {
	a, b = coerce2(a, b)
	if x, ok := a.intVal(); ok {
		if x == 0 {
			return t0
		}
		if x == 1 {
			return b
		}
	}
	if x, ok := b.intVal(); ok {
		if x == 0 {
			return t0
		}
		if x == 1 {
			return a
		}
	}
	return mk(a.sort, "*", a, b)
}
func Neg(a *Term) *Term {
	if n, ok := a.intVal(); ok {
		return intLit(-n)
	}
	return mk(a.sort, "-", a)
}
func cmp(op string, a, b *Term) *Term {
	a, b = coerce2(a, b)
	if x, ok := a.intVal(); ok {
		if y, ok := b.intVal(); ok {
			r := false
			switch op {
			case "<":
				r = x < y
			case "<=":
				r = x <= y
			case ">":
				r = x > y
			case ">=":
				r = x >= y
			}
			if r {
				return tTrue
			}
			return tFalse
		}
	}
	return mk(SBool, op, a, b)
}
func Lt(a, b *Term) *Term { return cmp("<", a, b) }
func Le(a, b *Term) *Term { return cmp("<=", a, b) }
func Gt(a, b *Term) *Term { return cmp("<", b, a) }
func Ge(a, b *Term) *Term { return cmp("<=", b, a) }

func Sel(a, i *Term) *Term {
	ks := keySort(a.sort)
	if ks == SReal && i.sort == SInt {
		i = ToReal(i)
	}
	if ks != i.sort {
		panic(fmt.Sprintf("select index sort %s on %s (%s)", i.sort, a.sort, a))
	}
	// read over write, syntactic
	for a.op == "store" {
		if eqT(a.args[1], i) {
			return a.args[2]
		}
		x, ok1 := a.args[1].intVal()
		y, ok2 := i.intVal()
		if ok1 && ok2 && x != y {
			a = a.args[0]
			continue
		}
		break
	}
	return mk(elemSort(a.sort), "select", a, i)
}
func Sto(a, i, v *Term) *Term {
	ks, es := keySort(a.sort), elemSort(a.sort)
	if ks == SReal && i.sort == SInt {
		i = ToReal(i)
	}
	if es == SReal && v.sort == SInt {
		v = ToReal(v)
	}
	if es != v.sort || ks != i.sort {
		panic(fmt.Sprintf("store sort mismatch: %s[%s:%s] := %s:%s", a.sort, i, i.sort, v, v.sort))
	}
	return mk(a.sort, "store", a, i, v)
}
func constArr(sort string, v *Term) *Term {
	return mk(sort, "(as const "+sort+")", v)
}

func (t *Term) contains(v *Term) bool {
	if t == v || (len(t.args) == 0 && t.op == v.op) {
		return true
	}
	for _, a := range t.args {
		if a.contains(v) {
			return true
		}
	}
	return false
}

// subst replaces constants by name.
func (t *Term) subst(m map[string]*Term) *Term {
	if len(t.args) == 0 {
		if r, ok := m[t.op]; ok {
			return r
		}
		return t
	}
	ch := false
	na := make([]*Term, len(t.args))
	for i, a := range t.args {
		na[i] = a.subst(m)
		if na[i] != a {
			ch = true
		}
	}
	var np [][]*Term
	for _, p := range t.pats {
		var q []*Term
		for _, a := range p {
			b := a.subst(m)
			if b != a {
				ch = true
			}
			q = append(q, b)
		}
		np = append(np, q)
	}
	if !ch {
		return t
	}
	return &Term{op: t.op, args: na, sort: t.sort, bound: t.bound, pats: np}
}

// consts collects nullary symbols.
func (t *Term) consts(m map[string]bool) {
	if len(t.args) == 0 && t.op != "forall" {
		m[t.op] = true
		return
	}
	if i := strings.IndexByte(t.op, '('); i != 0 {
		m[t.op] = true
	}
	for _, a := range t.args {
		a.consts(m)
	}
	for _, p := range t.pats {
		for _, a := range p {
			a.consts(m)
		}
	}
}

// findPats picks triggers for bound variables vs in body.
func findPats(vs []*Term, body *Term) [][]*Term {
	cands := map[string]*Term{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.op == "forall" || t.op == "exists" {
			return
		}
		for _, a := range t.args {
			walk(a)
		}
		ok := false
		if t.op == "select" {
			for _, v := range vs {
				if t.args[1] == v && true {
					ok = true
				}
			}
			if ok {
				for _, v := range vs {
					if t.args[0].contains(v) && t.args[1] == v {
						ok = false
					}
				}
			}
		} else if isUF(t.op) && len(t.args) > 0 {
			for _, a := range t.args {
				for _, v := range vs {
					if a == v {
						ok = true
					}
				}
			}
		}
		if ok && !hasInterp(t) {
			cands[t.String()] = t
		}
	}
	walk(body)
	var keys []string
	for k := range cands {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var full, part []*Term
	for _, k := range keys {
		t := cands[k]
		all := true
		for _, v := range vs {
			if !t.contains(v) {
				all = false
			}
		}
		if all {
			full = append(full, t)
		} else {
			part = append(part, t)
		}
	}
	var out [][]*Term
	for _, t := range full {
		out = append(out, []*Term{t})
	}
	if len(out) > 0 {
		return out
	}
	if len(vs) > 1 {
		// greedy multi pattern
		need := map[string]bool{}
		for _, v := range vs {
			need[v.op] = true
		}
		var mp []*Term
		for _, t := range part {
			useful := false
			for n := range need {
				if t.contains(mk(SInt, n)) {
					useful = true
				}
			}
			if useful {
				mp = append(mp, t)
				for n := range need {
					if t.contains(mk(SInt, n)) {
						delete(need, n)
					}
				}
			}
		}
		if len(need) == 0 {
			return [][]*Term{mp}
		}
	}
	return nil
}

var ufNames = map[string]bool{}

func isUF(op string) bool { return ufNames[op] }

// hasInterp: pattern contains arithmetic or boolean connectives.
func hasInterp(t *Term) bool {
	switch t.op {
	case "and", "or", "not", "=>", "=", "<", "<=", "ite":
		return true
	}
	for _, a := range t.args {
		if hasInterp(a) {
			return true
		}
	}
	return false
}

func Forall(vs []*Term, body *Term, pats ...[]*Term) *Term {
	if isTrue(body) {
		return tTrue
	}
	if len(pats) == 0 {
		pats = findPats(vs, body)
	}
	t := &Term{op: "forall", args: []*Term{body}, sort: SBool, bound: vs, pats: pats}
	return t
}
func Exists(vs []*Term, body *Term) *Term {
	return &Term{op: "exists", args: []*Term{body}, sort: SBool, bound: vs}
}

func App(sort, fn string, args ...*Term) *Term { return mk(sort, fn, args...) }

func symEsc(s string) string {
	ok := true
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '$' || c == '!' || c == '~' || c == '@') {
			ok = false
		}
	}
	if ok {
		return s
	}
	s = strings.ReplaceAll(s, "|", "!")
	return "|" + s + "|"
}

// offsets collects the terms o of index positions (+ o v).
func offsets(t, v *Term, out map[string]*Term) {
	if t.op == "select" && len(t.args) == 2 {
		i := t.args[1]
		if i.op == "+" && len(i.args) == 2 && i.args[1] == v && !i.args[0].contains(v) {
			out[i.args[0].String()] = i.args[0]
		}
	}
	for _, a := range t.args {
		offsets(a, v, out)
	}
}

// reindex rewrites a body over v into one over j = off + v.
func reindex(t, v, off, j *Term) *Term {
	if t == v {
		return Sub(j, off)
	}
	if t.op == "+" && len(t.args) == 2 && t.args[1] == v && eqT(t.args[0], off) {
		return j
	}
	if len(t.args) == 0 {
		return t
	}
	ch := false
	na := make([]*Term, len(t.args))
	for i, a := range t.args {
		na[i] = reindex(a, v, off, j)
		if na[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	var np [][]*Term
	for _, p := range t.pats {
		var q []*Term
		for _, a := range p {
			q = append(q, reindex(a, v, off, j))
		}
		np = append(np, q)
	}
	return &Term{op: t.op, args: na, sort: t.sort, bound: t.bound, pats: np}
}
