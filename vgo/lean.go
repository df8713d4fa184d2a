package main

import (
	"fmt"
	"os"
	"strings"
)

// leanAxioms prints, as Lean propositions about a structure of symbols, the
// axioms in the form in which the solvers assume them.
func (g *Gen) leanAxioms(skip map[string]bool) string {
	var sb strings.Builder
	sb.WriteString("/- Generated by `vgo -lean` from /verif/contracts; do not edit. -/\nimport Mathlib\nopen Classical\nnamespace Vgo\n\n")
	vc := newVC(g, "lean")
	type ax struct {
		name string
		body *Term
	}
	var as []ax
	used := map[string]bool{}
	for _, n := range g.spec.LemmaSeq {
		l := g.spec.Lemmas[n]
		if !l.Axiom || skip[n] {
			continue
		}
		st := &State{H: map[string]*Term{}, al: vc.al0}
		m := map[string]Val{}
		var vs []*Term
		for i, p := range l.Params {
			v := mk(l.Sorts[i], "ax_"+p)
			vs = append(vs, v)
			m[p] = logic(v)
		}
		e := &Env{vc: vc, st: st, old: st, vars: m, bound: 1}
		var rs, es []*Term
		for _, r := range l.Req {
			rs = append(rs, e.boolean(r.E))
		}
		for _, r := range l.Ens {
			es = append(es, e.boolean(r.E))
		}
		b := Forall(vs, Imp(And(rs...), And(es...)))
		syms := map[string]bool{}
		b.consts(syms)
		for s := range syms {
			if _, ok := g.spec.UFs[s]; ok {
				used[s] = true
			}
		}
		as = append(as, ax{n, b})
	}
	sb.WriteString("/-- The function symbols of the axioms. -/\nstructure Sym where\n")
	for _, u := range sortedKeys(used) {
		d := g.spec.UFs[u]
		sb.WriteString("  " + u + " : ")
		for _, a := range d.Args {
			sb.WriteString(leanSort(a) + " → ")
		}
		sb.WriteString(leanSort(d.Res) + "\n")
	}
	for _, a := range as {
		fmt.Fprintf(&sb, "\ndef Ax.%s (m : Sym) : Prop :=\n  %s\n", a.name, leanTerm(a.body, used))
	}
	sb.WriteString("\n/-- Every axiom. -/\ndef Axioms (m : Sym) : Prop :=\n  ")
	for i, a := range as {
		if i > 0 {
			sb.WriteString(" ∧ ")
		}
		sb.WriteString("Ax." + a.name + " m")
	}
	sb.WriteString("\n\nend Vgo\n")
	return sb.String()
}

func leanSort(s string) string {
	switch s {
	case SInt:
		return "ℤ"
	case SReal:
		return "ℝ"
	case SBool:
		return "Prop"
	}
	return "(" + leanSort(keySort(s)) + " → " + leanSort(elemSort(s)) + ")"
}

func leanVar(s string) string { return strings.NewReplacer("|", "", "!", "_", ".", "_").Replace(s) }

func leanTerm(t *Term, used map[string]bool) string {
	var as []string
	for _, a := range t.args {
		as = append(as, leanTerm(a, used))
	}
	join := func(op string) string { return "(" + strings.Join(as, " "+op+" ") + ")" }
	switch t.op {
	case "forall", "exists":
		q := "∀"
		if t.op == "exists" {
			q = "∃"
		}
		var bs []string
		for _, b := range t.bound {
			bs = append(bs, fmt.Sprintf("(%s : %s)", leanVar(b.op), leanSort(b.sort)))
		}
		return "(" + q + " " + strings.Join(bs, " ") + ", " + as[0] + ")"
	case "and":
		return join("∧")
	case "or":
		return join("∨")
	case "not":
		return "(¬ " + as[0] + ")"
	case "=>":
		return join("→")
	case "=":
		return join("=")
	case "ite":
		return "(if " + as[0] + " then " + as[1] + " else " + as[2] + ")"
	case "select":
		return "(" + as[0] + " " + as[1] + ")"
	case "store":
		return "(Function.update " + strings.Join(as, " ") + ")"
	case "+", "*", "<", "/":
		return join(t.op)
	case "<=":
		return join("≤")
	case ">=":
		return join("≥")
	case ">":
		return join(">")
	case "-":
		if len(as) == 1 {
			return "(-" + as[0] + ")"
		}
		return join("-")
	case "to_real":
		return "((" + as[0] + " : ℤ) : ℝ)"
	case "true":
		return "True"
	case "false":
		return "False"
	}
	if strings.HasPrefix(t.op, "(as const") || strings.HasPrefix(t.op, "((as const") {
		return "(fun _ => " + strings.Join(as, " ") + ")"
	}
	if used[t.op] {
		return "(m." + t.op + " " + strings.Join(as, " ") + ")"
	}
	if len(as) == 0 {
		if c := t.op[0]; c >= '0' && c <= '9' {
			return "(" + strings.TrimSuffix(t.op, ".0") + " : " + leanSort(t.sort) + ")"
		}
		return leanVar(t.op)
	}
	return "(UNKNOWN_" + t.op + " " + strings.Join(as, " ") + ")"
}

// leanProved lists the axioms that, as printed now, are among those in the file
// that lean/Model.lean proves.
func (g *Gen) leanProved(file string) map[string]bool {
	r := map[string]bool{}
	b, err := os.ReadFile(file)
	if err != nil {
		return r
	}
	for _, d := range strings.Split(g.leanAxioms(map[string]bool{"joinStandard": true}), "\n\n") {
		if f := strings.Fields(d); len(f) > 1 && f[0] == "def" && strings.Contains(string(b), d+"\n") {
			r[strings.TrimPrefix(f[1], "Ax.")] = true
		}
	}
	return r
}
