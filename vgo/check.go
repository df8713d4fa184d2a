package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Strategies only say which rendering and back end to try first; a wrong or
// missing entry costs time, never soundness.
func loadStrategy(p string) map[string]map[string]string {
	m := map[string]map[string]string{}
	b, err := os.ReadFile(p)
	if err == nil {
		json.Unmarshal(b, &m)
	}
	return m
}

func saveStrategy(p string, n map[string]map[string]string) {
	m := loadStrategy(p)
	for k, v := range n {
		if len(v) == 0 {
			delete(m, k)
		} else {
			m[k] = v
		}
	}
	b, _ := json.MarshalIndent(m, "", " ")
	os.WriteFile(p, append(b, 10), 0o644)
}

func worthRecording(o *Obl) bool {
	if o.Cover || o.Solver == "syntactic" {
		return false
	}
	if o.base > 0 {
		return o.Solver != "loop/z3-new" || o.Secs > 1
	}
	return o.Solver != "full/z3-new" || o.Secs > 1
}

// checkDef says what one property's check verifies.
type checkDef struct {
	Area    string   `json:"area"`
	Roots   []string `json:"roots"` // regexps: functions the property is stated on
	Stop    []string `json:"stop"`  // regexps: callees whose contracts are discharged under other properties
	Level   string   `json:"level"`
	Tech    string   `json:"technique"`
	Note    string   `json:"note"`
	Assume  []string `json:"assume"`
	Replay  string   `json:"replay"`
	Lemmas  []string `json:"lemmas"`
	Bounded string   `json:"bounded"`
}

func anyMatch(rs []string, s string) bool {
	for _, r := range rs {
		if regexp.MustCompile("^(?:" + r + ")$").MatchString(s) {
			return true
		}
	}
	return false
}

var fixedAssumptions = []string{
	"the verification condition generator (/verif/vgo) translates go/ssa faithfully; z3 and cvc5 report unsat only when it is",
	"Go integers are mathematical integers (no overflow); floats are reals with NaN/Inf tracked only where the contract mentions them (no rounding)",
	"one goroutine: no other goroutine writes the structures under contract",
	"termination is not proved",
	"private fields of the structures under contract are written only by functions of their own package",
}

func checkMain(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	root := fs.String("root", "/verif", "framework directory")
	repo := fs.String("repo", "/repo", "repository")
	tier := fs.String("tier", "quick", "quick or thorough")
	noReplay := fs.Bool("noreplay", false, "skip the replay")
	fs.Parse(args)
	id := fs.Arg(0)
	t0 := time.Now()
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	defs := map[string]*checkDef{}
	b, err := os.ReadFile(filepath.Join(*root, "checks.json"))
	if err == nil {
		err = json.Unmarshal(b, &defs)
	}
	d := defs[id]
	if err != nil || d == nil {
		fmt.Println("no check", id, err)
		os.Exit(2)
	}
	sp, err := loadSpec(filepath.Join(*root, "contracts"), d.Area)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	g, err := load(*repo, d.Area)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	g.spec = sp
	g.known = loadLocals(filepath.Join(*root, "contracts", "locals.json"), d.Area)
	limit := 420 * time.Second
	opt := solveOpts{quick: 3, slow: 12, strategy: loadStrategy(filepath.Join(*root, "contracts", "strategy.json"))}
	if *tier == "thorough" {
		limit = 3000 * time.Second
		opt.slow = 60
	}
	type failure struct{ fn, name, pos, out string }
	var fails []failure
	var mu sync.Mutex
	nfail := 0
	opt.stop = func() bool {
		mu.Lock()
		defer mu.Unlock()
		return nfail >= 4 || time.Since(t0) > limit
	}
	var wg sync.WaitGroup
	sem := make(chan struct{}, 12)
	doneFn := map[string]bool{}
	assumed := map[string]bool{}
	ext := map[string]bool{}
	lem := map[string]bool{}
	solversUsed := map[string]int{}
	var fns []string
	nObl, nOK, covers := 0, 0, 0
	secs := 0.0
	var vcs []*VC
	fail := func(fn, name, pos, out string) {
		fails = append(fails, failure{fn, name, pos, out})
		mu.Lock()
		nfail++
		mu.Unlock()
	}
	var queue []string
	for _, n := range sortedKeys(sp.Contracts) {
		c := sp.Contracts[n]
		if c.Kind == "func" && anyMatch(d.Roots, n) {
			queue = append(queue, n)
		}
	}
	for _, r := range d.Roots {
		ok := false
		for _, q := range queue {
			ok = ok || anyMatch([]string{r}, q)
		}
		if !ok {
			fail(r, "no function under contract matches", "", "")
		}
	}
	follow := func(n string) {
		c := sp.Contracts[n]
		if c == nil {
			return
		}
		switch c.Kind {
		case "func":
			if c.Trusted {
				assumed["trusted contract "+n] = true
				return
			}
			if anyMatch(d.Stop, n) {
				assumed["contract of "+n+" (its own obligations belong to other checks)"] = true
				return
			}
			queue = append(queue, n)
		case "iface":
			for _, m := range sortedKeys(sp.Contracts) {
				k := sp.Contracts[m]
				for _, i := range k.Impl {
					if i == n {
						if anyMatch(d.Stop, m) {
							assumed["contract of "+m+" (its own obligations belong to other checks)"] = true
						} else {
							queue = append(queue, m)
						}
					}
				}
			}
		case "fieldfn":
			// the functions stored in the field are checked where they are stored
			for _, m := range sortedKeys(sp.Contracts) {
				k := sp.Contracts[m]
				for _, i := range k.Impl {
					if i == n && !anyMatch(d.Stop, m) {
						queue = append(queue, m)
					}
				}
			}
		}
	}
	mine := func(vc *VC) {
		var l []*Obl
		for _, o := range vc.obls {
			if len(o.Tags) == 0 || contains(o.Tags, id) {
				l = append(l, o)
			}
		}
		vc.obls = l
	}
	// solve discharges the obligations of one function; it gives up after max failures.
	solve := func(vc *VC, max int, opt solveOpts) int {
		termMu.Lock()
		ax := g.axiomFacts(vc)
		termMu.Unlock()
		n := 0
		global := opt.stop
		opt.stop = func() bool {
			mu.Lock()
			m := n
			mu.Unlock()
			return m >= max || global()
		}
		opt.failed = func(o *Obl) {
			mu.Lock()
			n++
			mu.Unlock()
		}
		vc.solveAll(vc.obls, ax, sem, opt)
		for _, o := range vc.obls {
			if o.Status != "ok" {
				return n + 1
			}
		}
		return 0
	}
	var replaced []*VC
	// rescue tries the contract's other annotations.
	rescue := func(c *Contract, nLoops int) *VC {
		for _, a := range c.alternatives(nLoops) {
			if opt.stop() || time.Since(t0) > limit*3/5 {
				return nil
			}
			termMu.Lock()
			vc, err := g.verifyFn(a)
			termMu.Unlock()
			if err != nil {
				continue
			}
			mine(vc)
			if solve(vc, 1, opt) == 0 {
				return vc
			}
		}
		if opt.stop() || time.Since(t0) > limit*3/5 {
			return nil
		}
		if vc := g.houdini(c, mine, func(vc *VC, o solveOpts) { solve(vc, 1000, o) }, opt); vc != nil && solve(vc, 1, opt) == 0 {
			return vc
		}
		return nil
	}
	start := func(vc *VC, c *Contract) {
		mine(vc)
		wg.Add(1)
		go func() {
			defer wg.Done()
			n := solve(vc, 4, opt)
			if n > 0 && c != nil {
				if v := rescue(c, vc.loopN); v != nil {
					mu.Lock()
					replaced = append(replaced, v)
					vcs = append(vcs, v)
					mu.Unlock()
					return
				}
			}
			mu.Lock()
			vcs = append(vcs, vc)
			nfail += n
			mu.Unlock()
		}()
	}
	drain := func() {
		for len(queue) > 0 {
			n := queue[0]
			queue = queue[1:]
			if doneFn[n] {
				continue
			}
			doneFn[n] = true
			c := sp.Contracts[n]
			if c.Trusted {
				assumed["trusted contract "+n] = true
				continue
			}
			termMu.Lock()
			vc, err := g.verifyFn(c)
			termMu.Unlock()
			if err != nil {
				v := rescue(c, vc.loopN)
				if v == nil {
					fail(n, "obligations of "+n+" could not be generated", "", err.Error())
					continue
				}
				vc = v
			}
			fns = append(fns, n)
			for _, u := range sortedKeys(vc.used) {
				follow(u)
			}
			for e := range vc.ext {
				ext[e] = true
			}
			start(vc, c)
		}
	}
	drain()
	for {
		wg.Wait()
		if len(replaced) == 0 {
			break
		}
		l := replaced
		replaced = nil
		for _, vc := range l {
			for _, u := range sortedKeys(vc.used) {
				follow(u)
			}
			for e := range vc.ext {
				ext[e] = true
			}
		}
		drain()
	}
	termMu.Lock()
	proved := g.leanProved(filepath.Join(*root, "lean", "Axioms.lean"))
	termMu.Unlock()
	// lemmas, transitively
	for {
		for _, vc := range vcs {
			for l := range vc.lemUsed {
				lem[l] = true
			}
		}
		for _, l := range d.Lemmas {
			lem[l] = true
		}
		var todo []string
		for _, l := range sp.LemmaSeq {
			if lem[l] && !doneFn["lemma "+l] {
				todo = append(todo, l)
			}
		}
		if len(todo) == 0 {
			break
		}
		for _, l := range todo {
			doneFn["lemma "+l] = true
			k := sp.Lemmas[l]
			if k.Axiom {
				switch {
				case l == "joinStandard":
					assumed["axiom joinStandard (its content about lists of strings is a theorem of lean/Join.lean)"] = true
				case proved[l]:
					assumed["axiom "+l+" (a theorem of lean/Model.lean, in the form printed from this run's contracts)"] = true
				default:
					assumed["axiom "+l] = true
				}
				continue
			}
			termMu.Lock()
			vc, err := g.verifyLemma(k)
			termMu.Unlock()
			if err != nil {
				fail("lemma "+l, "obligations could not be generated", "", err.Error())
				continue
			}
			fns = append(fns, "lemma "+l)
			start(vc, nil)
		}
		wg.Wait()
	}
	var slow []map[string]any
	skipped := 0
	for _, vc := range vcs {
		for _, o := range vc.obls {
			if o.Cover {
				covers++
			} else {
				nObl++
			}
			secs += o.Secs
			if o.Status == "ok" {
				if !o.Cover {
					nOK++
					solversUsed[o.Solver]++
				}
				continue
			}
			if len(o.Tags) > 0 && !contains(o.Tags, id) {
				continue
			}
			if o.Skipped {
				skipped++
				continue
			}
			fails = append(fails, failure{vc.name, o.Name, o.Pos, o.Out})
		}
	}
	if nObl == 0 {
		fail(id, "no obligations were generated", "", "")
	}
	if len(fails) == 0 && skipped > 0 {
		fails = append(fails, failure{id, fmt.Sprintf("%d obligations undecided when the time ran out", skipped), "", ""})
	}
	// known findings
	known := loadKnown(filepath.Join(*root, "known_findings.txt"), id)
	var open []failure
	for _, f := range fails {
		if txt, ok := known[f.fn+" :: "+f.name]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, txt)
			continue
		}
		open = append(open, f)
	}
	fails = open
	sort.Slice(fails, func(i, j int) bool { return fails[i].fn+fails[i].name < fails[j].fn+fails[j].name })
	violations := 0
	status := 0
	evidence := map[string]any{}
	if len(fails) > 0 {
		violations = 1
		status = 1
		rp := filepath.Join(*root, "evidence", id+".replay.txt")
		os.MkdirAll(filepath.Dir(rp), 0o755)
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s: obligations that were not discharged on %s\n", id, *repo)
		for _, f := range fails {
			fmt.Fprintf(&sb, "\n  function   %s\n  obligation %s\n  at         %s\n  verifier   %s\n", f.fn, f.name, f.pos, f.out)
		}
		for i, f := range fails {
			if i < 6 {
				fmt.Printf("undischarged: %s %s (%s)\n", f.fn, f.name, f.pos)
			}
		}
		found := false
		if d.Replay != "" && !*noReplay {
			for _, area := range strings.Split(d.Replay, ",") {
				cmd := exec.Command("bash", filepath.Join(*root, "replay", "run.sh"), area, id, strconv.Itoa(seed), *repo)
				var out bytes.Buffer
				cmd.Stdout = &out
				cmd.Stderr = &out
				err := cmd.Run()
				ee, _ := err.(*exec.ExitError)
				found = ee != nil && ee.ExitCode() == 1
				fmt.Fprintf(&sb, "\nreplay against the real code (replay/run.sh %s %s %d): found=%v\n%s\n", area, id, seed, found, out.String())
				if found {
					break
				}
			}
		}
		os.WriteFile(rp, []byte(sb.String()), 0o644)
		suffix := " no-failing-input-found"
		if found {
			suffix = ""
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", id, rp, suffix)
	}
	for _, vc := range vcs {
		for t := range vc.noTerm {
			assumed[t] = true
		}
	}
	for e := range ext {
		assumed["model of external function "+e] = true
	}
	for _, a := range fixedAssumptions {
		assumed[a] = true
	}
	for _, a := range d.Assume {
		assumed[a] = true
	}
	_ = slow
	cov := map[string]any{
		"obligations": nObl, "discharged": nOK,
		"checker_cmd":                      fmt.Sprintf("/verif/bin/vgo check -tier %s %s", *tier, id),
		"trusted_base":                     sortedKeys(assumed),
		"functions":                        fns,
		"by_back_end":                      solversUsed,
		"solver_s":                         int(secs),
		"precondition_reachability_covers": covers,
	}
	if d.Bounded != "" {
		cov["bounded"] = d.Bounded
	}
	evidence["property"] = id
	evidence["tier"] = *tier
	evidence["seed"] = seed
	lv := d.Level
	if lv == "" {
		lv = "proof"
	}
	evidence["level"] = lv
	evidence["coverage"] = cov
	evidence["assumptions"] = sortedKeys(assumed)
	evidence["wall_s"] = time.Since(t0).Seconds()
	evidence["violations"] = violations
	eb, _ := json.MarshalIndent(evidence, "", " ")
	os.MkdirAll(filepath.Join(*root, "evidence"), 0o755)
	os.WriteFile(filepath.Join(*root, "evidence", id+".json"), append(eb, 10), 0o644)
	if status == 0 {
		fmt.Printf("property %s: %d of %d obligations discharged over %d functions and lemmas in %.0f s\n", id, nOK, nObl, len(fns), time.Since(t0).Seconds())
	}
	os.Exit(status)
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// loadKnown reads lines "finding: property=ID obligation=FN :: NAME | text".
func loadKnown(p, id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(p)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		pre := "finding: property=" + id + " obligation="
		if !strings.HasPrefix(l, pre) {
			continue
		}
		r := strings.TrimPrefix(l, pre)
		if i := strings.Index(r, " | "); i > 0 {
			m[r[:i]] = r[i+3:]
		}
	}
	return m
}
