package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "check" {
		checkMain(os.Args[2:])
		return
	}
	area := flag.String("area", "sim", "sim or qcache")
	repo := flag.String("repo", "/repo", "repository")
	specs := flag.String("specs", "/verif/contracts", "contract directory")
	only := flag.String("fn", "", "only functions whose name contains this")
	dump := flag.String("dump", "", "directory for SMT files")
	quick := flag.Int("quick", 5, "first-attempt seconds")
	slow := flag.Int("slow", 20, "fallback seconds")
	verbose := flag.Bool("v", false, "print every obligation")
	list := flag.Bool("list", false, "list functions")
	strat := flag.String("strategy", "/verif/contracts/strategy.json", "recorded strategies")
	record := flag.Bool("record", false, "record the strategies that worked")
	gen := flag.Bool("gen", false, "generate only")
	locals := flag.Bool("locals", false, "record the variables of all functions")
	mut := flag.String("mut", "", "contracts to try, comma separated: stop at the first failed obligation")
	inl := flag.Bool("inl", false, "list the functions each contract inlines")
	lean := flag.Bool("lean", false, "print the axioms as Lean propositions")
	workers := flag.Int("j", 8, "parallel queries")
	flag.Parse()
	t0 := time.Now()
	sp, err := loadSpec(*specs, *area)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	g, err := load(*repo, *area)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	g.spec = sp
	lp := filepath.Join(filepath.Dir(*strat), "locals.json")
	if *locals {
		g.saveLocals(lp, *area)
		return
	}
	g.known = loadLocals(lp, *area)
	if *list {
		for _, n := range g.fnNames() {
			fmt.Println(n)
		}
		return
	}
	st := loadStrategy(*strat)
	if *lean {
		fmt.Print(g.leanAxioms(map[string]bool{"joinStandard": true}))
		return
	}
	if *inl {
		for _, n := range sortedKeys(sp.Contracts) {
			if c := sp.Contracts[n]; c.Kind == "func" && !c.Trusted && g.allFns[strings.Split(n, "@")[0]] != nil {
				vc, _ := g.verifyFn(c)
				fmt.Println(n, strings.Join(sortedKeys(vc.inl), ","))
			}
		}
		return
	}
	if *mut != "" {
		g.tryMutant(strings.Split(*mut, ","), solveOpts{quick: *quick, slow: *slow, strategy: st}, *workers)
		return
	}
	newSt := map[string]map[string]string{}
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad, total := 0, 0
	run := func(vc *VC, err error, c *Contract) {
		if err != nil && c != nil && (len(c.Alts) > 0 || c.candidates() != nil) && !*gen {
			fmt.Println("   base:", err)
			vc.obls = []*Obl{{Name: "generation"}}
		} else if err != nil {
			fmt.Println("ERROR", err)
			bad++
			return
		}
		if *gen {
			fmt.Printf("%s: %d obligations\n", vc.name, len(vc.obls))
			return
		}
		termMu.Lock()
		ax := g.axiomFacts(vc)
		termMu.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			if len(vc.obls) != 1 || vc.obls[0].Goal != nil {
				vc.solveAll(vc.obls, ax, sem, solveOpts{quick: *quick, slow: *slow, dump: *dump, strategy: st})
			}
			if c != nil && !*record {
				for i, a := range c.alternatives(vc.loopN) {
					if all(vc.obls) {
						break
					}
					termMu.Lock()
					v, err := g.verifyFn(a)
					ax := g.axiomFacts(v)
					termMu.Unlock()
					if err != nil {
						fmt.Println("   alternative", i, err)
						continue
					}
					v.solveAll(v.obls, ax, sem, solveOpts{quick: *quick, slow: *slow, dump: *dump, strategy: st})
					nf, first := 0, ""
					for _, o := range v.obls {
						if o.Status != "ok" {
							nf++
							if first == "" {
								first = o.Name
							}
						}
					}
					fmt.Println("   alternative", i, a.LoopMap, nf, "fail:", first)
					if nf == 0 {
						vc = v
					}
				}
				if !all(vc.obls) {
					sv := func(vc *VC, o solveOpts) {
						termMu.Lock()
						ax := g.axiomFacts(vc)
						termMu.Unlock()
						vc.solveAll(vc.obls, ax, sem, o)
					}
					o := solveOpts{quick: *quick, slow: *slow, strategy: st}
					if v := g.houdini(c, func(*VC) {}, sv, o); v != nil {
						sv(v, o)
						nf, first := 0, ""
						for _, o := range v.obls {
							if o.Status != "ok" {
								nf++
								first = o.Name
							}
						}
						fmt.Println("   candidates", len(v.c.Houdini), nf, "fail:", first)
						if nf == 0 {
							vc = v
						}
					}
				}
			}
			mu.Lock()
			defer mu.Unlock()
			nf := 0
			mx := 0.0
			if *record {
				newSt[vc.name] = map[string]string{}
			}
			for _, o := range vc.obls {
				if *record && o.Status == "ok" && worthRecording(o) {
					newSt[vc.name][o.Name] = o.Solver
				}
				total++
				if o.Secs > mx {
					mx = o.Secs
				}
				if o.Status != "ok" {
					nf++
					bad++
				}
			}
			fmt.Printf("%-50s %4d obligations %3d failed  max %.1fs\n", vc.name, len(vc.obls), nf, mx)
			for _, o := range vc.obls {
				if o.Status != "ok" || *verbose {
					fmt.Printf("   %-6s %-10s %.2fs %s (%s) %s\n", o.Status, o.Solver, o.Secs, o.Name, o.Pos, o.Out)
				}
			}
		}()
	}
	for _, n := range sp.LemmaSeq {
		l := sp.Lemmas[n]
		if l.Axiom || !strings.Contains("lemma "+n, *only) {
			continue
		}
		termMu.Lock()
		vc, err := g.verifyLemma(l)
		termMu.Unlock()
		run(vc, err, nil)
	}
	for _, n := range sortedKeys(sp.Contracts) {
		c := sp.Contracts[n]
		if c.Optional && g.allFns[n] == nil {
			continue
		}
		if c.Kind != "func" || c.Trusted || !strings.Contains(n, *only) {
			continue
		}
		termMu.Lock()
		vc, err := g.verifyFn(c)
		termMu.Unlock()
		if vc != nil {
			for t := range vc.noTerm {
				fmt.Println("not proved:", t)
			}
		}
		run(vc, err, c)
	}
	wg.Wait()
	if *record {
		saveStrategy(*strat, newSt)
	}
	fmt.Printf("total %d obligations, %d failed, %.1fs\n", total, bad, time.Since(t0).Seconds())
	if bad > 0 {
		os.Exit(1)
	}
}

func all(os []*Obl) bool {
	for _, o := range os {
		if o.Status != "ok" {
			return false
		}
	}
	return true
}
