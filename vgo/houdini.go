package main

import (
	"regexp"
	"time"
)

var candRe = regexp.MustCompile(`^loopinv:loop\d+\.(candidate\d+_\d+)\.`)

// houdini verifies a function with candidate invariants: the obligations of the
// candidates are tried first and the candidates that fail are dropped, until all
// the remaining ones hold.  It returns nil when nothing is left to drop and
// generation fails.
func (g *Gen) houdini(c *Contract, mine func(*VC), solve func(vc *VC, opt solveOpts), opt solveOpts) *VC {
	k := c.candidates()
	if k == nil {
		return nil
	}
	until := time.Now().Add(90 * time.Second)
	opt.quick, opt.slow = 1, 2
	for round := 0; round < 12 && time.Now().Before(until); round++ {
		var vc *VC
		for try := 0; try < 4; try++ {
			// names that mean nothing drop their candidate; generate again without
			termMu.Lock()
			v, err := g.verifyFn(k)
			termMu.Unlock()
			if err != nil {
				return nil
			}
			if vc = v; !v.dropped {
				break
			}
		}
		mine(vc)
		full := vc.obls
		var cand []*Obl
		for _, o := range full {
			if candRe.MatchString(o.Name) {
				cand = append(cand, o)
			}
		}
		vc.obls = cand
		solve(vc, opt)
		vc.obls = full
		n := 0
		for _, o := range cand {
			if o.Status != "ok" {
				if m := candRe.FindStringSubmatch(o.Name)[1]; k.Houdini[m] {
					delete(k.Houdini, m)
					n++
				}
			}
		}
		if n == 0 {
			return vc
		}
	}
	return nil
}
