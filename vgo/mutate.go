package main

import (
	"fmt"
	"os"
	"sync/atomic"
)

// tryMutant verifies the named contracts and stops at the first obligation that
// is not discharged: exit 1 with its name, exit 0 if all are.
func (g *Gen) tryMutant(names []string, o solveOpts, workers int) {
	sem := make(chan struct{}, workers)
	for _, n := range names {
		c := g.spec.Contracts[n]
		if c == nil {
			fmt.Println("no contract", n)
			os.Exit(2)
		}
		vc, err := g.verifyFn(c)
		if err != nil {
			fmt.Println("killed:", n, err)
			os.Exit(1)
		}
		var bad int32
		o.stop = func() bool { return atomic.LoadInt32(&bad) != 0 }
		o.failed = func(b *Obl) {
			if atomic.CompareAndSwapInt32(&bad, 0, 1) {
				fmt.Println("killed:", n, b.Name)
			}
		}
		vc.solveAll(vc.obls, g.axiomFacts(vc), sem, o)
		if bad != 0 {
			os.Exit(1)
		}
	}
	fmt.Println("survived")
}
