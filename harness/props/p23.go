package props

import (
	"strings"
	"sync"

	"verif/harness/mon"
)

func init() {
	register(&mon.Prop{
		ID: "P23",
		Rule: "several goroutines (3 to 8) run read operations (of about 30 kinds) at the same time over one set of shared files, bodies, specifications, schemas, scopes, functions, values and diagnostics, in a program built with the race detector; " +
			"each outcome is compared with that of the same operation alone on an untouched copy of the set; every report of the race detector is a violation; distinct = (kinds of the operations)",
		Assumptions: []string{
			"expressions with splat operators are evaluated in a scope of their own in each goroutine, as documented; everything else shares one scope",
			"the race detector sees unordered accesses of the executions that take place; goroutines are released together to make them overlap",
		},
		Quick:    1000,
		Thorough: 15000,
		Race:     true,
		Require:  []string{"same as alone", "shared scope", "own scopes", "did: read what was extracted before", "did: long splat"},
		Run:      runP23,
	})
}

func runP23(c *mon.Case) {
	seed := c.Seed
	var ops []wop
	var names []string
	kinds := c.Range(2, 5)
	for i := 0; i < kinds; i++ {
		ops = append(ops, pickOp(c.Rand))
		names = append(names, ops[i].name)
	}
	c.Input("operations", strings.Join(names, "\n"))
	w := newWorld(c, seed)
	if w.splat {
		c.Event("own scopes")
	} else {
		c.Event("shared scope")
	}
	want := make([]string, len(ops))
	for i, op := range ops {
		want[i] = doOp(newWorld(c, seed), op)
	}
	n := c.Range(3, 8)
	order := make([][]int, n)
	for i := range order {
		for k := 0; k < 3; k++ {
			order[i] = append(order[i], c.Intn(len(ops)))
		}
	}
	got := make([][]string, n)
	release := make(chan struct{})
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		i := i
		got[i] = make([]string, len(order[i]))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-release
			for k, o := range order[i] {
				got[i][k] = doOp(w, ops[o])
			}
		}()
	}
	close(release)
	wg.Wait()
	for i := range got {
		for k, o := range order[i] {
			for _, out := range []string{want[o], got[i][k]} {
				if strings.HasPrefix(out, libCrash) {
					c.Known("cty-convert-panic", "%s: %s", ops[o].name, out[len(libCrash):])
					c.Skip("crash in the conversion library")
				}
			}
			if got[i][k] != want[o] {
				a, b := firstDiff(got[i][k], want[o])
				c.Failf("%s at the same time as others gives: %s\nalone: %s\noperations: %s", ops[o].name, a, b, strings.Join(names, ", "))
			}
			c.Event("same as alone")
			c.Event("did: " + ops[o].name)
		}
	}
	c.Sig(strings.Join(names, " "))
	c.Sample(strings.Join(names, ", ") + " over " + clip(string(w.src), 120))
}
