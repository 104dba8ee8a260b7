package props

import (
	"fmt"
	"sort"
	"strings"

	"verif/harness/mon"
)

func init() {
	register(&mon.Prop{
		ID: "P24",
		Rule: "histories of 14 read operations (of about 30 kinds) over one set of shared files, bodies, specifications, schemas, scopes, functions, values and diagnostics; each outcome is compared with that of the same operation on an untouched copy of the set, " +
			"and everything that callers can see of the inputs is compared before and after; distinct = (sequence of kinds)",
		Assumptions: []string{
			"only what callers can see of the inputs counts: private parts may change, for instance to remember results",
			"messages are compared by summary and place, since details depend on the order of map iteration",
		},
		Quick:    3000,
		Thorough: 60000,
		Require:  []string{"same as on an untouched copy", "inputs unchanged", "repeated", "kept contents: true"},
		Run:      runP24,
	})
}

func runP24(c *mon.Case) {
	seed := c.Seed
	w := newWorld(c, seed)
	kept := w.keep()
	before := w.inputs()
	var ops []wop
	var names []string
	for i := 0; i < 12; i++ {
		if i > 0 && c.Chance(1, 5) {
			ops = append(ops, ops[c.Intn(len(ops))])
			c.Event("repeated")
			continue
		}
		ops = append(ops, pickOp(c.Rand))
	}
	for _, op := range ops {
		names = append(names, op.name)
	}
	c.Input("operations", strings.Join(names, "\n"))
	outs := make([]string, len(ops))
	for i, op := range ops {
		outs[i] = doOp(w, op)
		c.Event("did: " + op.name)
	}
	after := w.inputs()
	var ks []string
	for k := range before {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if before[k] != after[k] {
			a, b := firstDiff(before[k], after[k])
			c.Failf("%s changed by reading\nbefore: %s\nafter: %s\noperations: %s", k, a, b, strings.Join(names, ", "))
		}
	}
	c.Event("inputs unchanged")
	if a, b, changed := kept.changed(); changed {
		c.Failf("content that a body delivered was changed by its reader\nbefore: %s\nafter: %s\noperations: %s", a, b, strings.Join(names, ", "))
	}
	c.Event(fmt.Sprintf("kept contents: %v", len(kept.all) > 0))
	for i, op := range ops {
		fresh := newWorld(c, seed)
		fresh.keep()
		want := doOp(fresh, op)
		for _, out := range []string{want, outs[i]} {
			if strings.HasPrefix(out, libCrash) {
				c.Known("cty-convert-panic", "%s: %s", op.name, out[len(libCrash):])
				c.Skip("crash in the conversion library")
			}
		}
		if want != outs[i] {
			a, b := firstDiff(outs[i], want)
			c.Failf("%s after %d other operations gives: %s\non an untouched copy: %s\noperations: %s", op.name, i, a, b, strings.Join(names, ", "))
		}
		c.Event("same as on an untouched copy")
	}
	c.Sig(strings.Join(names, " "))
	c.Sample(fmt.Sprintf("%s over %s", strings.Join(names, ", "), clip(string(w.src), 120)))
}

// firstDiff is where two texts differ.
func firstDiff(a, b string) (string, string) {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := i - 150
	if from < 0 {
		from = 0
	}
	return fmt.Sprintf("%d: %s", i, clip(a[from:], 500)), fmt.Sprintf("%d: %s", i, clip(b[from:], 500))
}
