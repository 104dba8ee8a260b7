// Package mon runs monitored cases and turns what was observed into verdicts
// and evidence.
package mon

import (
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"strings"
)

// Prop is one property with its workload and oracle.
type Prop struct {
	ID          string
	Rule        string   // how cases are made and what makes one non-trivial
	Assumptions []string // what the verdict relies on
	Quick       int      // cases in the quick tier
	Thorough    int      // cases in the thorough tier
	Race        bool     // run in the race-detecting binary
	Workers     int      // 0: one per core
	Require     []string // events without which a run is not valid
	Run         func(c *Case)
}

// Case is the context of one monitored case.
type Case struct {
	*Rand
	Prop  string
	Idx   int
	Tier  string
	Seed  uint64
	known map[string]bool // listed known findings of this property

	events  map[string]int
	sigs    []uint64
	inputs  []input
	samples []string
	hits    map[string]string // known findings observed
	skip    string
}

type input struct{ name, data string }

type failure struct{ msg string }

// Input notes something that a reader needs in order to reproduce the case.
func (c *Case) Input(name, data string) { c.inputs = append(c.inputs, input{name, data}) }

// Event counts an observation that a monitor made.
func (c *Case) Event(kind string) { c.events[kind]++ }

// Events counts n observations.
func (c *Case) Events(kind string, n int) { c.events[kind] += n }

// Sig notes a non-trivial behaviour signature; distinct ones are counted.
func (c *Case) Sig(parts ...interface{}) {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case string:
			h.Write([]byte(v))
		case []byte:
			h.Write(v)
		default:
			fmt.Fprint(h, v)
		}
		h.Write([]byte{0})
	}
	c.sigs = append(c.sigs, h.Sum64())
}

// Sample offers an example case for the evidence.
func (c *Case) Sample(s string) {
	if len(c.samples) < 2 {
		c.samples = append(c.samples, s)
	}
}

// Failf reports that the property does not hold and ends the case.
func (c *Case) Failf(format string, args ...interface{}) {
	panic(failure{fmt.Sprintf(format, args...)})
}

// Check is Failf unless ok.
func (c *Case) Check(ok bool, format string, args ...interface{}) {
	if !ok {
		c.Failf(format, args...)
	}
}

// Known reports a failure that the oracle has identified as exactly the
// listed known finding with the given name. If it isn't listed it's a
// violation like any other.
func (c *Case) Known(name, format string, args ...interface{}) {
	if !c.known[name] {
		c.Failf(format, args...)
	}
	if _, ok := c.hits[name]; !ok {
		c.hits[name] = fmt.Sprintf(format, args...)
	}
	c.Event("known-finding")
}

type skipped struct{}

// Skip abandons the case because the oracle can't judge it.
func (c *Case) Skip(why string) {
	c.skip = why
	panic(skipped{})
}

// Guard runs f and returns a description of the panic in it, if any.
func Guard(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case failure, skipped:
				panic(r)
			}
			msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	f()
	return ""
}

func trimStack(s string) string {
	// drop everything above the panic call
	if i := strings.Index(s, "panic("); i >= 0 {
		s = s[i:]
	}
	if len(s) > 4000 {
		s = s[:4000]
	}
	return s
}

// Outcome of one case
type outcome struct {
	msg string // non-empty: violation
}

func runCase(p *Prop, c *Case) (o outcome) {
	defer func() {
		if r := recover(); r != nil {
			switch v := r.(type) {
			case failure:
				o.msg = v.msg
			case skipped:
				c.events["skipped: "+c.skip]++
			default:
				o.msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
			}
		}
	}()
	p.Run(c)
	return
}

func newCase(p *Prop, seed uint64, idx int, tier string, known map[string]bool) *Case {
	return &Case{
		Rand:   NewRand(seed, p.ID, uint64(idx)),
		Prop:   p.ID,
		Idx:    idx,
		Seed:   seed,
		Tier:   tier,
		known:  known,
		events: map[string]int{},
		hits:   map[string]string{},
	}
}
