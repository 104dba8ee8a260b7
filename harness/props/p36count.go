package props

import (
	"fmt"
	"strings"

	"verif/harness/mon"

	"github.com/hashicorp/hcl2/gohcl"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/zclconf/go-cty/cty"
)

// placeCount writes more blocks of a type than are allowed, among others. The
// problem is with those after the allowed ones.
func placeCount(c *mon.Case) {
	kinds := []string{"single", "attrs", "list", "tuple", "set", "map", "object", "go"}
	kind := kinds[c.Intn(len(kinds))]
	var nested hcldec.Spec
	names := []string{"a", "b"}
	same := c.Intn(2)
	switch c.Intn(3) {
	case 0:
		names = names[:1]
		nested = &hcldec.AttrSpec{Name: "a", Type: cty.Number}
	case 1:
		nested = hcldec.ObjectSpec{"a": &hcldec.AttrSpec{Name: "a", Type: cty.Number}, "b": &hcldec.AttrSpec{Name: "b", Type: cty.Number}}
	case 2:
		nested = &hcldec.DefaultSpec{Primary: &hcldec.AttrSpec{Name: "a", Type: cty.Number}, Default: &hcldec.AttrSpec{Name: "b", Type: cty.Number}}
	}
	max := 1
	labels := []string(nil)
	var spec hcldec.Spec
	switch kind {
	case "single":
		spec = &hcldec.BlockSpec{TypeName: "blk", Nested: nested, Required: c.Bool()}
	case "attrs":
		spec = &hcldec.BlockAttrsSpec{TypeName: "blk", ElementType: cty.Number, Required: c.Bool()}
	case "list":
		max = c.Range(1, 4)
		spec = &hcldec.BlockListSpec{TypeName: "blk", Nested: nested, MinItems: c.Intn(max + 1), MaxItems: max}
	case "tuple":
		max = c.Range(1, 4)
		spec = &hcldec.BlockTupleSpec{TypeName: "blk", Nested: nested, MinItems: c.Intn(max + 1), MaxItems: max}
	case "set":
		max = c.Range(1, 4)
		spec = &hcldec.BlockSetSpec{TypeName: "blk", Nested: nested, MinItems: c.Intn(max + 1), MaxItems: max}
	case "map", "object":
		max = c.Range(1, 4)
		labels = []string{"x"}
		if c.Bool() {
			labels = append(labels, "y")
		}
		if kind == "map" {
			spec = &hcldec.BlockMapSpec{TypeName: "blk", LabelNames: labels, Nested: nested}
		} else {
			spec = &hcldec.BlockObjectSpec{TypeName: "blk", LabelNames: labels, Nested: nested}
		}
	}
	extra := c.Range(1, 3)
	inJSON := c.Chance(1, 3)
	inner := c.Chance(1, 3) && kind != "go"
	var b strings.Builder
	var bad [][2]int
	if inJSON {
		if inner {
			b.WriteString(`{"top": `)
		}
		b.WriteString(`{"blk": [`)
	} else if inner {
		b.WriteString("top {\n")
	}
	for i := 0; i < max+extra; i++ {
		var ls []string
		for range labels {
			ls = append(ls, fmt.Sprint("k", i%max))
		}
		if len(ls) == 2 {
			// tell them apart by one label only
			ls[same] = "p"
		}
		var items []string
		for _, n := range names {
			if c.Chance(2, 3) {
				items = append(items, fmt.Sprintf("%s = %d", n, 10*i+c.Intn(10)))
			}
		}
		if inJSON {
			if i > 0 {
				b.WriteString(", ")
			}
			at := b.Len()
			for _, l := range ls {
				fmt.Fprintf(&b, `{%q: `, l)
			}
			b.WriteByte('{')
			for k, it := range items {
				if k > 0 {
					b.WriteByte(',')
				}
				fmt.Fprintf(&b, "%q: %s", it[:1], it[4:])
			}
			b.WriteByte('}')
			b.WriteString(strings.Repeat("}", len(ls)))
			if i >= max {
				bad = append(bad, [2]int{at, b.Len()})
			}
			continue
		}
		switch c.Intn(4) {
		case 0:
			b.WriteString("# é\n")
		case 1:
			if kind != "go" {
				b.WriteString("other {\n  a = 1\n}\n")
			}
		}
		at := b.Len()
		b.WriteString("blk ")
		for _, l := range ls {
			fmt.Fprintf(&b, "%q ", l)
		}
		b.WriteString("{\n")
		for _, it := range items {
			b.WriteString("  " + it + "\n")
		}
		b.WriteString("}")
		if i >= max {
			bad = append(bad, [2]int{at, b.Len()})
		}
		b.WriteString("\n")
	}
	file, mode := "t.hcl", 0
	if inJSON {
		file, mode = "t.hcl.json", -1
		b.WriteString("]}")
		if inner {
			b.WriteString("}")
		}
	} else if inner {
		b.WriteString("}\n")
	}
	src := b.String()
	c.Input("source", src)
	c.Input("kind", kind)
	var body hcl.Body
	if inJSON {
		f, diags := json.Parse([]byte(src), file)
		if diags.HasErrors() {
			c.Failf("well-formed JSON rejected: %s\nsource: %s", diagStr(diags), q(src))
		}
		body = f.Body
	} else {
		body = parseNative(c, src).Body
	}
	var diags hcl.Diagnostics
	if kind == "go" {
		if c.Bool() {
			var v struct {
				Blk struct {
					A *int `hcl:"a"`
					B *int `hcl:"b"`
				} `hcl:"blk,block"`
			}
			diags = gohcl.DecodeBody(body, nil, &v)
		} else {
			var v struct {
				Blk *struct {
					Remain hcl.Body `hcl:",remain"`
				} `hcl:"blk,block"`
				Remain hcl.Body `hcl:",remain"`
			}
			diags = gohcl.DecodeBody(body, nil, &v)
		}
	} else {
		spec = hcldec.TupleSpec{&hcldec.BlockTupleSpec{TypeName: "other", Nested: &hcldec.AttrSpec{Name: "a", Type: cty.Number}}, spec}
		if inner {
			spec = &hcldec.BlockSpec{TypeName: "top", Nested: spec}
		}
		_, diags = hcldec.Decode(body, spec, nil)
	}
	if !diags.HasErrors() {
		c.Failf("%d blocks too many for %s (maximum %d) but no error\nsource: %s", extra, kind, max, q(src))
	}
	rc := newRangeChecker(c, []byte(src), start, file, mode)
	rc.json = inJSON
	for _, d := range diags {
		if d.Subject == nil {
			c.Failf("%q doesn't say where\nsource: %s", d.Error(), q(src))
		}
		rc.check("problem", *d.Subject)
		in := false
		if inJSON && src[d.Subject.Start.Byte:d.Subject.End.Byte] == "[" {
			// stands for the header of all of the blocks of the array
			in = true
		}
		for _, sp := range bad {
			in = in || d.Subject.Start.Byte >= sp[0] && d.Subject.End.Byte <= sp[1]
		}
		if !in {
			c.Failf("only blocks after the %d allowed ones of %s are too many but the problem is placed at %q (byte %d)\nsource: %s", max, kind, src[d.Subject.Start.Byte:d.Subject.End.Byte], d.Subject.Start.Byte, q(src))
		}
		c.Event("extra block placed")
	}
	c.Sig("count", kind, max, extra, inJSON, inner, len(src))
	c.Sample(src)
}
