package props

import (
	"fmt"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/hcl"
)

func init() {
	register(&mon.Prop{
		ID: "P09",
		Rule: "bodies in native, JSON and packed form, merged, expanded, transformed and combinations of these, read by chains of partial extractions that split the schema at random, in any order, to every depth; " +
			"each extraction is compared with the items in the model and with one complete extraction, before and after; distinct = (form, body shape, split)",
		Assumptions: []string{"the parts of the schema in one chain name different items, except that optional items may be asked for again"},
		Quick:       150000,
		Thorough:    2000000,
		Require:     []string{"item delivered once", "nothing left", "something left reported", "missing reported", "bare attributes of the remainder", "original still delivers all", "extraction repeated", "taken and thrown away", "asked again"},
		Run:         runP09,
	})
}

// part is one extraction of a chain.
type part struct {
	attrs  []string
	blocks []string
}

func runP09(c *mon.Case) {
	env := gen.NewEnv(c.Rand)
	g := &gen.G{R: c.Rand, Env: env, Hostile: 40}
	b := gen.GenBody(g, gen.BodyOpts{MaxItems: c.Size(5, 12), Depth: c.Range(0, 3), ExprDepth: 1})
	evenLabels(c.Rand, b)
	repeatBlocks(c.Rand, g, b)
	noDynamic(b)
	body := buildBody(c, b, env, c.Range(0, 3))
	split := chain(c, body.Body, b, body.json, "root", 0)
	c.Sig(body.desc, b.Shape(), split)
	c.Sample(body.desc + " " + split)
}

func dupNames(b *gen.Body) (attrs []string, blocks []string, labels map[string]int) {
	seen := map[string]bool{}
	labels = map[string]int{}
	for _, it := range b.Items {
		if seen[it.Name] {
			continue
		}
		seen[it.Name] = true
		if it.X != nil {
			attrs = append(attrs, it.Name)
		} else {
			blocks = append(blocks, it.Name)
			labels[it.Name] = len(it.Labels)
		}
	}
	return
}

func attrKey(a *hcl.Attribute) string {
	return fmt.Sprintf("%s %s %s", a.Name, a.NameRange, a.Expr.Range())
}

func blockKey(b *hcl.Block) string {
	return fmt.Sprintf("%s %q %s %s", b.Type, b.Labels, b.DefRange, b.LabelRanges)
}

// contentKey describes a whole content.
func contentKey(content *hcl.BodyContent) string {
	var out []string
	for _, n := range sortedAttrs(content.Attributes) {
		out = append(out, n+": "+attrKey(content.Attributes[n]))
	}
	for _, b := range content.Blocks {
		out = append(out, blockKey(b))
	}
	return strings.Join(out, "\n")
}

// chain reads a body in parts. It returns a description of the split.
func chain(c *mon.Case, body hcl.Body, b *gen.Body, json bool, path string, depth int) string {
	attrs, blocks, labels := dupNames(b)
	full := &hcl.BodySchema{}
	for _, n := range attrs {
		full.Attributes = append(full.Attributes, hcl.AttributeSchema{Name: n, Required: c.Bool()})
	}
	for _, n := range blocks {
		full.Blocks = append(full.Blocks, hcl.BlockHeaderSchema{Type: n, LabelNames: labelNames(labels[n])})
	}
	whole, diags := body.Content(full)
	if diags.HasErrors() {
		c.Failf("%s: complete extraction failed: %s", path, diagStr(diags))
	}
	wholeBy := whole.Blocks.ByType()
	if len(wholeBy) != len(blocks) {
		c.Failf("%s: blocks are grouped into %d types, expected %d", path, len(wholeBy), len(blocks))
	}
	for _, t := range append([]string{"absent"}, blocks...) {
		w := blockOrder(whole.Blocks, []string{t})
		if g := blockOrder(wholeBy[t], append([]string{"absent"}, blocks...)); g != w {
			c.Failf("%s: blocks grouped by type have as %s %s, expected %s", path, t, g, w)
		}
		if g := blockOrder(whole.Blocks.OfType(t), append([]string{"absent"}, blocks...)); g != w {
			c.Failf("%s: blocks of type %s are %s, expected %s", path, t, g, w)
		}
	}

	// split
	n := c.Range(1, 4)
	parts := make([]part, n)
	left := &gen.Body{}
	drop := c.Bool()
	leave := map[string]bool{}
	for _, a := range attrs {
		if drop && c.Chance(1, 4) {
			leave[a] = true
			continue
		}
		i := c.Intn(n)
		parts[i].attrs = append(parts[i].attrs, a)
	}
	for _, t := range blocks {
		if drop && c.Chance(1, 4) {
			leave[t] = true
			continue
		}
		i := c.Intn(n)
		parts[i].blocks = append(parts[i].blocks, t)
	}
	for _, it := range b.Items {
		if leave[it.Name] {
			left.Items = append(left.Items, it)
		}
	}
	split := fmt.Sprint(len(left.Items))
	cur := body
	taken := map[string]bool{}
	type step struct {
		body  hcl.Body
		sch   *hcl.BodySchema
		final bool
		key   string
		err   bool
	}
	var steps []step
	for i, p := range parts {
		split += fmt.Sprintf("/%da%db", len(p.attrs), len(p.blocks))
		schema := &hcl.BodySchema{}
		for _, a := range p.attrs {
			schema.Attributes = append(schema.Attributes, hcl.AttributeSchema{Name: a, Required: c.Bool()})
		}
		for _, t := range p.blocks {
			schema.Blocks = append(schema.Blocks, hcl.BlockHeaderSchema{Type: t, LabelNames: labelNames(labels[t])})
		}
		missing := false
		if c.Chance(1, 5) {
			r := c.Bool()
			missing = r
			schema.Attributes = append(schema.Attributes, hcl.AttributeSchema{Name: fmt.Sprintf("absent_%d", i), Required: r})
		}
		if c.Chance(1, 8) {
			schema.Blocks = append(schema.Blocks, hcl.BlockHeaderSchema{Type: fmt.Sprintf("absent_block_%d", i), LabelNames: labelNames(c.Intn(2))})
		}
		again := map[string]bool{}
		for _, it := range b.Items {
			if taken[it.Name] && !again[it.Name] && c.Chance(1, 8) {
				again[it.Name] = true
				c.Event("asked again")
				if it.X != nil {
					schema.Attributes = append(schema.Attributes, hcl.AttributeSchema{Name: it.Name})
				} else {
					schema.Blocks = append(schema.Blocks, hcl.BlockHeaderSchema{Type: it.Name, LabelNames: labelNames(labels[it.Name])})
				}
			}
		}
		before := schemaKey(schema)
		if c.Chance(1, 3) {
			// take something else from the same body and throw it away
			other := &hcl.BodySchema{}
			for _, a := range full.Attributes {
				if c.Chance(1, 3) {
					other.Attributes = append(other.Attributes, hcl.AttributeSchema{Name: a.Name})
				}
			}
			for _, t := range full.Blocks {
				if c.Chance(1, 3) {
					other.Blocks = append(other.Blocks, t)
				}
			}
			cur.PartialContent(other)
			c.Event("taken and thrown away")
		}
		final := i == len(parts)-1 && c.Bool()
		var content *hcl.BodyContent
		var remain hcl.Body
		if final {
			content, diags = cur.Content(schema)
			want := missing || len(left.Items) > 0
			if diags.HasErrors() != want {
				c.Failf("%s: the last extraction should%s report an error, %d items are left and missing is %v: %s\nschema: %+v", path, not(want), len(left.Items), missing, diagStr(diags), *schema)
			}
			if len(left.Items) > 0 {
				c.Event("something left reported")
			} else {
				c.Event("nothing left")
			}
		} else {
			content, remain, diags = cur.PartialContent(schema)
			if diags.HasErrors() != missing {
				c.Failf("%s: extraction %d should%s report an error: %s\nschema: %+v", path, i, not(missing), diagStr(diags), *schema)
			}
			if missing {
				c.Event("missing reported")
			}
			if remain == nil {
				c.Failf("%s: extraction %d has no remainder", path, i)
			}
		}
		steps = append(steps, step{cur, schema, final, contentKey(content), diags.HasErrors()})
		if g, w := content.MissingItemRange, whole.MissingItemRange; g != w {
			c.Failf("%s: extraction %d says that missing items go to %s, the complete one %s", path, i, g, w)
		}
		if schemaKey(schema) != before {
			c.Failf("%s: schema changed by extraction from %s to %s", path, before, schemaKey(schema))
		}
		// what was delivered
		for _, a := range sortedAttrs(content.Attributes) {
			if !has(p.attrs, a) {
				c.Failf("%s: extraction %d delivers attribute %s, which it didn't ask for or which was delivered before\nschema: %+v", path, i, a, *schema)
			}
		}
		for _, a := range p.attrs {
			got := content.Attributes[a]
			if got == nil {
				c.Failf("%s: extraction %d doesn't deliver attribute %s\nschema: %+v", path, i, a, *schema)
			}
			if attrKey(got) != attrKey(whole.Attributes[a]) {
				c.Failf("%s: extraction %d delivers %s rather than %s", path, i, attrKey(got), attrKey(whole.Attributes[a]))
			}
			c.Event("item delivered once")
		}
		by := content.Blocks.ByType()
		for t := range by {
			if !has(p.blocks, t) {
				c.Failf("%s: extraction %d delivers blocks %s, which it didn't ask for or which were delivered before\nschema: %+v", path, i, t, *schema)
			}
		}
		for _, t := range p.blocks {
			var items []*gen.Item
			for _, it := range b.Blocks() {
				if it.Name == t {
					items = append(items, it)
				}
			}
			if len(by[t]) != len(items) || len(wholeBy[t]) != len(items) {
				c.Failf("%s: %d blocks %s written, %d delivered by extraction %d, %d by the complete one", path, len(items), t, len(by[t]), i, len(wholeBy[t]))
			}
			for k, it := range items {
				if w, g := labelTexts(it), by[t][k].Labels; fmt.Sprintf("%q", w) != fmt.Sprintf("%q", g) {
					c.Failf("%s: block %s %d has labels %q, expected %q", path, t, k, g, w)
				}
				if g, w := blockKey(by[t][k]), blockKey(wholeBy[t][k]); g != w {
					c.Failf("%s: extraction %d delivers %s rather than %s", path, i, g, w)
				}
				c.Event("item delivered once")
				where := fmt.Sprintf("%s/%s[%d]", path, t, k)
				if depth < 3 {
					if c.Bool() {
						chain(c, by[t][k].Body, it.Body, json, where, depth+1)
					} else {
						chain(c, wholeBy[t][k].Body, it.Body, json, where, depth+1)
					}
				}
			}
		}
		// blocks of the asked types come in the order of the complete extraction
		if g, w := blockOrder(content.Blocks, p.blocks), blockOrder(whole.Blocks, p.blocks); g != w {
			c.Failf("%s: extraction %d delivers blocks in the order %s, the complete extraction in the order %s", path, i, g, w)
		}
		for _, a := range p.attrs {
			taken[a] = true
		}
		for _, t := range p.blocks {
			taken[t] = true
		}
		if final {
			cur = nil
		} else {
			cur = remain
		}
	}
	if cur != nil {
		nb := len(left.Blocks())
		if !json || nb == 0 {
			got, diags := cur.JustAttributes()
			if diags.HasErrors() != (nb > 0) {
				c.Failf("%s: listing the attributes of the remainder should%s report an error with %d blocks left: %s", path, not(nb > 0), nb, diagStr(diags))
			}
			if len(got) != len(left.Attrs()) {
				c.Failf("%s: the remainder lists attributes %s, expected %d", path, sortedAttrs(got), len(left.Attrs()))
			}
			for _, it := range left.Attrs() {
				if got[it.Name] == nil || attrKey(got[it.Name]) != attrKey(whole.Attributes[it.Name]) {
					c.Failf("%s: the remainder lists attributes %s, expected %s", path, sortedAttrs(got), it.Name)
				}
			}
			c.Event("bare attributes of the remainder")
		}
		if r := cur.MissingItemRange(); r.Start.Byte > r.End.Byte {
			c.Failf("%s: invalid range for missing items", path)
		}
	}
	for k := range steps {
		i := (k*7 + 3) % len(steps)
		st := steps[i]
		var content *hcl.BodyContent
		var diags hcl.Diagnostics
		if st.final {
			content, diags = st.body.Content(st.sch)
		} else {
			content, _, diags = st.body.PartialContent(st.sch)
		}
		if diags.HasErrors() != st.err || contentKey(content) != st.key {
			c.Failf("%s: extraction %d delivered\n%s\nat first and\n%s\nwhen repeated (%s)\nschema: %+v", path, i, st.key, contentKey(content), diagStr(diags), *st.sch)
		}
		c.Event("extraction repeated")
	}
	again, diags := body.Content(full)
	if diags.HasErrors() {
		c.Failf("%s: complete extraction failed when repeated: %s", path, diagStr(diags))
	}
	if g, w := contentKey(again), contentKey(whole); g != w {
		c.Failf("%s: complete extraction delivered\n%s\nat first and\n%s\nafter extraction in parts", path, w, g)
	}
	c.Event("original still delivers all")
	return split
}

func not(want bool) string {
	if want {
		return ""
	}
	return " not"
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func labelTexts(it *gen.Item) []string {
	var out []string
	for _, l := range it.Labels {
		out = append(out, l.Text)
	}
	return out
}

func blockOrder(bs hcl.Blocks, types []string) string {
	var out []string
	for _, b := range bs {
		if has(types, b.Type) {
			out = append(out, blockKey(b))
		}
	}
	return strings.Join(out, "; ")
}

func schemaKey(s *hcl.BodySchema) string { return fmt.Sprintf("%+v", *s) }
