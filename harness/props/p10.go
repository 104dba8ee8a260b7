package props

import (
	"fmt"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/zclconf/go-cty/cty"
)

func init() {
	register(&mon.Prop{
		ID: "P10",
		Rule: "lists of bodies in all forms, with shared and separate attribute names and block types, merged flat, nested and with empty bodies; read completely, partially and as bare attributes, and decoded; " +
			"the result is compared with the union of the attributes and the concatenation of the blocks in the model; distinct = (forms, shapes, grouping)",
		Assumptions: []string{"which of several definitions of one attribute is delivered is not specified, only that an error is reported"},
		Quick:       200000,
		Thorough:    1000000,
		Require:     []string{"place for missing items", "empty bodies merged", "union of attributes", "blocks in argument order", "duplicate reported", "required satisfied by any one", "missing reported", "unexpected content reported", "grouping makes no difference", "single and empty change nothing", "bare attributes", "decoded like one body"},
		Run:         runP10,
	})
}

func runP10(c *mon.Case) {
	env := gen.NewEnv(c.Rand)
	g := &gen.G{R: c.Rand, Env: env, Hostile: 40}
	n := c.Range(1, 4)
	if c.Chance(1, 20) {
		n = c.Range(5, 9)
	}
	share := c.Bool() // whether attributes may be shared
	var models []*gen.Body
	var bodies []builtBody
	used := map[string]string{}
	labels := map[string]int{}
	var desc []string
	anyJSON := false
	for i := 0; i < n; i++ {
		b := gen.GenBody(g, gen.BodyOpts{MaxItems: c.Size(3, 6), Depth: c.Range(0, 2), ExprDepth: 1})
		var items []*gen.Item
		for _, it := range b.Items {
			kind := "block"
			if it.X != nil {
				kind = "attr"
			}
			if k := used[it.Name]; k != "" && (k != kind || kind == "attr" && !share) {
				it.Name = fmt.Sprintf("%s_%s_%d", it.Name, kind, i)
				if used[it.Name] != "" {
					continue
				}
			}
			used[it.Name] = kind
			items = append(items, it)
			if kind == "block" {
				// all files must agree on the number of labels
				if l, ok := labels[it.Name]; ok {
					for len(it.Labels) < l {
						it.Labels = append(it.Labels, gen.GenLabel(c.Rand))
					}
					it.Labels = it.Labels[:l]
				} else {
					labels[it.Name] = len(it.Labels)
				}
				evenLabels(c.Rand, it.Body)
			}
		}
		b.Items = items
		noDynamic(b)
		models = append(models, b)
		bb := buildBody(c, b, env, c.Intn(2))
		bodies = append(bodies, bb)
		desc = append(desc, bb.desc)
		anyJSON = anyJSON || bb.json
	}
	all := &gen.Body{}
	count := map[string]int{}
	for _, b := range models {
		for _, it := range b.Items {
			all.Items = append(all.Items, it)
			if it.X != nil {
				count[it.Name]++
			}
		}
	}

	flat := make([]hcl.Body, n)
	for i, b := range bodies {
		flat[i] = b.Body
	}
	merged := hcl.MergeBodies(append([]hcl.Body(nil), flat...))
	if c.Bool() {
		var files []*hcl.File
		for _, b := range flat {
			files = append(files, &hcl.File{Body: b})
		}
		merged = hcl.MergeFiles(files)
	}
	grouping := ""
	nested := group(c, flat, &grouping)

	attrs, blocks, lab := dupNames(all)
	for round := 0; round < 2; round++ {
		schema := &hcl.BodySchema{}
		var left []string
		missing, dup := false, false
		for _, a := range attrs {
			if round == 0 && c.Chance(1, 6) {
				left = append(left, a)
				continue
			}
			req := c.Bool()
			schema.Attributes = append(schema.Attributes, hcl.AttributeSchema{Name: a, Required: req})
			dup = dup || count[a] > 1
			if req {
				c.Event("required satisfied by any one")
			}
		}
		for _, t := range blocks {
			if round == 0 && c.Chance(1, 6) {
				left = append(left, t)
				continue
			}
			schema.Blocks = append(schema.Blocks, hcl.BlockHeaderSchema{Type: t, LabelNames: labelNames(lab[t])})
		}
		if c.Chance(1, 6) {
			missing = c.Bool()
			schema.Attributes = append(schema.Attributes, hcl.AttributeSchema{Name: "absent_x", Required: missing})
		}
		if c.Chance(1, 6) {
			schema.Blocks = append(schema.Blocks, hcl.BlockHeaderSchema{Type: "absent_y"})
		}
		var first string
		for k, body := range []hcl.Body{merged, nested} {
			for _, partial := range []bool{false, true} {
				var content *hcl.BodyContent
				var remain hcl.Body
				var diags hcl.Diagnostics
				if partial {
					content, remain, diags = body.PartialContent(schema)
				} else {
					content, diags = body.Content(schema)
				}
				want := dup || missing || !partial && len(left) > 0
				if diags.HasErrors() != want {
					c.Failf("reading merged bodies should%s report an error (duplicates %v, missing %v, unexpected %q, partial %v): %s\nschema: %+v", not(want), dup, missing, left, partial, diagStr(diags), *schema)
				}
				if dup {
					c.Event("duplicate reported")
				}
				if missing {
					c.Event("missing reported")
				}
				if !partial && len(left) > 0 {
					c.Event("unexpected content reported")
				}
				checkMerged(c, content, schema, all)
				if content.MissingItemRange.Filename == "" || body.MissingItemRange().Filename == "" {
					c.Failf("no place for missing items in merged bodies")
				}
				c.Event("place for missing items")
				if !dup {
					if key := contentKey(content); first == "" {
						first = key
					} else if key != first {
						c.Failf("merged bodies deliver\n%s\nwith grouping %s, but\n%s\nwithout", key, grouping, first)
					}
				}
				if k == 1 {
					c.Event("grouping makes no difference")
				}
				if partial {
					checkMergedRest(c, remain, left, all, count, anyJSON)
				}
			}
		}
	}

	// a single body and an empty one
	i := c.Intn(n)
	a0, b0, l0 := dupNames(models[i])
	schema := &hcl.BodySchema{}
	for _, a := range a0 {
		schema.Attributes = append(schema.Attributes, hcl.AttributeSchema{Name: a, Required: c.Bool()})
	}
	for _, t := range b0 {
		schema.Blocks = append(schema.Blocks, hcl.BlockHeaderSchema{Type: t, LabelNames: labelNames(l0[t])})
	}
	orig, _ := flat[i].Content(schema)
	for _, one := range []hcl.Body{hcl.MergeBodies([]hcl.Body{flat[i]}), hcl.MergeBodies([]hcl.Body{hcl.EmptyBody(), flat[i], hcl.MergeBodies(nil)})} {
		got, diags := one.Content(schema)
		if diags.HasErrors() {
			c.Failf("a single body merged: %s", diagStr(diags))
		}
		if g, w := contentKey(got), contentKey(orig); g != w {
			c.Failf("a single body delivers\n%s\nwhen merged, otherwise\n%s", g, w)
		}
	}
	c.Event("single and empty change nothing")

	// decoding like one body
	spec := hcldec.ObjectSpec{}
	dup := false
	for _, a := range attrs {
		spec[a] = &hcldec.AttrSpec{Name: a, Type: cty.DynamicPseudoType, Required: c.Bool()}
		dup = dup || count[a] > 1
	}
	for _, t := range blocks {
		sub := hcldec.ObjectSpec{}
		for i := 0; i < lab[t]; i++ {
			sub[fmt.Sprint(i)] = &hcldec.BlockLabelSpec{Index: i, Name: "l"}
		}
		ok := true
		for _, it := range all.Blocks() {
			if it.Name == t && len(it.Body.Items) > 0 {
				ok = false
			}
		}
		if !ok {
			spec = nil
			break
		}
		spec[t] = &hcldec.BlockTupleSpec{TypeName: t, Nested: sub}
	}
	if spec != nil && !dup {
		ctx := evalCtx(env)
		src := gen.NewW(c.Rand).Config(all)
		var v1, v2 cty.Value
		var d1, d2 hcl.Diagnostics
		checkPanic(c, "decoding", func() { v1, d1 = hcldec.Decode(merged, spec, ctx) })
		checkPanic(c, "decoding", func() { v2, d2 = hcldec.Decode(parseNative(c, src).Body, spec, ctx) })
		if d1.HasErrors() != d2.HasErrors() || !d1.HasErrors() && !gen.SameValue(v1, v2) {
			c.Failf("merged bodies decode to %s %s\nas one body: %s %s", valStr(v1), diagStr(d1), valStr(v2), diagStr(d2))
		}
		c.Event("decoded like one body")
	}
	c.Sig(strings.Join(desc, "+"), all.Shape(), grouping)
	c.Sample(strings.Join(desc, " + ") + " as " + grouping)
}

// group merges bodies in nested groups, with empty bodies in between.
func group(c *mon.Case, bodies []hcl.Body, desc *string) hcl.Body {
	*desc += "("
	var l []hcl.Body
	for i := 0; i < len(bodies); {
		if c.Chance(1, 5) {
			*desc += "0"
			l = append(l, emptyBody(c, 2))
		}
		n := c.Range(1, len(bodies)-i)
		if n == len(bodies) && n > 1 {
			n--
		}
		if n == 1 {
			if c.Chance(1, 4) {
				*desc += "(x)"
				l = append(l, hcl.MergeBodies([]hcl.Body{bodies[i]}))
			} else {
				*desc += "x"
				l = append(l, bodies[i])
			}
		} else {
			l = append(l, group(c, bodies[i:i+n], desc))
		}
		i += n
	}
	*desc += ")"
	return hcl.MergeBodies(l)
}

// emptyBody makes a body without items.
func emptyBody(c *mon.Case, depth int) hcl.Body {
	if depth == 0 || c.Bool() {
		return hcl.EmptyBody()
	}
	var l []hcl.Body
	for n := c.Intn(3); n > 0; n-- {
		l = append(l, emptyBody(c, depth-1))
	}
	b := hcl.MergeBodies(l)
	b.MissingItemRange()
	content, diags := b.Content(&hcl.BodySchema{Attributes: []hcl.AttributeSchema{{Name: "a"}}, Blocks: []hcl.BlockHeaderSchema{{Type: "b"}}})
	_, rdiags := b.Content(&hcl.BodySchema{Attributes: []hcl.AttributeSchema{{Name: "a", Required: true}}})
	attrs, adiags := b.JustAttributes()
	if diags.HasErrors() || adiags.HasErrors() || len(content.Attributes)+len(content.Blocks)+len(attrs) > 0 || !rdiags.HasErrors() {
		c.Failf("%d empty bodies merged have %d attributes and %d blocks: %s%s%s", len(l), len(content.Attributes), len(content.Blocks), diagStr(diags), diagStr(adiags), diagStr(rdiags))
	}
	c.Event("empty bodies merged")
	return b
}

// checkMerged compares content with what the schema asks for in the model.
func checkMerged(c *mon.Case, content *hcl.BodyContent, schema *hcl.BodySchema, all *gen.Body) {
	asked := map[string]bool{}
	want := map[string]bool{}
	for _, a := range schema.Attributes {
		asked[a.Name] = true
	}
	for _, it := range all.Attrs() {
		if asked[it.Name] {
			want[it.Name] = true
			if a := content.Attributes[it.Name]; a == nil || a.Name != it.Name {
				c.Failf("attribute %s not delivered by the merged body", it.Name)
			}
		}
	}
	if len(content.Attributes) != len(want) {
		c.Failf("merged body delivers attributes %s, expected %d", sortedAttrs(content.Attributes), len(want))
	}
	c.Event("union of attributes")
	by := content.Blocks.ByType()
	total := 0
	for _, h := range schema.Blocks {
		var w []string
		for _, it := range all.Blocks() {
			if it.Name == h.Type {
				w = append(w, fmt.Sprintf("%q", labelTexts(it)))
			}
		}
		var g []string
		for _, b := range by[h.Type] {
			g = append(g, fmt.Sprintf("%q", b.Labels))
		}
		if strings.Join(g, " ") != strings.Join(w, " ") {
			c.Failf("blocks %s delivered by the merged body have labels %s, expected %s", h.Type, g, w)
		}
		// the nested bodies are those that belong there
		k := 0
		for _, it := range all.Blocks() {
			if it.Name != h.Type {
				continue
			}
			sub := by[h.Type][k].Body
			k++
			as, bs, ls := dupNames(it.Body)
			s := &hcl.BodySchema{}
			for _, a := range as {
				s.Attributes = append(s.Attributes, hcl.AttributeSchema{Name: a, Required: true})
			}
			for _, t := range bs {
				s.Blocks = append(s.Blocks, hcl.BlockHeaderSchema{Type: t, LabelNames: labelNames(ls[t])})
			}
			sc, diags := sub.Content(s)
			if diags.HasErrors() || len(sc.Attributes) != len(as) || len(sc.Blocks) != len(it.Body.Blocks()) {
				c.Failf("block %s %q delivered by the merged body doesn't have the content written: %s", h.Type, labelTexts(it), diagStr(diags))
			}
		}
		total += len(w)
	}
	if len(content.Blocks) != total {
		c.Failf("merged body delivers %d blocks, expected %d", len(content.Blocks), total)
	}
	if total > 1 {
		c.Event("blocks in argument order")
	}
}

// checkMergedRest reads the remainder of a merged body.
func checkMergedRest(c *mon.Case, rest hcl.Body, left []string, all *gen.Body, count map[string]int, anyJSON bool) {
	schema := &hcl.BodySchema{}
	blocks, dup := 0, false
	m := &gen.Body{}
	seen := map[string]bool{}
	for _, it := range all.Items {
		if !has(left, it.Name) {
			continue
		}
		m.Items = append(m.Items, it)
		if it.X == nil {
			blocks++
		}
		if seen[it.Name] {
			continue
		}
		seen[it.Name] = true
		if it.X != nil {
			dup = dup || count[it.Name] > 1
			schema.Attributes = append(schema.Attributes, hcl.AttributeSchema{Name: it.Name, Required: true})
		} else {
			schema.Blocks = append(schema.Blocks, hcl.BlockHeaderSchema{Type: it.Name, LabelNames: labelNames(len(it.Labels))})
		}
	}
	content, diags := rest.Content(schema)
	if diags.HasErrors() != dup {
		c.Failf("reading the remainder %q should%s report an error: %s", left, not(dup), diagStr(diags))
	}
	checkMerged(c, content, schema, m)
	if anyJSON && blocks > 0 {
		return
	}
	attrs, diags := rest.JustAttributes()
	if diags.HasErrors() != (dup || blocks > 0) {
		c.Failf("listing attributes of the remainder %q should%s report an error: %s", left, not(dup || blocks > 0), diagStr(diags))
	}
	if len(attrs) != len(schema.Attributes) {
		c.Failf("attributes of the remainder %q: got %s", left, sortedAttrs(attrs))
	}
	c.Event("bare attributes")
}
