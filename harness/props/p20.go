package props

import (
	"fmt"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/ext/dynblock"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/zclconf/go-cty/cty"
)

func init() {
	register(&mon.Prop{
		ID: "P20",
		Rule: "bodies with dynamic blocks made from decoding specifications, over collections of all kinds, nested, with iterators that hide variables and each other, in native, JSON, packed, merged and transformed form; " +
			"the value of the expanded body is compared with the reference decoding of the literal blocks it stands for, with known and unknown collections and faulty definitions; distinct = (form, specification shape, body shape)",
		Assumptions: []string{
			"labels that depend on an unknown collection are an error, as documented, and aren't judged",
			"constraints on the number of blocks count a block for an unknown collection once",
		},
		Quick:    50000,
		Thorough: 400000,
		Require:  []string{"value as for literal blocks", "error as expected", "value in parts", "blocks generated", "nested generated", "unknown collection", "hidden name", "read as content", "attributes of the rest", "blocks left with the attributes", "attribute delivered in parts", "attribute in place"},
		Run:      runP20,
	})
}

// noDynamicSpec renames items whose name has a meaning when expanding.
func noDynamicSpec(s *gen.Spec) {
	if s.Name == "dynamic" {
		s.Name = "dynamic_"
	}
	for _, k := range s.Kids {
		noDynamicSpec(k)
	}
}

// dynStats counts dynamic blocks.
func dynStats(c *mon.Case, b *gen.Body, env *gen.Env, in []string) {
	for _, it := range b.Items {
		if it.Dyn != nil {
			n := it.Dyn.Iterator(it.Name)
			for _, o := range in {
				if o == n {
					c.Event("hidden name")
				}
			}
			for e := env; e != nil; e = e.Parent {
				if _, ok := e.Vars[n]; ok {
					c.Event("hidden name")
				}
			}
			if len(in) > 0 {
				c.Event("nested generated")
			}
			dynStats(c, it.Dyn.Content, env, append(in[:len(in):len(in)], n))
		} else if it.Body != nil {
			dynStats(c, it.Body, env, in)
		}
	}
}

func runP20(c *mon.Case) {
	base := gen.NewEnv(c.Rand)
	root := &gen.Env{Vars: map[string]cty.Value{}}
	g := &gen.G{R: c.Rand, Env: base, Hostile: 60}
	o := gen.SpecBodyOpts{Dynamic: c.Range(1, 4), DynMixed: c.Chance(1, 3), Root: root}
	if c.Chance(1, 3) {
		o.Faults = c.Range(5, 30)
		o.Once = c.Bool()
		g.Sure = o.Once
		o.Mixed = o.DynMixed
	}
	var s *gen.Spec
	var b *gen.Body
	for try := 0; try < 8 && (b == nil || !b.HasDyn()); try++ {
		if c.Chance(1, 8) {
			s = gen.GenSpecNest(g, c.Range(2, 4))
		} else {
			s = gen.GenSpec(g, c.Range(1, 3))
		}
		noDynamicSpec(s)
		b = gen.GenSpecBody(g, s, o)
	}
	if !b.HasDyn() {
		c.Skip("no dynamic block")
	}
	partial := c.Chance(1, 4)
	if partial {
		for _, it := range b.Items {
			if it.Dyn != nil && it.Dyn.Fault == "type label missing" {
				it.Dyn.Fault = ""
			}
		}
	}
	env := &gen.Env{Vars: root.Vars, Parent: base}
	unknown := len(root.Vars) > 0 && !hasTransform(s) && c.Chance(1, 4)
	if unknown {
		env.Vars = map[string]cty.Value{}
		for _, n := range sortedVars(root.Vars) {
			env.Vars[n] = root.Vars[n]
			if c.Bool() {
				env.Vars[n] = cty.UnknownVal(root.Vars[n].Type())
				if c.Bool() {
					env.Vars[n] = cty.DynamicVal
				}
			}
		}
	}
	c.Input("scope", envStr(env))
	c.Input("specification", specStr(s))
	spec := decSpec(c, s)
	built := buildBodyForms(c, b.Lower(), env, 2, !o.DynMixed)
	x := b.Expand(env)
	dynStats(c, b, base, nil)

	var v cty.Value
	var diags hcl.Diagnostics
	ctx := evalCtx(env)
	body := dynblock.Expand(built.Body, ctx)
	checkPanic(c, "decoding", func() {
		if partial {
			v, _, diags = hcldec.PartialDecode(body, spec, ctx)
		} else {
			v, diags = hcldec.Decode(body, spec, ctx)
		}
	})
	if x.Unsure != "" {
		c.Skip(x.Unsure)
	}
	d := gen.RefDecode(s, x.Body, env, partial)
	if d.EmptyNested {
		c.Skip("empty nested map")
	}
	errs := append(x.Errs, d.Errs...)
	if d.Unsure != "" && len(x.Errs) == 0 {
		c.Skip(d.Unsure)
	}
	if x.StoodIn > 0 && len(errs) > 0 {
		c.Skip("error with an unknown collection")
	}
	if len(errs) > 0 != diags.HasErrors() {
		c.Failf("reported: %s\nexpected: %s\nvalue: %s\nform: %s", diagStr(diags), strings.Join(errs, "; "), valStr(v), built.desc)
	}
	c.Sig(built.desc, s.Shape(), b.Lower().Shape(), len(errs) > 0)
	if len(errs) > 0 {
		c.Event("error as expected")
		return
	}
	if !gen.SameValue(v, d.Val) {
		c.Failf("decoded: %s\nexpected: %s\nform: %s", valStr(v), valStr(d.Val), built.desc)
	}
	c.Event("value as for literal blocks")
	c.Events("blocks generated", x.Blocks)
	if x.StoodIn > 0 {
		c.Event("unknown collection")
	}
	checkExpanded(c, body, s, x.Body, ctx)
	if !built.json {
		checkUnasked(c, dynblock.Expand(built.Body, ctx), s, b)
	}
	if !partial {
		decodeParts(c, dynblock.Expand(built.Body, ctx), s, ctx, v, built.desc)
	}
	c.Sample(fmt.Sprintf("%s  %s with %d blocks generated, to  %s", built.desc, clip(specStr(s), 120), x.Blocks, clip(valStr(v), 120)))
}

// decodeParts decodes a body in two steps, each with some of the
// specification, which must give the same as decoding at once.
func decodeParts(c *mon.Case, body hcl.Body, s *gen.Spec, ctx *hcl.EvalContext, want cty.Value, desc string) {
	if s.Kind != gen.SObject || len(s.Kids) < 2 {
		return
	}
	part := [2]*gen.Spec{{Kind: gen.SObject}, {Kind: gen.SObject}}
	where := map[string]int{}
	for i, k := range s.Kids {
		p := c.Intn(2)
		for _, m := range k.SameBody() {
			if m.Name == "" {
				continue
			}
			if w, ok := where[m.Name]; ok {
				p = w
			}
		}
		for _, m := range k.SameBody() {
			if m.Name == "" {
				continue
			}
			if w, ok := where[m.Name]; ok && w != p {
				return
			}
			where[m.Name] = p
		}
		part[p].Keys = append(part[p].Keys, s.Keys[i])
		part[p].Kids = append(part[p].Kids, k)
	}
	var v0, v1 cty.Value
	var d0, d1 hcl.Diagnostics
	var rest hcl.Body
	checkPanic(c, "decoding in parts", func() {
		v0, rest, d0 = hcldec.PartialDecode(body, decSpec(c, part[0]), ctx)
		v1, d1 = hcldec.Decode(rest, decSpec(c, part[1]), ctx)
	})
	if d0.HasErrors() || d1.HasErrors() {
		c.Failf("decoding in parts fails: %s; %s\nform: %s", diagStr(d0), diagStr(d1), desc)
	}
	for p, v := range []cty.Value{v0, v1} {
		for _, k := range part[p].Keys {
			if !gen.SameValue(v.GetAttr(k), want.GetAttr(k)) {
				c.Failf("decoded in parts: %s: %s\nat once: %s\nform: %s", k, valStr(v.GetAttr(k)), valStr(want.GetAttr(k)), desc)
			}
		}
	}
	c.Event("value in parts")
}

// checkUnasked takes some of the items of an expanded body in one or two steps
// and lists the attributes of the rest, which must be those not asked for, with
// an error if there are blocks left, generated or not.
func checkUnasked(c *mon.Case, body hcl.Body, s *gen.Spec, b *gen.Body) {
	gone := map[string]bool{}
	for steps := c.Intn(3); steps > 0; steps-- {
		schema := &hcl.BodySchema{}
		for _, k := range s.SameBody() {
			if k.Name == "" || gone[k.Name] || c.Bool() {
				continue
			}
			gone[k.Name] = true
			if k.Kind == gen.SAttr {
				schema.Attributes = append(schema.Attributes, hcl.AttributeSchema{Name: k.Name})
			} else {
				schema.Blocks = append(schema.Blocks, hcl.BlockHeaderSchema{Type: k.Name, LabelNames: labelNames(k.NumLabels())})
			}
		}
		_, rest, diags := body.PartialContent(schema)
		if diags.HasErrors() {
			c.Failf("expanded body can't be read in part: %s", diagStr(diags))
		}
		body = rest
	}
	attrs, diags := body.JustAttributes()
	blocks, want := 0, 0
	for _, it := range b.Items {
		switch {
		case gone[it.Name]:
			if attrs[it.Name] != nil {
				c.Failf("attribute %s listed after it has been taken", it.Name)
			}
		case it.Dyn != nil || it.Body != nil:
			blocks++
		default:
			want++
			if attrs[it.Name] == nil {
				c.Failf("attribute %s isn't listed: %s", it.Name, diagStr(diags))
			}
		}
	}
	if len(attrs) != want {
		c.Failf("%d attributes listed, expected %d", len(attrs), want)
	}
	if diags.HasErrors() != (blocks > 0) {
		c.Failf("%d blocks left when listing attributes, taken %v: %s", blocks, gone, diagStr(diags))
	}
	c.Event("attributes of the rest")
	if blocks > 0 {
		c.Event("blocks left with the attributes")
	}
}

// checkExpanded reads an expanded body block by block and compares types and
// labels with the literal blocks.
func checkExpanded(c *mon.Case, body hcl.Body, s *gen.Spec, want *gen.Body, ctx *hcl.EvalContext) {
	schema := &hcl.BodySchema{}
	nested := map[string]*gen.Spec{}
	seen := map[string]bool{}
	for _, k := range s.SameBody() {
		if k.Name == "" || seen[k.Name] {
			continue
		}
		switch {
		case k.Kind == gen.SAttr:
			seen[k.Name] = true
			schema.Attributes = append(schema.Attributes, hcl.AttributeSchema{Name: k.Name})
		case k.IsBlock():
			seen[k.Name] = true
			nested[k.Name] = k
			schema.Blocks = append(schema.Blocks, hcl.BlockHeaderSchema{Type: k.Name, LabelNames: labelNames(k.NumLabels())})
		}
	}
	content, _, diags := body.PartialContent(schema)
	if diags.HasErrors() {
		c.Failf("expanded body can't be read: %s", diagStr(diags))
	}
	if content.MissingItemRange.Filename == "" || body.MissingItemRange().Filename == "" {
		c.Failf("no place for missing items in an expanded body")
	}
	attrPlaces(c, content.Attributes)
	if c.Bool() {
		content = readParts(c, body, schema, content, ctx)
	}
	for typ, k := range nested {
		var got []*hcl.Block
		var gotH, wantH []string
		var items []*gen.Item
		for _, blk := range content.Blocks {
			if blk.Type == typ {
				got = append(got, blk)
				gotH = append(gotH, fmt.Sprintf("%q", blk.Labels))
			}
		}
		for _, it := range want.Blocks() {
			if it.Name == typ {
				items = append(items, it)
				wantH = append(wantH, fmt.Sprintf("%q", labelTexts(it)))
			}
		}
		if strings.Join(gotH, " ") != strings.Join(wantH, " ") {
			c.Failf("blocks of type %s: %s\nexpected: %s", typ, gotH, wantH)
		}
		if k.Kind != gen.SBlockAttrs {
			for i := range got {
				checkExpanded(c, got[i].Body, k.Kids[0], items[i].Body, ctx)
			}
		} else {
			for i := range got {
				attrs, diags := got[i].Body.JustAttributes()
				if diags.HasErrors() || len(attrs) != len(items[i].Body.Attrs()) {
					c.Failf("block %s has %d attributes, expected %d: %s", typ, len(attrs), len(items[i].Body.Attrs()), diagStr(diags))
				}
				_, rest, _ := got[i].Body.PartialContent(&hcl.BodySchema{Attributes: []hcl.AttributeSchema{{Name: "absent_x"}}})
				more, diags := rest.JustAttributes()
				if diags.HasErrors() || len(more) != len(attrs) {
					c.Failf("the rest of block %s has %d attributes, expected %d: %s", typ, len(more), len(attrs), diagStr(diags))
				}
				sameAttrs(c, attrs, more, ctx)
				attrPlaces(c, attrs)
			}
		}
	}
	if len(content.Attributes) != countAsked(schema, want) {
		c.Failf("%d attributes found, expected %d", len(content.Attributes), countAsked(schema, want))
	}
	c.Event("read as content")
}

// attrPlaces checks that the expressions of attributes come after their names
// and that attributes span both.
func attrPlaces(c *mon.Case, attrs hcl.Attributes) {
	for n, a := range attrs {
		r := a.Expr.Range()
		if r.Filename != a.Range.Filename || r.Start.Byte <= a.NameRange.End.Byte || r.End.Byte > a.Range.End.Byte || a.NameRange.Start.Byte < a.Range.Start.Byte {
			c.Failf("attribute %s at %s-%d has its name at %s-%d and its expression at %s-%d", n, rngStr(a.Range), a.Range.End.Byte, rngStr(a.NameRange), a.NameRange.End.Byte, rngStr(r), r.End.Byte)
		}
		c.Event("attribute in place")
	}
}

// readParts reads an expanded body in two parts, which must deliver what
// reading it at once did.
func readParts(c *mon.Case, body hcl.Body, schema *hcl.BodySchema, whole *hcl.BodyContent, ctx *hcl.EvalContext) *hcl.BodyContent {
	var ps [2]hcl.BodySchema
	for _, a := range schema.Attributes {
		p := &ps[c.Intn(2)]
		p.Attributes = append(p.Attributes, a)
	}
	for _, b := range schema.Blocks {
		p := &ps[c.Intn(2)]
		p.Blocks = append(p.Blocks, b)
	}
	ret := &hcl.BodyContent{Attributes: hcl.Attributes{}}
	for i := range ps {
		content, rest, diags := body.PartialContent(&ps[i])
		if diags.HasErrors() {
			c.Failf("part %d of an expanded body can't be read: %s", i, diagStr(diags))
		}
		for n, a := range content.Attributes {
			ret.Attributes[n] = a
		}
		ret.Blocks = append(ret.Blocks, content.Blocks...)
		body = rest
	}
	sameAttrs(c, whole.Attributes, ret.Attributes, ctx)
	if g, w := len(ret.Attributes), len(whole.Attributes); g != w {
		c.Failf("%d attributes delivered in parts, expected %d", g, w)
	}
	return ret
}

// sameAttrs compares the values of attributes read in two ways.
func sameAttrs(c *mon.Case, want, got hcl.Attributes, ctx *hcl.EvalContext) {
	for n, a := range want {
		b := got[n]
		if b == nil {
			c.Failf("attribute %s isn't delivered in parts", n)
		}
		var v, w cty.Value
		var vd, wd hcl.Diagnostics
		if mon.Guard(func() { v, vd = a.Expr.Value(ctx) }) != "" {
			continue
		}
		if msg := mon.Guard(func() { w, wd = b.Expr.Value(ctx) }); msg != "" {
			c.Failf("attribute %s delivered in parts: %s", n, msg)
		}
		if vd.HasErrors() != wd.HasErrors() || !vd.HasErrors() && !v.RawEquals(w) {
			c.Failf("attribute %s is %s, delivered in parts %s %s", n, valStr(v), valStr(w), diagStr(wd))
		}
		c.Event("attribute delivered in parts")
	}
}

func countAsked(schema *hcl.BodySchema, b *gen.Body) int {
	n := 0
	for _, a := range schema.Attributes {
		if b.Attr(a.Name) != nil {
			n++
		}
	}
	return n
}
