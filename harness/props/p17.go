package props

import (
	"fmt"
	"sort"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/hashicorp/hcl2/hclpack"
	"github.com/zclconf/go-cty/cty"
)

func init() {
	register(&mon.Prop{
		ID: "P17",
		Rule: "decoding specifications of every kind nested in each other, with bodies that fit them and bodies that break them, in native, JSON and packed form; results are compared with an independent model of decoding, " +
			"with the promised type, and what partial decoding leaves with what was not asked for; distinct = (form, specification shape, body shape)",
		Assumptions: []string{"an unknown value of unknown type conforms to every type where an error is reported"},
		Quick:       80000,
		Thorough:    600000,
		Require:     []string{"value as specified", "error as expected", "type as promised", "remainder exact", "implied schema exact", "nested specification exact", "partial value as specified"},
		Run:         runP17,
	})
}

// conforms is whether a value has the promised type; where any type is
// promised every type conforms. If loose is set, values of unknown type are
// accepted anywhere.
func conforms(v cty.Value, ty cty.Type, loose bool) bool {
	if loose && v.Type() == cty.DynamicPseudoType && !v.IsKnown() {
		return true
	}
	if !v.IsKnown() || v.IsNull() {
		return typeConforms(v.Type(), ty, loose)
	}
	vt := v.Type()
	switch {
	case ty == cty.DynamicPseudoType:
		return true
	case ty.IsObjectType():
		if !vt.IsObjectType() || len(vt.AttributeTypes()) != len(ty.AttributeTypes()) {
			return false
		}
		for n, t := range ty.AttributeTypes() {
			if !vt.HasAttribute(n) || !conforms(v.GetAttr(n), t, loose) {
				return false
			}
		}
		return true
	case ty.IsTupleType():
		if !vt.IsTupleType() || len(vt.TupleElementTypes()) != len(ty.TupleElementTypes()) {
			return false
		}
		for i, t := range ty.TupleElementTypes() {
			if !conforms(v.Index(cty.NumberIntVal(int64(i))), t, loose) {
				return false
			}
		}
		return true
	case ty.IsCollectionType():
		if ty.IsListType() != vt.IsListType() || ty.IsSetType() != vt.IsSetType() || ty.IsMapType() != vt.IsMapType() {
			return false
		}
		if v.LengthInt() == 0 {
			return typeConforms(vt, ty, loose)
		}
		for it := v.ElementIterator(); it.Next(); {
			_, e := it.Element()
			if !conforms(e, ty.ElementType(), loose) {
				return false
			}
		}
		return true
	}
	return vt.Equals(ty)
}

// conformsFlat is like conforms for values with errors, but lets empty maps
// have any type of element where maps of maps are promised.
func conformsFlat(v cty.Value, ty cty.Type) bool {
	if conforms(v, ty, true) {
		return true
	}
	if !v.IsKnown() || v.IsNull() || !v.CanIterateElements() {
		return false
	}
	if ty.IsMapType() && ty.ElementType().IsMapType() && v.Type().IsMapType() && v.LengthInt() == 0 {
		return true
	}
	vt := v.Type()
	switch {
	case ty.IsObjectType() && vt.IsObjectType() && len(vt.AttributeTypes()) == len(ty.AttributeTypes()):
	case ty.IsTupleType() && vt.IsTupleType() && len(vt.TupleElementTypes()) == len(ty.TupleElementTypes()):
	case ty.IsListType() && vt.IsListType(), ty.IsSetType() && vt.IsSetType(), ty.IsMapType() && vt.IsMapType():
	default:
		return false
	}
	i := 0
	for it := v.ElementIterator(); it.Next(); i++ {
		k, e := it.Element()
		switch {
		case ty.IsObjectType():
			if !ty.HasAttribute(k.AsString()) || !conformsFlat(e, ty.AttributeType(k.AsString())) {
				return false
			}
		case ty.IsTupleType():
			if !conformsFlat(e, ty.TupleElementType(i)) {
				return false
			}
		default:
			if !conformsFlat(e, ty.ElementType()) {
				return false
			}
		}
	}
	return true
}

// mapLevels is whether there is a map of several levels anywhere.
func mapLevels(s *gen.Spec) bool {
	if s.Kind == gen.SBlockMap && len(s.Labels) > 1 {
		return true
	}
	for _, k := range s.Kids {
		if mapLevels(k) {
			return true
		}
	}
	return false
}

func typeConforms(vt, ty cty.Type, loose bool) bool {
	switch {
	case ty == cty.DynamicPseudoType, loose && vt == cty.DynamicPseudoType:
		return true
	case ty.IsObjectType():
		if !vt.IsObjectType() || len(vt.AttributeTypes()) != len(ty.AttributeTypes()) {
			return false
		}
		for n, t := range ty.AttributeTypes() {
			if !vt.HasAttribute(n) || !typeConforms(vt.AttributeType(n), t, loose) {
				return false
			}
		}
		return true
	case ty.IsTupleType():
		if !vt.IsTupleType() || len(vt.TupleElementTypes()) != len(ty.TupleElementTypes()) {
			return false
		}
		for i, t := range ty.TupleElementTypes() {
			if !typeConforms(vt.TupleElementType(i), t, loose) {
				return false
			}
		}
		return true
	case ty.IsCollectionType():
		if ty.IsListType() != vt.IsListType() || ty.IsSetType() != vt.IsSetType() || ty.IsMapType() != vt.IsMapType() {
			return false
		}
		return typeConforms(vt.ElementType(), ty.ElementType(), loose)
	}
	return vt.Equals(ty)
}

func runP17(c *mon.Case) {
	env := gen.NewEnv(c.Rand)
	g := &gen.G{R: c.Rand, Env: env, Hostile: 40}
	var s *gen.Spec
	if c.Chance(1, 4) {
		s = gen.GenSpecDeep(g, c.Range(1, 3))
	} else {
		s = gen.GenSpec(g, c.Range(0, 3))
	}
	form := c.Pick("native", "native", "json", "packed")
	o := gen.SpecBodyOpts{}
	if c.Chance(2, 3) {
		o = gen.SpecBodyOpts{Faults: c.Range(4, 25), Mixed: form != "json", Once: c.Bool()}
		g.Sure = o.Once
	}
	b := gen.GenSpecBody(g, s, o)
	partial := c.Chance(1, 3)
	var extra []*gen.Item
	if partial {
		for i := 0; i < c.Intn(4); i++ {
			it := &gen.Item{Name: fmt.Sprintf("left%d", i)}
			if c.Bool() {
				it.X = g.Expr(gen.WAny, 2)
			} else {
				it.Labels = append(it.Labels, gen.Label{Text: "l"})
				it.Body = gen.GenBody(g, gen.BodyOpts{MaxItems: 2})
			}
			at := c.Intn(len(b.Items) + 1)
			b.Items = append(b.Items[:at:at], append([]*gen.Item{it}, b.Items[at:]...)...)
		}
	}
	asked := map[string]bool{}
	for _, k := range s.SameBody() {
		if k.Kind == gen.SAttr || k.IsBlock() {
			asked[k.Name] = true
		}
	}
	for _, it := range b.Items {
		if !asked[it.Name] {
			extra = append(extra, it)
		}
	}
	c.Input("scope", envStr(env))
	c.Input("specification", specStr(s))
	spec := decSpec(c, s)
	var body hcl.Body
	var src string
	switch form {
	case "json":
		src = gen.JSONText(c.Rand, gen.JSONBodyValue(c.Rand, b, gen.JSONOpts{}))
		c.Input(form, src)
		body = parseJSON(c, src).Body
	default:
		src = gen.NewW(c.Rand).Config(b)
		c.Input(form, src)
		body = parseNative(c, src).Body
		if form == "packed" {
			pb, diags := hclpack.PackNativeFile([]byte(src), "t.hcl", start)
			if diags.HasErrors() {
				c.Failf("well-formed configuration rejected: %s\nsource: %s", diagStr(diags), q(src))
			}
			body = pb
		}
	}

	var ity cty.Type
	checkPanic(c, "implied type", func() { ity = hcldec.ImpliedType(spec) })
	if want := gen.Implied(s); !ity.Equals(want) {
		c.Failf("implied type %#v, expected %#v", ity, want)
	}
	checkImpliedSchema(c, s, hcldec.ImpliedSchema(spec))
	checkChildTypes(c, s, spec)

	var v cty.Value
	var diags hcl.Diagnostics
	var rest hcl.Body
	d := gen.RefDecode(s, b, env, partial)
	msg := mon.Guard(func() {
		if partial {
			v, rest, diags = hcldec.PartialDecode(body, spec, evalCtx(env))
		} else {
			v, diags = hcldec.Decode(body, spec, evalCtx(env))
		}
	})
	// In a body with errors the model doesn't say which blocks are seen.
	if msg != "" && (d.EmptyNested || (len(d.Errs) > 0 || d.Unsure != "") && mapInMap(s, false)) && strings.Contains(msg, "inconsistent map element types") {
		c.Known("empty-nested-map", "a map of several levels without blocks has the type of one level only and crashes with others in a map: %s", clip(msg, 300))
		return
	}
	judgePanic(c, "decoding", msg)
	if d.EmptyNested {
		f := gen.RefDecodeFlat(s, b, env, partial)
		if d.Unsure != "" || f.Unsure != "" {
			c.Skip("empty nested map and " + d.Unsure + f.Unsure)
		}
		if len(f.Errs) == 0 && !diags.HasErrors() && !gen.SameValue(v, d.Val) && gen.SameValue(v, f.Val) {
			c.Known("empty-nested-map", "a map of several levels without blocks has the type of one level only: %s", clip(valStr(v), 300))
			return
		}
		if len(d.Errs) == 0 && len(f.Errs) > 0 && diags.HasErrors() {
			c.Known("empty-nested-map", "a map of several levels without blocks has the type of one level only and isn't consistent with others: %s", clip(diagStr(diags), 300))
			return
		}
		if len(d.Errs) > 0 && diags.HasErrors() {
			return
		}
	}
	if !conforms(v, ity, diags.HasErrors()) {
		if d.Unsure != "" && mapLevels(s) && conformsFlat(v, ity) {
			c.Known("empty-nested-map", "a map of several levels without blocks has the type of one level only: %s", clip(valStr(v), 300))
			return
		}
		c.Failf("%s doesn't conform to the promised type %#v\n%s\n%s: %s", valStr(v), ity, diagStr(diags), form, q(src))
	}
	c.Event("type as promised")
	if partial && rest != nil {
		checkLeft(c, rest, extra, form)
	}
	if d.Unsure != "" {
		c.Skip(d.Unsure)
	}
	if len(d.Errs) > 0 != diags.HasErrors() {
		c.Failf("reported: %s\nexpected: %s\nvalue: %s\n%s: %s", diagStr(diags), strings.Join(d.Errs, "; "), valStr(v), form, q(src))
	}
	if len(d.Errs) > 0 {
		c.Event("error as expected")
	} else {
		if !gen.SameValue(v, d.Val) {
			c.Failf("decoded: %s\nexpected: %s\n%s: %s", valStr(v), valStr(d.Val), form, q(src))
		}
		c.Event("value as specified")
		if partial {
			c.Event("partial value as specified")
		}
	}
	c.Sig(form, s.Shape(), b.Shape(), len(d.Errs) > 0)
	c.Sample(fmt.Sprintf("%s  %s  to  %s (%d errors)", clip(specStr(s), 120), clip(src, 120), clip(valStr(v), 120), len(diags)))
}

// mapInMap is whether there is a map of several levels somewhere in a map.
func mapInMap(s *gen.Spec, inMap bool) bool {
	if s.Kind == gen.SBlockMap {
		if inMap && s.NumLabels() > 1 {
			return true
		}
		inMap = true
	}
	for _, k := range s.Kids {
		if mapInMap(k, inMap) {
			return true
		}
	}
	return false
}

func hasTransform(s *gen.Spec) bool {
	if s.Kind == gen.STransExpr || s.Kind == gen.STransFunc {
		return true
	}
	for _, k := range s.Kids {
		if hasTransform(k) {
			return true
		}
	}
	return false
}

// checkImpliedSchema compares the schema of a specification with the items
// it mentions.
func checkImpliedSchema(c *mon.Case, s *gen.Spec, schema *hcl.BodySchema) {
	var got, want []string
	seen := map[string]bool{}
	add := func(l *[]string, s string) {
		if !seen[s] {
			seen[s] = true
			*l = append(*l, s)
		}
	}
	required := map[string]bool{}
	for _, k := range s.SameBody() {
		required[k.Name] = required[k.Name] || k.Kind == gen.SAttr && k.Required
	}
	for _, k := range s.SameBody() {
		switch {
		case k.Kind == gen.SAttr:
			add(&want, fmt.Sprintf("attribute %s %v", k.Name, required[k.Name]))
		case k.IsBlock():
			add(&want, fmt.Sprintf("block %s %d", k.Name, k.NumLabels()))
		}
	}
	seen = map[string]bool{}
	for _, a := range schema.Attributes {
		add(&got, fmt.Sprintf("attribute %s %v", a.Name, a.Required))
	}
	for _, h := range schema.Blocks {
		add(&got, fmt.Sprintf("block %s %d", h.Type, len(h.LabelNames)))
	}
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		c.Failf("implied schema: %s\nexpected: %s", got, want)
	}
	c.Event("implied schema exact")
}

// checkChildTypes compares the nested specifications by block type with the
// blocks that a specification mentions, to all depths.
func checkChildTypes(c *mon.Case, s *gen.Spec, spec hcldec.Spec) {
	got := hcldec.ChildBlockTypes(spec)
	want := map[string]*gen.Spec{}
	dup := map[string]bool{}
	for _, k := range s.SameBody() {
		if k.IsBlock() {
			dup[k.Name] = want[k.Name] != nil
			want[k.Name] = k
		}
	}
	for t := range got {
		if want[t] == nil {
			c.Failf("nested specification for %s, which isn't mentioned", t)
		}
	}
	for t, k := range want {
		if k.Kind == gen.SBlockAttrs {
			continue
		}
		if got[t] == nil {
			c.Failf("no nested specification for blocks %s", t)
		}
		if dup[t] {
			continue
		}
		if ty, w := hcldec.ImpliedType(got[t]), gen.Implied(k.Kids[0]); !ty.Equals(w) {
			c.Failf("nested specification for blocks %s has type %#v, expected %#v", t, ty, w)
		}
		checkImpliedSchema(c, k.Kids[0], hcldec.ImpliedSchema(got[t]))
		checkChildTypes(c, k.Kids[0], got[t])
		c.Event("nested specification exact")
	}
}

// checkLeft reads the remainder of partial decoding, which must have exactly
// the given items.
func checkLeft(c *mon.Case, rest hcl.Body, extra []*gen.Item, form string) {
	schema := &hcl.BodySchema{}
	attrs, blocks := 0, 0
	for i, it := range extra {
		drop := c.Chance(1, 3)
		if it.X != nil {
			attrs++
			if !drop {
				schema.Attributes = append(schema.Attributes, hcl.AttributeSchema{Name: it.Name, Required: c.Bool()})
			}
		} else {
			blocks++
			if !drop {
				schema.Blocks = append(schema.Blocks, hcl.BlockHeaderSchema{Type: it.Name, LabelNames: make([]string, len(it.Labels))})
			}
		}
		if drop {
			_, diags := rest.Content(schema)
			if i == len(extra)-1 && !diags.HasErrors() {
				c.Failf("no error for %s in the remainder, which isn't asked for", it.Name)
			}
			if it.X != nil {
				schema.Attributes = append(schema.Attributes, hcl.AttributeSchema{Name: it.Name, Required: true})
			} else {
				schema.Blocks = append(schema.Blocks, hcl.BlockHeaderSchema{Type: it.Name, LabelNames: make([]string, len(it.Labels))})
			}
		}
	}
	content, diags := rest.Content(schema)
	if diags.HasErrors() || len(content.Attributes) != attrs || len(content.Blocks) != blocks {
		c.Failf("remainder should have %d attributes and %d blocks, but has %d and %d: %s", attrs, blocks, len(content.Attributes), len(content.Blocks), diagStr(diags))
	}
	c.Event("remainder exact")
}
