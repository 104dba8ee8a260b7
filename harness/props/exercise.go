package props

import (
	"bytes"
	"fmt"
	"sort"

	"verif/harness/mon"

	"github.com/hashicorp/hcl2/ext/dynblock"
	"github.com/hashicorp/hcl2/ext/typeexpr"
	"github.com/hashicorp/hcl2/ext/userfunc"
	"github.com/hashicorp/hcl2/gohcl"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/zclconf/go-cty/cty"
)

// useExpr calls every operation of an expression.
func useExpr(c *mon.Case, x hcl.Expression, ctx *hcl.EvalContext) {
	if x == nil {
		c.Failf("missing expression")
	}
	x.Range()
	x.StartRange()
	for _, tr := range x.Variables() {
		useTraversal(tr, ctx)
	}
	for _, ec := range []*hcl.EvalContext{nil, ctx} {
		v, diags := x.Value(ec)
		if v == cty.NilVal && !diags.HasErrors() {
			c.Failf("no value and no error")
		}
		useDiags(c, diags, nil)
		c.Event("evaluated")
	}
	if tr, diags := hcl.AbsTraversalForExpr(x); !diags.HasErrors() {
		useTraversal(tr, ctx)
	}
	hcl.RelTraversalForExpr(x)
	hcl.ExprAsKeyword(x)
	if l, diags := hcl.ExprList(x); !diags.HasErrors() {
		for _, e := range l {
			e.Range()
		}
	}
	if m, diags := hcl.ExprMap(x); !diags.HasErrors() {
		for _, kv := range m {
			kv.Key.Value(nil)
			kv.Value.Range()
		}
	}
	hcl.ExprCall(x)
	hcl.UnwrapExpression(x)
	ty, diags := typeexpr.TypeConstraint(x)
	if !diags.HasErrors() {
		typeexpr.TypeString(ty)
	}
	typeexpr.Type(x)
}

func useTraversal(tr hcl.Traversal, ctx *hcl.EvalContext) {
	tr.SourceRange()
	if !tr.IsRelative() {
		tr.RootName()
		tr.TraverseAbs(nil)
		tr.TraverseAbs(ctx)
		tr.SimpleSplit().Join()
	}
}

// useTree calls every operation of the expressions in a native tree.
func useTree(c *mon.Case, n hclsyntax.Node, ctx *hcl.EvalContext) {
	count, size := 0, 0
	hclsyntax.VisitAll(n, func(n hclsyntax.Node) hcl.Diagnostics { size++; return nil })
	max := 40
	if size > 300 {
		max = 4
	}
	hclsyntax.VisitAll(n, func(n hclsyntax.Node) hcl.Diagnostics {
		n.Range()
		if x, ok := n.(hclsyntax.Expression); ok {
			count++
			if _, isKey := x.(*hclsyntax.AnonSymbolExpr); !isKey && count < max {
				useExpr(c, x, ctx)
			}
		}
		return nil
	})
	hclsyntax.Walk(n, nopWalker{})
}

type nopWalker struct{}

func (nopWalker) Enter(hclsyntax.Node) hcl.Diagnostics { return nil }
func (nopWalker) Exit(hclsyntax.Node) hcl.Diagnostics  { return nil }

// useDiags prints diagnostics in all ways.
func useDiags(c *mon.Case, diags hcl.Diagnostics, files map[string]*hcl.File) {
	if len(diags) == 0 {
		return
	}
	_ = diags.Error()
	diags.Errs()
	for i, d := range diags {
		if i > 8 {
			break
		}
		_ = d.Error()
		if d.Summary == "" {
			c.Failf("diagnostic without summary: %#v", d)
		}
	}
	if len(diags) > 12 {
		diags = append(append(hcl.Diagnostics(nil), diags[:8]...), diags[len(diags)-4:]...)
	}
	if files != nil {
		for _, w := range []uint{0, 1, 20, 78} {
			var b bytes.Buffer
			if err := hcl.NewDiagnosticTextWriter(&b, files, w, w == 20).WriteDiagnostics(diags); err != nil {
				c.Failf("printing diagnostics: %s", err)
			}
			if b.Len() == 0 {
				c.Failf("nothing printed")
			}
		}
		c.Event("diagnostics printed")
	}
}

type anyBlock struct {
	Labels []string
	Body   hcl.Body
}

// useBody reads a body in all ways. names are attribute and block names to
// ask for.
func useBody(c *mon.Case, body hcl.Body, ctx *hcl.EvalContext, names []string, depth int) {
	if body == nil {
		c.Failf("missing body")
	}
	body.MissingItemRange()
	attrs, diags := body.JustAttributes()
	useDiags(c, diags, nil)
	n := 0
	for _, k := range sortedAttrNames(attrs) {
		a := attrs[k]
		if n++; n > 20 {
			break
		}
		if a == nil || a.Expr == nil {
			c.Failf("attribute %q is missing its expression", k)
		}
		useExpr(c, a.Expr, ctx)
	}
	for variant := 0; variant < 3; variant++ {
		sch := &hcl.BodySchema{}
		for i, n := range names {
			switch {
			case variant == 2 || i%2 == variant:
				labels := []string{"a", "b", "c"}[:(i+c.Intn(2))%3]
				sch.Blocks = append(sch.Blocks, hcl.BlockHeaderSchema{Type: n, LabelNames: labels})
			default:
				sch.Attributes = append(sch.Attributes, hcl.AttributeSchema{Name: n, Required: i%5 == 0})
			}
		}
		content, diags := body.Content(sch)
		if content == nil {
			c.Failf("no content")
		}
		useDiags(c, diags, nil)
		content, remain, diags := body.PartialContent(sch)
		if content == nil || remain == nil && !diags.HasErrors() {
			c.Failf("no content or remaining body")
		}
		useDiags(c, diags, nil)
		for _, bl := range content.Blocks {
			if bl.Body == nil || len(bl.Labels) != len(bl.LabelRanges) {
				c.Failf("block %q is incomplete", bl.Type)
			}
			if depth > 0 {
				useBody(c, bl.Body, ctx, names, depth-1)
			}
		}
		content.Blocks.ByType()
		for _, a := range content.Attributes {
			if a.Expr == nil {
				c.Failf("attribute %q is missing its expression", a.Name)
			}
		}
		if remain != nil && variant == 0 {
			remain.JustAttributes()
			remain.Content(sch)
			remain.MissingItemRange()
		}
		c.Event("content read")
	}
}

// useDecoders runs the decoders and extensions over a body.
func useDecoders(c *mon.Case, body hcl.Body, ctx *hcl.EvalContext, names []string) {
	x := dynblock.Expand(body, ctx)
	useBody(c, x, ctx, names, 1)
	name := func(i int) string { return names[i%len(names)] }
	nested := hcldec.ObjectSpec{
		"any": &hcldec.AttrSpec{Name: name(0), Type: cty.DynamicPseudoType},
		"str": &hcldec.AttrSpec{Name: name(1), Type: cty.String},
	}
	k := c.Intn(100)
	spec := hcldec.ObjectSpec{
		"a": &hcldec.AttrSpec{Name: name(k), Type: cty.DynamicPseudoType},
		"n": &hcldec.AttrSpec{Name: name(k + 1), Type: cty.Number, Required: true},
		"l": &hcldec.AttrSpec{Name: name(k + 2), Type: cty.List(cty.String)},
	}
	switch c.Intn(7) {
	case 0:
		spec["b"] = &hcldec.BlockSpec{TypeName: name(k + 3), Nested: nested, Required: true}
	case 1:
		spec["b"] = &hcldec.BlockListSpec{TypeName: name(k + 3), Nested: &hcldec.AttrSpec{Name: name(k), Type: cty.String}}
	case 2:
		spec["b"] = &hcldec.BlockTupleSpec{TypeName: name(k + 3), Nested: nested}
	case 3:
		spec["b"] = &hcldec.BlockSetSpec{TypeName: name(k + 3), Nested: &hcldec.AttrSpec{Name: name(k), Type: cty.Number}}
	case 4:
		spec["b"] = &hcldec.BlockMapSpec{TypeName: name(k + 3), LabelNames: []string{"x"}, Nested: &hcldec.AttrSpec{Name: name(k), Type: cty.String}}
	case 5:
		spec["b"] = &hcldec.BlockObjectSpec{TypeName: name(k + 3), LabelNames: []string{"x", "y"}, Nested: nested}
	case 6:
		spec["b"] = &hcldec.BlockAttrsSpec{TypeName: name(k + 3), ElementType: cty.String}
	}
	for _, b := range []hcl.Body{body, x} {
		hcldec.Variables(b, spec)
		dynblock.VariablesHCLDec(b, spec)
		dynblock.ExpandVariablesHCLDec(b, spec)
		v, diags := hcldec.Decode(b, spec, ctx)
		if v == cty.NilVal && !diags.HasErrors() {
			c.Failf("decoding gave no value and no error")
		}
		useDiags(c, diags, nil)
		hcldec.PartialDecode(b, spec, ctx)
		hcldec.SourceRange(b, spec)
	}
	var t struct {
		A string            `hcl:"a,optional"`
		B *int              `hcl:"b"`
		X []string          `hcl:"x,optional"`
		V map[string]string `hcl:"value,optional"`
		F []struct {
			L string   `hcl:"l,label"`
			R hcl.Body `hcl:",remain"`
		} `hcl:"foo,block"`
		D *struct {
			Z cty.Value      `hcl:"z,optional"`
			R hcl.Attributes `hcl:",remain"`
		} `hcl:"dynamic,block"`
		R hcl.Body `hcl:",remain"`
	}
	useDiags(c, gohcl.DecodeBody(body, ctx, &t), nil)
	funcs, remain, diags := userfunc.DecodeUserFunctions(body, name(k+3), func() *hcl.EvalContext { return ctx })
	if remain == nil && !diags.HasErrors() {
		c.Failf("no remaining body and no error")
	}
	for _, f := range funcs {
		f.Call([]cty.Value{cty.StringVal("a")})
	}
	c.Event("decoded")
}

// bodyNames lists the names used in a native body, and some others.
func bodyNames(body *hclsyntax.Body) []string {
	seen := map[string]bool{"a": true, "b": true, "foo": true, "x": true, "dynamic": true, "content": true}
	var walk func(b *hclsyntax.Body, d int)
	walk = func(b *hclsyntax.Body, d int) {
		for n := range b.Attributes {
			seen[n] = true
		}
		for _, bl := range b.Blocks {
			seen[bl.Type] = true
			if d > 0 {
				walk(bl.Body, d-1)
			}
		}
	}
	walk(body, 3)
	var l []string
	for n := range seen {
		l = append(l, n)
	}
	sort.Strings(l)
	if len(l) > 60 {
		l = l[:60]
	}
	return l
}

func sortedAttrNames(attrs hcl.Attributes) []string {
	var l []string
	for k := range attrs {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

var _ = fmt.Sprint

func sortedVars(vars map[string]cty.Value) []string {
	var l []string
	for k := range vars {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
