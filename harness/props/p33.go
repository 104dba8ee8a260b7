package props

import (
	"fmt"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcltest"
	"github.com/zclconf/go-cty/cty"
)

func init() {
	register(&mon.Prop{
		ID: "P33",
		Rule: "mock bodies with the items of random configurations read by chains of partial extractions as in P09, and mock expressions (literals, variables, references, lists) next to the same expressions in native syntax: values, errors, variables and static views have to agree; " +
			"distinct = (body shape, split), (expression, outcome)",
		Assumptions: []string{"the elements of a mock list have one type, as it evaluates to a list", "ranges of mock expressions are made up"},
		Quick:       60000,
		Thorough:    800000,
		Require:     []string{"item delivered once", "something left reported", "missing reported", "literal", "literal list", "variable", "no variable", "reference", "list", "attributes made", "wrong labels reported", "static value"},
		Run:         runP33,
	})
}

func runP33(c *mon.Case) {
	env := gen.NewEnv(c.Rand)
	if c.Bool() {
		g := &gen.G{R: c.Rand, Env: env, Hostile: 40}
		b := gen.GenBody(g, gen.BodyOpts{MaxItems: c.Size(5, 12), Depth: c.Range(0, 3), ExprDepth: 1})
		evenLabels(c.Rand, b)
		repeatBlocks(c.Rand, g, b)
		src := gen.NewW(c.Rand).Config(b)
		c.Input("native", src)
		body := mockOf(c, parseNative(c, src).Body, b)
		mockLabels(c, body, b)
		split := chain(c, body, b, false, "root", 0)
		c.Sig(b.Shape(), split)
		c.Sample(split)
		return
	}
	c.Input("scope", envStr(env))
	ctx := evalCtx(env)
	if c.Chance(1, 10) {
		ctx = nil
	}
	exprs := map[string]hcl.Expression{}
	for n := c.Range(1, 4); n > 0; n-- {
		x := mockExpr(c, env, ctx, 2)
		exprs[gen.Word(c.Rand)] = x
	}
	attrs := hcltest.MockAttrs(exprs)
	if len(attrs) != len(exprs) {
		c.Failf("%d attributes made of %d expressions", len(attrs), len(exprs))
	}
	for n, x := range exprs {
		if at := attrs[n]; at == nil || at.Name != n || fmt.Sprintf("%#v", at.Expr) != fmt.Sprintf("%#v", x) {
			c.Failf("attribute %s made of %#v is %#v", n, x, at)
		}
	}
	c.Event("attributes made")
}

// mockLabels asks for blocks with the wrong number of labels.
func mockLabels(c *mon.Case, body hcl.Body, b *gen.Body) {
	attrs, blocks, labels := dupNames(b)
	if len(blocks) == 0 {
		return
	}
	k := c.Intn(len(blocks))
	full := &hcl.BodySchema{}
	for _, n := range attrs {
		full.Attributes = append(full.Attributes, hcl.AttributeSchema{Name: n})
	}
	for i, n := range blocks {
		l := labels[n]
		if i == k {
			if l++; l > 1 && c.Bool() {
				l -= 2
			}
		}
		full.Blocks = append(full.Blocks, hcl.BlockHeaderSchema{Type: n, LabelNames: labelNames(l)})
	}
	_, diags := body.Content(full)
	_, _, pdiags := body.PartialContent(full)
	if !diags.HasErrors() || !pdiags.HasErrors() {
		c.Failf("mock %s block with %d labels is accepted where %d are wanted", blocks[k], labels[blocks[k]], len(full.Blocks[k].LabelNames))
	}
	c.Event("wrong labels reported")
}

// mockOf makes a mock of a native body, to all depths.
func mockOf(c *mon.Case, body hcl.Body, b *gen.Body) hcl.Body {
	attrs, blocks, labels := dupNames(b)
	full := &hcl.BodySchema{}
	for _, n := range attrs {
		full.Attributes = append(full.Attributes, hcl.AttributeSchema{Name: n})
	}
	for _, n := range blocks {
		full.Blocks = append(full.Blocks, hcl.BlockHeaderSchema{Type: n, LabelNames: labelNames(labels[n])})
	}
	content, diags := body.Content(full)
	if diags.HasErrors() || len(content.Blocks) != len(b.Blocks()) {
		c.Failf("complete extraction failed: %d blocks, %s", len(content.Blocks), diagStr(diags))
	}
	for i, it := range b.Blocks() {
		content.Blocks[i].Body = mockOf(c, content.Blocks[i].Body, it.Body)
	}
	return hcltest.MockBody(content)
}

// mockExpr makes a mock expression and compares it with what it stands for.
func mockExpr(c *mon.Case, env *gen.Env, ctx *hcl.EvalContext, depth int) hcl.Expression {
	kind := c.Pick("literal", "variable", "reference", "list")
	if depth == 0 && kind == "list" {
		kind = "literal"
	}
	name := gen.Word(c.Rand)
	if c.Bool() {
		name = c.Pick("n", "s", "t", "l", "m", "objs", "nul")
	}
	var x hcl.Expression
	same := func(src string) {
		w, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", start)
		if diags.HasErrors() {
			c.Failf("%s rejected: %s", src, diagStr(diags))
		}
		wv, wdiags := w.Value(ctx)
		v, diags := x.Value(ctx)
		if diags.HasErrors() != wdiags.HasErrors() || !diags.HasErrors() && !v.RawEquals(wv) {
			c.Failf("mock of %s: %s\nnative: %s", src, outcomeStr(v, diags), outcomeStr(wv, wdiags))
		}
		vars, wvars := x.Variables(), w.Variables()
		if len(vars) != len(wvars) || len(vars) != 1 || !sameTravs(vars[0], wvars[0]) {
			c.Failf("mock of %s has %d variables, native %d", src, len(vars), len(wvars))
		}
		tr, diags := hcl.AbsTraversalForExpr(x)
		wtr, _ := hcl.AbsTraversalForExpr(w)
		if diags.HasErrors() || !sameTravs(tr, wtr) {
			c.Failf("mock of %s as a reference is %s (%s), native %s", src, travStr(tr), diagStr(diags), travStr(wtr))
		}
		rel, diags := hcl.RelTraversalForExpr(x)
		wrel, _ := hcl.RelTraversalForExpr(w)
		if diags.HasErrors() || !sameTravs(rel, wrel) {
			c.Failf("mock of %s as a relative reference is %s (%s), native %s", src, travStr(rel), diagStr(diags), travStr(wrel))
		}
		if g, w := hcl.ExprAsKeyword(x), hcl.ExprAsKeyword(w); g != w {
			c.Failf("mock of %s as a keyword is %q, native %q", src, g, w)
		}
		if _, diags := hcl.ExprList(x); !diags.HasErrors() {
			c.Failf("mock of %s is accepted as a list", src)
		}
		if wdiags.HasErrors() && kind == "variable" {
			c.Event("no variable")
		}
		c.Sig(kind, src, wdiags.HasErrors())
	}
	switch kind {
	case "literal":
		st := gen.Value(c.Rand, gen.Type(c.Rand, depth), 8)
		rng := hcl.Range{Filename: "t.hcl", Start: hcl.Pos{Line: 1, Column: 1 + c.Intn(5)}, End: hcl.Pos{Line: 2, Column: 3, Byte: 9}}
		static := hcl.StaticExpr(st, rng)
		if got, diags := static.Value(ctx); diags.HasErrors() || !got.RawEquals(st) || len(static.Variables()) > 0 || static.Range() != rng || static.StartRange() != rng {
			c.Failf("static expression of %s at %v: %s at %v, %d variables", valStr(st), rng, outcomeStr(got, diags), static.Range(), len(static.Variables()))
		}
		c.Event("static value")
		v := gen.Value(c.Rand, gen.Type(c.Rand, depth), 8)
		if c.Chance(1, 8) {
			v = cty.UnknownVal(v.Type())
		}
		x = hcltest.MockExprLiteral(v)
		got, diags := x.Value(ctx)
		if diags.HasErrors() || !got.RawEquals(v) {
			c.Failf("mock of the literal %s: %s", valStr(v), outcomeStr(got, diags))
		}
		if len(x.Variables()) != 0 {
			c.Failf("mock of the literal %s has variables", valStr(v))
		}
		list, diags := hcl.ExprList(x)
		want := v.IsKnown() && !v.IsNull() && (v.Type().IsListType() || v.Type().IsTupleType())
		if want == diags.HasErrors() {
			c.Failf("mock of the literal %s as a list: %s", valStr(v), diagStr(diags))
		}
		if want {
			if len(list) != v.LengthInt() {
				c.Failf("mock of the literal %s is a list of %d", valStr(v), len(list))
			}
			for i, e := range list {
				ev, diags := e.Value(ctx)
				if w := v.Index(cty.NumberIntVal(int64(i))); diags.HasErrors() || !ev.RawEquals(w) {
					c.Failf("mock of the literal %s has element %d %s", valStr(v), i, outcomeStr(ev, diags))
				}
			}
			c.Event("literal list")
		}
		if _, diags := hcl.AbsTraversalForExpr(x); !diags.HasErrors() {
			c.Failf("mock of the literal %s is accepted as a reference", valStr(v))
		}
		c.Sig(kind, fmt.Sprintf("%#v", v.Type()))
	case "variable":
		x = hcltest.MockExprVariable(name)
		same(name)
	case "reference":
		e := gen.Var(name)
		for n := c.Intn(3); n > 0; n-- {
			switch c.Intn(3) {
			case 0:
				e = &gen.Expr{Kind: gen.KAttr, Text: c.Pick("name", "n", "sub", "id", gen.Word(c.Rand)), X: []*gen.Expr{e}}
			case 1:
				e = &gen.Expr{Kind: gen.KIndex, X: []*gen.Expr{e, gen.Num(c.Pick("0", "1", "2"))}}
			default:
				e = &gen.Expr{Kind: gen.KIndex, X: []*gen.Expr{e, gen.Lit(gen.Word(c.Rand))}}
			}
		}
		src := gen.Source(e)
		if c.Bool() {
			x = hcltest.MockExprTraversalSrc(src)
		} else {
			t, diags := hclsyntax.ParseTraversalAbs([]byte(src), "t.hcl", start)
			if diags.HasErrors() {
				c.Failf("%s rejected: %s", src, diagStr(diags))
			}
			x = hcltest.MockExprTraversal(t)
		}
		same(src)
	case "list":
		ty := gen.Type(c.Rand, 1)
		elems := []hcl.Expression{} // nil is no list
		var vals []cty.Value
		errs, nvars := false, 0
		for n := c.Intn(4); n > 0; n-- {
			e := hcltest.MockExprLiteral(gen.Value(c.Rand, ty, 10))
			if c.Bool() {
				e = mockExpr(c, env, ctx, 0)
			}
			v, diags := e.Value(ctx)
			if !v.Type().Equals(ty) {
				continue
			}
			errs = errs || diags.HasErrors()
			vals = append(vals, v)
			elems = append(elems, e)
			nvars += len(e.Variables())
		}
		x = hcltest.MockExprList(elems)
		want := cty.ListValEmpty(cty.DynamicPseudoType)
		if len(vals) > 0 {
			want = cty.ListVal(vals)
		}
		v, diags := x.Value(ctx)
		if diags.HasErrors() != errs || !errs && !v.RawEquals(want) {
			c.Failf("mock list of %s: %s", valStr(want), outcomeStr(v, diags))
		}
		list, diags := hcl.ExprList(x)
		if diags.HasErrors() || len(list) != len(elems) {
			c.Failf("mock list of %d elements has %d: %s", len(elems), len(list), diagStr(diags))
		}
		for i, e := range list {
			if g, _ := e.Value(ctx); !g.RawEquals(vals[i]) {
				c.Failf("element %d of a mock list is %s, should be %s", i, valStr(g), valStr(vals[i]))
			}
		}
		if len(x.Variables()) != nvars {
			c.Failf("mock list has %d variables, its elements %d", len(x.Variables()), nvars)
		}
		c.Sig(kind, len(elems), errs)
	}
	c.Event(kind)
	return x
}
