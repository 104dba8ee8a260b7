package props

import (
	"fmt"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/ext/dynblock"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/zclconf/go-cty/cty"
)

func init() {
	register(&mon.Prop{
		ID: "P25",
		Rule: "random expressions, in native, JSON, packed, transformed and dynamically repeated form, with every static view of them and of what the views deliver; references applied to random values whole, split, joined and step by step; " +
			"references and damaged references parsed on their own and as expressions; distinct = (shape, form)",
		Assumptions: []string{
			"the views are syntactic: which expressions have them is derived from the model that the source was rendered from",
			"not judged: index keys that are constant without being a literal number or string; what a call view says about an expanded final argument",
			"true, false and null viewed as references are not evaluated",
		},
		Quick:    100000,
		Thorough: 500000,
		Require: []string{"reference", "reference applied", "list", "map", "call", "call applied", "refused", "keyword", "JSON list", "JSON map", "JSON reference", "JSON call",
			"parsed alone", "refused alone", "steps applied", "steps failed", "unwrapped", "wrapped", "literal judged"},
		Run: runP25,
	})
}

// wrapper is an application's wrapper around expressions.
type wrapper struct {
	hcl.Expression
	inner hcl.Expression
}

func (w wrapper) UnwrapExpression() hcl.Expression { return w.inner }

func runP25(c *mon.Case) {
	env := gen.NewEnv(c.Rand)
	ctx := evalCtx(env)
	c.Input("scope", envStr(env))
	g := &gen.G{R: c.Rand, Env: env, Hostile: c.Intn(3) * 30, NoStrip: true}
	for i := 0; i < 4; i++ {
		e := viewable(c, g, c.Size(2, 4))
		form := c.Pick("native", "native", "packed", "transformed", "repeated", "wrapped")
		src := gen.Source(e)
		if c.Bool() {
			src, _ = gen.RenderExpr(c.Rand, e)
		}
		if form == "transformed" || form == "repeated" {
			src = "(" + src + ")"
		}
		c.Input(form, src)
		var x hcl.Expression
		var diags hcl.Diagnostics
		if form == "repeated" {
			f := parseNative(c, "dynamic \"b\" {\n for_each = [1]\n iterator = zzz\n content {\n type = "+src+"\n}\n}\n")
			content, diags := dynblock.Expand(f.Body, ctx).Content(&hcl.BodySchema{Blocks: []hcl.BlockHeaderSchema{{Type: "b"}}})
			if diags.HasErrors() || len(content.Blocks) != 1 {
				c.Failf("expansion failed: %s\nsource: %s", diagStr(diags), q(src))
			}
			attrs, _ := content.Blocks[0].Body.JustAttributes()
			if attrs["type"] == nil {
				c.Failf("attribute missing in expansion\nsource: %s", q(src))
			}
			x = attrs["type"].Expr
		} else if form == "wrapped" {
			x, diags = exprIn(c, "native", src)
			for n := c.Range(1, 3); n > 0; n-- {
				x = wrapper{x, x}
			}
			no := wrapper{x, nil}
			if y := hcl.UnwrapExpression(no); y != hcl.Expression(no) {
				c.Failf("wrapper without an inner expression unwraps to %T", y)
			}
			if y := hcl.UnwrapExpressionUntil(no, func(hcl.Expression) bool { return false }); y != nil {
				c.Failf("wrapper without an inner expression unwraps to %T", y)
			}
			c.Event("wrapped")
		} else {
			x, diags = exprIn(c, form, src)
		}
		if diags.HasErrors() {
			c.Failf("well-formed expression rejected: %s\n%s: %s", diagStr(diags), form, q(src))
		}
		checkViews(c, x, e, env, ctx, form+": "+q(src))
		c.Sig(e.Shape(), form)
		c.Sample(src)
	}
	jsonViews(c, g, env, ctx)
	parseRefs(c, g)
	applySteps(c)
}

// viewable makes an expression for which some static view is likely.
func viewable(c *mon.Case, g *gen.G, depth int) *gen.Expr {
	switch c.Intn(8) {
	case 0, 1:
		return g.Expr(gen.Want(c.Intn(6)), depth)
	case 2:
		e := &gen.Expr{Kind: gen.KTuple}
		for n := c.Intn(4); n > 0 && depth > 0; n-- {
			e.X = append(e.X, viewable(c, g, depth-1))
		}
		return e
	case 3:
		e := &gen.Expr{Kind: gen.KObject}
		for n := c.Intn(4); n > 0 && depth > 0; n-- {
			switch c.Intn(4) {
			case 0:
				e.Keys = append(e.Keys, gen.KeyIdent)
				e.X = append(e.X, gen.Var(gen.Word(c.Rand)))
			case 1:
				e.Keys = append(e.Keys, gen.KeyStr)
				e.X = append(e.X, gen.Lit(gen.Word(c.Rand)))
			case 2:
				e.Keys = append(e.Keys, gen.KeyNum)
				e.X = append(e.X, gen.Num(c.Pick("1", "0", "12.5")))
			case 3:
				e.Keys = append(e.Keys, gen.KeyParen)
				e.X = append(e.X, g.Expr(gen.WStr, depth-1))
			}
			e.X = append(e.X, viewable(c, g, depth-1))
		}
		return e
	case 4:
		e := &gen.Expr{Kind: gen.KCall, Text: c.Pick("ident", "concat", "sum", "upper", "nosuch", "list", "object")}
		for n := c.Intn(4); n > 0 && depth > 0; n-- {
			e.X = append(e.X, viewable(c, g, depth-1))
		}
		if len(e.X) > 0 && c.Chance(1, 8) {
			e.Flag = true
		}
		return e
	default:
		return anyRef(c, g)
	}
}

// anyRef makes a reference, possibly one that leads nowhere.
func anyRef(c *mon.Case, g *gen.G) *gen.Expr {
	e := g.Expr(gen.WAny, 0)
	if e.Kind != gen.KVar && e.Kind != gen.KAttr && e.Kind != gen.KIndex && e.Kind != gen.KLegacy || c.Chance(1, 4) {
		e = gen.Var(gen.Word(c.Rand))
		if c.Chance(1, 8) {
			e = &gen.Expr{Kind: gen.KBool, Text: c.Pick("true", "false")}
		}
	}
	for n := c.Intn(4); n > 0; n-- {
		switch c.Intn(5) {
		case 0, 1:
			e = &gen.Expr{Kind: gen.KAttr, Text: gen.Word(c.Rand), X: []*gen.Expr{e}}
		case 2:
			e = &gen.Expr{Kind: gen.KIndex, X: []*gen.Expr{e, gen.Num(c.Pick("0", "1", "2", "1.5", "100000000000000000000"))}}
		case 3:
			e = &gen.Expr{Kind: gen.KIndex, X: []*gen.Expr{e, gen.Lit(c.Pick(gen.Word(c.Rand), gen.Word(c.Rand), "", "a b", "\n", "${", "é", "\"", "$"))}}
		case 4:
			if c.Chance(1, 4) {
				e = &gen.Expr{Kind: gen.KIndex, X: []*gen.Expr{e, g.Expr(gen.WAny, 1)}}
			} else if e.Kind != gen.KLegacy {
				e = &gen.Expr{Kind: gen.KLegacy, Text: c.Pick("0", "1", "2"), X: []*gen.Expr{e}}
			}
		}
	}
	return e
}

// refSteps gives the steps of a reference. It says whether there is one and
// whether that is certain.
func refSteps(e *gen.Expr) (t hcl.Traversal, is, sure bool) {
	switch e.Kind {
	case gen.KVar:
		return hcl.Traversal{hcl.TraverseRoot{Name: e.Text}}, true, true
	case gen.KBool:
		return hcl.Traversal{hcl.TraverseRoot{Name: e.Text}}, true, true
	case gen.KNull:
		return hcl.Traversal{hcl.TraverseRoot{Name: "null"}}, true, true
	case gen.KAttr, gen.KLegacy, gen.KIndex:
		t, is, sure = refSteps(e.X[0])
		if !is || !sure {
			return t, is, sure
		}
		switch e.Kind {
		case gen.KAttr:
			return append(t, hcl.TraverseAttr{Name: e.Text}), true, true
		case gen.KLegacy:
			return append(t, hcl.TraverseIndex{Key: gen.ParseNum(e.Text)}), true, true
		}
		k := e.X[1]
		switch k.Kind {
		case gen.KNum:
			return append(t, hcl.TraverseIndex{Key: gen.ParseNum(k.Text)}), true, true
		case gen.KStr:
			if len(k.Parts) == 1 && k.Parts[0].Kind == gen.PLit && k.Parts[0].Text != "" {
				return append(t, hcl.TraverseIndex{Key: cty.StringVal(k.Parts[0].Text)}), true, true
			}
			return nil, false, false
		case gen.KVar, gen.KCall, gen.KAttr, gen.KIndex, gen.KBin, gen.KTuple, gen.KObject:
			return nil, false, true
		}
		return nil, false, false
	}
	return nil, false, true
}

// sameTravs compares references, numbers by value.
func sameTravs(a, b hcl.Traversal) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, ok := a[i].(hcl.TraverseIndex)
		y, ok2 := b[i].(hcl.TraverseIndex)
		if ok && ok2 {
			if x.Key.Type() != y.Key.Type() || !gen.SameValue(x.Key, y.Key) {
				return false
			}
		} else if !sameSteps(a[i:i+1], b[i:i+1]) {
			return false
		}
	}
	return true
}

// checkViews compares all static views of an expression with the model.
func checkViews(c *mon.Case, x hcl.Expression, e *gen.Expr, env *gen.Env, ctx *hcl.EvalContext, desc string) {
	eval := func(x hcl.Expression) (v cty.Value, diags hcl.Diagnostics) {
		checkPanic(c, "evaluating", func() { v, diags = x.Value(ctx) })
		return
	}
	val, vdiags := eval(x)
	agree := func(what string, v cty.Value, diags hcl.Diagnostics) {
		if diags.HasErrors() != vdiags.HasErrors() || !diags.HasErrors() && !gen.SameValue(v, val) {
			c.Failf("%s: %s\nevaluating: %s\n%s", what, outcomeStr(v, diags), outcomeStr(val, vdiags), desc)
		}
	}

	// as a reference
	want, is, sure := refSteps(e)
	t, diags := hcl.AbsTraversalForExpr(x)
	rel, rdiags := hcl.RelTraversalForExpr(x)
	kw := hcl.ExprAsKeyword(x)
	if diags.HasErrors() != rdiags.HasErrors() {
		c.Failf("reference: absolute %s, relative %s\n%s", diagStr(diags), diagStr(rdiags), desc)
	}
	switch {
	case !sure:
		c.Event("unsure reference")
	case is && diags.HasErrors():
		c.Failf("reference refused: %s\n%s", diagStr(diags), desc)
	case !is && !diags.HasErrors():
		c.Failf("accepted as a reference: %s\n%s", travStr(t), desc)
	case !is:
		c.Event("refused")
		if kw != "" {
			c.Failf("keyword %q for an expression that is not one\n%s", kw, desc)
		}
	default:
		if !sameTravs(t, want) {
			c.Failf("reference is %s, should be %s\n%s", travStr(t), travStr(want), desc)
		}
		if len(rel) != len(t) || !sameTravs(rel[1:], t[1:]) {
			c.Failf("relative reference has %d steps, absolute %d\n%s", len(rel), len(t), desc)
		}
		if a, ok := rel[0].(hcl.TraverseAttr); !ok || a.Name != t.RootName() || a.SrcRange != t[0].SourceRange() || !rel.IsRelative() {
			c.Failf("relative reference does not begin with the attribute %s\n%s", t.RootName(), desc)
		}
		if len(t) == 1 && kw != t.RootName() || len(t) > 1 && kw != "" {
			c.Failf("keyword %q for the reference %s\n%s", kw, travStr(t), desc)
		}
		c.Event("reference")
		if len(t) == 1 {
			c.Event("keyword")
		}
		if root := t.RootName(); root == "true" || root == "false" || root == "null" {
			break
		}
		v, tdiags := t.TraverseAbs(ctx)
		agree("applying the reference", v, tdiags)
		checkSplit(c, t, ctx, v, tdiags, desc)
		c.Event("reference applied")
	}

	// unwrapped
	levels := 0
	inner := hcl.UnwrapExpressionUntil(x, func(y hcl.Expression) bool { levels++; return false })
	first := hcl.UnwrapExpressionUntil(x, func(y hcl.Expression) bool { return true })
	if inner != nil || first != x || levels < 1 {
		c.Failf("unwrapping until nothing gives %T, until anything %T after %d levels\n%s", inner, first, levels, desc)
	}
	n := 0
	inner = hcl.UnwrapExpressionUntil(x, func(y hcl.Expression) bool { n++; return n == levels })
	if w := hcl.UnwrapExpression(x); inner == nil || fmt.Sprintf("%T %v", inner, inner.Range()) != fmt.Sprintf("%T %v", w, w.Range()) {
		c.Failf("unwrapping to the last of %d levels gives %T, unwrapping %T\n%s", levels, inner, hcl.UnwrapExpression(x), desc)
	}
	v, wdiags := eval(inner)
	if levels == 1 {
		agree("unwrapped", v, wdiags)
	} else {
		c.Event("unwrapped")
	}
	if lit, ok := inner.(*hclsyntax.TemplateExpr); ok {
		plain := e.Kind == gen.KStr
		for _, p := range e.Parts {
			plain = plain && p.Kind == gen.PLit
		}
		if plain && !lit.IsStringLiteral() && len(lit.Parts) > 0 || !plain && e.Kind == gen.KStr && lit.IsStringLiteral() {
			c.Failf("string literal: %v\n%s", lit.IsStringLiteral(), desc)
		}
		c.Event("literal judged")
	}

	// as a list
	list, diags := hcl.ExprList(x)
	if (e.Kind == gen.KTuple) == diags.HasErrors() {
		c.Failf("as a list: %s\n%s", diagStr(diags), desc)
	}
	if e.Kind == gen.KTuple {
		if len(list) != len(e.X) {
			c.Failf("list of %d elements, should be %d\n%s", len(list), len(e.X), desc)
		}
		vals := []cty.Value{}
		var all hcl.Diagnostics
		for i, k := range list {
			v, diags := eval(k)
			vals = append(vals, v)
			all = append(all, diags...)
			checkViews(c, k, e.X[i], env, ctx, desc)
		}
		agree("list of elements", cty.TupleVal(vals), all)
		c.Event("list")
	}

	// as a map
	pairs, diags := hcl.ExprMap(x)
	if (e.Kind == gen.KObject) == diags.HasErrors() {
		c.Failf("as a map: %s\n%s", diagStr(diags), desc)
	}
	if e.Kind == gen.KObject {
		if len(pairs) != len(e.Keys) {
			c.Failf("map of %d pairs, should be %d\n%s", len(pairs), len(e.Keys), desc)
		}
		vals := map[string]cty.Value{}
		var all hcl.Diagnostics
		plain := true
		for i, p := range pairs {
			k, diags := eval(p.Key)
			all = append(all, diags...)
			switch e.Keys[i] {
			case gen.KeyIdent:
				if diags.HasErrors() || !k.RawEquals(cty.StringVal(e.X[2*i].Text)) || hcl.ExprAsKeyword(p.Key) != e.X[2*i].Text {
					c.Failf("key %s: %s, keyword %q\n%s", e.X[2*i].Text, outcomeStr(k, diags), hcl.ExprAsKeyword(p.Key), desc)
				}
			case gen.KeyStr:
				if hcl.ExprAsKeyword(p.Key) != "" {
					c.Failf("quoted key is keyword %q\n%s", hcl.ExprAsKeyword(p.Key), desc)
				}
			}
			v, diags := eval(p.Value)
			all = append(all, diags...)
			if !all.HasErrors() && k.IsWhollyKnown() && !k.IsNull() && (k.Type() == cty.String) {
				vals[k.AsString()] = v
			} else {
				plain = false // conversion of keys is not part of the view
			}
			checkViews(c, p.Value, e.X[2*i+1], env, ctx, desc)
		}
		if plain && !all.HasErrors() {
			agree("object of the pairs", cty.ObjectVal(vals), nil)
		} else if all.HasErrors() && !vdiags.HasErrors() {
			c.Failf("pairs: %s\nbut the whole is %s\n%s", diagStr(all), valStr(val), desc)
		}
		c.Event("map")
	}

	// as a call
	call, diags := hcl.ExprCall(x)
	if (e.Kind == gen.KCall) == diags.HasErrors() {
		if !(e.Kind == gen.KCall && e.Flag) {
			c.Failf("as a call: %s\n%s", diagStr(diags), desc)
		}
		return
	}
	if e.Kind == gen.KCall {
		if call.Name != e.Text || len(call.Arguments) != len(e.X) {
			c.Failf("call of %s with %d arguments, should be %s with %d\n%s", call.Name, len(call.Arguments), e.Text, len(e.X), desc)
		}
		fc := &hclsyntax.FunctionCallExpr{Name: call.Name}
		var all hcl.Diagnostics
		for i, a := range call.Arguments {
			v, diags := eval(a)
			all = append(all, diags...)
			fc.Args = append(fc.Args, &hclsyntax.LiteralValueExpr{Val: v})
			checkViews(c, a, e.X[i], env, ctx, desc)
		}
		if n := call.NameRange; n.End.Byte-n.Start.Byte != len(e.Text) || call.ArgsRange.Start.Byte < n.End.Byte || call.ArgsRange.End.Byte < call.ArgsRange.Start.Byte+2 {
			c.Failf("call at %v, arguments at %v\n%s", n, call.ArgsRange, desc)
		}
		c.Event("call")
		if !e.Flag {
			if all.HasErrors() {
				if !vdiags.HasErrors() {
					c.Failf("arguments: %s\nbut the call gives %s\n%s", diagStr(all), valStr(val), desc)
				}
			} else {
				v, diags := eval(fc)
				agree("calling with the arguments", v, diags)
				c.Event("call applied")
			}
		}
	}
}

// checkSplit checks the ways to split and join a reference.
func checkSplit(c *mon.Case, t hcl.Traversal, ctx *hcl.EvalContext, want cty.Value, wdiags hcl.Diagnostics, desc string) {
	same := func(what string, v cty.Value, diags hcl.Diagnostics) {
		if diags.HasErrors() != wdiags.HasErrors() || !diags.HasErrors() && !gen.SameValue(v, want) {
			c.Failf("%s: %s\nwhole: %s\nreference: %s\n%s", what, outcomeStr(v, diags), outcomeStr(want, wdiags), travStr(t), desc)
		}
	}
	s := t.SimpleSplit()
	if s.RootName() != t.RootName() || t.IsRelative() || !s.Rel.IsRelative() || s.Abs.IsRelative() {
		c.Failf("split of %s is wrong\n%s", travStr(t), desc)
	}
	v, diags := s.Traverse(ctx)
	same("split", v, diags)
	j := s.Join()
	if !sameTravs(j, t) || j.SourceRange() != t.SourceRange() {
		c.Failf("joined again: %s instead of %s\n%s", travStr(j), travStr(t), desc)
	}
	cut := c.Range(1, len(t))
	j = hcl.TraversalJoin(t[:cut], t[cut:])
	if !sameTravs(j, t) {
		c.Failf("joined again: %s instead of %s\n%s", travStr(j), travStr(t), desc)
	}
	// what is joined is no part of the result, and two results have nothing
	// to do with each other
	other := append(hcl.Traversal(nil), t[cut:]...)
	other = append(other, hcl.TraverseAttr{Name: "other"})
	if len(other) > 1 {
		other[0] = hcl.TraverseAttr{Name: "another"}
	}
	whole := append(make(hcl.Traversal, 0, len(t)+4), t...)
	first := hcl.TraversalJoin(whole[:cut], whole[cut:])
	second := hcl.TraversalJoin(whole[:cut], other)
	if !sameTravs(first, t) || !sameTravs(whole, t) || !sameTravs(second[cut:], other) || !sameTravs(second[:cut], t[:cut]) {
		c.Failf("%s joined with %s and again with %s gives %s and %s\n%s", travStr(t[:cut]), travStr(t[cut:]), travStr(other), travStr(first), travStr(second), desc)
	}
	c.Event("joined twice")
	v, diags = t[:cut].TraverseAbs(ctx)
	if !diags.HasErrors() {
		for _, step := range t[cut:] {
			v, diags = step.TraversalStep(v)
			if diags.HasErrors() {
				break
			}
		}
	}
	same("step by step", v, diags)
	v, diags = t[:1].TraverseAbs(ctx)
	if !diags.HasErrors() {
		v, diags = hcl.ApplyPath(v, pathOf(t[1:]), nil)
	}
	same("as a path", v, diags)
}

func pathOf(t hcl.Traversal) cty.Path {
	var p cty.Path
	for _, s := range t {
		switch s := s.(type) {
		case hcl.TraverseAttr:
			p = append(p, cty.GetAttrStep{Name: s.Name})
		case hcl.TraverseIndex:
			p = append(p, cty.IndexStep{Key: s.Key})
		}
	}
	return p
}

// jsonViews checks static views of JSON values.
func jsonViews(c *mon.Case, g *gen.G, env *gen.Env, ctx *hcl.EvalContext) {
	e := viewable(c, g, 3)
	attr := func(j interface{}) hcl.Expression {
		obj := &gen.JObj{}
		obj.Add("v", j)
		text := gen.JSONText(c.Rand, obj)
		c.Input("JSON", text)
		attrs, diags := parseJSON(c, text).Body.JustAttributes()
		if diags.HasErrors() || attrs["v"] == nil {
			c.Failf("JSON attribute missing: %s", diagStr(diags))
		}
		return attrs["v"].Expr
	}
	// structures
	j := gen.JSONExpr(c.Rand, e)
	checkJSONViews(c, attr(j), j, e, env, ctx)

	// text in native syntax
	src := gen.Source(e)
	x := attr(src)
	want, is, sure := refSteps(e)
	t, diags := hcl.AbsTraversalForExpr(x)
	if _, rerr := hclsyntax.ParseTraversalAbs([]byte(src), "t", start); is && sure && !rerr.HasErrors() {
		if diags.HasErrors() || !sameTravs(t, want) {
			c.Failf("JSON string as reference: %s, %s\nsource: %s", travStr(t), diagStr(diags), q(src))
		}
		c.Event("JSON reference")
		if kw := hcl.ExprAsKeyword(x); len(t) == 1 && kw != t.RootName() || len(t) > 1 && kw != "" {
			c.Failf("JSON string: keyword %q for %s", kw, q(src))
		}
	} else if !is && sure && !diags.HasErrors() {
		c.Failf("JSON string accepted as reference: %s\nsource: %s", travStr(t), q(src))
	}
	call, diags := hcl.ExprCall(x)
	if e.Flag && e.Kind == gen.KCall {
		return
	}
	if (e.Kind == gen.KCall) == diags.HasErrors() {
		c.Failf("JSON string as a call: %s\nsource: %s", diagStr(diags), q(src))
	}
	if e.Kind == gen.KCall {
		if call.Name != e.Text || len(call.Arguments) != len(e.X) {
			c.Failf("JSON call of %s with %d arguments, should be %s with %d\nsource: %s", call.Name, len(call.Arguments), e.Text, len(e.X), q(src))
		}
		for i, a := range call.Arguments {
			checkViews(c, a, e.X[i], env, ctx, "JSON "+q(src))
		}
		c.Event("JSON call")
	}
}

func checkJSONViews(c *mon.Case, x hcl.Expression, j interface{}, e *gen.Expr, env *gen.Env, ctx *hcl.EvalContext) {
	list, diags := hcl.ExprList(x)
	l, isList := j.([]interface{})
	if isList == diags.HasErrors() || isList && len(list) != len(l) {
		c.Failf("JSON value as a list: %d elements, %s", len(list), diagStr(diags))
	}
	pairs, diags := hcl.ExprMap(x)
	o, isMap := j.(*gen.JObj)
	if isMap == diags.HasErrors() || isMap && len(pairs) != len(o.Keys) {
		c.Failf("JSON value as a map: %d pairs, %s", len(pairs), diagStr(diags))
	}
	if _, isStr := j.(string); !isStr {
		t, tdiags := hcl.AbsTraversalForExpr(x)
		_, cdiags := hcl.ExprCall(x)
		if !tdiags.HasErrors() || !cdiags.HasErrors() || hcl.ExprAsKeyword(x) != "" {
			c.Failf("JSON value that is no string accepted as a reference (%s) or call", travStr(t))
		}
		c.Event("refused")
	}
	var v cty.Value
	checkPanic(c, "evaluating", func() { v, diags = x.Value(ctx) })
	switch {
	case isList:
		for i := range l {
			checkJSONViews(c, list[i], l[i], e.X[i], env, ctx)
		}
		c.Event("JSON list")
	case isMap:
		for i := range pairs {
			k, kdiags := pairs[i].Key.Value(ctx)
			want, werr := gen.Eval(e.X[2*i], env)
			if e.Keys[i] == gen.KeyIdent {
				want, werr = cty.StringVal(e.X[2*i].Text), nil
			}
			if werr != gen.ErrUnsure && (werr != nil != kdiags.HasErrors() || werr == nil && !gen.SameValue(k, want)) {
				c.Failf("key of JSON map: %s, should be %s", outcomeStr(k, kdiags), valStr(want))
			}
			checkJSONViews(c, pairs[i].Value, o.Vals[i], e.X[2*i+1], env, ctx)
		}
		c.Event("JSON map")
	default:
		want, werr := gen.Eval(e, env)
		if werr != gen.ErrUnsure && !unsureMode(e, env) {
			if (werr != nil) != diags.HasErrors() || werr == nil && !gen.SameValue(v, want) {
				c.Failf("JSON value: %s, should be %s (%v)", outcomeStr(v, diags), valStr(want), werr)
			}
		}
	}
}

// unsureMode says whether readings of the specification differ on an
// expression, about which the check of templates has more to say.
func unsureMode(e *gen.Expr, env *gen.Env) bool {
	found := false
	e.Walk(func(x *gen.Expr) {
		if x.Kind == gen.KHeredoc {
			found = true
		}
	})
	return found
}

// parseRefs compares references parsed on their own with those in expressions.
func parseRefs(c *mon.Case, g *gen.G) {
	for i := 0; i < 3; i++ {
		e := anyRef(c, g)
		src := gen.Source(e)
		if c.Bool() {
			src, _ = gen.RenderExpr(c.Rand, e)
		}
		if c.Chance(1, 3) && len(src) > 0 {
			// damage it
			at := c.Intn(len(src))
			switch c.Intn(3) {
			case 0:
				src = src[:at] + src[at+1:]
			case 1:
				src = src[:at] + c.Pick(".", "[", "]", "\"", "*", "0", " ", "\n", "${", "$", "\\", "-", "(", "a") + src[at:]
			case 2:
				src = src[:at]
			}
		}
		from := hcl.Pos{Byte: c.Intn(100), Line: c.Range(1, 9), Column: c.Range(1, 30)}
		c.Input("reference", src)
		t, diags := hclsyntax.ParseTraversalAbs([]byte(src), "t.hcl", from)
		x, xdiags := hclsyntax.ParseExpression([]byte(src), "t.hcl", from)
		if diags.HasErrors() {
			c.Event("refused alone")
			if xdiags.HasErrors() {
				continue
			}
			// the whole language of references, except for old indexes,
			// parentheses and keys that are not plain literals
			t2, tdiags := hcl.AbsTraversalForExpr(x)
			if tdiags.HasErrors() {
				continue
			}
			for _, s := range t2 {
				if k, ok := s.(hcl.TraverseIndex); ok {
					if r := k.SrcRange; r.Start.Byte-from.Byte < len(src) && src[r.Start.Byte-from.Byte] == '.' || k.Key.IsNull() || k.Key.Type() == cty.Bool || strings.Contains(src, "<<") {
						t2 = nil
						break
					}
				}
			}
			if t2 != nil && !strings.ContainsAny(src, "()") {
				c.Failf("reference %s is refused on its own: %s\nsource: %s", travStr(t2), diagStr(diags), q(src))
			}
			continue
		}
		if xdiags.HasErrors() {
			c.Failf("%s parses as a reference on its own but is no expression: %s", q(src), diagStr(xdiags))
		}
		t2, tdiags := hcl.AbsTraversalForExpr(x)
		if tdiags.HasErrors() || !sameTravs(t, t2) {
			c.Failf("%s parses as reference %s on its own but as %s in an expression: %s", q(src), travStr(t), travStr(t2), diagStr(tdiags))
		}
		for i := range t {
			if t[i].SourceRange() != t2[i].SourceRange() {
				c.Failf("step %d of reference %s is at %v on its own but at %v in an expression", i, q(src), t[i].SourceRange(), t2[i].SourceRange())
			}
		}
		c.Event("parsed alone")
	}
}

// applySteps applies steps to any value, in several ways.
func applySteps(c *mon.Case) {
	unknowns := c.Intn(3) * 8
	v := gen.Value(c.Rand, gen.Type(c.Rand, 3), unknowns)
	if c.Chance(1, 6) {
		v = cty.UnknownVal(v.Type())
	}
	var t hcl.Traversal
	cur := v
	var diags hcl.Diagnostics
	for n := c.Range(1, 4); n > 0; n-- {
		var step hcl.Traverser
		// preferably one that leads somewhere
		name, key := gen.Word(c.Rand), cty.NumberIntVal(int64(c.Intn(4)-1))
		ty := cur.Type()
		if !diags.HasErrors() && c.Chance(5, 6) {
			if ty.IsObjectType() {
				for n := range ty.AttributeTypes() {
					if name == "" || n < name || c.Seed == 0 {
						name = n
					}
				}
			} else if cur.IsKnown() && !cur.IsNull() && ty.IsMapType() {
				for it := cur.ElementIterator(); it.Next(); {
					k, _ := it.Element()
					name = k.AsString()
				}
			}
		}
		switch c.Intn(5) {
		case 0, 1:
			step = hcl.TraverseAttr{Name: name}
		case 2:
			step = hcl.TraverseIndex{Key: cty.StringVal(name)}
		default:
			if ty.IsObjectType() || ty.IsMapType() {
				key = cty.StringVal(name)
			}
			switch c.Intn(16) {
			case 0:
				key = cty.UnknownVal(key.Type())
			case 1:
				key = cty.NullVal(key.Type())
			case 2:
				key = cty.DynamicVal
			case 3:
				key = cty.True
			case 4:
				key = cty.NumberFloatVal(0.5)
			case 5:
				key = cty.StringVal("0")
			}
			step = hcl.TraverseIndex{Key: key}
		}
		t = append(t, step)
		if !diags.HasErrors() {
			checkPanic(c, "applying a step", func() { cur, diags = step.TraversalStep(cur) })
			c.Event("steps applied")
		}
	}
	c.Input("value", valStr(v))
	c.Input("steps", travStr(t))
	got, gdiags := t.TraverseRel(v)
	same := func(what string, v2 cty.Value, d2 hcl.Diagnostics) {
		if d2.HasErrors() != diags.HasErrors() || !diags.HasErrors() && !v2.RawEquals(cur) {
			c.Failf("%s: %s\nstep by step: %s\nsteps: %s\nvalue: %s", what, outcomeStr(v2, d2), outcomeStr(cur, diags), travStr(t), valStr(v))
		}
	}
	same("whole", got, gdiags)
	got, gdiags = hcl.ApplyPath(v, pathOf(t), nil)
	same("as a path", got, gdiags)
	abs := hcl.TraversalJoin(hcl.Traversal{hcl.TraverseRoot{Name: "v"}}, t)
	outer := &hcl.EvalContext{Variables: map[string]cty.Value{"v": v}}
	if c.Bool() {
		// hidden and unhelpful scopes
		outer = &hcl.EvalContext{Variables: map[string]cty.Value{"v": cty.StringVal("hidden")}}
		outer = outer.NewChild()
		outer.Variables = map[string]cty.Value{"v": v}
		outer = outer.NewChild()
		if c.Bool() {
			outer.Variables = map[string]cty.Value{"w": v}
		}
	}
	got, gdiags = abs.TraverseAbs(outer)
	same("from a scope", got, gdiags)
	if diags.HasErrors() {
		c.Event("steps failed")
		if got != cty.DynamicVal {
			c.Failf("failed reference gives %s", valStr(got))
		}
	}
}
