package props

import (
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function"
)

func init() {
	register(&mon.Prop{
		ID: "P07",
		Rule: "an expression or template is evaluated once with some variables or parts of them replaced by typed or untyped unknowns and then with several real valuations that agree with it elsewhere; " +
			"for each real valuation that succeeds the first evaluation must have succeeded and its result must be compatible; and something in error next to something unknown, in constructs that evaluate all their parts, must be reported; distinct = (expression shape, which results are unknown)",
		Assumptions: []string{
			"a conditional whose unselected branch is in error has no specified type, so such expressions are not judged",
		},
		Quick:    80000,
		Thorough: 600000,
		Require:  []string{"unknown result refined", "partly known result compared", "known result compared", "error reported beside unknowns", "real valuation failed"},
		Run:      runP07,
	})
}

// masked replaces parts of a value by unknowns.
func masked(r *mon.Rand, v cty.Value, chance int, untyped bool) cty.Value {
	if r.Chance(1, chance) {
		if untyped && r.Bool() {
			return cty.DynamicVal
		}
		return cty.UnknownVal(v.Type())
	}
	if v.IsNull() || !v.IsKnown() {
		return v
	}
	ty := v.Type()
	switch {
	case ty.IsTupleType() && v.LengthInt() > 0:
		var l []cty.Value
		for it := v.ElementIterator(); it.Next(); {
			_, e := it.Element()
			l = append(l, masked(r, e, chance+1, untyped))
		}
		return cty.TupleVal(l)
	case ty.IsListType() && v.LengthInt() > 0:
		var l []cty.Value
		for it := v.ElementIterator(); it.Next(); {
			_, e := it.Element()
			l = append(l, masked(r, e, chance+1, false))
		}
		return cty.ListVal(l)
	case ty.IsMapType() && v.LengthInt() > 0:
		l := map[string]cty.Value{}
		for it := v.ElementIterator(); it.Next(); {
			k, e := it.Element()
			l[k.AsString()] = masked(r, e, chance+1, false)
		}
		return cty.MapVal(l)
	case ty.IsObjectType():
		l := map[string]cty.Value{}
		for it := v.ElementIterator(); it.Next(); {
			k, e := it.Element()
			l[k.AsString()] = masked(r, e, chance+1, untyped)
		}
		return cty.ObjectVal(l)
	}
	return v
}

// realized gives a value that agrees with a masked one where it is known.
func realized(r *mon.Rand, v cty.Value) cty.Value {
	if !v.IsKnown() {
		return gen.Value(r, v.Type(), 10)
	}
	if v.IsNull() || v.IsWhollyKnown() {
		return v
	}
	ty := v.Type()
	switch {
	case ty.IsTupleType(), ty.IsListType():
		var l []cty.Value
		for it := v.ElementIterator(); it.Next(); {
			_, e := it.Element()
			l = append(l, realized(r, e))
		}
		if ty.IsListType() {
			return cty.ListVal(l)
		}
		return cty.TupleVal(l)
	default:
		l := map[string]cty.Value{}
		for it := v.ElementIterator(); it.Next(); {
			k, e := it.Element()
			l[k.AsString()] = realized(r, e)
		}
		if ty.IsMapType() {
			return cty.MapVal(l)
		}
		return cty.ObjectVal(l)
	}
}

func mapEnv(env *gen.Env, f func(cty.Value) cty.Value) *gen.Env {
	if env == nil {
		return nil
	}
	ret := &gen.Env{Funcs: env.Funcs, Mode: env.Mode, Parent: mapEnv(env.Parent, f), Vars: map[string]cty.Value{}}
	for _, n := range sortedVars(env.Vars) {
		ret.Vars[n] = f(env.Vars[n])
	}
	return ret
}

// typeFits is whether a type is one that a promised type may turn into.
func typeFits(real, promise cty.Type) bool {
	if promise == cty.DynamicPseudoType {
		return true
	}
	switch {
	case promise.IsPrimitiveType():
		return real.Equals(promise)
	case promise.IsListType():
		return real.IsListType() && typeFits(real.ElementType(), promise.ElementType())
	case promise.IsSetType():
		return real.IsSetType() && typeFits(real.ElementType(), promise.ElementType())
	case promise.IsMapType():
		return real.IsMapType() && typeFits(real.ElementType(), promise.ElementType())
	case promise.IsTupleType():
		if !real.IsTupleType() || len(real.TupleElementTypes()) != len(promise.TupleElementTypes()) {
			return false
		}
		for i, t := range promise.TupleElementTypes() {
			if !typeFits(real.TupleElementTypes()[i], t) {
				return false
			}
		}
		return true
	case promise.IsObjectType():
		if !real.IsObjectType() || len(real.AttributeTypes()) != len(promise.AttributeTypes()) {
			return false
		}
		for n, t := range promise.AttributeTypes() {
			if !real.HasAttribute(n) || !typeFits(real.AttributeType(n), t) {
				return false
			}
		}
		return true
	}
	return real.Equals(promise)
}

// hasDyn is whether a type has placeholders anywhere.
func hasDyn(ty cty.Type) bool {
	switch {
	case ty == cty.DynamicPseudoType:
		return true
	case ty.IsCollectionType():
		return hasDyn(ty.ElementType())
	case ty.IsTupleType():
		for _, t := range ty.TupleElementTypes() {
			if hasDyn(t) {
				return true
			}
		}
	case ty.IsObjectType():
		for _, t := range ty.AttributeTypes() {
			if hasDyn(t) {
				return true
			}
		}
	}
	return false
}

// refines is whether a real value is one that a partly unknown value may turn
// into.
func refines(real, part cty.Value) bool {
	if !typeFits(real.Type(), part.Type()) {
		return false
	}
	if !part.IsKnown() {
		return true
	}
	if part.IsNull() || real.IsNull() {
		return part.IsNull() && real.IsNull()
	}
	if part.IsWhollyKnown() && !hasDyn(part.Type()) {
		return gen.SameValue(real, part)
	}
	ty := part.Type()
	switch {
	case ty.IsListType(), ty.IsTupleType():
		if real.LengthInt() != part.LengthInt() {
			return false
		}
		for it := part.ElementIterator(); it.Next(); {
			k, e := it.Element()
			if !refines(real.Index(k), e) {
				return false
			}
		}
		return true
	case ty.IsMapType():
		if real.LengthInt() != part.LengthInt() {
			return false
		}
		for it := part.ElementIterator(); it.Next(); {
			k, e := it.Element()
			if real.HasIndex(k).False() || !refines(real.Index(k), e) {
				return false
			}
		}
		return true
	case ty.IsObjectType():
		for n := range ty.AttributeTypes() {
			if !refines(real.GetAttr(n), part.GetAttr(n)) {
				return false
			}
		}
		return true
	case ty.IsSetType():
		return true // can't pair elements
	}
	return gen.SameValue(real, part)
}

// Constructs that evaluate all their parts, with a place for something unknown
// (U) and one for something in error (B).
var strictForms = []string{
	`"${U}${B}"`, `"a${B} ${U}"`, `"${U}${U}x${B}"`, `[U, B]`, `[B, U]`, `{a = U, b = B}`, `{a = B, b = U}`, `{(B) = U}`, `{(U) = 1, b = B}`,
	`cat(U, B)`, `cat(B, U)`, `cat(U, U, B)`, `cat([U, B]...)`, `U == B`, `B != U`, `UN + B`, `B * UN`, `UB && B`, `B || UB`, `UN < B`, `U[B]`, `B[U]`, `(B)`, `-B`, `!B`,
	`"${B}"`, `[U, 1, [B]]`, `(B).x`, `[for x in B : U]`, `{for x in B : x => U}`, `(B).*.x`, `B ? U : U`, "<<E\n${U}${B}\nE\n",
}

// Expressions that are in error whatever else is known.
var badForms = []string{`no_such_variable`, `no_such_function()`, `[1][3]`, `{a = 1}.b`, `null.a`, `cat()`, `(1 + "x")`, `"x${[]}"`, `(!5)`, `[1, 2]["a"]`, `cat(1...)`, `[for x in 5 : x]`, `(null + 1)`, `"x${null}"`,
	`u_l[1]`, `u_l[-1]`, `u_l[0.5]`, `u_l["x"]`, `u_l.a`, `u_m.b`, `u_m["b"]`, `u_m[[]]`, `u_o.b`, `u_o["b"]`, `u_t[1]`, `u_t["x"]`, `u_ul["x"]`, `u_uo.b`, `u_s.a`, `u_n[0]`, `[u_d][1]`, `{a = u_d}.b`, `(u_l + 1)`, `u_l.*.a`, `u_m.a.b`, `u_o[null]`, `u_ul[null]`, `(u_m ? 1 : 2)`}

// Loops in which one element is in error whatever the unknown one is.
var badLoops = []string{
	`{for x in [U, null] : x => 1}`, `{for x in [null, U] : x => 1}`, `{for x in [U, []] : x => 1}`, `{for x in [U, "a", []] : x => 1...}`, `{for x in [U, "a", "a"] : x => 1}`, `{for x in ["a", U, "a"] : x => 1}`,
	`{for x in [U, null] : x => 1...}`, `{for i, x in [UB, null] : i => 1 if x}`, `{for i, x in [UB, []] : i => 1 if x}`, `[for x in [UB, null] : 1 if x]`, `[for x in [UB, []] : 1 if x]`, `[for x in [true, UB, {}] : 1 if x]`,
	`[for x in [UN, []] : x + 1]`, `{for i, x in [UN, "a"] : i => x + 1}`, `"%{ for x in [U, []] }${x}%{ endfor }"`, `[for x in [UB, "maybe"] : 1 if x]`, `{for x in [U, 1] : x => y}`, `{for i, x in [U, null] : x => 1 if true}`,
	`{(U) = 1, (null) = 2}`, `{(U) = 1, ([]) = 2}`,
}

// checkStrict evaluates something in error next to something unknown.
func checkStrict(c *mon.Case) {
	src := c.Pick(badForms...)
	if c.Chance(1, 3) {
		src = strings.NewReplacer("UN", c.Pick("u_n", "u_d"), "UB", c.Pick("u_b", "u_d"), "U", c.Pick("u_s", "u_d")).Replace(c.Pick(badLoops...))
	}
	for i := c.Range(1, 3); i > 0; i-- {
		f := c.Pick(strictForms...)
		if strings.HasPrefix(f, "<<") && i > 1 {
			f = `"${U}${B}"`
		}
		u := c.Pick("u_s", "u_n", "u_d", "u_t[0]")
		src = strings.NewReplacer("UN", c.Pick("u_n", "u_d"), "UB", c.Pick("u_b", "u_d"), "U", u, "B", src).Replace(f)
	}
	c.Input("source", src)
	x, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", start)
	if diags.HasErrors() {
		c.Failf("well-formed source rejected: %s\nsource: %s", diagStr(diags), q(src))
	}
	ctx := &hcl.EvalContext{
		Variables: map[string]cty.Value{
			"u_s": cty.UnknownVal(cty.String), "u_n": cty.UnknownVal(cty.Number), "u_b": cty.UnknownVal(cty.Bool), "u_d": cty.DynamicVal,
			"u_t":  cty.TupleVal([]cty.Value{cty.UnknownVal(cty.String)}),
			"u_l":  cty.ListVal([]cty.Value{cty.UnknownVal(cty.String)}),
			"u_m":  cty.MapVal(map[string]cty.Value{"a": cty.UnknownVal(cty.String)}),
			"u_o":  cty.ObjectVal(map[string]cty.Value{"a": cty.DynamicVal}),
			"u_ul": cty.UnknownVal(cty.List(cty.String)),
			"u_uo": cty.UnknownVal(cty.Object(map[string]cty.Type{"a": cty.String})),
		},
		Functions: map[string]function.Function{"cat": catFunc},
	}
	var v cty.Value
	checkPanic(c, "evaluating with unknowns", func() { v, diags = x.Value(ctx) })
	if !diags.HasErrors() {
		c.Failf("an error that doesn't depend on unknown values isn't reported, result %s\nsource: %s", valStr(v), q(src))
	}
	c.Event("error reported beside unknowns")
	c.Sig("strict", src)
}

// catFunc takes at least one string.
var catFunc = function.New(&function.Spec{
	Params:   []function.Parameter{{Name: "a", Type: cty.String}},
	VarParam: &function.Parameter{Name: "more", Type: cty.String},
	Type:     function.StaticReturnType(cty.String),
	Impl: func(args []cty.Value, _ cty.Type) (cty.Value, error) {
		s := ""
		for _, a := range args {
			s += a.AsString()
		}
		return cty.StringVal(s), nil
	},
})

func runP07(c *mon.Case) {
	if c.Chance(1, 8) {
		checkStrict(c)
		return
	}
	env := gen.NewEnv(c.Rand)
	unkEnv := mapEnv(env, func(v cty.Value) cty.Value { return masked(c.Rand, v, c.Range(2, 5), c.Chance(1, 3)) })
	unkCtx := evalCtx(unkEnv)
	c.Input("scope with unknowns", envStr(unkEnv))
	var reals []*gen.Env
	reals = append(reals, env)
	for i := 0; i < 2; i++ {
		reals = append(reals, mapEnv(unkEnv, func(v cty.Value) cty.Value { return realized(c.Rand, v) }))
	}
	for i := 0; i < 5; i++ {
		g := &gen.G{R: c.Rand, Env: env, Hostile: 40}
		var x hclsyntax.Expression
		var diags hcl.Diagnostics
		var src, shape string
		if c.Chance(1, 5) {
			parts := g.Parts(c.Size(3, 5), false)
			src = gen.NewW(c.Rand).Template(parts)
			x, diags = hclsyntax.ParseTemplate([]byte(src), "t.hcl", start)
			shape = src
		} else {
			e := g.Expr(gen.Want(c.Intn(6)), c.Size(3, 6))
			src, _ = gen.RenderExpr(c.Rand, e)
			x, diags = hclsyntax.ParseExpression([]byte(src), "t.hcl", start)
			shape = e.Shape()
		}
		if diags.HasErrors() {
			c.Failf("well-formed source rejected: %s\nsource: %s", diagStr(diags), q(src))
		}
		c.Input("source", src)
		var part cty.Value
		var unkDiags hcl.Diagnostics
		checkPanic(c, "evaluating with unknowns", func() { part, unkDiags = x.Value(unkCtx) })
		for _, real := range reals {
			realCtx := evalCtx(real)
			var v cty.Value
			checkPanic(c, "evaluating", func() { v, diags = x.Value(realCtx) })
			if diags.HasErrors() {
				c.Event("real valuation failed")
				continue
			}
			if !v.IsWhollyKnown() {
				c.Event("comparison of untyped nulls") // has no known result
				continue
			}
			bad := ""
			if unkDiags.HasErrors() {
				bad = "fails: " + diagStr(unkDiags)
			} else if !refines(v, part) {
				bad = "gives " + valStr(part)
			}
			if bad != "" {
				w := &causes{}
				w.walk(x, realCtx, unkCtx)
				if w.branchError {
					c.Event("type unspecified")
					continue
				}
				if w.openSet {
					c.Event("set of unknown elements")
					continue
				}
				if w.splatNull {
					c.Known("splat-unknown-null", "%s with an unknown in place of null %s; really %s", q(src), bad, valStr(v))
					continue
				}
				if w.untypedBranch {
					c.Known("conditional-untyped-branch", "%s with an untyped unknown branch %s; really %s", q(src), bad, valStr(v))
					continue
				}
				c.Input("real scope", envStr(real))
				c.Failf("evaluation with unknowns %s\nbut really it gives %s\nsource: %s", bad, valStr(v), q(src))
			}
			switch {
			case !part.IsKnown():
				c.Event("unknown result refined")
			case !part.IsWhollyKnown():
				c.Event("partly known result compared")
				c.Sample(clip(src, 200) + "  =>  " + clip(valStr(part), 200))
			default:
				c.Event("known result compared")
			}
			c.Sig(shape, part.IsKnown(), part.IsWhollyKnown())
		}
	}
}

// causes looks for constructs whose outcome with unknowns is a known finding
// or not specified.
type causes struct {
	splatNull, untypedBranch, branchError, openSet bool
}

func (w *causes) walk(x hclsyntax.Expression, real, unk *hcl.EvalContext) {
	if x == nil {
		return
	}
	switch t := x.(type) {
	case *hclsyntax.SplatExpr:
		rv, _ := t.Source.Value(real)
		uv, _ := t.Source.Value(unk)
		ty := uv.Type()
		if !uv.IsKnown() && !ty.IsListType() && !ty.IsSetType() && !ty.IsTupleType() && rv.IsNull() {
			w.splatNull = true
		}
		if !uv.IsWhollyKnown() && holdsNull(rv) && holdsSplat(t.Each) {
			w.splatNull = true // for one of the elements
		}
		w.walk(t.Source, real, unk)
		w.walk(t.Each, real, unk)
	case *hclsyntax.ConditionalExpr:
		for _, b := range []hclsyntax.Expression{t.TrueResult, t.FalseResult} {
			if _, diags := b.Value(real); diags.HasErrors() {
				w.branchError = true
			}
			uv, _ := b.Value(unk)
			if hasDyn(uv.Type()) && !(uv.IsKnown() && uv.IsNull()) {
				w.untypedBranch = true
			}
			w.walk(b, real, unk)
		}
		// A set can't tell how many of its elements are equal if some of them
		// aren't known.
		if uv, diags := t.Value(unk); !diags.HasErrors() && openSet(uv) {
			w.openSet = true
		}
		w.walk(t.Condition, real, unk)
	case *hclsyntax.ForExpr:
		w.walk(t.CollExpr, real, unk)
		rv, _ := t.CollExpr.Value(real)
		uv, _ := t.CollExpr.Value(unk)
		if rv.IsNull() || !rv.IsKnown() || !rv.CanIterateElements() {
			return
		}
		if t.CondExpr != nil {
			// The condition is checked before there is any element.
			rc, uc := real.NewChild(), unk.NewChild()
			rc.Variables = map[string]cty.Value{t.ValVar: cty.DynamicVal}
			if t.KeyVar != "" {
				rc.Variables[t.KeyVar] = cty.DynamicVal
			}
			uc.Variables = rc.Variables
			w.walk(t.CondExpr, rc, uc)
		}
		var ukeys, uvals []cty.Value
		if uv.IsKnown() && !uv.IsNull() && uv.CanIterateElements() {
			for it := uv.ElementIterator(); it.Next(); {
				k, v := it.Element()
				ukeys, uvals = append(ukeys, k), append(uvals, v)
			}
		}
		i := 0
		for it := rv.ElementIterator(); it.Next(); i++ {
			k, v := it.Element()
			rc, uc := real.NewChild(), unk.NewChild()
			rc.Variables = map[string]cty.Value{t.ValVar: v}
			uc.Variables = map[string]cty.Value{t.ValVar: cty.DynamicVal}
			if t.KeyVar != "" {
				rc.Variables[t.KeyVar] = k
				uc.Variables[t.KeyVar] = cty.DynamicVal
			}
			if i < len(uvals) {
				uc.Variables[t.ValVar] = uvals[i]
				if t.KeyVar != "" {
					uc.Variables[t.KeyVar] = ukeys[i]
				}
			}
			for _, k := range []hclsyntax.Expression{t.KeyExpr, t.ValExpr, t.CondExpr} {
				w.walk(k, rc, uc)
			}
		}
	default:
		for _, k := range exprKids(x) {
			w.walk(k, real, unk)
		}
	}
}

// holdsNull is whether there is a null inside of a value.
func holdsNull(v cty.Value) bool {
	found := false
	cty.Walk(v, func(_ cty.Path, e cty.Value) (bool, error) {
		found = found || e.IsNull()
		return !found, nil
	})
	return found
}

// holdsSplat is whether an expression has a splat somewhere.
func holdsSplat(x hclsyntax.Expression) bool {
	if _, ok := x.(*hclsyntax.SplatExpr); ok {
		return true
	}
	for _, k := range exprKids(x) {
		if holdsSplat(k) {
			return true
		}
	}
	return false
}

// openSet is whether there is a set with elements that aren't known anywhere in
// a value.
func openSet(v cty.Value) bool {
	if !v.IsKnown() || v.IsNull() || !v.CanIterateElements() {
		return false
	}
	if v.Type().IsSetType() && !v.IsWhollyKnown() {
		return true
	}
	for it := v.ElementIterator(); it.Next(); {
		if _, e := it.Element(); openSet(e) {
			return true
		}
	}
	return false
}

// exprKids lists the direct subexpressions of expressions that don't create a
// scope.
func exprKids(x hclsyntax.Expression) []hclsyntax.Expression {
	switch t := x.(type) {
	case *hclsyntax.RelativeTraversalExpr:
		return []hclsyntax.Expression{t.Source}
	case *hclsyntax.FunctionCallExpr:
		return t.Args
	case *hclsyntax.ConditionalExpr:
		return []hclsyntax.Expression{t.Condition, t.TrueResult, t.FalseResult}
	case *hclsyntax.IndexExpr:
		return []hclsyntax.Expression{t.Collection, t.Key}
	case *hclsyntax.TupleConsExpr:
		return t.Exprs
	case *hclsyntax.ObjectConsExpr:
		var l []hclsyntax.Expression
		for _, it := range t.Items {
			l = append(l, it.KeyExpr, it.ValueExpr)
		}
		return l
	case *hclsyntax.ObjectConsKeyExpr:
		return []hclsyntax.Expression{t.Wrapped}
	case *hclsyntax.BinaryOpExpr:
		return []hclsyntax.Expression{t.LHS, t.RHS}
	case *hclsyntax.UnaryOpExpr:
		return []hclsyntax.Expression{t.Val}
	case *hclsyntax.TemplateExpr:
		return t.Parts
	case *hclsyntax.TemplateJoinExpr:
		return []hclsyntax.Expression{t.Tuple}
	case *hclsyntax.TemplateWrapExpr:
		return []hclsyntax.Expression{t.Wrapped}
	}
	return nil
}
