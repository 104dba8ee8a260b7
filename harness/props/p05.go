package props

import (
	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/zclconf/go-cty/cty"
)

func init() {
	register(&mon.Prop{
		ID: "P05",
		Rule: "random well-formed expressions (all operators, constructors, for, splat, index, call forms; nested scopes; hostile mixtures) " +
			"rendered in varying layout, evaluated by the library and compared with an independent reference interpreter; " +
			"distinct = expression shape with its outcome class",
		Assumptions: []string{
			"reference interpreter in harness/gen/eval.go states the specification; where the specification is silent it answers 'unspecified' and only absence of crashes is judged",
			"type conversion and unification are those of the cty library",
		},
		Quick:    100000,
		Thorough: 600000,
		Require:  []string{"value compared", "error expected and reported"},
		Run:      runP05,
	})
}

func runP05(c *mon.Case) {
	env := gen.NewEnv(c.Rand)
	ctx := evalCtx(env)
	c.Input("scope", envStr(env))
	for i := 0; i < 8; i++ {
		g := &gen.G{R: c.Rand, Env: env}
		switch c.Intn(4) {
		case 0:
			g.Hostile = 0
		case 1:
			g.Hostile = 10
		default:
			g.Hostile = 40
		}
		depth := c.Size(3, 7)
		e := g.Expr(gen.Want(c.Intn(6)), depth)
		evalOne(c, e, env, ctx)
	}
}

// evalOne renders, parses and evaluates an expression and compares the outcome
// with the reference interpreter.
func evalOne(c *mon.Case, e *gen.Expr, env *gen.Env, ctx *hcl.EvalContext) {
	src, _ := gen.RenderExpr(c.Rand, e)
	c.Input("expr", src)
	want, werr := gen.Eval(e, env)
	x, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", start)
	if diags.HasErrors() {
		c.Failf("well-formed expression rejected: %s\nsource: %s", diagStr(diags), q(src))
	}
	var got cty.Value
	checkPanic(c, "evaluating "+q(src), func() { got, diags = x.Value(ctx) })
	judge(c, src, e.Shape(), want, werr, got, diags)
}

func judge(c *mon.Case, src, shape string, want cty.Value, werr error, got cty.Value, diags hcl.Diagnostics) {
	if got == cty.NilVal {
		c.Failf("evaluation returned no value (nil)\nsource: %s", q(src))
	}
	switch {
	case werr == gen.ErrUnsure:
		c.Event("unspecified")
	case werr != nil:
		if !diags.HasErrors() {
			c.Failf("should be an error (%s) but gave %s\nsource: %s", werr, valStr(got), q(src))
		}
		c.Event("error expected and reported")
		c.Sig(shape, "error")
	default:
		if diags.HasErrors() {
			c.Failf("should be %s but failed: %s\nsource: %s", valStr(want), diagStr(diags), q(src))
		}
		if !gen.SameValue(got, want) {
			c.Failf("got  %s\nwant %s\nsource: %s", valStr(got), valStr(want), q(src))
		}
		c.Event("value compared")
		c.Sig(shape, want.Type().FriendlyName())
		c.Sample(clip(src, 200) + "  =>  " + clip(valStr(want), 200))
	}
}
