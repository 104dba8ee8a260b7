package props

import (
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/zclconf/go-cty/cty"
)

func init() {
	register(&mon.Prop{
		ID: "P06",
		Rule: "random templates (literal text with all kinds of characters and escapes, interpolations, if and for directives, strip markers) " +
			"as quoted strings, heredocs, flush heredocs and standalone templates, evaluated and compared with a reference interpreter; " +
			"heredocs with lines that look much like their end, and heredocs inside them, with the text they mean; templates with one planted fault must be rejected; distinct = template form and shape",
		Assumptions: []string{
			"a strip marker in a multi-line template may or may not reach beyond the adjacent line: both readings are accepted",
			"lines of only spaces in a flush heredoc may or may not lose the common indentation: both readings are accepted",
			"flush heredocs with strip markers are not judged except for crashes",
		},
		Quick:    80000,
		Thorough: 500000,
		Require:  []string{"quoted", "heredoc", "flush heredoc", "standalone", "fault rejected", "lines like the end of the heredoc", "heredoc inside a heredoc"},
		Run:      runP06,
	})
}

func runP06(c *mon.Case) {
	if c.Chance(1, 6) {
		runHeredoc(c)
		return
	}
	env := gen.NewEnv(c.Rand)
	ctx := evalCtx(env)
	c.Input("scope", envStr(env))
	g := &gen.G{R: c.Rand, Env: env, Hostile: 60}
	for i := 0; i < 6; i++ {
		depth := c.Size(2, 5)
		switch c.Intn(5) {
		case 0:
			parts := g.Parts(depth, true)
			w := gen.NewW(c.Rand)
			e := &gen.Expr{Kind: gen.KStr, Parts: parts}
			w.Expr(e, 0)
			src := string(w.B)
			c.Input("template", src)
			x, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", start)
			judgeText(c, "quoted", src, e, x, diags, env, ctx, func(env *gen.Env) (cty.Value, error) { return gen.Eval(e, env) })
		case 1, 2:
			flush := c.Bool()
			e := g.Heredoc(depth, flush)
			full := e
			form := "heredoc"
			if flush {
				form = "flush heredoc"
			}
			w := gen.NewW(c.Rand)
			w.NoParens = true
			pre := c.Pick("x = ", "b {\n  x =", "\n\nx=", "x = [\n", "x = upper(")
			post := ""
			switch {
			case strings.HasPrefix(pre, "b"):
				post = "}\n"
			case strings.HasSuffix(pre, "[\n"):
				full = &gen.Expr{Kind: gen.KTuple, X: []*gen.Expr{e, gen.Num("1")}}
				post = ",1]\n"
			case strings.HasSuffix(pre, "("):
				full = &gen.Expr{Kind: gen.KCall, Text: "upper", X: []*gen.Expr{e}}
				post = ")\n"
			}
			w.B = append(w.B, pre...)
			w.Expr(e, 0)
			w.B = append(w.B, post...)
			src := string(w.B)
			c.Input("template", src)
			f, diags := hclsyntax.ParseConfig([]byte(src), "t.hcl", start)
			var x hclsyntax.Expression
			if !diags.HasErrors() {
				body := f.Body.(*hclsyntax.Body)
				if strings.HasPrefix(pre, "b") {
					body = body.Blocks[0].Body
				}
				x = body.Attributes["x"].Expr
			}
			judgeText(c, form, src, e, x, diags, env, ctx, func(env *gen.Env) (cty.Value, error) { return gen.Eval(full, env) })
		case 3:
			parts := g.Parts(depth, false)
			w := gen.NewW(c.Rand)
			src := w.Template(parts)
			c.Input("template", src)
			x, diags := hclsyntax.ParseTemplate([]byte(src), "t.hcl", start)
			e := &gen.Expr{Kind: gen.KStr, Parts: parts}
			judgeText(c, "standalone", src, e, x, diags, env, ctx, func(env *gen.Env) (cty.Value, error) { return gen.EvalBare(parts, env) })
		case 4:
			fault(c, g, depth)
		}
	}
}

// judgeText evaluates a template and accepts the outcome of any of the
// readings of the specification.
func judgeText(c *mon.Case, form, src string, e *gen.Expr, x hclsyntax.Expression, diags hcl.Diagnostics, env *gen.Env, ctx *hcl.EvalContext, ref func(*gen.Env) (cty.Value, error)) {
	if diags.HasErrors() {
		c.Failf("well-formed %s template rejected: %s\nsource: %s", form, diagStr(diags), q(src))
	}
	var got cty.Value
	checkPanic(c, "evaluating "+q(src), func() { got, diags = x.Value(ctx) })
	root := env
	for root.Parent != nil {
		root = root.Parent
	}
	defer func() { root.Mode = 0 }()
	for m := gen.Mode(0); m < gen.NumModes; m++ {
		root.Mode = m
		want, err := ref(env)
		if err == nil && !diags.HasErrors() && m+1 < gen.NumModes && !gen.SameValue(want, got) {
			continue // perhaps another reading
		}
		judge(c, src, e.Shape(), want, err, got, diags)
		c.Event(form)
		return
	}
}

// fault writes an otherwise valid template with one thing wrong.
func fault(c *mon.Case, g *gen.G, depth int) {
	oldStrip := g.NoStrip
	defer func() { g.NoStrip = oldStrip }()
	encode := func(parts []*gen.Part, quoted bool) string {
		w := gen.NewW(c.Rand)
		if quoted {
			w.NoParens = true
			w.Expr(&gen.Expr{Kind: gen.KStr, Parts: parts}, 0)
			s := string(w.B)
			return s[strings.Index(s, "\"")+1 : len(s)-1]
		}
		return w.Template(parts)
	}
	quoted := c.Bool()
	before := encode(g.Parts(depth, quoted), quoted)
	after := encode(g.Parts(depth, quoted), quoted)
	// Keep the planted text from combining with its surroundings
	for strings.HasSuffix(before, "$") || strings.HasSuffix(before, "%") || strings.HasSuffix(before, "\\") {
		before += "."
	}
	bad := c.Pick("%{ if t }a", "%{ if t }${s}%{ endfor }", "%{ endif }", "%{ else }", "%{ endfor }", "%{ for v in l }x",
		"%{ for v in l }${v}%{ endif }", "%{ foo }", "%{ for in l }%{ endfor }", "%{ for v l }%{ endfor }", "%{ if }%{ endif }",
		"${ }", "${ s n }", "${ s, n }", "%{ if t n }a%{ endif }", "%{ }", "${ s + }", "%{ for 1 in l }%{ endfor }", "%{ if t }a%{ else }b%{ else }c%{ endif }",
		"%{ for v in l }a%{ else }b%{ endfor }", "%{ endif x }", "%{ \"if\" t }%{ endif }")
	if quoted && c.Bool() {
		bad = c.Pick("\\x41", "\\a", "\\'", "\\u12", "\\u00", "\\U0001F60", "\\u00g0", "\\ ", "\\$", "\\{", "\\0", "\n", "\r\n", "${ s", "%{ if t }x", "\"")
		if bad != "\"" && bad != "${ s" && c.Chance(1, 4) {
			bad += "."
		}
		if strings.HasPrefix(bad, "\\") && !strings.HasPrefix(bad, "\\u") && !strings.HasPrefix(bad, "\\U") {
			bad += ""
		} else if bad != "\"" && strings.HasPrefix(bad, "\\") {
			bad += "z" // so that following digits don't complete it
		}
		if bad == "${ s" || bad == "\"" {
			after = ""
		}
		if bad == "\"" {
			bad = "\"x" // text after the closing quote
			before = "a"
		}
	}
	var diags hcl.Diagnostics
	src := before + bad + after
	if quoted {
		src = "\"" + src + "\""
	}
	c.Input("faulty template", src)
	if quoted {
		if c.Bool() {
			src = "x = " + src + "\n"
			_, diags = hclsyntax.ParseConfig([]byte(src), "t.hcl", start)
		} else {
			_, diags = hclsyntax.ParseExpression([]byte(src), "t.hcl", start)
		}
	} else if c.Bool() && !strings.Contains(src, "ZZ") {
		src = "x = <<ZZ\n" + src + "\nZZ\n"
		_, diags = hclsyntax.ParseConfig([]byte(src), "t.hcl", start)
	} else {
		_, diags = hclsyntax.ParseTemplate([]byte(src), "t.hcl", start)
	}
	if !diags.HasErrors() {
		c.Failf("faulty template accepted (fault: %q)\nsource: %s", bad, q(src))
	}
	c.Event("fault rejected")
	c.Sig("fault", bad, quoted, before)
}
