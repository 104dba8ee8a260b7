package props

import (
	"sort"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/ext/dynblock"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/hashicorp/hcl2/hclpack"
	"github.com/zclconf/go-cty/cty"
)

func init() {
	register(&mon.Prop{
		ID: "P08",
		Rule: "expressions and templates in native, JSON and packed form, and bodies with decoding specifications; the reported references are compared with the free names of the model, " +
			"with the source text at their range, and evaluation is repeated with only the reported variables and with all others changed; distinct = (form, shape)",
		Assumptions: []string{"details of messages about undefined variables may differ, because they suggest other names that are defined"},
		Quick:       60000,
		Thorough:    400000,
		Require:     []string{"same outcome with reported only", "same outcome with others changed", "reference text checked", "names equal to free names", "decoded with reported only", "locally bound name not reported", "expanded with reported only"},
		Run:         runP08,
	})
}

// onlyVars keeps the named variables and drops or changes the others.
func onlyVars(r *mon.Rand, env *gen.Env, names []string, change bool) *gen.Env {
	if env == nil {
		return nil
	}
	keep := map[string]bool{}
	for _, n := range names {
		keep[n] = true
	}
	ret := &gen.Env{Funcs: env.Funcs, Mode: env.Mode, Parent: onlyVars(r, env.Parent, names, change), Vars: map[string]cty.Value{}}
	for _, n := range sortedVars(env.Vars) {
		switch {
		case keep[n]:
			ret.Vars[n] = env.Vars[n]
		case change:
			ret.Vars[n] = gen.Value(r, gen.Type(r, 2), 5)
		}
	}
	return ret
}

func summaries(diags hcl.Diagnostics) string {
	var ss []string
	for _, d := range diags {
		ss = append(ss, d.Summary)
	}
	sort.Strings(ss)
	return strings.Join(ss, "; ")
}

func sameOutcome(v1 cty.Value, d1 hcl.Diagnostics, v2 cty.Value, d2 hcl.Diagnostics) bool {
	return summaries(d1) == summaries(d2) && gen.SameValue(v1, v2)
}

func sorted(ss []string) []string {
	ss = append([]string(nil), ss...)
	sort.Strings(ss)
	return ss
}

func runP08(c *mon.Case) {
	env := gen.NewEnv(c.Rand)
	c.Input("scope", envStr(env))
	switch c.Intn(10) {
	case 0, 1:
		varsOfBody(c, env)
		return
	case 2:
		varsOfDynamic(c, env)
		return
	}
	for i := 0; i < 4; i++ {
		g := &gen.G{R: c.Rand, Env: env, Hostile: 20}
		var x hcl.Expression
		var src, form, shape string
		var free []string
		var diags hcl.Diagnostics
		bare := 0
		switch form = c.Pick("native", "native", "template", "json", "packed", "packed template"); form {
		case "template", "packed template":
			parts := g.Parts(c.Size(3, 5), false)
			src = gen.NewW(c.Rand).Template(parts)
			free = gen.FreeParts(parts)
			shape = clip(src, 100)
			if form == "template" {
				x, diags = hclsyntax.ParseTemplate([]byte(src), "t.hcl", start)
			} else {
				px := &hclpack.Expression{Source: []byte(src), SourceType: hclpack.ExprTemplate}
				px.Range_.Filename = "t.hcl"
				px.Range_.Start = start
				x = px
			}
		default:
			e := g.Expr(gen.Want(c.Intn(6)), c.Size(3, 6))
			if form == "json" && c.Chance(1, 3) {
				// below objects with a key that is computed
				for n := c.Range(1, 3); n > 0; n-- {
					key, style := g.Expr(gen.WStr, 2), gen.KeyParen
					if c.Bool() {
						key, style = &gen.Expr{Kind: gen.KStr, Parts: g.Parts(1, true)}, gen.KeyStr
					}
					e = &gen.Expr{Kind: gen.KObject, X: []*gen.Expr{key, e}, Keys: []gen.KeyStyle{style}}
					if c.Chance(1, 3) {
						e = &gen.Expr{Kind: gen.KTuple, X: []*gen.Expr{g.Expr(gen.WAny, 1), e}}
					}
				}
			}
			free = e.Free()
			shape = e.Shape()
			e.Walk(func(x *gen.Expr) {
				if x.Kind == gen.KVar {
					bare++
				}
			})
			switch form {
			case "native":
				src, _ = gen.RenderExpr(c.Rand, e)
				x, diags = hclsyntax.ParseExpression([]byte(src), "t.hcl", start)
			case "packed":
				src, _ = gen.RenderExpr(c.Rand, e)
				px := &hclpack.Expression{Source: []byte(src), SourceType: hclpack.ExprNative}
				px.Range_.Filename = "t.hcl"
				px.Range_.Start = start
				x = px
			case "json":
				obj := &gen.JObj{}
				obj.Add("x", gen.JSONExpr(c.Rand, e))
				src = gen.JSONText(c.Rand, obj)
				f := parseJSON(c, src)
				attrs, d := f.Body.JustAttributes()
				diags = d
				if attrs["x"] == nil {
					c.Failf("JSON attribute missing\nsource: %s", q(src))
				}
				x = attrs["x"].Expr
			}
		}
		c.Input(form, src)
		if diags.HasErrors() {
			c.Failf("well-formed %s rejected: %s\nsource: %s", form, diagStr(diags), q(src))
		}
		var vars []hcl.Traversal
		checkPanic(c, "listing variables", func() { vars = x.Variables() })
		var got []string
		for _, t := range vars {
			if t.IsRelative() {
				c.Failf("relative reference reported\nsource: %s", q(src))
			}
			got = append(got, t.RootName())
			if form != "json" {
				checkRefText(c, src, t)
			}
		}
		if g, w := strings.Join(sorted(got), " "), strings.Join(sorted(free), " "); g != w {
			c.Failf("variables reported: %s\nvariables in the source: %s\n%s: %s", g, w, form, q(src))
		}
		c.Event("names equal to free names")
		if bare > len(free) {
			c.Event("locally bound name not reported")
		}
		names := rootNames(vars)
		var v1 cty.Value
		var d1 hcl.Diagnostics
		checkPanic(c, "evaluating", func() { v1, d1 = x.Value(evalCtx(env)) })
		v2, d2 := x.Value(evalCtx(onlyVars(c.Rand, env, names, false)))
		if !sameOutcome(v1, d1, v2, d2) {
			c.Failf("with all variables: %s %s\nwith only those reported (%s): %s %s\n%s: %s", valStr(v1), diagStr(d1), strings.Join(names, " "), valStr(v2), diagStr(d2), form, q(src))
		}
		c.Event("same outcome with reported only")
		other := onlyVars(c.Rand, env, names, true)
		v3, d3 := x.Value(evalCtx(other))
		if !sameOutcome(v1, d1, v3, d3) {
			c.Failf("with all variables: %s %s\nwith those not reported changed (%s reported): %s %s\n%s: %s", valStr(v1), diagStr(d1), strings.Join(names, " "), valStr(v3), diagStr(d3), form, q(src))
		}
		c.Event("same outcome with others changed")
		c.Sig(form, shape)
		c.Sample(form + " " + clip(src, 200) + "  reports  " + strings.Join(got, " "))
	}
}

// checkRefText compares a reported reference with the text at its range.
func checkRefText(c *mon.Case, src string, t hcl.Traversal) {
	rng := t.SourceRange()
	if rng.Start.Byte < 0 || rng.End.Byte > len(src) || rng.Start.Byte > rng.End.Byte {
		c.Failf("reference %s at %v lies outside the source\nsource: %s", t.RootName(), rng, q(src))
	}
	text := src[rng.Start.Byte:rng.End.Byte]
	if !strings.HasPrefix(text, t.RootName()) {
		c.Failf("reference to %s reported at %v, where the source has %s\nsource: %s", t.RootName(), rng, q(text), q(src))
	}
	x, diags := hclsyntax.ParseExpression([]byte(text), "t.hcl", rng.Start)
	if diags.HasErrors() {
		if strings.Contains(text, ")") {
			return // has redundant parentheses in it
		}
		c.Failf("reference to %s reported at %v, where the source has %s: %s\nsource: %s", t.RootName(), rng, q(text), diagStr(diags), q(src))
	}
	t2, diags := hcl.AbsTraversalForExpr(x)
	if diags.HasErrors() {
		c.Failf("reference to %s reported at %v, where the source has %s: %s\nsource: %s", t.RootName(), rng, q(text), diagStr(diags), q(src))
	}
	if !sameSteps(t, t2) {
		c.Failf("reference reported at %v differs from the source text there, %s\nsource: %s", rng, q(text), q(src))
	}
	c.Event("reference text checked")
}

// sameSteps compares references without regard to their ranges.
func sameSteps(a, b hcl.Traversal) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		switch x := a[i].(type) {
		case hcl.TraverseRoot:
			y, ok := b[i].(hcl.TraverseRoot)
			if !ok || x.Name != y.Name {
				return false
			}
		case hcl.TraverseAttr:
			y, ok := b[i].(hcl.TraverseAttr)
			if !ok || x.Name != y.Name {
				return false
			}
		case hcl.TraverseIndex:
			y, ok := b[i].(hcl.TraverseIndex)
			if !ok || !x.Key.RawEquals(y.Key) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// varsOfBody checks the variables reported for decoding a body.
func varsOfBody(c *mon.Case, env *gen.Env) {
	g := &gen.G{R: c.Rand, Env: env, Hostile: 40}
	s := gen.GenSpec(g, c.Range(0, 2))
	faults := 0
	if c.Bool() {
		faults = 12
	}
	b := gen.GenSpecBody(g, s, gen.SpecBodyOpts{Faults: faults})
	spec := decSpec(c, s)
	c.Input("specification", specStr(s))
	form := c.Pick("native", "json", "packed")
	var body hcl.Body
	var src string
	if form == "json" {
		src = gen.JSONText(c.Rand, gen.JSONBody(c.Rand, b, gen.JSONOpts{}))
		body = parseJSON(c, src).Body
	} else {
		src = gen.NewW(c.Rand).Config(b)
		body = parseNative(c, src).Body
		if form == "packed" {
			pb, diags := hclpack.PackNativeFile([]byte(src), "t.hcl", start)
			if diags.HasErrors() {
				c.Failf("well-formed configuration rejected: %s\nsource: %s", diagStr(diags), q(src))
			}
			body = pb
		}
	}
	c.Input(form, src)
	var vars []hcl.Traversal
	checkPanic(c, "listing variables", func() { vars = hcldec.Variables(body, spec) })
	names := rootNames(vars)
	want := gen.RefVars(s, b)
	if faults == 0 {
		var w []string
		for n := range want {
			w = append(w, n)
		}
		sort.Strings(w)
		if g, w := strings.Join(names, " "), strings.Join(w, " "); g != w {
			c.Failf("variables reported: %s\nvariables in what is decoded: %s\nsource: %s", g, w, q(src))
		}
		c.Event("names equal to free names")
	} else {
		for _, n := range names {
			if !want[n] {
				c.Failf("variable %s is reported but isn't used in what is decoded\nsource: %s", n, q(src))
			}
		}
	}
	var v1 cty.Value
	var d1 hcl.Diagnostics
	checkPanic(c, "decoding", func() { v1, d1 = hcldec.Decode(body, spec, evalCtx(env)) })
	for _, change := range []bool{false, true} {
		v2, d2 := hcldec.Decode(body, spec, evalCtx(onlyVars(c.Rand, env, names, change)))
		if d1.HasErrors() != d2.HasErrors() || !d1.HasErrors() && !sameOutcome(v1, d1, v2, d2) {
			c.Failf("decoding with all variables: %s %s\nwith those not reported (%s reported) left out or changed: %s %s\nsource: %s", valStr(v1), diagStr(d1), strings.Join(names, " "), valStr(v2), diagStr(d2), q(src))
		}
	}
	c.Event("decoded with reported only")
	c.Sig(form, s.Shape(), b.Shape())
	c.Sample(form + " body " + clip(src, 200) + "  reports  " + strings.Join(names, " "))
}

// varsOfDynamic does the same for bodies with dynamic blocks.
func varsOfDynamic(c *mon.Case, base *gen.Env) {
	g := &gen.G{R: c.Rand, Env: base, Hostile: 40}
	root := &gen.Env{Vars: map[string]cty.Value{}}
	s := gen.GenSpec(g, c.Range(1, 3))
	noDynamicSpec(s)
	json := c.Bool()
	b := gen.GenSpecBody(g, s, gen.SpecBodyOpts{Dynamic: c.Range(1, 3), DynMixed: !json, Root: root})
	env := &gen.Env{Vars: root.Vars, Parent: base}
	spec := decSpec(c, s)
	c.Input("scope", envStr(env))
	c.Input("specification", specStr(s))
	built := buildBodyForms(c, b.Lower(), env, 1, json)
	if strings.Contains(built.desc, "expanded") {
		c.Skip("expanded already")
	}
	var vars, xvars []hcl.Traversal
	checkPanic(c, "listing variables", func() {
		vars = dynblock.VariablesHCLDec(built.Body, spec)
		xvars = dynblock.ExpandVariablesHCLDec(built.Body, spec)
	})
	for _, t := range []struct {
		what string
		vars []hcl.Traversal
		want map[string]bool
	}{{"", vars, gen.DynVars(s, b, true)}, {" for expansion", xvars, gen.DynVars(s, b, false)}} {
		var w []string
		for n := range t.want {
			w = append(w, n)
		}
		if g, w := strings.Join(rootNames(t.vars), " "), strings.Join(sorted(w), " "); g != w {
			c.Failf("variables reported%s: %s\nvariables in what is decoded: %s\nform: %s", t.what, g, w, built.desc)
		}
		c.Event("names equal to free names")
	}
	names, xnames := rootNames(vars), rootNames(xvars)
	decode := func(env *gen.Env) (v cty.Value, diags hcl.Diagnostics) {
		ctx := evalCtx(env)
		checkPanic(c, "decoding", func() { v, diags = hcldec.Decode(dynblock.Expand(built.Body, ctx), spec, ctx) })
		return v, diags
	}
	v1, d1 := decode(env)
	structure := func(env *gen.Env) string {
		return structOf(dynblock.Expand(built.Body, evalCtx(env)), s)
	}
	s1 := structure(env)
	for _, change := range []bool{false, true} {
		v2, d2 := decode(onlyVars(c.Rand, env, names, change))
		if d1.HasErrors() != d2.HasErrors() || !d1.HasErrors() && !sameOutcome(v1, d1, v2, d2) {
			c.Failf("decoding with all variables: %s %s\nwith those not reported (%s reported) left out or changed: %s %s\nform: %s", valStr(v1), diagStr(d1), strings.Join(names, " "), valStr(v2), diagStr(d2), built.desc)
		}
		if s2 := structure(onlyVars(c.Rand, env, xnames, change)); s1 != s2 {
			c.Failf("blocks with all variables: %s\nwith those not reported for expansion (%s reported) left out or changed: %s\nform: %s", s1, strings.Join(xnames, " "), s2, built.desc)
		}
	}
	c.Event("expanded with reported only")
	// of the body that is expanded already
	for _, n := range rootNames(hcldec.Variables(dynblock.Expand(built.Body, evalCtx(env)), spec)) {
		if !has(names, n) {
			c.Failf("variable %s reported for the expanded body but not before\nform: %s", n, built.desc)
		}
	}
	c.Sig("dynamic "+built.desc, s.Shape(), b.Lower().Shape())
	c.Sample(built.desc + " body with dynamic blocks reports " + strings.Join(names, " ") + ", for expansion " + strings.Join(xnames, " "))
}

// structOf describes the blocks in a body, without values of attributes.
func structOf(body hcl.Body, s *gen.Spec) string {
	schema := &hcl.BodySchema{}
	nested := map[string]*gen.Spec{}
	for _, k := range s.SameBody() {
		if k.IsBlock() && nested[k.Name] == nil {
			nested[k.Name] = k
			schema.Blocks = append(schema.Blocks, hcl.BlockHeaderSchema{Type: k.Name, LabelNames: labelNames(k.NumLabels())})
		}
	}
	content, _, diags := body.PartialContent(schema)
	out := "{"
	if diags.HasErrors() {
		out = "error{"
	}
	for _, b := range content.Blocks {
		out += " " + b.Type + " " + strings.Join(b.Labels, " ")
		if k := nested[b.Type]; k.Kind != gen.SBlockAttrs {
			out += structOf(b.Body, k.Kids[0])
		}
	}
	return out + "}"
}
