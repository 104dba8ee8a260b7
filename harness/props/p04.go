package props

import (
	"fmt"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
)

func init() {
	register(&mon.Prop{
		ID: "P04",
		Rule: "random configurations built as models, written with random layout, comments, redundant parentheses and line endings, parsed, " +
			"and the recovered attributes, blocks, labels, nesting, order and expression trees compared with the model; the same with one structural fault " +
			"written in must be rejected; distinct = shape of the configuration, or fault with its place",
		Assumptions: []string{
			"spaces in literal text of templates are left to P06",
			"escaped template markers in block labels are not exercised",
		},
		Quick:    60000,
		Thorough: 300000,
		Require:  []string{"attribute matched", "block matched", "fault rejected"},
		Run:      runP04,
	})
}

func runP04(c *mon.Case) {
	g := &gen.G{R: c.Rand, Env: gen.NewEnv(c.Rand), Hostile: 15}
	b := gen.GenBody(g, gen.BodyOpts{MaxItems: c.Size(8, 60), Depth: c.Size(3, 12), ExprDepth: c.Range(1, 5), Heredocs: true})
	if c.Chance(1, 4) {
		structFault(c, g, b)
		return
	}
	w := gen.NewW(c.Rand)
	src := w.Config(b)
	c.Input("source", src)
	f, diags := hclsyntax.ParseConfig([]byte(src), "t.hcl", start)
	if diags.HasErrors() {
		c.Failf("valid configuration rejected: %s\nsource: %s", diagStr(diags), q(src))
	}
	matchBody(c, b, f.Body.(*hclsyntax.Body), "")
	if len(b.Items) > 1 {
		c.Sig(b.Shape())
	}
	c.Sample(clip(src, 300))

	// The same expressions on their own
	b.WalkExprs(func(it *gen.Item) {
		if it.X.Kind == gen.KHeredoc {
			return
		}
		src, _ := gen.RenderExpr(c.Rand, it.X)
		x, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", start)
		if diags.HasErrors() {
			c.Failf("valid expression rejected: %s\nsource: %s", diagStr(diags), q(src))
		}
		matchExpr(c, it.X, x, "expression "+q(src))
	})
}

func matchExpr(c *mon.Case, e *gen.Expr, x hclsyntax.Expression, where string) {
	want, got := canonModel(e), canonAST(x)
	if want != got {
		c.Failf("%s has the wrong structure\nwritten:   %s\nrecovered: %s", where, clip(want, 2000), clip(got, 2000))
	}
	c.Event("expression matched")
}

func matchBody(c *mon.Case, b *gen.Body, body *hclsyntax.Body, where string) {
	attrs := b.Attrs()
	if len(attrs) != len(body.Attributes) {
		c.Failf("%s has %d attributes, should be %d", where, len(body.Attributes), len(attrs))
	}
	for _, a := range attrs {
		at := body.Attributes[a.Name]
		if at == nil || at.Name != a.Name {
			c.Failf("%s lacks attribute %q", where, a.Name)
		}
		matchExpr(c, a.X, at.Expr, where+"/"+a.Name)
		c.Event("attribute matched")
	}
	blocks := b.Blocks()
	if len(blocks) != len(body.Blocks) {
		c.Failf("%s has %d blocks, should be %d", where, len(body.Blocks), len(blocks))
	}
	for i, bl := range blocks {
		got := body.Blocks[i]
		if got.Type != bl.Name {
			c.Failf("%s block %d has type %q, should be %q", where, i, got.Type, bl.Name)
		}
		var want []string
		for _, l := range bl.Labels {
			want = append(want, l.Text)
		}
		if fmt.Sprintf("%q", want) != fmt.Sprintf("%q", got.Labels) {
			c.Failf("%s block %d %s has labels %q, should be %q", where, i, bl.Name, got.Labels, want)
		}
		c.Event("block matched")
		matchBody(c, bl.Body, got.Body, fmt.Sprintf("%s/%s[%d]", where, bl.Name, i))
	}
}

var structFaults = []string{
	"zz = 1 zy = 2", "zz = 1, zy = 2", "zz = 1; zy = 2", "zz", "zz =", "= 1", "zz = = 1", "zz == 1", "zz : 1", "zz += 1", "zz => 1", "1a = 2", "1 = 2", "zz.a = 1", "zz[0] = 1", "\"zz\" = 1",
	"zz = (1", "zz = 1)", "zz = [1", "zz = 1]", "zz = {a = 1", "zz = f(1", "zz = \"abc", "zz = abc\"", "zz = \"${a\"", "zz = <<NEVER_ENDS\nabc",
	"zz = [1 2]", "zz = [1,,2]", "zz = [,]", "zz = {a = 1 b = 2}", "zz = {a}", "zz = {a = }", "zz = {= 1}", "zz = {a = 1,, b = 2}", "zz = {,}", "zz = {a b = 1}",
	"zz = f(1 2)", "zz = f(,)", "zz = f(1,,2)", "zz = f(1... , 2)", "zz = f(...)", "zz = f(1..., )",
	"zz = 1 +", "zz = + 1", "zz = 1 + + 2", "zz = * 2", "zz = 1 2", "zz = a b", "zz = !", "zz = -", "zz = 1 && ", "zz = a ||", "zz = a & b", "zz = a | b", "zz = a ^ b", "zz = ~a", "zz = a = b", "zz = a <> b",
	"zz = a ? b", "zz = a ? : c", "zz = a ? b :", "zz = ? b : c", "zz = a : b",
	"zz = a.", "zz = a..b", "zz = a.[0]", "zz = a[", "zz = a[]", "zz = a[1", "zz = a[1,2]", "zz = .a", "zz = a.b.", "zz = a.\"b\"", "zz = a[*", "zz = a.*.*", "zz = a.1.5x",
	"zz = [for x in l x]", "zz = [for x l: x]", "zz = [for in l: x]", "zz = [for x in l:]", "zz = [for x, y, z in l: x]", "zz = [for x in l: x => x]", "zz = {for x in l: x}", "zz = {for k, v in m: k => }", "zz = {for k, v in m: => v}",
	"zz = [for 1 in l: x]", "zz = [for x in l: x if]", "zz = [for x in l: x...]", "zz = [for x in : x]", "zz = [for x in l: x if a b]", "zz = {for k, v in m: k => v ... x}",
	"zz = \"a\" \"b\"", "zz = 'abc'", "zz = `abc`", "zz = \"a\nb\"", "zz = \"\\q\"", "zz = 0x10", "zz = 1_000", "zz = 1e", "zz = 1.5.5", "zz = .5", "zz = @a", "zz = a; ", "zz = \\",
	"zz =\n1", "zz\n= 1", "zz = 1 +\n2", "zz = a\n.b", "zz = a ?\nb : c", "zz = {a\n= 1}", "zz = {a =\n1}",
	"zz \"l\"", "zz {", "}", "zz }", "zz {}}", "zz { a = 1", "zz\n{\n}", "zz \"l\"\n{\n}", "zz {} zy {}", "zz {} zy = 1", "zz { a = 1, b = 2 }", "zz { a = 1 b = 2 }", "zz { zy {} }", "zz { a = 1\n}", "zz \"l\" = 1", "zz zy = 1",
	"zz \"${a}\" {}", "zz \"a\nb\" {}", "zz \"l {}", "zz 1 {}", "zz [] {}", "zz \"l\", \"m\" {}", "zz (a) {}", "\"zz\" {}", "zz = {} {}", "zz \"l\" {} \"m\"", "zz {\n  a = 1 }\n", "zz { \n} }",
	"zz {\n  a = 1 }\n}", "zz {\n  a {} }\n}", "zz {\n  a {\n  } }\n}", "zz {\n  a = 1 )\n}", "zz {\n  a {} ]\n}", "zz = [1)]", "zz = (1])", "zz = f(1])", "zz = a[1)]", "zz = {a = 1)}", "zz = {a = 1]}", "zz = \"${a]}\"", "zz = \"${a)}\"", "zz = [for x in l: x)]", "zz = {for k, v in m: k => v]}", "zz = (a\n  b)", "zz = (1]", "zz = [1)", "zz = [1}", "zz = f(1]", "zz = a[1)", "zz = {a = 1]",
	"zz = \"%{if a}b\"", "zz = \"%{endif}\"", "zz = \"%{if a}b%{else}c%{else}d%{endif}\"", "zz = \"%{for x in l}b\"", "zz = \"%{for x in l}b%{endif}\"", "zz = \"%{if a}b%{endfor}\"", "zz = \"%{if}b%{endif}\"", "zz = \"%{for x l}b%{endfor}\"", "zz = \"%{else}\"", "zz = \"%{if a b}c%{endif}\"", "zz = \"%{if a}b%{endif c}\"", "zz = \"%{}\"", "zz = \"${}\"", "zz = \"%{what}\"", "zz = \"%{for x in l}b%{else}c%{endfor}\"",
	"/* abc", "*/", "zz = 1 /* abc", "zz = 1 */", "[zz]", "(zz)", "zz()", "-zz = 1", "zz-- = = 1", "?", "$", "${zz}", "%{if a}", "\x00", "zz = \xff", "\xff = 1", "zz = \"\xff\"",
}

func structFault(c *mon.Case, g *gen.G, b *gen.Body) {
	// Choose a body to damage
	bodies := []*gen.Body{b}
	for i := 0; i < len(bodies); i++ {
		for _, bl := range bodies[i].Blocks() {
			bodies = append(bodies, bl.Body)
		}
	}
	t := bodies[c.Intn(len(bodies))]
	bad := structFaults[c.Intn(len(structFaults))]
	if c.Chance(1, 8) && len(t.Attrs()) > 0 {
		// repeat an attribute
		as := t.Attrs()
		bad = as[c.Intn(len(as))].Name + " = 1"
	}
	k := c.Intn(len(t.Items) + 1)
	it := &gen.Item{Name: "zz", Raw: bad}
	t.Items = append(t.Items[:k:k], append([]*gen.Item{it}, t.Items[k:]...)...)
	w := gen.NewW(c.Rand)
	w.NoComments = true
	src := w.Config(b)
	c.Input("source", src)
	var diags hcl.Diagnostics
	checkPanic(c, "parsing", func() { _, diags = hclsyntax.ParseConfig([]byte(src), "t.hcl", start) })
	if !diags.HasErrors() {
		c.Failf("invalid configuration accepted (fault: %q)\nsource: %s", bad, q(src))
	}
	c.Event("fault rejected")
	c.Sig(bad, k, len(bodies))

	// The faulty expression on its own
	if strings.HasPrefix(bad, "zz = ") && !strings.ContainsAny(bad, "\n,;{}") && !strings.HasPrefix(bad, "zz = 1 zy") {
		ex := strings.TrimPrefix(bad, "zz = ")
		_, diags := hclsyntax.ParseExpression([]byte(ex), "t.hcl", start)
		if !diags.HasErrors() {
			c.Failf("invalid expression accepted: %q", ex)
		}
	}
}
