package props

import (
	"fmt"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/ext/dynblock"
	"github.com/hashicorp/hcl2/gohcl"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/zclconf/go-cty/cty"
)

func init() {
	register(&mon.Prop{
		ID: "P36",
		Rule: "expressions and bodies that evaluate and decode without errors, with one fault put in at a random place; each error must be placed inside the text of the fault, with true lines and columns, " +
			"inside of its context, and with a scope in which the expression it names can be looked up; loops over sequences with one unsuitable element must name that element; distinct = (kind of fault, shape of what surrounds it)",
		Assumptions: []string{"a problem may be reported several times, as in the iterations of a loop"},
		Quick:       130000,
		Thorough:    430000,
		Require:     []string{"expression fault placed", "loop element named", "loop condition placed", "body fault placed", "missing item placed", "hostile expression placed", "generated block named", "Go structure fault placed", "JSON fault placed", "property placed", "special fault placed", "extra block placed", "label of generated block placed"},
		Run:         runP36,
	})
}

func runP36(c *mon.Case) {
	switch c.Intn(13) {
	case 0, 1, 2:
		placeExpr(c)
	case 12:
		placeCount(c)
	case 3:
		placeHostile(c)
	case 4:
		placeLoop(c)
	case 5:
		placeDyn(c)
	case 6:
		placeGo(c)
	case 7:
		if c.Bool() {
			placeProperty(c)
			return
		}
		placeJSON(c)
	case 8:
		placeTable(c)
	default:
		placeBody(c)
	}
}

// slots collects the places of an expression where any other expression
// could be written instead.
func slots(e *gen.Expr) []**gen.Expr {
	var ret []**gen.Expr
	add := func(p **gen.Expr) { ret = append(ret, p) }
	var parts func(ps []*gen.Part)
	var walk func(e *gen.Expr)
	parts = func(ps []*gen.Part) {
		for _, p := range ps {
			if p.X != nil {
				add(&p.X)
				walk(p.X)
			}
			parts(p.Then)
			parts(p.Else)
		}
	}
	walk = func(e *gen.Expr) {
		if e == nil {
			return
		}
		for i := range e.X {
			if e.X[i] == nil {
				continue
			}
			switch e.Kind {
			case gen.KAttrSplat, gen.KFullSplat:
				if i > 0 {
					continue
				}
			case gen.KObject:
				if i%2 == 0 && e.Keys[i/2] != gen.KeyParen {
					continue
				}
			}
			add(&e.X[i])
			walk(e.X[i])
		}
		parts(e.Parts)
	}
	walk(e)
	return ret
}

// failing makes an expression that can't be evaluated anywhere.
func failing(c *mon.Case, g *gen.G) (*gen.Expr, string) {
	tup := func(xs ...*gen.Expr) *gen.Expr { return &gen.Expr{Kind: gen.KTuple, X: xs} }
	ok := gen.Num("1")
	if c.Bool() {
		ok = gen.Var("n")
	}
	switch c.Intn(15) {
	case 0:
		return gen.Var("nosuch_v"), "variable"
	case 1:
		return &gen.Expr{Kind: gen.KAttr, Text: "b", X: []*gen.Expr{{Kind: gen.KAttr, Text: "a", X: []*gen.Expr{gen.Var("nosuch_v")}}}}, "variable path"
	case 2:
		return &gen.Expr{Kind: gen.KCall, Text: "nosuch_f", X: []*gen.Expr{ok}}, "function"
	case 3:
		return &gen.Expr{Kind: gen.KBin, Text: c.Pick("+", "-", "*", "<", "&&", "||", "%"), X: []*gen.Expr{tup(), ok}}, "left operand"
	case 4:
		return &gen.Expr{Kind: gen.KBin, Text: c.Pick("+", "-", "*", "<", "/", "%"), X: []*gen.Expr{gen.Num("7"), tup(ok)}}, "right operand"
	case 5:
		return &gen.Expr{Kind: gen.KUn, Text: c.Pick("-", "!"), X: []*gen.Expr{tup()}}, "operand"
	case 6:
		return &gen.Expr{Kind: gen.KIndex, X: []*gen.Expr{tup(ok), gen.Num("5")}}, "index"
	case 7:
		return &gen.Expr{Kind: gen.KAttr, Text: "absent", X: []*gen.Expr{{Kind: gen.KObject, X: []*gen.Expr{gen.Var("a"), ok}, Keys: []gen.KeyStyle{gen.KeyIdent}}}}, "attribute"
	case 8:
		return &gen.Expr{Kind: gen.KCond, X: []*gen.Expr{tup(), gen.Num("1"), ok}}, "condition"
	case 9:
		return &gen.Expr{Kind: gen.KForTuple, Val: "x", X: []*gen.Expr{gen.Num("5"), gen.Var("x"), nil}}, "collection"
	case 10:
		return &gen.Expr{Kind: gen.KStr, Parts: []*gen.Part{{Kind: gen.PLit, Text: "a"}, {Kind: gen.PInterp, X: tup(ok)}}}, "interpolation"
	case 11:
		return &gen.Expr{Kind: gen.KCall, Text: "upper", X: nil}, "too few arguments"
	case 12:
		return &gen.Expr{Kind: gen.KCall, Text: "upper", X: []*gen.Expr{gen.Lit("a"), ok}}, "too many arguments"
	case 13:
		return &gen.Expr{Kind: gen.KCall, Text: "upper", X: []*gen.Expr{tup(ok)}}, "argument"
	}
	return &gen.Expr{Kind: gen.KObject, X: []*gen.Expr{{Kind: gen.KNull}, ok}, Keys: []gen.KeyStyle{gen.KeyParen}}, "key"
}

// placed judges where problems are said to be, which must be inside of an
// extent of the source.
type placed struct {
	c    *mon.Case
	rc   *rangeChecker
	ctx  *hcl.EvalContext
	src  string
	what string
	lo   int
	hi   int
	// The fault has a type all the same, so that it can lead to others if
	// that type isn't suitable either.
	typed bool
	// It's in the branch of a conditional, where it may not be evaluated but
	// still have an effect on the type of the result.
	branch bool
}

func (p *placed) check(diags hcl.Diagnostics, sure bool) {
	c := p.c
	some := false
	for _, d := range diags {
		if d.Severity != hcl.DiagError {
			c.Failf("%s: %q has severity %d", p.what, d.Summary, d.Severity)
		}
		if d.Subject == nil {
			c.Failf("%s: %q doesn't say where\nsource: %s", p.what, d.Error(), q(p.src))
		}
		p.rc.check(fmt.Sprintf("%s: subject of %q", p.what, d.Summary), *d.Subject)
		if s, e := d.Subject.Start.Byte, d.Subject.End.Byte; s >= p.lo && e <= p.hi {
			some = true
		} else if !p.typed && !p.branch {
			c.Failf("%s at %d-%d (%s) is reported at %d-%d (%s): %s\nsource: %s", p.what, p.lo, p.hi, q(p.src[p.lo:p.hi]), s, e, q(p.src[s:e]), d.Error(), q(p.src))
		}
		if d.Context != nil {
			p.rc.check(fmt.Sprintf("%s: context of %q", p.what, d.Summary), *d.Context)
			if !contains(*d.Context, *d.Subject) {
				c.Failf("%s: %q has context %v that doesn't contain its subject %v\nsource: %s", p.what, d.Summary, *d.Context, *d.Subject, q(p.src))
			}
		}
		if (d.Expression == nil) != (d.EvalContext == nil) {
			c.Failf("%s: %q has an expression or a scope but not both\nsource: %s", p.what, d.Summary, q(p.src))
		}
		if d.Expression == nil {
			continue
		}
		r := d.Expression.Range()
		p.rc.check(fmt.Sprintf("%s: expression of %q", p.what, d.Summary), r)
		c.Event("expression named")
		ctx := d.EvalContext
		for ctx != nil && ctx != p.ctx {
			ctx = ctx.Parent()
		}
		if ctx == nil {
			c.Failf("%s: %q has a scope that isn't inside of the one used\nsource: %s", p.what, d.Summary, q(p.src))
		}
		if !sure {
			continue
		}
		// All names but those of the faults are defined.
		for _, tr := range d.Expression.Variables() {
			if n := tr.RootName(); !strings.HasPrefix(n, "nosuch_") && !defined(d.EvalContext, n) {
				c.Failf("%s: %q names the expression %s but %q isn't in its scope\nsource: %s", p.what, d.Summary, q(p.rc.text(r)), n, q(p.src))
			}
		}
	}
	if len(diags) > 0 && !some && !p.branch {
		c.Failf("%s at %d-%d (%s) is reported only elsewhere: %s\nsource: %s", p.what, p.lo, p.hi, q(p.src[p.lo:p.hi]), diagStr(diags), q(p.src))
	}
}

// untyped are the faults whose value could be of any type.
var untyped = map[string]bool{"variable": true, "variable path": true, "function": true, "index": true, "attribute": true}

// hasDynamic is whether a specification leaves a type to the configuration.
func hasDynamic(s *gen.Spec) bool {
	return gen.HasDynamic(gen.Implied(s)) || hasTransform(s) || mapLevels(s)
}

// blockAttrs is whether blocks of a type may be read as free-form attributes.
func blockAttrs(s *gen.Spec, name string) bool {
	if s.Kind == gen.SBlockAttrs && s.Name == name {
		return true
	}
	for _, k := range s.Kids {
		if blockAttrs(k, name) {
			return true
		}
	}
	return false
}

// inBranch is whether an expression is somewhere in the branch of a
// conditional within another.
func inBranch(e, f *gen.Expr) bool {
	found := false
	e.Walk(func(x *gen.Expr) {
		if x.Kind != gen.KCond || x == f {
			return
		}
		for _, b := range x.X[1:] {
			b.Walk(func(y *gen.Expr) { found = found || y == f })
		}
	})
	return found
}

// allDefined is whether all names but those of faults are in scope, which
// isn't so where some are never evaluated.
func allDefined(ctx *hcl.EvalContext, e *gen.Expr) bool {
	for _, n := range e.Free() {
		if !strings.HasPrefix(n, "nosuch_") && !defined(ctx, n) {
			return false
		}
	}
	return true
}

func defined(ctx *hcl.EvalContext, name string) bool {
	for ; ctx != nil; ctx = ctx.Parent() {
		if _, ok := ctx.Variables[name]; ok {
			return true
		}
	}
	return false
}

// onceOnly skips expressions that have another in several places.
func onceOnly(c *mon.Case, e, f *gen.Expr) {
	n := 0
	e.Walk(func(x *gen.Expr) {
		if x == f {
			n++
		}
	})
	if n > 1 {
		c.Skip("written several times")
	}
}

func placeExpr(c *mon.Case) {
	env := gen.NewEnv(c.Rand)
	g := &gen.G{R: c.Rand, Env: env, Hostile: 60}
	ctx := evalCtx(env)
	e := g.Expr(gen.Want(c.Intn(6)), c.Size(3, 7))
	src, _ := gen.RenderExpr(c.Rand, e)
	x, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", start)
	if diags.HasErrors() {
		c.Failf("well-formed expression rejected: %s\nsource: %s", diagStr(diags), q(src))
	}
	if mon.Guard(func() { _, diags = x.Value(ctx) }) != "" {
		c.Skip("crash left to P05")
	}
	if diags.HasErrors() {
		c.Skip("fails already")
	}
	ss := slots(e)
	if len(ss) == 0 {
		c.Skip("nowhere to put a fault")
	}
	at := ss[c.Intn(len(ss))]
	f, what := failing(c, g)
	*at = f
	onceOnly(c, e, f)
	st := randStart(c)
	src, w := gen.RenderExpr(c.Rand, e)
	sp, ok := w.Spans[f]
	if !ok {
		c.Failf("harness: fault not written in %s", q(src))
	}
	c.Input("scope", envStr(env))
	c.Input("expr", src)
	c.Input("fault", src[sp[0]:sp[1]])
	x, diags = hclsyntax.ParseExpression([]byte(src), "t.hcl", st)
	if diags.HasErrors() {
		c.Failf("well-formed expression rejected: %s\nsource: %s", diagStr(diags), q(src))
	}
	if mon.Guard(func() { _, diags = x.Value(ctx) }) != "" {
		c.Skip("crash left to P05")
	}
	rc := newRangeChecker(c, []byte(src), st, "t.hcl", 1)
	p := &placed{c: c, rc: rc, ctx: ctx, src: strings.Repeat("\x00", st.Byte) + src, what: "unsuitable " + what, lo: sp[0] + st.Byte, hi: sp[1] + st.Byte, typed: !untyped[what], branch: inBranch(e, f)}
	p.check(diags, allDefined(ctx, e))
	if len(diags) == 0 {
		c.Event("fault not reached")
		return
	}
	c.Event("expression fault placed")
	c.Sig(what, e.Shape())
	c.Sample(clip(src, 200) + "  fault " + clip(src[sp[0]:sp[1]], 60))
}

func placeHostile(c *mon.Case) {
	env := gen.NewEnv(c.Rand)
	g := &gen.G{R: c.Rand, Env: env, Hostile: 6}
	ctx := evalCtx(env)
	e := g.Expr(gen.Want(c.Intn(6)), c.Size(3, 7))
	src, _ := gen.RenderExpr(c.Rand, e)
	c.Input("scope", envStr(env))
	c.Input("expr", src)
	st := randStart(c)
	x, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", st)
	if diags.HasErrors() {
		c.Failf("well-formed expression rejected: %s\nsource: %s", diagStr(diags), q(src))
	}
	if mon.Guard(func() { _, diags = x.Value(ctx) }) != "" {
		c.Skip("crash left to P05")
	}
	rc := newRangeChecker(c, []byte(src), st, "t.hcl", 1)
	p := &placed{c: c, rc: rc, ctx: ctx, src: strings.Repeat("\x00", st.Byte) + src, what: "some fault", lo: st.Byte, hi: st.Byte + len(src)}
	p.check(diags, false)
	if len(diags) > 0 {
		c.Event("hostile expression placed")
		c.Sig("hostile", e.Shape())
	}
}

// placeLoop evaluates loops over sequences in which one element is
// unsuitable, which must be the one in scope where the problem is.
func placeLoop(c *mon.Case) {
	bodies := []struct {
		src, good string
		bad       string
	}{
		{"v + 1", "1", "[]"},
		{"-v", "2", "{}"},
		{"!v", "true", "[1]"},
		{`"a${v}b"`, `"s"`, "[]"},
		{"v.foo", "{foo = 1}", "{bar = 1}"},
		{"v[1]", "[1, 2]", "[1]"},
		{"l[v]", "0", "9"},
		{"v ? 1 : 2", "true", "[]"},
		{"upper(v)", `"s"`, "[]"},
		{"upper(\"a\", v...)", "[]", "[1]"},
		{"[for w in v : w]", "[]", "5"},
		{"{for w in v : w => 1}", `["a"]`, "[[]]"},
		{"[1, (v * 2)][0]", "3", `"x"`},
		{"v.*.foo", "[{foo = 1}]", "[{}]"},
		{"v[*].foo", "[{foo = 1}]", "[{}]"},
		{"{(v) = 1}", `"k"`, "null"},
		{"<<E\n%{ if v }yes%{ endif }\nE\n", "true", "[]"},
		{"\"%{ for w in v }${w}%{ endfor }\"", "[1]", "[[]]"},
	}
	b := bodies[c.Intn(len(bodies))]
	n := c.Range(1, 6)
	at := c.Intn(n)
	var els []string
	for i := 0; i < n; i++ {
		if i == at {
			els = append(els, b.bad)
		} else {
			els = append(els, b.good)
		}
	}
	coll := "[" + strings.Join(els, ", ") + "]"
	kind := c.Intn(6)
	var src string
	switch kind {
	case 0:
		src = fmt.Sprintf("[for k, v in %s : %s]", coll, b.src)
	case 1:
		src = fmt.Sprintf("{for k, v in %s : k => %s}", coll, b.src)
	case 2:
		src = fmt.Sprintf("{for k, v in %s : \"x${k}\" => %s...}", coll, b.src)
	case 3:
		src = fmt.Sprintf("[for k, v in %s : k if [%s] == []]", coll, b.src)
	case 4:
		src = fmt.Sprintf("\"%%{ for k, v in %s }a${[%s] == []}%%{ endfor }\"", coll, b.src)
	case 5:
		src = fmt.Sprintf("[for j in [0] : [for k, v in %s : {x = %s}]]", coll, b.src)
	}
	ctx := &hcl.EvalContext{Variables: map[string]cty.Value{"l": cty.ListVal([]cty.Value{cty.StringVal("x")})}, Functions: gen.Funcs}
	outer := cty.StringVal("outer")
	if c.Bool() {
		ctx.Variables["k"], ctx.Variables["v"] = outer, outer
	}
	if c.Bool() {
		ctx = ctx.NewChild()
	}
	if c.Chance(1, 6) {
		placeCondition(c, ctx, coll)
		return
	}
	if c.Chance(1, 4) {
		// a key can't be used
		b.src = c.Pick("v", "(v)", "v[0]", "\"${v}\"", "v.x", "true ? v : v", "[v][0]", "upper(v)")
		keys := []string{"\"A\"", "\"B\"", "\"C\"", "\"D\"", "\"E\"", "\"F\""}[:n]
		group := ""
		switch k := c.Intn(4); {
		case k < 2 && at > 0:
			keys[at] = keys[c.Intn(at)]
		case b.src == "\"${v}\"" || b.src == "upper(v)" || k == 3:
			keys[at] = c.Pick("[]", "{}", "[[1]]")
			group = c.Pick("", "...")
		default:
			keys[at] = "null"
			group = c.Pick("", "...")
		}
		for i, k := range keys {
			switch b.src {
			case "v[0]":
				keys[i] = "[" + k + "]"
			case "v.x":
				keys[i] = "{x = " + k + "}"
			}
		}
		coll = "[" + strings.Join(keys, ", ") + "]"
		src = fmt.Sprintf("{for k, v in %s : %s => %s%s}", coll, b.src, c.Pick("k", "1", "[k]"), group)
		if c.Chance(1, 3) {
			src = "[for k in [9] : " + src + "]"
		}
		kind = 6
	}
	c.Input("expr", src)
	x, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", start)
	if diags.HasErrors() {
		c.Skip("not parsed")
	}
	_, diags = x.Value(ctx)
	if !diags.HasErrors() {
		c.Failf("no error though an element is unsuitable: %s", q(src))
	}
	for _, d := range diags {
		if d.Subject == nil {
			c.Failf("%q doesn't say where: %s", d.Error(), q(src))
		}
		text := src[d.Subject.Start.Byte:d.Subject.End.Byte]
		i := strings.LastIndex(src, b.src)
		if kind == 6 {
			i = strings.LastIndex(src, ": "+b.src+" =>") + 2
		}
		if i < 0 || d.Subject.Start.Byte < i || d.Subject.End.Byte > i+len(b.src) {
			c.Failf("the problem is in %s but reported at %q: %s\nsource: %s", b.src, text, d.Error(), q(src))
		}
		if d.EvalContext == nil {
			continue
		}
		k := scopeVal(d.EvalContext, "k")
		if k == cty.NilVal || !k.RawEquals(cty.NumberIntVal(int64(at))) {
			c.Failf("element %d is unsuitable but the scope of the problem has %s: %s\nsource: %s", at, valStr(k), d.Error(), q(src))
		}
		c.Event("loop element named")
	}
	c.Sig("loop", kind, b.src, n, at)
	c.Sample(src)
}

// placeCondition evaluates loops whose condition is unsuitable whatever the
// element, which may be found without looking at any.
func placeCondition(c *mon.Case, ctx *hcl.EvalContext, coll string) {
	cond := c.Pick("[v]", "{a = k}", "[k, v]", "[for w in [v] : w]", "false ? [] : [v, k]", "null", "[[v], null][1]")
	src := fmt.Sprintf("[for k, v in %s : k if %s]", coll, cond)
	if c.Bool() {
		src = fmt.Sprintf("{for k, v in %s : k => 1 if %s}", coll, cond)
	}
	c.Input("expr", src)
	x, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", start)
	if diags.HasErrors() {
		c.Failf("well-formed expression rejected: %s\nsource: %s", diagStr(diags), q(src))
	}
	_, diags = x.Value(ctx)
	lo := strings.LastIndex(src, cond)
	p := &placed{c: c, rc: newRangeChecker(c, []byte(src), start, "t.hcl", 1), ctx: ctx, src: src, what: "unsuitable condition", lo: lo, hi: lo + len(cond)}
	p.check(diags, true)
	for _, d := range diags {
		if d.EvalContext == nil {
			continue
		}
		for _, tr := range d.Expression.Variables() {
			if v := scopeVal(d.EvalContext, tr.RootName()); v != cty.NilVal && v.RawEquals(cty.StringVal("outer")) {
				c.Failf("the scope of the problem has %s from outside of the loop: %s\nsource: %s", tr.RootName(), d.Error(), q(src))
			}
		}
	}
	if !diags.HasErrors() {
		c.Failf("unsuitable condition not reported: %s", q(src))
	}
	c.Event("loop condition placed")
	c.Sig("condition", src)
}

// scopeVal finds a variable from a scope.
func scopeVal(ctx *hcl.EvalContext, name string) cty.Value {
	for ; ctx != nil; ctx = ctx.Parent() {
		if v, ok := ctx.Variables[name]; ok {
			return v
		}
	}
	return cty.NilVal
}

// placeDyn decodes generated blocks one of which gets an unsuitable element.
func placeDyn(c *mon.Case) {
	exprs := [][3]string{
		{"%s.value + 1", "1", "[]"},
		{"-(%s.value)", "2", "{}"},
		{"%s.value.foo", "{foo = 1}", "{bar = 1}"},
		{"[4, 5][%s.value]", "0", "9"},
		{"[for w in [1] : w + %s.value][0]", "3", "[]"},
		{"%s.value", "7", "[1]"}, // found by conversion, not by evaluation
	}
	ex := exprs[c.Intn(len(exprs))]
	n := c.Range(1, 6)
	at := c.Intn(n)
	var els []string
	for i := 0; i < n; i++ {
		el := ex[1]
		if i == at {
			el = ex[2]
		}
		els = append(els, el)
	}
	it, decl := "blk", ""
	if c.Bool() {
		it = c.Pick("each", "blk", "l", "outer")
		decl = "  iterator = " + it + "\n"
	}
	labelled := c.Chance(1, 3)
	if labelled {
		// one of the labels can't be used
		labs := [][3]string{
			{"%s.value", "\"s\"", "null"},
			{"%s.value", "\"s\"", "[]"},
			{"[%s.value][0]", "\"s\"", "{}"},
			{"%s.value", "5", "unk"},
			{"\"x${%s.value}\"", "5", "unk"},
			{"\"x${%s.value}\"", "5", "[1]"},
			{"%s.value.foo", "{foo = 1}", "{bar = 1}"},
			{"%s.value.foo", "{foo = 1}", "{foo = null}"},
		}
		ex = labs[c.Intn(len(labs))]
		els = nil
		for i := 0; i < n; i++ {
			els = append(els, ex[1])
		}
		els[at] = ex[2]
	}
	fault := fmt.Sprintf(ex[0], it)
	coll := "[" + strings.Join(els, ", ") + "]"
	src := fmt.Sprintf("dynamic \"blk\" {\n  for_each = %s\n%s  content {\n    a = %s\n  }\n}\n", coll, decl, fault)
	var spec hcldec.Spec = &hcldec.BlockTupleSpec{TypeName: "blk", Nested: &hcldec.AttrSpec{Name: "a", Type: cty.Number}}
	if labelled {
		ls := []string{"\"p\"", fault, "\"q\""}
		lo := c.Intn(2)
		hi := c.Range(2, 3)
		src = fmt.Sprintf("dynamic \"blk\" {\n  for_each = %s\n%s  content {\n    a = 1\n  }\n  labels = [%s]\n}\n", coll, decl, strings.Join(ls[lo:hi], ", "))
		spec = &hcldec.BlockTupleSpec{TypeName: "blk", Nested: hcldec.ObjectSpec{}}
		o := spec.(*hcldec.BlockTupleSpec).Nested.(hcldec.ObjectSpec)
		o["a"] = &hcldec.AttrSpec{Name: "a", Type: cty.Number}
		for i := lo; i < hi; i++ {
			o[fmt.Sprint("l", i)] = &hcldec.BlockLabelSpec{Index: i - lo, Name: fmt.Sprint("l", i)}
		}
	}
	if c.Bool() {
		// once more inside of generated blocks
		src = "dynamic \"top\" {\n  for_each = [\"x\"]\n  iterator = outer\n  content {\n" + src + "  }\n}\n"
		spec = &hcldec.BlockListSpec{TypeName: "top", Nested: spec}
	}
	if c.Bool() && !labelled {
		src = "blk {\n  a = 1\n}\n" + src
		if _, ok := spec.(*hcldec.BlockListSpec); ok {
			src = strings.Replace(src, "blk {", "top {", 1)
			src = strings.Replace(src, "  a = 1\n", "", 1)
		}
	}
	c.Input("source", src)
	ctx := &hcl.EvalContext{Variables: map[string]cty.Value{"l": cty.ListVal([]cty.Value{cty.StringVal("x")}), "unk": cty.UnknownVal(cty.String)}, Functions: gen.Funcs}
	body := dynblock.Expand(parseNative(c, src).Body, ctx)
	_, diags := hcldec.Decode(body, spec, ctx)
	if !diags.HasErrors() {
		c.Failf("no error though an element is unsuitable: %s", q(src))
	}
	lo := strings.LastIndex(src, fault)
	for _, d := range diags {
		if d.Subject == nil {
			c.Failf("%q doesn't say where: %s", d.Error(), q(src))
		}
		if s, e := d.Subject.Start.Byte, d.Subject.End.Byte; s < lo || e > lo+len(fault) {
			c.Failf("the problem is in %s but reported at %q: %s\nsource: %s", fault, src[s:e], d.Error(), q(src))
		}
		if d.EvalContext == nil {
			c.Event("generated block placed")
			continue
		}
		k := scopeVal(d.EvalContext, it)
		if k == cty.NilVal || !k.Type().IsObjectType() || !k.Type().HasAttribute("key") || !k.GetAttr("key").RawEquals(cty.NumberIntVal(int64(at))) {
			c.Failf("element %d is unsuitable but the scope of the problem has %s: %s\nsource: %s", at, valStr(k), d.Error(), q(src))
		}
		c.Event("generated block named")
	}
	if labelled {
		c.Event("label of generated block placed")
	}
	c.Sig("dynamic", ex[0], n, at, it, len(src))
}

type goBlock struct {
	Label string   `hcl:"label,label"`
	N     int      `hcl:"n"`
	S     *string  `hcl:"s"`
	B     bool     `hcl:"b,optional"`
	L     []string `hcl:"l,optional"`
}

type goTop struct {
	N    int                `hcl:"n"`
	M    map[string]float64 `hcl:"m,optional"`
	One  *goBlock           `hcl:"one,block"`
	Many []goBlock          `hcl:"many,block"`
	Ptrs []*goBlock         `hcl:"ptr,block"`
}

// placeGo decodes into Go structures a body with one fault.
func placeGo(c *mon.Case) {
	g := &gen.G{R: c.Rand, Env: gen.NewEnv(c.Rand)}
	b := &gen.Body{Items: []*gen.Item{{Name: "n", X: gen.Num("1")}}}
	if c.Bool() {
		b.Items = append(b.Items, &gen.Item{Name: "m", X: &gen.Expr{Kind: gen.KObject, X: []*gen.Expr{gen.Var("a"), gen.Num("2.5")}, Keys: []gen.KeyStyle{gen.KeyIdent}}})
	}
	block := func(name string) *gen.Item {
		it := &gen.Item{Name: name, Labels: []gen.Label{gen.GenLabel(c.Rand)}, Body: &gen.Body{}}
		add := func(n string, x *gen.Expr) { it.Body.Items = append(it.Body.Items, &gen.Item{Name: n, X: x}) }
		add("n", gen.Num("3"))
		if c.Bool() {
			add("s", gen.Lit("x"))
		}
		if c.Bool() {
			add("b", &gen.Expr{Kind: gen.KBool, Text: "true"})
		}
		if c.Bool() {
			add("l", &gen.Expr{Kind: gen.KTuple, X: []*gen.Expr{gen.Lit("y"), gen.Lit("z")}})
		}
		return it
	}
	if c.Bool() {
		b.Items = append(b.Items, block("one"))
	}
	for i := c.Intn(4); i > 0; i-- {
		b.Items = append(b.Items, block(c.Pick("many", "ptr")))
	}
	type owned struct {
		body  *gen.Body
		owner *gen.Item
	}
	bodies := []owned{{b, nil}}
	for _, bl := range b.Blocks() {
		bodies = append(bodies, owned{bl.Body, bl})
	}
	t := bodies[c.Intn(len(bodies))]
	at := c.Intn(len(t.body.Items))
	it := t.body.Items[at]
	what := ""
	var in *gen.Item
	var ex *gen.Expr
	switch k := c.Intn(6); {
	case k == 0 && it.X != nil:
		ex, what = failing(c, g)
		it.X = ex
		what = "unsuitable " + what
	case k <= 2 && it.X != nil:
		what = "unsuitable type"
		ex = &gen.Expr{Kind: gen.KTuple, X: []*gen.Expr{{Kind: gen.KTuple}}}
		it.X = ex
	case k == 3:
		what, in = "unexpected attribute", &gen.Item{Name: "left_over", X: gen.Num("1")}
	case k == 4:
		what, in = "unexpected block", &gen.Item{Name: "left_over", Body: &gen.Body{}}
	case k == 5 && it.Name == "one":
		what, in = "repeated block", block("one")
		at++
	case it.Name == "n":
		what = "missing item"
		t.body.Items = append(t.body.Items[:at:at], t.body.Items[at+1:]...)
	case t.owner != nil:
		what, in = "missing label", t.owner
		t.owner.Labels = nil
	default:
		c.Skip("no fault")
	}
	if in != nil && in != t.owner {
		t.body.Items = append(t.body.Items[:at:at], append([]*gen.Item{in}, t.body.Items[at:]...)...)
	}
	w := gen.NewW(c.Rand)
	src := w.Config(b)
	c.Input("source", src)
	c.Input("scope", envStr(g.Env))
	lo, hi := 0, len(src)
	switch {
	case ex != nil:
		lo, hi = w.Spans[ex][0], w.Spans[ex][1]
	case in != nil:
		lo, hi = w.Items[in].Whole[0], w.Items[in].Whole[1]
	case t.owner != nil:
		lo, hi = w.Items[t.owner].Whole[0], w.Items[t.owner].Whole[1]
	}
	ctx := evalCtx(g.Env)
	var v goTop
	var diags hcl.Diagnostics
	checkPanic(c, "decoding", func() { diags = gohcl.DecodeBody(parseNative(c, src).Body, ctx, &v) })
	if !diags.HasErrors() {
		c.Failf("%s not reported\nsource: %s", what, q(src))
	}
	p := &placed{c: c, rc: newRangeChecker(c, []byte(src), start, "t.hcl", 0), ctx: ctx, src: src, what: what, lo: lo, hi: hi, typed: strings.HasPrefix(what, "unsuitable ") && what != "unsuitable type"}
	p.check(diags, true)
	c.Event("Go structure fault placed")
	c.Sig("go", what, b.Shape())
}

// placeJSON decodes JSON bodies with a reference to a variable that doesn't
// exist in one of the strings.
func placeJSON(c *mon.Case) {
	env := gen.NewEnv(c.Rand)
	g := &gen.G{R: c.Rand, Env: env, Hostile: 60, Sure: true}
	s := gen.GenSpec(g, c.Range(0, 3))
	spec := decSpec(c, s)
	b := gen.GenSpecBody(g, s, gen.SpecBodyOpts{})
	ctx := evalCtx(env)
	c.Input("scope", envStr(env))
	c.Input("specification", specStr(s))
	src := gen.JSONText(c.Rand, gen.JSONBodyValue(c.Rand, b, gen.JSONOpts{}))
	var diags hcl.Diagnostics
	if msg := mon.Guard(func() { _, diags = hcldec.Decode(parseJSON(c, src).Body, spec, ctx) }); msg != "" {
		c.Skip("left to P17")
	}
	if diags.HasErrors() {
		c.Skip("fails already")
	}
	var as []*gen.Item
	b.WalkExprs(func(it *gen.Item) { as = append(as, it) })
	if len(as) == 0 {
		c.Skip("no attribute")
	}
	it := as[c.Intn(len(as))]
	f := gen.Var("nosuch_v")
	ss := slots(it.X)
	branch := hasDynamic(s)
	if len(ss) > 0 && c.Bool() {
		*ss[c.Intn(len(ss))] = f
		branch = branch || inBranch(it.X, f)
	} else {
		it.X = f
	}
	onceOnly(c, it.X, f)
	src = gen.JSONText(c.Rand, gen.JSONBodyValue(c.Rand, b, gen.JSONOpts{}))
	c.Input("source", src)
	lo := strings.Index(src, "nosuch_v")
	if lo < 0 || strings.Count(src, "nosuch_v") > 1 {
		c.Skip("written with escapes or several times")
	}
	lo = strings.LastIndexByte(src[:lo], '"')
	if lo < 0 || lo > 0 && src[lo-1] == '\\' {
		c.Skip("in a string within a string")
	}
	hi := lo + 1
	for ; src[hi] != '"'; hi++ {
		if src[hi] == '\\' {
			c.Skip("written with escapes")
		}
	}
	hi++
	if msg := mon.Guard(func() { _, diags = hcldec.Decode(parseJSON(c, src).Body, spec, ctx) }); msg != "" {
		c.Skip("left to P17")
	}
	rc := newRangeChecker(c, []byte(src), start, "t.hcl.json", -1)
	rc.json = true
	p := &placed{c: c, rc: rc, ctx: ctx, src: src, what: "unsuitable variable", lo: lo, hi: hi, branch: branch}
	sure := true
	b.WalkExprs(func(it *gen.Item) { sure = sure && allDefined(ctx, it.X) })
	p.check(diags, sure)
	if len(diags) == 0 {
		c.Event("fault not reached")
		return
	}
	c.Event("JSON fault placed")
	c.Sig("json", s.Shape(), b.Shape())
}

// placeProperty extracts the content of a JSON body one of whose properties is
// repeated, unexpected or of the wrong kind.
func placeProperty(c *mon.Case) {
	var schema hcl.BodySchema
	space := func() string { return c.Pick("", "", " ", "\n", "\n  ", "\t") }
	str := func(s string) string { return `"` + s + `"` }
	var w strings.Builder
	lo, hi := -1, -1
	value := func() string {
		return c.Pick("1", "true", `"text"`, "[]", "{}", `["é", {"a": 1}]`, `{"k": {"l": []}}`, "-2.5")
	}
	// the value of a block, with something else at one of its levels if bad
	var block func(levels int, bad bool)
	block = func(levels int, bad bool) {
		if bad && (levels == 0 || c.Bool()) {
			lo = w.Len()
			w.WriteString(c.Pick("1", "true", `"text"`, "-2.5"))
			hi = w.Len()
			return
		}
		n, at := 1, 0
		if c.Chance(1, 3) {
			n = c.Range(1, 3)
			at = c.Intn(n)
			w.WriteString("[" + space())
			defer w.WriteString("]")
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				w.WriteString("," + space())
			}
			if bad := bad && i == at; bad && n > 1 && c.Chance(1, 4) {
				lo = w.Len()
				w.WriteString(c.Pick("1", "true", `"text"`))
				hi = w.Len()
			} else if levels == 0 {
				w.WriteString("{" + space())
				if !bad {
					w.WriteString(`"inner":` + value())
				}
				w.WriteString("}")
				if bad {
					// found out when the content of the block is read
					lo = -1
				}
			} else {
				m := c.Range(1, 2)
				w.WriteString("{" + space())
				for j := 0; j < m; j++ {
					if j > 0 {
						w.WriteString("," + space())
					}
					w.WriteString(str(fmt.Sprintf("label%d", j)) + space() + ":" + space())
					block(levels-1, bad && j == m-1)
				}
				w.WriteString(space() + "}")
			}
		}
	}
	type prop struct {
		name   string
		labels int
		block  bool
		fault  bool
	}
	var props []prop
	var names []string
	for i, n := 0, c.Range(1, 5); i < n; i++ {
		p := prop{name: fmt.Sprintf("p%d", i), block: c.Chance(1, 3)}
		if p.block {
			p.labels = c.Range(0, 3)
			schema.Blocks = append(schema.Blocks, hcl.BlockHeaderSchema{Type: p.name, LabelNames: []string{"x", "y", "z"}[:p.labels]})
		} else {
			names = append(names, p.name)
			schema.Attributes = append(schema.Attributes, hcl.AttributeSchema{Name: p.name, Required: c.Bool()})
		}
		props = append(props, p)
	}
	what := c.Pick("repeated attribute", "unexpected property", "block of the wrong kind")
	if what == "repeated attribute" && len(names) == 0 {
		what = "unexpected property"
	}
	in := func(p prop) {
		at := c.Intn(len(props) + 1)
		props = append(props[:at:at], append([]prop{p}, props[at:]...)...)
	}
	switch what {
	case "repeated attribute":
		name := c.Pick(names...)
		in(prop{name: name})
		again := 0
		for i := range props {
			if props[i].name == name {
				if again++; again == 2 {
					props[i].fault = true
				}
			}
		}
	case "unexpected property":
		in(prop{name: c.Pick("other", "p", "é", "", "p0 ", "/"), fault: true})
	default:
		p := prop{name: "wrong", block: true, fault: true, labels: c.Range(0, 3)}
		schema.Blocks = append(schema.Blocks, hcl.BlockHeaderSchema{Type: p.name, LabelNames: []string{"x", "y", "z"}[:p.labels]})
		in(p)
	}
	array := c.Chance(1, 4)
	if array {
		w.WriteString("[" + space())
	}
	w.WriteString("{" + space())
	for i, p := range props {
		switch {
		case i == 0:
		case array && c.Chance(1, 3):
			w.WriteString("}," + space() + "{")
		default:
			w.WriteString("," + space())
		}
		at := w.Len()
		w.WriteString(str(p.name) + space() + ":" + space())
		if p.block {
			block(p.labels, p.fault)
		} else {
			w.WriteString(value())
			if p.fault {
				lo, hi = at, w.Len()
			}
		}
		w.WriteString(space())
	}
	w.WriteString("}")
	if array {
		w.WriteString(space() + "]")
	}
	src := w.String()
	c.Input("source", src)
	c.Input("schema", schemaKey(&schema))
	if lo < 0 {
		c.Skip("no fault at this level")
	}
	body := parseJSON(c, src).Body
	var diags hcl.Diagnostics
	switch c.Intn(4) {
	case 0:
		// in two steps
		var now, later hcl.BodySchema
		for _, a := range schema.Attributes {
			if c.Bool() {
				now.Attributes = append(now.Attributes, a)
			} else {
				later.Attributes = append(later.Attributes, a)
			}
		}
		for _, b := range schema.Blocks {
			if c.Bool() {
				now.Blocks = append(now.Blocks, b)
			} else {
				later.Blocks = append(later.Blocks, b)
			}
		}
		_, rest, first := body.PartialContent(&now)
		_, second := rest.Content(&later)
		diags = append(append(diags, first...), second...)
	case 1:
		if !array && what == "repeated attribute" {
			_, diags = body.JustAttributes()
			break
		}
		fallthrough
	default:
		_, diags = body.Content(&schema)
	}
	if !diags.HasErrors() {
		c.Failf("%s at %d-%d (%s) isn't reported\nsource: %s", what, lo, hi, q(src[lo:hi]), q(src))
	}
	rc := newRangeChecker(c, []byte(src), start, "t.hcl.json", -1)
	rc.json = true
	(&placed{c: c, rc: rc, src: src, what: what, lo: lo, hi: hi}).check(diags, false)
	c.Event("property placed")
	c.Sig(what, len(props), array, len(schema.Blocks))
}

// placeBody decodes bodies with one fault.
func placeBody(c *mon.Case) {
	env := gen.NewEnv(c.Rand)
	g := &gen.G{R: c.Rand, Env: env, Hostile: 60, Sure: true}
	s := gen.GenSpec(g, c.Range(0, 3))
	spec := decSpec(c, s)
	b := gen.GenSpecBody(g, s, gen.SpecBodyOpts{})
	ctx := evalCtx(env)
	c.Input("scope", envStr(env))
	c.Input("specification", specStr(s))
	w := gen.NewW(c.Rand)
	src := w.Config(b)
	var diags hcl.Diagnostics
	if msg := mon.Guard(func() { _, diags = hcldec.Decode(parseNative(c, src).Body, spec, ctx) }); msg != "" {
		c.Skip("left to P17")
	}
	if diags.HasErrors() {
		c.Skip("fails already")
	}
	// Choose a body and put the fault there
	type owned struct {
		body  *gen.Body
		owner *gen.Item
	}
	bodies := []owned{{b, nil}}
	for i := 0; i < len(bodies); i++ {
		for _, bl := range bodies[i].body.Blocks() {
			bodies = append(bodies, owned{bl.Body, bl})
		}
	}
	t := bodies[c.Intn(len(bodies))]
	var span func(w *gen.W) (int, int)
	whole := func(it *gen.Item) func(w *gen.W) (int, int) {
		return func(w *gen.W) (int, int) { sp := w.Items[it].Whole; return sp[0], sp[1] }
	}
	insert := func(it *gen.Item) {
		k := c.Intn(len(t.body.Items) + 1)
		t.body.Items = append(t.body.Items[:k:k], append([]*gen.Item{it}, t.body.Items[k:]...)...)
	}
	what, typed, branch := "", false, false
	switch c.Intn(5) {
	case 0, 1:
		as := t.body.Attrs()
		if len(as) == 0 {
			c.Skip("no attribute")
		}
		it := as[c.Intn(len(as))]
		var f *gen.Expr
		ss := slots(it.X)
		if len(ss) > 0 && c.Bool() {
			f, what = failing(c, g)
			*ss[c.Intn(len(ss))] = f
		} else {
			f, what = failing(c, g)
			it.X = f
		}
		onceOnly(c, it.X, f)
		typed, branch = !untyped[what], inBranch(it.X, f)
		what = "unsuitable " + what
		span = func(w *gen.W) (int, int) { sp := w.Spans[f]; return sp[0], sp[1] }
	case 2:
		if t.owner != nil && blockAttrs(s, t.owner.Name) {
			c.Skip("any attribute is expected")
		}
		it := &gen.Item{Name: "left_over", X: g.Expr(gen.WAny, 1)}
		insert(it)
		what = "unexpected attribute"
		span = whole(it)
	case 3:
		it := &gen.Item{Name: "left_over", Body: gen.GenBody(g, gen.BodyOpts{MaxItems: 2})}
		insert(it)
		what = "unexpected block"
		span = whole(it)
	case 4:
		if len(t.body.Items) == 0 {
			c.Skip("nothing to remove")
		}
		if hasDynamic(s) {
			c.Skip("what is left may not fit together")
		}
		k := c.Intn(len(t.body.Items))
		t.body.Items = append(t.body.Items[:k:k], t.body.Items[k+1:]...)
		what = "missing item"
		span = func(w *gen.W) (int, int) {
			if t.owner == nil {
				return 0, len(w.B)
			}
			sp := w.Items[t.owner].Whole
			return sp[0], sp[1]
		}
	}
	w = gen.NewW(c.Rand)
	src = w.Config(b)
	c.Input("source", src)
	if msg := mon.Guard(func() { _, diags = hcldec.Decode(parseNative(c, src).Body, spec, ctx) }); msg != "" {
		c.Skip("left to P17")
	}
	lo, hi := span(w)
	p := &placed{c: c, rc: newRangeChecker(c, []byte(src), start, "t.hcl", 0), ctx: ctx, src: src, what: what, lo: lo, hi: hi, typed: typed, branch: branch || hasDynamic(s)}
	sure := true
	b.WalkExprs(func(it *gen.Item) { sure = sure && allDefined(ctx, it.X) })
	p.check(diags, sure)
	if len(diags) == 0 {
		c.Event("fault not reached")
		return
	}
	if what == "missing item" {
		c.Event("missing item placed")
	} else {
		c.Event("body fault placed")
	}
	c.Sig(what, s.Shape(), b.Shape())
}
