package props

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/hashicorp/hcl2/hclpack"
	"github.com/zclconf/go-cty/cty"
	"golang.org/x/text/unicode/norm"
)

func init() {
	register(&mon.Prop{
		ID: "P19",
		Rule: "configurations in native syntax at random start positions are packed, some also written out and read back, and then read along with the original by the same schemas, as bare attributes and by specifications; bodies put together from several files and of all kinds of expressions are written out and read back; serialised text is damaged and read; " +
			"distinct = (body shape, schema split) or (damage, outcome)",
		Assumptions: []string{
			"there is no packing of JSON bodies in the library, so only native bodies are packed",
			"the range of a packed expression also covers surrounding parentheses",
			"where in a body missing items are reported isn't specified",
			"which part of a block header the error about its labels points at isn't specified",
		},
		Quick:    60000,
		Thorough: 600000,
		Require: []string{"same attribute", "same block", "same errors", "same values", "same references", "same evaluation errors", "same static view", "same bare attributes", "same decoded value", "same remainder",
			"packed body as written", "damaged text refused", "damaged text gives usable body", "same syntax errors", "JSON literal", "template", "JSON literal evaluated", "damaged expression refused", "absent body read"},
		Run: runP19,
	})
}

func runP19(c *mon.Case) {
	switch c.Intn(8) {
	case 0:
		if c.Chance(1, 3) {
			exprP19(c)
			return
		}
		writtenP19(c)
	case 1:
		damagedP19(c)
	case 2:
		invalidP19(c)
	case 3:
		decodedP19(c)
	default:
		readP19(c)
	}
}

func startPos(c *mon.Case) hcl.Pos {
	p := hcl.Pos{Line: 1, Column: 1}
	if c.Chance(1, 3) {
		p = hcl.Pos{Byte: c.Size(100, 100000), Line: 1 + c.Size(50, 100000), Column: 1 + c.Size(20, 1000)}
	}
	return p
}

// parseAt parses valid configuration that begins somewhere.
func parseAt(c *mon.Case, src string, st hcl.Pos) *hcl.File {
	f, diags := hclsyntax.ParseConfig([]byte(src), "t.hcl", st)
	if diags.HasErrors() {
		c.Failf("well-formed configuration rejected: %s\nsource: %s", diagStr(diags), q(src))
	}
	return f
}

func readP19(c *mon.Case) {
	env := gen.NewEnv(c.Rand)
	g := &gen.G{R: c.Rand, Env: env, Hostile: 30}
	b := gen.GenBody(g, gen.BodyOpts{MaxItems: c.Size(5, 30), Depth: c.Range(0, 3), ExprDepth: c.Range(0, 3), Heredocs: true})
	if c.Bool() {
		repeatBlocks(c.Rand, g, b)
	}
	src := gen.NewW(c.Rand).Config(b)
	st := startPos(c)
	c.Input("native", src)
	c.Input("start", fmt.Sprint(st))
	c.Input("scope", envStr(env))
	nb := parseAt(c, src, st)
	pb, diags := hclpack.PackNativeFile([]byte(src), "t.hcl", st)
	if diags.HasErrors() {
		c.Failf("well-formed configuration rejected: %s\nsource: %s", diagStr(diags), q(src))
	}
	var other hcl.Body = pb
	form := "packed"
	if c.Chance(2, 3) {
		other = repack(c, pb)
		form = "read back"
	}
	r := &sideBySide{c: c, ctx: evalCtx(env)}
	r.read(nb.Body, other, b, b, "root", 0)
	c.Sig(form, b.Shape(), r.split)
	c.Sample(form + " " + clip(src, 200))
}

// sideBySide reads an original body and its packed form.
type sideBySide struct {
	c     *mon.Case
	ctx   *hcl.EvalContext
	split string
}

// subjects lists the severity and subject of diagnostics in any order.
func subjects(diags hcl.Diagnostics, missing ...hcl.Range) string {
	var out []string
	for _, d := range diags {
		s := fmt.Sprint(d.Severity)
		switch {
		case d.Subject == nil:
		case len(missing) > 0 && *d.Subject == missing[0]:
			s += " missing"
		default:
			s += " " + rngStr(*d.Subject)
		}
		out = append(out, s)
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

func rngStr(r hcl.Range) string {
	return fmt.Sprintf("%s:%d,%d,%d-%d,%d,%d", r.Filename, r.Start.Line, r.Start.Column, r.Start.Byte, r.End.Line, r.End.Column, r.End.Byte)
}

func (r *sideBySide) read(a, b hcl.Body, m, all *gen.Body, path string, depth int) {
	c := r.c
	if c.Bool() {
		x, xd := a.JustAttributes()
		y, yd := b.JustAttributes()
		// the original reports only the first block
		if xd.HasErrors() != yd.HasErrors() {
			c.Failf("%s: bare attributes: %s, in packed form: %s", path, diagStr(xd), diagStr(yd))
		}
		r.attrs(x, y, path)
		c.Event("same bare attributes")
	}
	attrs, blocks, labels := dupNames(m)
	schema := &hcl.BodySchema{}
	for _, n := range attrs {
		switch c.Intn(12) {
		case 0:
		case 1:
			schema.Blocks = append(schema.Blocks, hcl.BlockHeaderSchema{Type: n, LabelNames: labelNames(c.Intn(2))})
		default:
			schema.Attributes = append(schema.Attributes, hcl.AttributeSchema{Name: n, Required: c.Bool()})
		}
	}
	for _, n := range blocks {
		nl := labels[n]
		switch c.Intn(12) {
		case 0:
			continue
		case 1:
			schema.Attributes = append(schema.Attributes, hcl.AttributeSchema{Name: n, Required: c.Bool()})
			continue
		case 2:
			nl = c.Intn(4)
		}
		schema.Blocks = append(schema.Blocks, hcl.BlockHeaderSchema{Type: n, LabelNames: labelNames(nl)})
	}
	if c.Chance(1, 4) {
		schema.Attributes = append(schema.Attributes, hcl.AttributeSchema{Name: "absent", Required: c.Bool()})
	}
	if c.Chance(1, 8) {
		schema.Blocks = append(schema.Blocks, hcl.BlockHeaderSchema{Type: "absent_block"})
	}
	wrongLabels := false
	for _, h := range schema.Blocks {
		for _, it := range all.Blocks() {
			wrongLabels = wrongLabels || it.Name == h.Type && len(it.Labels) != len(h.LabelNames)
		}
	}
	r.split += fmt.Sprintf("/%da%db", len(schema.Attributes), len(schema.Blocks))
	var x, y *hcl.BodyContent
	var xr, yr hcl.Body
	var xd, yd hcl.Diagnostics
	if c.Bool() {
		x, xd = a.Content(schema)
		y, yd = b.Content(schema)
	} else {
		x, xr, xd = a.PartialContent(schema)
		y, yr, yd = b.PartialContent(schema)
	}
	if wrongLabels {
		if xd.HasErrors() != yd.HasErrors() || len(xd.Errs()) != len(yd.Errs()) {
			c.Failf("%s: content: %s\nin packed form: %s\nschema: %+v", path, diagStr(xd), diagStr(yd), *schema)
		}
	} else if s, t := subjects(xd, a.MissingItemRange()), subjects(yd, b.MissingItemRange()); s != t {
		c.Failf("%s: content: %s\nin packed form: %s\nschema: %+v", path, diagStr(xd), diagStr(yd), *schema)
	}
	if xd.HasErrors() {
		c.Event("same errors")
	}
	r.attrs(x.Attributes, y.Attributes, path)
	if len(x.Blocks) != len(y.Blocks) {
		c.Failf("%s: %d blocks, in packed form %d\nschema: %+v", path, len(x.Blocks), len(y.Blocks), *schema)
	}
	if s, t := rngStr(x.MissingItemRange)+" "+rngStr(y.MissingItemRange), rngStr(a.MissingItemRange())+" "+rngStr(b.MissingItemRange()); s != t {
		c.Failf("%s: missing items are reported at %s, by the content at %s", path, t, s)
	}
	bodies := map[string]*gen.Body{}
	for i, s := range x.Blocks {
		t := y.Blocks[i]
		where := fmt.Sprintf("%s/%s[%d]", path, s.Type, i)
		if s.Type != t.Type || fmt.Sprintf("%q", s.Labels) != fmt.Sprintf("%q", t.Labels) {
			c.Failf("%s: block %s %q, in packed form %s %q", where, s.Type, s.Labels, t.Type, t.Labels)
		}
		k, l := rngStr(s.TypeRange)+" "+rngStr(s.DefRange), rngStr(t.TypeRange)+" "+rngStr(t.DefRange)
		for _, u := range s.LabelRanges {
			k += " " + rngStr(u)
		}
		for _, u := range t.LabelRanges {
			l += " " + rngStr(u)
		}
		if k != l {
			c.Failf("%s: block at %s, in packed form at %s", where, k, l)
		}
		c.Event("same block")
		if depth < 4 {
			// any body with the right names will do as the model
			if bodies[s.Type] == nil {
				bodies[s.Type] = &gen.Body{}
				for _, it := range all.Blocks() {
					if it.Name == s.Type {
						bodies[s.Type].Items = append(bodies[s.Type].Items, it.Body.Items...)
					}
				}
			}
			r.read(s.Body, t.Body, bodies[s.Type], bodies[s.Type], where, depth+1)
		}
	}
	if xr != nil {
		rest := &gen.Body{}
		for _, it := range m.Items {
			asked := false
			for _, s := range schema.Attributes {
				asked = asked || s.Name == it.Name
			}
			for _, s := range schema.Blocks {
				asked = asked || s.Type == it.Name
			}
			if !asked || c.Chance(1, 3) {
				rest.Items = append(rest.Items, it)
			}
		}
		if u, v := b.MissingItemRange(), yr.MissingItemRange(); u != v {
			c.Failf("%s: missing items are reported at %s in packed form, in its remainder at %s", path, rngStr(u), rngStr(v))
		}
		if depth < 4 {
			r.read(xr, yr, rest, all, path+" remainder", depth+2)
		}
		c.Event("same remainder")
	}
}

func (r *sideBySide) attrs(x, y hcl.Attributes, path string) {
	c := r.c
	if s, t := strings.Join(sortedAttrs(x), " "), strings.Join(sortedAttrs(y), " "); s != t {
		c.Failf("%s: attributes %s, in packed form %s", path, s, t)
	}
	for _, n := range sortedAttrs(x) {
		r.attr(x[n], y[n], path+"."+n)
	}
}

func (r *sideBySide) attr(s, t *hcl.Attribute, where string) {
	c := r.c
	if s.Name != t.Name || rngStr(s.Range) != rngStr(t.Range) || rngStr(s.NameRange) != rngStr(t.NameRange) {
		c.Failf("%s: %s at %s %s, in packed form %s at %s %s", where, s.Name, rngStr(s.Range), rngStr(s.NameRange), t.Name, rngStr(t.Range), rngStr(t.NameRange))
	}
	c.Event("same attribute")
	r.expr(s.Expr, t.Expr, where, 0)
	if sr, tr := s.Expr.Range(), t.Expr.Range(); tr.Start.Byte > sr.Start.Byte || tr.End.Byte < sr.End.Byte || tr.Start.Byte < s.NameRange.End.Byte || tr.End.Byte > s.Range.End.Byte+1 {
		c.Failf("%s: expression at %s, in packed form at %s", where, rngStr(sr), rngStr(tr))
	}
	if sr, tr := s.Expr.StartRange(), t.Expr.StartRange(); rngStr(sr) != rngStr(tr) {
		c.Failf("%s: expression starts at %s, in packed form at %s", where, rngStr(sr), rngStr(tr))
	}
}

// refs describes references with their ranges.
func refs(ts []hcl.Traversal) string {
	var out []string
	for _, t := range ts {
		out = append(out, travStr(t)+" "+rngStr(t.SourceRange()))
	}
	return strings.Join(out, "; ")
}

func (r *sideBySide) expr(s, t hcl.Expression, where string, depth int) {
	c := r.c
	var v, w cty.Value
	var vd, wd hcl.Diagnostics
	checkPanic(c, "evaluating", func() { v, vd = s.Value(r.ctx) })
	checkPanic(c, "evaluating", func() { w, wd = t.Value(r.ctx) })
	if a, b := subjects(vd), subjects(wd); a != b {
		c.Failf("%s: evaluation: %s\nin packed form: %s", where, diagStr(vd), diagStr(wd))
	}
	if vd.HasErrors() {
		c.Event("same evaluation errors")
	} else {
		if !gen.SameValue(v, w) {
			c.Failf("%s: value %s, in packed form %s", where, valStr(v), valStr(w))
		}
		c.Event("same values")
	}
	if a, b := refs(s.Variables()), refs(t.Variables()); a != b {
		c.Failf("%s: references %s\nin packed form %s", where, a, b)
	}
	c.Event("same references")
	// static views
	if a, b := hcl.ExprAsKeyword(s), hcl.ExprAsKeyword(t); a != b {
		c.Failf("%s: keyword %q, in packed form %q", where, a, b)
	}
	tr, ad := hcl.AbsTraversalForExpr(s)
	ur, bd := hcl.AbsTraversalForExpr(t)
	if a, b := subjectless(ad)+" "+refs([]hcl.Traversal{tr}), subjectless(bd)+" "+refs([]hcl.Traversal{ur}); ad.HasErrors() != bd.HasErrors() || !ad.HasErrors() && a != b {
		c.Failf("%s: reference %s, in packed form %s", where, a, b)
	}
	xs, ad := hcl.ExprList(s)
	ys, bd := hcl.ExprList(t)
	if ad.HasErrors() != bd.HasErrors() || len(xs) != len(ys) {
		c.Failf("%s: list of %d %s, in packed form %d %s", where, len(xs), diagStr(ad), len(ys), diagStr(bd))
	}
	if depth < 2 {
		for i := range xs {
			r.expr(xs[i], ys[i], fmt.Sprintf("%s[%d]", where, i), depth+1)
			c.Event("same static view")
		}
	}
	ps, ad := hcl.ExprMap(s)
	qs, bd := hcl.ExprMap(t)
	if ad.HasErrors() != bd.HasErrors() || len(ps) != len(qs) {
		c.Failf("%s: map of %d %s, in packed form %d %s", where, len(ps), diagStr(ad), len(qs), diagStr(bd))
	}
	if depth < 2 {
		for i := range ps {
			r.expr(ps[i].Key, qs[i].Key, fmt.Sprintf("%s key %d", where, i), depth+1)
			r.expr(ps[i].Value, qs[i].Value, fmt.Sprintf("%s value %d", where, i), depth+1)
			c.Event("same static view")
		}
	}
	f, ad := hcl.ExprCall(s)
	g, bd := hcl.ExprCall(t)
	if ad.HasErrors() != bd.HasErrors() {
		c.Failf("%s: call %s, in packed form %s", where, diagStr(ad), diagStr(bd))
	}
	if !ad.HasErrors() {
		if f.Name != g.Name || rngStr(f.NameRange) != rngStr(g.NameRange) || rngStr(f.ArgsRange) != rngStr(g.ArgsRange) || len(f.Arguments) != len(g.Arguments) {
			c.Failf("%s: call %s, in packed form %s", where, f.Name, g.Name)
		}
	}
}

func subjectless(diags hcl.Diagnostics) string { return fmt.Sprint(diags.HasErrors()) }

// decodedP19 decodes both by a specification.
func decodedP19(c *mon.Case) {
	env := gen.NewEnv(c.Rand)
	g := &gen.G{R: c.Rand, Env: env, Hostile: 40}
	s := gen.GenSpec(g, c.Range(0, 2))
	b := gen.GenSpecBody(g, s, gen.SpecBodyOpts{Faults: []int{0, 10}[c.Intn(2)]})
	src := gen.NewW(c.Rand).Config(b)
	st := startPos(c)
	c.Input("specification", specStr(s))
	c.Input("native", src)
	c.Input("scope", envStr(env))
	spec := decSpec(c, s)
	nb := parseAt(c, src, st).Body
	pb, diags := hclpack.PackNativeFile([]byte(src), "t.hcl", st)
	if diags.HasErrors() {
		c.Failf("well-formed configuration rejected: %s\nsource: %s", diagStr(diags), q(src))
	}
	if c.Bool() {
		pb = repack(c, pb)
	}
	if x, y := refSet(hcldec.Variables(nb, spec)), refSet(hcldec.Variables(pb, spec)); x != y {
		c.Failf("references %s\nin packed form %s", x, y)
	}
	for _, ctx := range []*hcl.EvalContext{evalCtx(env), evalCtx(someUnknown(c.Rand, env))} {
		var v, w cty.Value
		var vd, wd hcl.Diagnostics
		checkPanic(c, "decoding", func() { v, vd = hcldec.Decode(nb, spec, ctx) })
		checkPanic(c, "decoding", func() { w, wd = hcldec.Decode(pb, spec, ctx) })
		if vd.HasErrors() != wd.HasErrors() || !vd.HasErrors() && !gen.SameValue(v, w) {
			c.Failf("decoded %s %s\nin packed form %s %s", valStr(v), diagStr(vd), valStr(w), diagStr(wd))
		}
		c.Event("same decoded value")
	}
	c.Sig("decoded", s.Shape(), b.Shape())
}

func refSet(ts []hcl.Traversal) string {
	var out []string
	for _, t := range ts {
		out = append(out, travStr(t)+" "+rngStr(t.SourceRange()))
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

// somePositions makes up positions in a file, in ascending order.
func somePositions(c *mon.Case) []hcl.Pos {
	pos := hcl.Pos{Line: 1, Column: 1}
	if c.Chance(1, 3) {
		pos = startPos(c)
	}
	out := []hcl.Pos{pos}
	for i, n := 0, c.Size(30, 200); i < n; i++ {
		k := 1 + c.Size(10, 100)
		if c.Chance(1, 40) {
			k = 1 + c.Intn(math.MaxInt32)
		}
		if c.Chance(1, 3) {
			pos.Line += 1 + c.Intn(k)
			pos.Column = 1 + c.Intn(k)
		} else {
			pos.Column += 1 + c.Intn(k)
		}
		pos.Byte += k
		out = append(out, pos)
	}
	return out
}

// someRange makes up a range.
func someRange(c *mon.Case, files []string, where map[string][]hcl.Pos) hcl.Range {
	if !has(files, "") && c.Chance(1, 12) {
		return hcl.Range{}
	}
	f := files[c.Intn(len(files))]
	if where[f] == nil {
		where[f] = somePositions(c)
	}
	ps := where[f]
	i := c.Intn(len(ps))
	j := i + c.Intn(len(ps)-i)
	return hcl.Range{Filename: f, Start: ps[i], End: ps[j]}
}

func somePacked(c *mon.Case, g *gen.G, files []string, where map[string][]hcl.Pos, depth int) *hclpack.Body {
	ret := &hclpack.Body{MissingItemRange_: someRange(c, files, where)}
	for i, n := 0, c.Size(4, 20); i < n; i++ {
		if ret.Attributes == nil {
			ret.Attributes = map[string]hclpack.Attribute{}
		}
		a := hclpack.Attribute{Range: someRange(c, files, where), NameRange: someRange(c, files, where)}
		a.Expr.Range_, a.Expr.StartRange_ = someRange(c, files, where), someRange(c, files, where)
		if a.Expr.StartRange_ == (hcl.Range{}) {
			// stands for the whole range
			a.Expr.StartRange_ = a.Expr.Range_
		}
		switch c.Intn(4) {
		case 0:
			a.Expr.SourceType = hclpack.ExprLiteralJSON
			a.Expr.Source = []byte(gen.JSONText(c.Rand, gen.JSONValue(c.Rand, 2)))
			c.Event("JSON literal")
		case 1:
			a.Expr.SourceType = hclpack.ExprTemplate
			a.Expr.Source = []byte(gen.NewW(c.Rand).Template(g.Parts(1, false)))
			c.Event("template")
		case 2:
			a.Expr.SourceType = hclpack.ExprNative
			a.Expr.Source = []byte(hardStr(c.Rand))
		default:
			a.Expr.SourceType = hclpack.ExprNative
			w := gen.NewW(c.Rand)
			w.Expr(g.Expr(gen.WAny, 2), 0)
			a.Expr.Source = []byte(string(w.B))
		}
		ret.Attributes[hardStr(c.Rand)] = a
	}
	if depth <= 0 {
		return ret
	}
	for i, n := 0, c.Size(3, 10); i < n; i++ {
		b := hclpack.Block{Type: hardStr(c.Rand), DefRange: someRange(c, files, where), TypeRange: someRange(c, files, where)}
		for j, n := 0, c.Intn(4); j < n; j++ {
			b.Labels = append(b.Labels, hardStr(c.Rand))
			b.LabelRanges = append(b.LabelRanges, someRange(c, files, where))
		}
		b.Body = *somePacked(c, g, files, where, depth-1)
		ret.ChildBlocks = append(ret.ChildBlocks, b)
	}
	return ret
}

// exprP19 uses packed expressions of each kind, and a body that is absent.
func exprP19(c *mon.Case) {
	env := gen.NewEnv(c.Rand)
	g := &gen.G{R: c.Rand, Env: env, Hostile: 30}
	ctx := evalCtx(env)
	st := startPos(c)
	rng := hcl.Range{Filename: "t.hcl", Start: st, End: hcl.Pos{Line: st.Line, Column: st.Column + 5, Byte: st.Byte + 5}}
	x := &hclpack.Expression{Range_: rng, StartRange_: hcl.Range{Filename: "t.hcl", Start: st, End: st}}
	kind := c.Pick("json", "json", "template", "native", "damaged", "unknown kind")
	var want hcl.Expression
	var wdiags hcl.Diagnostics
	switch kind {
	case "json", "damaged":
		m := gen.JSONValue(c.Rand, c.Range(0, 3))
		src := gen.JSONText(c.Rand, m)
		if kind == "damaged" {
			src = c.Pick("["+src, src+" "+src, "{"+src+"}", "", "[,]", "["+src+",]", `{"a":}`, `{"a":1,}`, `"a`, "nul", "\"\\u12\"", "'a'", "1.")
			if _, isNum := m.(json.Number); isNum || json.Valid([]byte(src)) {
				c.Skip("still JSON")
			}
		}
		x.Source, x.SourceType = []byte(src), hclpack.ExprLiteralJSON
		v, ok := jsonLit(m)
		if !ok || !namesNormal(m) {
			c.Skip("not a value") // cty refuses names that aren't normalised
		}
		want = hcl.StaticExpr(v, rng)
	case "template":
		x.SourceType = hclpack.ExprTemplate
		x.Source = []byte(gen.NewW(c.Rand).Template(g.Parts(1, false)))
		want, wdiags = hclsyntax.ParseTemplate(x.Source, "t.hcl", st)
	case "native":
		x.SourceType = hclpack.ExprNative
		w := gen.NewW(c.Rand)
		w.Expr(g.Expr(gen.WAny, 2), 0)
		x.Source = []byte(string(w.B))
		want, wdiags = hclsyntax.ParseExpression(x.Source, "t.hcl", st)
	default:
		x.SourceType = hclpack.ExprSourceType(c.Pick("\x00", "X", "j", "n", "\xff")[0])
		x.Source = []byte("1")
	}
	c.Input(kind, string(x.Source))
	if wdiags.HasErrors() {
		c.Skip("rejected")
	}
	if x.Range() != rng || x.StartRange() != x.StartRange_ {
		c.Failf("expression at %v is at %v", rng, x.Range())
	}
	var v cty.Value
	var diags hcl.Diagnostics
	var parsed, inner hcl.Expression
	var vars []hcl.Traversal
	checkPanic(c, "using a packed expression", func() {
		v, diags = x.Value(ctx)
		vars = x.Variables()
		inner = hcl.UnwrapExpression(x)
		parsed, wdiags = x.Parse()
		hcl.ExprList(x)
		hcl.ExprMap(x)
		hcl.ExprAsKeyword(x)
	})
	if kind == "damaged" || kind == "unknown kind" {
		if !diags.HasErrors() || !wdiags.HasErrors() || len(vars) > 0 {
			c.Failf("%s %s has %s and %d variables", kind, q(string(x.Source)), outcomeStr(v, diags), len(vars))
		}
		if iv, idiags := inner.Value(ctx); idiags.HasErrors() || !iv.RawEquals(cty.DynamicVal) || inner.Range() != rng || inner.StartRange() != rng || len(inner.Variables()) > 0 {
			c.Failf("%s %s unwraps to %s at %v", kind, q(string(x.Source)), outcomeStr(iv, idiags), inner.Range())
		}
		c.Event("damaged expression refused")
		c.Sig(kind, string(x.Source))
		return
	}
	var wv cty.Value
	checkPanic(c, "evaluating", func() { wv, wdiags = want.Value(ctx) })
	if diags.HasErrors() != wdiags.HasErrors() || !diags.HasErrors() && !v.RawEquals(wv) {
		c.Failf("packed %s %s: %s\nshould be: %s", kind, q(string(x.Source)), outcomeStr(v, diags), outcomeStr(wv, wdiags))
	}
	for _, e := range []hcl.Expression{parsed, inner} {
		if e == nil {
			c.Failf("packed %s %s has no parsed form", kind, q(string(x.Source)))
		}
		if pv, pdiags := e.Value(ctx); pdiags.HasErrors() != wdiags.HasErrors() || !pdiags.HasErrors() && !pv.RawEquals(wv) {
			c.Failf("parsed %s %s: %s\nshould be: %s", kind, q(string(x.Source)), outcomeStr(pv, pdiags), outcomeStr(wv, wdiags))
		}
	}
	if s, t := refs(want.Variables()), refs(vars); s != t {
		c.Failf("packed %s %s refers to %s, should be %s", kind, q(string(x.Source)), t, s)
	}
	if kind == "json" {
		if parsed.Range() != rng {
			c.Failf("JSON literal at %v is parsed to one at %v", rng, parsed.Range())
		}
		c.Event("JSON literal evaluated")
	}
	absentBody(c)
	c.Sig(kind, string(x.Source))
}

// namesNormal is whether the names in a JSON value are normalised.
func namesNormal(v interface{}) bool {
	switch t := v.(type) {
	case []interface{}:
		for _, e := range t {
			if !namesNormal(e) {
				return false
			}
		}
	case *gen.JObj:
		for i, k := range t.Keys {
			if !norm.NFC.IsNormalString(k) || !namesNormal(t.Vals[i]) {
				return false
			}
		}
	}
	return true
}

// absentBody reads a body that isn't there, which is like an empty one.
func absentBody(c *mon.Case) {
	var b *hclpack.Body
	schema := &hcl.BodySchema{Attributes: []hcl.AttributeSchema{{Name: "a"}, {Name: "b", Required: c.Bool()}}, Blocks: []hcl.BlockHeaderSchema{{Type: "c"}}}
	checkPanic(c, "reading an absent body", func() {
		content, diags := b.Content(schema)
		if diags.HasErrors() != schema.Attributes[1].Required || len(content.Attributes)+len(content.Blocks) > 0 {
			c.Failf("absent body has %d items: %s", len(content.Attributes)+len(content.Blocks), diagStr(diags))
		}
		content, rest, diags := b.PartialContent(schema)
		if diags.HasErrors() != schema.Attributes[1].Required || len(content.Attributes)+len(content.Blocks) > 0 {
			c.Failf("absent body has %d items: %s", len(content.Attributes)+len(content.Blocks), diagStr(diags))
		}
		if content, diags := rest.Content(&hcl.BodySchema{}); diags.HasErrors() || len(content.Attributes)+len(content.Blocks) > 0 {
			c.Failf("the rest of an absent body has %d items: %s", len(content.Attributes)+len(content.Blocks), diagStr(diags))
		}
		b.MissingItemRange()
		attrs, diags := b.JustAttributes()
		if diags.HasErrors() || len(attrs) > 0 {
			c.Failf("absent body has %d attributes: %s", len(attrs), diagStr(diags))
		}
		c.Event("absent body read")
	})
}

// writtenP19 writes out bodies made of anything.
func writtenP19(c *mon.Case) {
	g := &gen.G{R: c.Rand, Env: gen.NewEnv(c.Rand), Hostile: 30}
	files := []string{"t.hcl", "dir/other.hcl", hardStr(c.Rand), "z", ""}[:c.Range(1, 5)]
	b := somePacked(c, g, files, map[string][]hcl.Pos{}, c.Intn(3))
	var buf []byte
	var err error
	wrapped := c.Bool()
	if wrapped {
		buf, err = json.Marshal(map[string]interface{}{"x": b})
	} else {
		buf, err = b.MarshalJSON()
	}
	if err != nil {
		c.Failf("body can't be written: %s\n%#v", err, b)
	}
	c.Input("written", string(buf))
	got := &hclpack.Body{}
	if wrapped {
		m := map[string]*hclpack.Body{"x": got}
		if err = json.Unmarshal(buf, &m); err == nil {
			got = m["x"]
		}
	} else {
		err = got.UnmarshalJSON(buf)
	}
	if err != nil {
		c.Failf("written body can't be read: %s\n%s", err, q(string(buf)))
	}
	if d := packedDiff(b, got, "root"); d != "" {
		c.Failf("body is read back differently: %s\n%s", d, q(string(buf)))
	}
	c.Event("packed body as written")
	c.Sig("written", len(files), len(b.Attributes), len(b.ChildBlocks))
}

func packedDiff(a, b *hclpack.Body, path string) string {
	if a.MissingItemRange_ != b.MissingItemRange_ {
		return fmt.Sprintf("%s: missing items at %v instead of %v", path, b.MissingItemRange_, a.MissingItemRange_)
	}
	if len(a.Attributes) != len(b.Attributes) || len(a.ChildBlocks) != len(b.ChildBlocks) {
		return fmt.Sprintf("%s: %d attributes, %d blocks instead of %d, %d", path, len(b.Attributes), len(b.ChildBlocks), len(a.Attributes), len(a.ChildBlocks))
	}
	for n, x := range a.Attributes {
		y := b.Attributes[n]
		if string(x.Expr.Source) != string(y.Expr.Source) || x.Expr.SourceType != y.Expr.SourceType || x.Range != y.Range || x.NameRange != y.NameRange || x.Expr.Range_ != y.Expr.Range_ || x.Expr.StartRange_ != y.Expr.StartRange_ {
			return fmt.Sprintf("%s: attribute %q is %#v instead of %#v", path, n, y, x)
		}
	}
	for i := range a.ChildBlocks {
		x, y := &a.ChildBlocks[i], &b.ChildBlocks[i]
		if x.Type != y.Type || fmt.Sprintf("%q", x.Labels) != fmt.Sprintf("%q", y.Labels) || x.DefRange != y.DefRange || x.TypeRange != y.TypeRange || len(x.LabelRanges) != len(y.LabelRanges) || len(x.Labels) > 0 && !reflect.DeepEqual(x.LabelRanges, y.LabelRanges) {
			return fmt.Sprintf("%s: block %d is %#v instead of %#v", path, i, y, x)
		}
		if d := packedDiff(&x.Body, &y.Body, fmt.Sprintf("%s/%d", path, i)); d != "" {
			return d
		}
	}
	return ""
}

// damagedP19 reads damaged serialised text.
func damagedP19(c *mon.Case) {
	env := gen.NewEnv(c.Rand)
	g := &gen.G{R: c.Rand, Env: env, Hostile: 30}
	b := gen.GenBody(g, gen.BodyOpts{MaxItems: c.Size(4, 10), Depth: c.Range(0, 2), ExprDepth: 1, Heredocs: true})
	src := gen.NewW(c.Rand).Config(b)
	pb, diags := hclpack.PackNativeFile([]byte(src), "t.hcl", startPos(c))
	if diags.HasErrors() {
		c.Failf("well-formed configuration rejected: %s\nsource: %s", diagStr(diags), q(src))
	}
	buf, err := pb.MarshalJSON()
	if err != nil {
		c.Failf("body can't be written: %s", err)
	}
	text := string(buf)
	how := "bytes"
	if c.Bool() {
		// within the structure
		var v interface{}
		if err := json.Unmarshal(buf, &v); err != nil {
			c.Failf("written text isn't JSON: %s", err)
		}
		for i, n := 0, 1+c.Intn(3); i < n; i++ {
			v = damageJSON(c, v)
		}
		out, _ := json.Marshal(v)
		text = string(out)
		how = "structure"
	} else {
		for i, n := 0, 1+c.Size(2, 10); i < n; i++ {
			text = gen.Mutate(c.Rand, text)
		}
	}
	c.Input("damaged", text)
	got := &hclpack.Body{}
	err = nil
	checkPanic(c, "reading damaged text", func() { err = got.UnmarshalJSON([]byte(text)) })
	if err != nil {
		c.Event("damaged text refused")
		c.Sig(how, "refused", clip(text, 100))
		return
	}
	checkPanic(c, "using a body from damaged text", func() {
		var names []string
		for _, it := range b.Items {
			names = append(names, it.Name)
		}
		names = append(names, "", "a")
		useBody(c, got, evalCtx(env), names, 2)
		useDecoders(c, got, evalCtx(env), names)
		if _, err := got.MarshalJSON(); err != nil {
			c.Failf("body can't be written again: %s", err)
		}
	})
	c.Event("damaged text gives usable body")
	c.Sig(how, "usable", clip(text, 100))
	c.Sample(clip(text, 200))
}

// damageJSON changes something within a JSON value.
func damageJSON(c *mon.Case, v interface{}) interface{} {
	if c.Chance(1, 6) {
		switch c.Intn(7) {
		case 0:
			return nil
		case 1:
			return float64(c.Intn(100) - 10)
		case 2:
			return ""
		case 3:
			return []interface{}{}
		case 4:
			return map[string]interface{}{}
		case 5:
			return 1e30
		default:
			return []interface{}{v, v}
		}
	}
	switch t := v.(type) {
	case map[string]interface{}:
		var keys []string
		for k := range t {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		if len(keys) == 0 {
			return v
		}
		k := keys[c.Intn(len(keys))]
		switch c.Intn(10) {
		case 0:
			delete(t, k)
		case 1:
			t[[]string{"a", "b", "r", "s", "p", "t", "h", "x"}[c.Intn(8)]] = t[k]
		default:
			t[k] = damageJSON(c, t[k])
		}
	case []interface{}:
		if len(t) == 0 {
			return v
		}
		i := c.Intn(len(t))
		switch c.Intn(10) {
		case 0:
			return append(t[:i:i], t[i+1:]...)
		case 1:
			return append(t, t[i])
		default:
			t[i] = damageJSON(c, t[i])
		}
	case string:
		switch c.Intn(5) {
		case 0:
			return ""
		case 1:
			return t + t
		case 2:
			if len(t) > 0 {
				return t[:c.Intn(len(t))]
			}
		case 3:
			return strings.Repeat("g", c.Intn(30)) + t // continued digits
		default:
			b := []byte(t)
			if len(b) > 0 {
				b[c.Intn(len(b))] = "ACDEgz/+=9\x00\xff"[c.Intn(12)]
			}
			return string(b)
		}
	case float64:
		return []interface{}{t + 1, -t, t * 1000, 0.0}[c.Intn(4)]
	}
	return v
}

// invalidP19 packs text with syntax errors.
func invalidP19(c *mon.Case) {
	src, _ := gen.Native(&gen.G{R: c.Rand, Env: gen.NewEnv(c.Rand), Hostile: 20})
	c.Input("native", src)
	st := startPos(c)
	var pb *hclpack.Body
	var diags hcl.Diagnostics
	checkPanic(c, "packing", func() { pb, diags = hclpack.PackNativeFile([]byte(src), "t.hcl", st) })
	_, want := hclsyntax.ParseConfig([]byte(src), "t.hcl", st)
	if s, t := subjects(want), subjects(diags); s != t {
		c.Failf("parsing: %s\npacking: %s\nsource: %s", diagStr(want), diagStr(diags), q(src))
	}
	if diags.HasErrors() {
		c.Event("same syntax errors")
	}
	if pb != nil {
		checkPanic(c, "using a packed body", func() {
			useBody(c, pb, nil, []string{"a", "b", "foo"}, 1)
			if _, err := pb.MarshalJSON(); err != nil {
				c.Failf("body can't be written: %s", err)
			}
		})
	}
	c.Sig("invalid", clip(src, 60))
}
