package props

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"unicode/utf8"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/zclconf/go-cty/cty"
)

func init() {
	register(&mon.Prop{
		ID: "P03",
		Rule: "every range reachable from the syntax tree of valid native configurations, expressions and templates and from valid JSON documents is checked for bounds, order, " +
			"agreement of line and column with the byte offset, nesting, and text (known extents from the writer of the source; texts of expressions are parsed again and must have the same structure); " +
			"every diagnostic from damaged and hostile source is checked likewise; distinct = source text",
		Assumptions: []string{
			"index, splat and relative traversal expressions report the operator part only, and operations report operands without outer parentheses, as existing tests require",
			"in JSON only byte offsets and lines are judged, columns being approximate by documentation",
		},
		Quick:    100000,
		Thorough: 2000000,
		Require:  []string{"range checked", "text re-parsed", "diagnostic checked", "item extents matched", "json range checked"},
		Run:      runP03,
	})
}

func runP03(c *mon.Case) {
	g := &gen.G{R: c.Rand, Env: gen.NewEnv(c.Rand), Hostile: 20}
	switch c.Intn(10) {
	case 0, 1, 2, 3:
		p03Config(c, g)
	case 4:
		// expression from a random start position
		e := g.Expr(gen.WAny, c.Size(3, 6))
		src, _ := gen.RenderExpr(c.Rand, e)
		st := randStart(c)
		c.Input("expression", src)
		x, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", st)
		if diags.HasErrors() {
			c.Failf("valid expression rejected: %s", diagStr(diags))
		}
		rc := newRangeChecker(c, []byte(src), st, "t.hcl", 1)
		rc.tree(x)
		c.Sig(src)
	case 5:
		w := gen.NewW(c.Rand)
		src := w.Template(g.Parts(c.Size(3, 5), false))
		st := randStart(c)
		c.Input("template", src)
		x, diags := hclsyntax.ParseTemplate([]byte(src), "t.hcl", st)
		if diags.HasErrors() {
			c.Failf("valid template rejected: %s", diagStr(diags))
		}
		rc := newRangeChecker(c, []byte(src), st, "t.hcl", 2)
		rc.tree(x)
		c.Sig(src)
	case 6, 7, 8:
		src, _ := gen.Native(g)
		if c.Bool() {
			src = gen.Mutate(c.Rand, src)
		}
		p03Diags(c, src)
	case 9:
		p03JSON(c, g)
	}
}

func randStart(c *mon.Case) hcl.Pos {
	if c.Bool() {
		return start
	}
	return hcl.Pos{Byte: c.Intn(1000), Line: c.Range(1, 50), Column: c.Range(1, 80)}
}

// rangeChecker judges ranges against a source.
type rangeChecker struct {
	c     *mon.Case
	src   []byte
	file  string
	m     *posMap
	st    hcl.Pos
	dirty map[int]bool // lines on which a grapheme cluster spans tokens
	n     int
	json  bool // columns are approximate
}

// newRangeChecker scans the source in the given mode (as in lexers), or not
// at all if it's negative.
func newRangeChecker(c *mon.Case, src []byte, st hcl.Pos, file string, mode int) *rangeChecker {
	rc := &rangeChecker{c: c, src: src, file: file, st: st, m: newPosMap(src, st), dirty: map[int]bool{}}
	if mode >= 0 {
		toks, _ := lexers[mode].lex(src, file, st)
		for _, t := range toks {
			for _, o := range []int{t.Range.Start.Byte - st.Byte, t.Range.End.Byte - st.Byte} {
				if o >= 0 && o <= len(src) && !rc.m.whole(o) {
					rc.dirty[rc.m.line[o]] = true
				}
			}
		}
		if bytes.HasPrefix(src, []byte("\xef\xbb\xbf")) {
			rc.dirty[st.Line] = true
		}
	}
	return rc
}

// text returns the source text of a range that has been checked.
func (rc *rangeChecker) text(r hcl.Range) string {
	return string(rc.src[r.Start.Byte-rc.st.Byte : r.End.Byte-rc.st.Byte])
}

func (rc *rangeChecker) check(what string, r hcl.Range) {
	c := rc.c
	rc.n++
	if r.Filename != rc.file {
		c.Failf("%s: range %#v has the wrong filename", what, r)
	}
	s, e := r.Start.Byte-rc.st.Byte, r.End.Byte-rc.st.Byte
	if s < 0 || e > len(rc.src) || s > e {
		c.Failf("%s: range %#v is not inside the source of %d bytes", what, r, len(rc.src))
	}
	rc.checkPos(what+" start", r.Start)
	rc.checkPos(what+" end", r.End)
	c.Event("range checked")
}

func (rc *rangeChecker) checkPos(what string, p hcl.Pos) {
	o := p.Byte - rc.st.Byte
	if len(rc.dirty) > 0 && !utf8.Valid(rc.src) {
		return // how invalid sequences are divided is not specified
	}
	if p.Line != rc.m.line[o] {
		rc.c.Failf("%s: offset %d is on line %d but reported as line %d", what, o, rc.m.line[o], p.Line)
	}
	if rc.json || rc.dirty[p.Line] || !rc.m.whole(o) {
		return // a combining mark belongs to what precedes it
	}
	if p.Column != rc.m.col[o] {
		rc.c.Failf("%s: offset %d is at column %d but reported as column %d (line %d)", what, o, rc.m.col[o], p.Column, p.Line)
	}
}

func contains(outer, inner hcl.Range) bool {
	return outer.Start.Byte <= inner.Start.Byte && inner.End.Byte <= outer.End.Byte
}

func (rc *rangeChecker) inside(what string, outer, inner hcl.Range) {
	if !contains(outer, inner) {
		rc.c.Failf("%s: %s (%d-%d) is not inside %d-%d", what, clip(fmt.Sprint(inner), 200), inner.Start.Byte, inner.End.Byte, outer.Start.Byte, outer.End.Byte)
	}
}

// tree checks the ranges of an expression tree.
func (rc *rangeChecker) tree(root hclsyntax.Expression) {
	hclsyntax.VisitAll(root, func(n hclsyntax.Node) hcl.Diagnostics {
		x, ok := n.(hclsyntax.Expression)
		if !ok {
			return nil
		}
		rc.expr(x)
		return nil
	})
}

func (rc *rangeChecker) expr(x hclsyntax.Expression) {
	c := rc.c
	what := fmt.Sprintf("%T", x)
	r := x.Range()
	rc.check(what, r)
	sr := x.StartRange()
	rc.check(what+" start range", sr)
	kids := func(xs ...hclsyntax.Expression) {
		last := -1
		for _, k := range xs {
			if k == nil {
				continue
			}
			rc.inside(fmt.Sprintf("%T within %s", k, what), r, k.Range())
			if k.Range().Start.Byte < last {
				c.Failf("%s: children overlap or are out of order", what)
			}
			last = k.Range().End.Byte
		}
	}
	reparse := false
	switch t := x.(type) {
	case *hclsyntax.LiteralValueExpr:
		// Literal text in templates is judged with the template.
		if t.Val.IsNull() || t.Val.Type() != cty.String {
			reparse = true
		}
	case *hclsyntax.ScopeTraversalExpr:
		// (a).b covers "a).b"
		reparse = !strings.Contains(rc.gaps(t.Traversal), ")")
		rc.traversal(t.Traversal, r)
	case *hclsyntax.RelativeTraversalExpr:
		rc.traversal(t.Traversal, hcl.Range{})
	case *hclsyntax.FunctionCallExpr:
		reparse = true
		rc.check("function name", t.NameRange)
		rc.check("open paren", t.OpenParenRange)
		rc.check("close paren", t.CloseParenRange)
		if rc.text(t.NameRange) != t.Name || rc.text(t.OpenParenRange) != "(" || rc.text(t.CloseParenRange) != ")" {
			c.Failf("call of %q has name range %q and parentheses %q %q", t.Name, rc.text(t.NameRange), rc.text(t.OpenParenRange), rc.text(t.CloseParenRange))
		}
		kids(t.Args...)
		c.Event("call checked")
	case *hclsyntax.TupleConsExpr:
		reparse = true
		rc.check("open bracket", t.OpenRange)
		if rc.text(t.OpenRange) != "[" {
			c.Failf("tuple open range covers %q", rc.text(t.OpenRange))
		}
		kids(t.Exprs...)
	case *hclsyntax.ObjectConsExpr:
		reparse = true
		rc.check("open brace", t.OpenRange)
		if rc.text(t.OpenRange) != "{" {
			c.Failf("object open range covers %q", rc.text(t.OpenRange))
		}
		var ks []hclsyntax.Expression
		for _, it := range t.Items {
			ks = append(ks, it.KeyExpr, it.ValueExpr)
		}
		kids(ks...)
	case *hclsyntax.ForExpr:
		rc.check("for open", t.OpenRange)
		rc.check("for close", t.CloseRange)
		open, close := rc.text(t.OpenRange), rc.text(t.CloseRange)
		if open == "[" && close == "]" || open == "{" && close == "}" {
			reparse = true
		} else if !strings.HasPrefix(open, "%{") || !strings.HasPrefix(close, "%{") {
			c.Failf("for expression has open range %q and close range %q", open, close)
		}
		if t.KeyExpr != nil {
			kids(t.CollExpr, t.KeyExpr, t.ValExpr, t.CondExpr)
		} else {
			kids(t.CollExpr, t.ValExpr, t.CondExpr)
		}
	case *hclsyntax.BinaryOpExpr:
		kids(t.LHS, t.RHS)
	case *hclsyntax.UnaryOpExpr:
		rc.check("operator symbol", t.SymbolRange)
		if s := rc.text(t.SymbolRange); s != "-" && s != "!" {
			c.Failf("unary operator symbol range covers %q", s)
		}
		kids(t.Val)
	case *hclsyntax.ConditionalExpr:
		kids(t.Condition, t.TrueResult, t.FalseResult)
	case *hclsyntax.IndexExpr:
		rc.check("open bracket", t.OpenRange)
		if rc.text(t.OpenRange) != "[" {
			c.Failf("index open range covers %q", rc.text(t.OpenRange))
		}
		if s := rc.text(r); !strings.HasPrefix(s, "[") && !strings.HasSuffix(s, "]") {
			c.Failf("index range covers %q", s)
		}
		rc.inside("index key", r, t.Key.Range())
	case *hclsyntax.SplatExpr:
		rc.check("splat marker", t.MarkerRange)
		if s := rc.text(t.MarkerRange); !strings.Contains(s, "*") {
			c.Failf("splat marker range covers %q", s)
		}
	case *hclsyntax.TemplateExpr:
		// A quoted template can be parsed again with its quotes
		if s := rc.text(r); len(s) > 1 && s[0] == '"' && (len(t.Parts) == 0 || t.Parts[0].Range().Start.Byte > r.Start.Byte) {
			reparse = true
		}
		last := -1
		for _, p := range t.Parts {
			rc.inside("template part", r, p.Range())
			if p.Range().Start.Byte < last {
				c.Failf("template parts overlap or are out of order")
			}
			last = p.Range().End.Byte
		}
	case *hclsyntax.TemplateWrapExpr:
		if s := rc.text(r); len(s) > 1 && s[0] == '"' && t.Wrapped.Range().Start.Byte > r.Start.Byte {
			reparse = true
		}
		kids(t.Wrapped)
	}
	if reparse {
		txt := rc.text(r)
		if txt == "" || strings.TrimSpace(txt) != txt {
			c.Failf("%s has range covering %q", what, clip(txt, 300))
		}
		again, diags := hclsyntax.ParseExpression([]byte(txt), rc.file, start)
		if diags.HasErrors() {
			c.Failf("%s has range covering %q, which isn't an expression: %s", what, clip(txt, 600), diagStr(diags))
		}
		if a, b := canonAST(x), canonAST(again); a != b {
			if _, isKey := x.(*hclsyntax.ScopeTraversalExpr); !isKey {
				c.Failf("%s has range covering %q, which is a different expression\n%s\n%s", what, clip(txt, 600), clip(a, 600), clip(b, 600))
			}
		}
		c.Event("text re-parsed")
	}
}

// gaps returns the text between the steps.
func (rc *rangeChecker) gaps(tr hcl.Traversal) string {
	ret := ""
	for i := 1; i < len(tr); i++ {
		a := tr[i-1:i].SourceRange().End.Byte - rc.st.Byte
		b := tr[i:i+1].SourceRange().Start.Byte - rc.st.Byte
		if a < 0 || b < a || b > len(rc.src) {
			return ret
		}
		ret += string(rc.src[a:b])
	}
	return ret
}

// traversal checks the ranges of steps, and if whole isn't empty that it
// spans exactly all of them.
func (rc *rangeChecker) traversal(tr hcl.Traversal, whole hcl.Range) {
	c := rc.c
	last := -1
	for i, step := range tr {
		var sr hcl.Range
		switch t := step.(type) {
		case hcl.TraverseRoot:
			sr = t.SrcRange
			rc.check("traversal root", sr)
			if rc.text(sr) != t.Name {
				c.Failf("root %q has range covering %q", t.Name, rc.text(sr))
			}
		case hcl.TraverseAttr:
			sr = t.SrcRange
			rc.check("attribute step", sr)
			if s := rc.text(sr); !strings.HasPrefix(s, ".") || !strings.HasSuffix(s, t.Name) {
				c.Failf("step .%s has range covering %q", t.Name, s)
			}
		case hcl.TraverseIndex:
			sr = t.SrcRange
			rc.check("index step", sr)
			if s := rc.text(sr); !(strings.HasPrefix(s, "[") && strings.HasSuffix(s, "]")) && !strings.HasPrefix(s, ".") {
				c.Failf("index step %#v has range covering %q", t.Key, s)
			}
		default:
			continue
		}
		if sr.Start.Byte < last {
			c.Failf("traversal step %d begins before the end of the previous one", i)
		}
		last = sr.End.Byte
		if i == 0 && !whole.Empty() && sr.Start != whole.Start {
			c.Failf("traversal begins at %v but its range at %v", sr.Start, whole.Start)
		}
		if i == len(tr)-1 && !whole.Empty() && sr.End != whole.End {
			c.Failf("traversal ends at %v but its range at %v", sr.End, whole.End)
		}
	}
	if !whole.Empty() {
		if r := tr.SourceRange(); r != whole {
			c.Failf("traversal source range %v differs from %v", r, whole)
		}
	}
	c.Event("traversal checked")
}

func p03Config(c *mon.Case, g *gen.G) {
	b := gen.GenBody(g, gen.BodyOpts{MaxItems: c.Size(8, 60), Depth: c.Size(3, 8), ExprDepth: c.Range(1, 4), Heredocs: true})
	w := gen.NewW(c.Rand)
	src := w.Config(b)
	st := randStart(c)
	c.Input("source", src)
	f, diags := hclsyntax.ParseConfig([]byte(src), "t.hcl", st)
	if diags.HasErrors() {
		c.Failf("valid configuration rejected: %s", diagStr(diags))
	}
	rc := newRangeChecker(c, []byte(src), st, "t.hcl", 0)
	body := f.Body.(*hclsyntax.Body)
	rc.check("file body", body.SrcRange)
	rc.check("file body end", body.EndRange)
	if !bytes.Equal(f.Bytes, []byte(src)) {
		c.Failf("file bytes differ from the source")
	}
	rc.check("missing item range", body.MissingItemRange())
	rc.body(b, body, w)
	c.Sig(src)
	c.Sample(clip(src, 200))
}

func (rc *rangeChecker) extent(what string, r hcl.Range, want [2]int) {
	rc.check(what, r)
	s, e := r.Start.Byte-rc.st.Byte, r.End.Byte-rc.st.Byte
	if s != want[0] || e != want[1] {
		rc.c.Failf("%s has range covering %q but is written as %q", what, clip(rc.text(r), 300), clip(string(rc.src[want[0]:want[1]]), 300))
	}
}

func (rc *rangeChecker) body(b *gen.Body, body *hclsyntax.Body, w *gen.W) {
	c := rc.c
	for _, a := range b.Attrs() {
		at := body.Attributes[a.Name]
		if at == nil {
			c.Failf("no attribute %q", a.Name)
		}
		sp := w.Items[a]
		rc.extent("name of "+a.Name, at.NameRange, sp.Name)
		rc.extent("equals sign of "+a.Name, at.EqualsRange, sp.Equals)
		if hasHeredocEnd(a.X) {
			rc.check("attribute "+a.Name, at.SrcRange)
			if at.SrcRange.Start != at.NameRange.Start {
				c.Failf("attribute %s begins at %v but its name at %v", a.Name, at.SrcRange.Start, at.NameRange.Start)
			}
		} else {
			rc.extent("attribute "+a.Name, at.SrcRange, sp.Whole)
		}
		rc.inside("attribute "+a.Name+" in body", body.SrcRange, at.SrcRange)
		rc.inside("expression of "+a.Name, at.SrcRange, at.Expr.Range())
		hattr := at.AsHCLAttribute()
		if hattr.Range != at.SrcRange || hattr.NameRange != at.NameRange {
			c.Failf("attribute %s has other ranges as generic attribute", a.Name)
		}
		rc.tree(at.Expr)
		c.Event("item extents matched")
	}
	for i, bl := range b.Blocks() {
		got := body.Blocks[i]
		sp := w.Items[bl]
		rc.extent("type of block "+bl.Name, got.TypeRange, sp.Name)
		rc.extent("open brace of "+bl.Name, got.OpenBraceRange, sp.Open)
		rc.extent("close brace of "+bl.Name, got.CloseBraceRange, sp.Close)
		rc.extent("block "+bl.Name, got.Range(), sp.Whole)
		for j := range bl.Labels {
			rc.extent(fmt.Sprintf("label %d of %s", j, bl.Name), got.LabelRanges[j], sp.Labels[j])
		}
		hb := got.AsHCLBlock()
		rc.check("definition range of "+bl.Name, hb.DefRange)
		want := sp.Name
		if n := len(sp.Labels); n > 0 {
			want[1] = sp.Labels[n-1][1]
		}
		rc.extent("header of "+bl.Name, hb.DefRange, want)
		if hb.TypeRange != got.TypeRange || len(hb.LabelRanges) != len(got.LabelRanges) {
			c.Failf("block %s has other ranges as generic block", bl.Name)
		}
		rc.inside("block "+bl.Name+" in body", body.SrcRange, got.Range())
		rc.check("body of "+bl.Name, got.Body.SrcRange)
		rc.check("end of "+bl.Name, got.Body.EndRange)
		rc.inside("body of "+bl.Name, got.Range(), got.Body.SrcRange)
		rc.check("missing item range of "+bl.Name, got.Body.MissingItemRange())
		c.Event("item extents matched")
		rc.body(bl.Body, got.Body, w)
	}
}

func hasHeredocEnd(e *gen.Expr) bool {
	found := false
	e.Walk(func(x *gen.Expr) { found = found || x.Kind == gen.KHeredoc })
	return found
}

// diagRanges checks the ranges of diagnostics from parsing.
func (rc *rangeChecker) diagRanges(diags hcl.Diagnostics) {
	// Problems inside of string literals are located piecewise, and a piece
	// may begin with a combining mark.
	for o := range rc.src {
		if !rc.m.whole(o) && utf8.RuneStart(rc.src[o]) && rc.src[o] != '\n' {
			rc.dirty[rc.m.line[o]] = true
		}
	}
	for _, d := range diags {
		if d.Subject == nil {
			rc.c.Failf("diagnostic %q has no subject", d.Summary)
		}
		what := fmt.Sprintf("diagnostic %q", d.Summary)
		rc.check(what+" subject", *d.Subject)
		if d.Context != nil {
			rc.check(what+" context", *d.Context)
			if !contains(*d.Context, *d.Subject) {
				rc.c.Failf("%s has context %v that doesn't contain its subject %v", what, *d.Context, *d.Subject)
			}
		}
		rc.c.Event("diagnostic checked")
	}
}

func p03Diags(c *mon.Case, src string) {
	c.Input("source", src)
	st := randStart(c)
	b := []byte(src)
	switch c.Intn(3) {
	case 0:
		_, diags := hclsyntax.ParseConfig(b, "t.hcl", st)
		newRangeChecker(c, b, st, "t.hcl", 0).diagRanges(diags)
	case 1:
		src := src
		if i := strings.IndexByte(src, '='); i > 0 && c.Bool() {
			src = src[i+1:]
		}
		b = []byte(src)
		_, diags := hclsyntax.ParseExpression(b, "t.hcl", st)
		newRangeChecker(c, b, st, "t.hcl", 1).diagRanges(diags)
		_, diags = hclsyntax.ParseTraversalAbs(b, "t.hcl", st)
		newRangeChecker(c, b, st, "t.hcl", 1).diagRanges(diags)
	case 2:
		_, diags := hclsyntax.ParseTemplate(b, "t.hcl", st)
		newRangeChecker(c, b, st, "t.hcl", 2).diagRanges(diags)
	}
	c.Sig(src)
}

func p03JSON(c *mon.Case, g *gen.G) {
	src := gen.JSONSoup(c.Rand)
	if c.Bool() {
		src = gen.JSONText(c.Rand, gen.JSONDoc(c.Rand, 3))
		if c.Bool() {
			src = gen.Mutate(c.Rand, src)
		}
	}
	c.Input("json", src)
	f, diags := json.Parse([]byte(src), "t.json")
	b := []byte(src)
	m := newPosMap(b, start)
	check := func(what string, r hcl.Range) {
		s, e := r.Start.Byte, r.End.Byte
		if s < 0 || e > len(b) || s > e {
			c.Failf("%s: range %#v is not inside the source of %d bytes", what, r, len(b))
		}
		for _, p := range []hcl.Pos{r.Start, r.End} {
			if p.Line != m.line[p.Byte] {
				c.Failf("%s: offset %d is on line %d but reported as line %d", what, p.Byte, m.line[p.Byte], p.Line)
			}
		}
		c.Event("json range checked")
	}
	for _, d := range diags {
		if d.Subject == nil {
			c.Failf("diagnostic %q has no subject", d.Summary)
		}
		check("diagnostic "+d.Summary, *d.Subject)
		if d.Context != nil {
			check("context of "+d.Summary, *d.Context)
			if !contains(*d.Context, *d.Subject) {
				c.Failf("diagnostic %q has context %v that doesn't contain its subject %v", d.Summary, *d.Context, *d.Subject)
			}
		}
		c.Event("diagnostic checked")
	}
	if diags.HasErrors() {
		return
	}
	check("missing item range", f.Body.MissingItemRange())
	if !utf8.ValidString(src) {
		return
	}
	doc, err := gen.JSONDecode(src)
	if err != nil {
		return // reported by another check
	}
	root, ok := doc.(*gen.JObj)
	if !ok {
		return
	}
	// every property as attribute
	attrs, diags := f.Body.JustAttributes()
	if diags.HasErrors() {
		return
	}
	text := func(r hcl.Range) string { return string(b[r.Start.Byte:r.End.Byte]) }
	isKey := func(what, name string, r hcl.Range) {
		v, err := gen.JSONDecode(text(r))
		if s, ok := v.(string); err != nil || !ok || s != name {
			c.Failf("%s %q has range covering %q", what, name, text(r))
		}
	}
	var isValue func(what string, x hcl.Expression, v interface{}, depth int)
	isValue = func(what string, x hcl.Expression, v interface{}, depth int) {
		check(what, x.Range())
		check(what+" start", x.StartRange())
		got, err := gen.JSONDecode(text(x.Range()))
		if err != nil || !reflect.DeepEqual(got, v) {
			c.Failf("%s has range covering %q", what, clip(text(x.Range()), 300))
		}
		if !contains(x.Range(), x.StartRange()) || x.Range().Start != x.StartRange().Start {
			c.Failf("%s (%v) has start range %v", what, x.Range(), x.StartRange())
		}
		if depth == 0 {
			return
		}
		switch t := v.(type) {
		case []interface{}:
			xs, diags := hcl.ExprList(x)
			if diags.HasErrors() || len(xs) != len(t) {
				c.Failf("%s isn't a list of %d: %s", what, len(t), diagStr(diags))
			}
			for i, x := range xs {
				isValue(fmt.Sprintf("%s[%d]", what, i), x, t[i], depth-1)
			}
		case *gen.JObj:
			kvs, diags := hcl.ExprMap(x)
			if diags.HasErrors() || len(kvs) != len(t.Keys) {
				c.Failf("%s isn't a map of %d: %s", what, len(t.Keys), diagStr(diags))
			}
			for i, kv := range kvs {
				isValue(fmt.Sprintf("key %d of %s", i, what), kv.Key, t.Keys[i], 0)
				isValue(fmt.Sprintf("%s[%q]", what, t.Keys[i]), kv.Value, t.Vals[i], depth-1)
			}
		}
		c.Event("json value extents matched")
	}
	for i, name := range root.Keys {
		if name == "//" {
			continue
		}
		dup := false
		for j, o := range root.Keys {
			dup = dup || o == name && i != j
		}
		if dup {
			continue
		}
		a := attrs[name]
		if a == nil {
			c.Failf("no attribute %q", name)
		}
		check("attribute "+name, a.Range)
		check("name of "+name, a.NameRange)
		isValue("value of "+name, a.Expr, root.Vals[i], 5)
		isKey("property", name, a.NameRange)
		if a.Range.Start != a.NameRange.Start || a.Range.End != a.Expr.Range().End {
			c.Failf("attribute %s (%v) doesn't span its name (%v) and its value (%v)", name, a.Range, a.NameRange, a.Expr.Range())
		}
		// and as blocks, as far as the shape permits
		for labels := 0; labels < 3; labels++ {
			sch := &hcl.BodySchema{Blocks: []hcl.BlockHeaderSchema{{Type: name, LabelNames: []string{"a", "b"}[:labels]}}}
			content, _, diags := f.Body.PartialContent(sch)
			for _, d := range diags {
				if d.Subject != nil {
					check("diagnostic "+d.Summary, *d.Subject)
				}
			}
			if content == nil {
				continue
			}
			check("missing item range", content.MissingItemRange)
			for _, bl := range content.Blocks {
				what := "block " + name
				check(what, bl.DefRange)
				check(what+" type", bl.TypeRange)
				isKey(what, name, bl.TypeRange)
				if len(bl.LabelRanges) != len(bl.Labels) {
					c.Failf("%s has %d labels but %d label ranges", what, len(bl.Labels), len(bl.LabelRanges))
				}
				last := bl.TypeRange
				for k, r := range bl.LabelRanges {
					check(what+" label", r)
					isKey(what+" label", bl.Labels[k], r)
					if r.Start.Byte < last.End.Byte {
						c.Failf("%s has label at %v after %v", what, r, last)
					}
					last = r
				}
				check(what+" end", bl.Body.MissingItemRange())
				if !diags.HasErrors() && bl.DefRange.Start.Byte < last.Start.Byte {
					c.Failf("%s has definition range %v but its last key is at %v", what, bl.DefRange, last)
				}
				c.Event("json block ranges checked")
			}
		}
	}
	c.Sig(src)
}
