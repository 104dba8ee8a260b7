package props

import (
	"bytes"
	"sort"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
)

func init() {
	register(&mon.Prop{
		ID: "P15",
		Rule: "native source (valid in varying layout, damaged, token soup, bytes) is formatted; bytes without spaces are compared for all of it, tokens, structure and values for valid configuration, then the text is formatted again and its layout measured; " +
			"distinct = (kind, token classes)",
		Assumptions: []string{
			"spaces are blanks and tabs, and a byte order mark at the start",
			"damaged tokens that run together when the blanks between them are removed (. . . to ...) still count as the same text",
		},
		Quick:    60000,
		Thorough: 600000,
		Require:  []string{"text kept", "tokens kept", "tokens of invalid input kept", "second pass changes nothing", "structure kept", "value kept", "line indented", "equals signs aligned", "comments aligned", "equals signs close", "comments close"},
		Run:      runP15,
	})
}

// bare is a text without spaces.
func bare(s string) string {
	return strings.TrimLeft(strings.NewReplacer(" ", "", "\t", "").Replace(s), "\ufeff")
}

func runP15(c *mon.Case) {
	env := gen.NewEnv(c.Rand)
	g := &gen.G{R: c.Rand, Env: env, Hostile: 40}
	var src string
	valid := false
	if c.Chance(1, 4) {
		// many short attributes next to each other
		b := &gen.Body{}
		flatBody(c, g, b, c.Intn(3))
		src, valid = gen.NewW(c.Rand).Config(b), true
	} else {
		src, valid = gen.Native(g)
	}
	c.Input("source", src)
	var out []byte
	checkPanic(c, "formatting", func() { out = hclwrite.Format([]byte(src)) })
	c.Input("formatted", string(out))
	if bare(src) != bare(string(out)) {
		c.Failf("text changed\nsource:    %s\nformatted: %s", q(src), q(string(out)))
	}
	c.Event("text kept")
	want, _ := lexToks([]byte(src))
	got, _ := lexToks(out)
	kind := "valid"
	if !valid {
		kind = "invalid"
		same := len(want) == len(got)
		for i := 0; same && i < len(want); i++ {
			same = want[i].Type == got[i].Type
		}
		if same {
			if want, got := textToks(want), textToks(got); !sameToks(want, got) {
				c.Failf("strings or comments changed %s\nsource:    %s\nformatted: %s", diffToks(want, got), q(src), q(string(out)))
			}
			c.Event("tokens of invalid input kept")
		}
	} else {
		if !sameToks(want, got) {
			c.Failf("tokens changed %s\nsource:    %s\nformatted: %s", diffToks(want, got), q(src), q(string(out)))
		}
		c.Event("tokens kept")
		if again := hclwrite.Format(out); !bytes.Equal(again, out) {
			c.Failf("formatting again changes the text\nfirst:  %s\nsecond: %s", q(string(out)), q(string(again)))
		}
		c.Event("second pass changes nothing")
		a, b := parseNative(c, src).Body.(*hclsyntax.Body), parseNative(c, string(out)).Body.(*hclsyntax.Body)
		ctx := evalCtx(env)
		sameStructure(c, a, b, ctx)
		checkLayout(c, string(out), b)
	}
	var classes []string
	last := ""
	for _, t := range want {
		if s := string(rune(t.Type)); s != last && len(classes) < 40 {
			classes = append(classes, s)
			last = s
		}
	}
	c.Sig(kind, strings.Join(classes, ""))
	c.Sample(kind + ": " + clip(src, 200))
}

// textToks selects the tokens in which blanks have a meaning.
func textToks(ts []tk) []tk {
	var out []tk
	for _, t := range ts {
		switch t.Type {
		case hclsyntax.TokenQuotedLit, hclsyntax.TokenStringLit, hclsyntax.TokenOHeredoc, hclsyntax.TokenComment:
			out = append(out, t)
		}
	}
	return out
}

// flatBody fills a body with short attributes and some blocks.
func flatBody(c *mon.Case, g *gen.G, b *gen.Body, depth int) {
	used := map[string]bool{}
	for i, n := 0, c.Range(2, 9); i < n; i++ {
		name := gen.Word(c.Rand)
		if used[name] {
			continue
		}
		used[name] = true
		if depth > 0 && c.Chance(1, 5) {
			in := &gen.Body{}
			flatBody(c, g, in, depth-1)
			b.Items = append(b.Items, &gen.Item{Name: name, Body: in})
			continue
		}
		b.Items = append(b.Items, &gen.Item{Name: name, X: g.Expr(gen.WAny, c.Intn(2))})
	}
}

// sameStructure compares two parsed bodies, apart from positions.
func sameStructure(c *mon.Case, a, b *hclsyntax.Body, ctx *hcl.EvalContext) {
	if len(a.Attributes) != len(b.Attributes) || len(a.Blocks) != len(b.Blocks) {
		c.Failf("formatted configuration has %d attributes and %d blocks, source has %d and %d", len(b.Attributes), len(b.Blocks), len(a.Attributes), len(a.Blocks))
	}
	for name, at := range a.Attributes {
		bt := b.Attributes[name]
		if bt == nil {
			c.Failf("attribute %s disappeared", name)
		}
		if x, y := canonAST(at.Expr), canonAST(bt.Expr); x != y {
			c.Failf("attribute %s changed structure\nfrom: %s\nto:   %s", name, clip(x, 1000), clip(y, 1000))
		}
		c.Event("structure kept")
		if ctx != nil {
			checkPanic(c, "evaluation", func() {
				x, xd := at.Expr.Value(ctx)
				y, yd := bt.Expr.Value(ctx)
				if !x.RawEquals(y) || xd.HasErrors() != yd.HasErrors() {
					c.Failf("attribute %s changed value\nfrom: %#v %v\nto:   %#v %v", name, x, xd.HasErrors(), y, yd.HasErrors())
				}
				c.Event("value kept")
			})
		}
	}
	for i, x := range a.Blocks {
		y := b.Blocks[i]
		if x.Type != y.Type || strings.Join(x.Labels, "\x00") != strings.Join(y.Labels, "\x00") {
			c.Failf("block %d changed from %s %q to %s %q", i, x.Type, x.Labels, y.Type, y.Labels)
		}
		sameStructure(c, x.Body, y.Body, ctx)
	}
}

// oneLine is whether a block's content follows its brace on the same line.
func oneLine(bl *hclsyntax.Block) bool {
	for _, a := range bl.Body.Attributes {
		if a.NameRange.Start.Line == bl.OpenBraceRange.Start.Line {
			return true
		}
	}
	return false
}

// checkLayout measures indentation and alignment of formatted text.
func checkLayout(c *mon.Case, src string, body *hclsyntax.Body) {
	lines := strings.SplitAfter(src, "\n")
	starts := make([]int, len(lines))
	for i, ofs := 0, 0; i < len(lines); i++ {
		starts[i] = ofs
		ofs += len(lines[i])
	}
	// lines which hold parts of tokens that span lines aren't measured
	_, toks := lexToks([]byte(src))
	broken := map[int]bool{}
	trailing := map[int]int{}
	first := map[int]int{} // offset of the first token of each line
	for _, t := range toks {
		if _, ok := first[t.Range.Start.Line]; !ok {
			first[t.Range.Start.Line] = t.Range.Start.Byte
		}
		text := string(t.Bytes)
		if n := strings.IndexByte(text, '\n'); n >= 0 && n < len(text)-1 || t.Type == hclsyntax.TokenOHeredoc || t.Type == hclsyntax.TokenCHeredoc {
			for l := t.Range.Start.Line; l <= t.Range.End.Line; l++ {
				broken[l] = true
			}
		}
		if t.Type == hclsyntax.TokenComment && strings.HasSuffix(text, "\n") && first[t.Range.Start.Line] != t.Range.Start.Byte {
			trailing[t.Range.Start.Line] = t.Range.Start.Byte
		}
	}
	// nor are lines with characters that join the neighbouring token
	m := newPosMap([]byte(src), start)
	for _, t := range toks {
		if !m.whole(t.Range.Start.Byte) || !m.whole(t.Range.End.Byte) {
			broken[t.Range.Start.Line] = true
		}
	}
	checkClose(c, src, toks, broken)
	indent := func(line, depth int, what string) {
		ofs := first[line]
		if got := ofs - starts[line-1]; got != 2*depth {
			c.Failf("line %d (%s) at depth %d is indented by %d\nformatted: %s", line, what, depth, got, q(src))
		}
		c.Event("line indented")
	}
	var visit func(b *hclsyntax.Body, depth int)
	visit = func(b *hclsyntax.Body, depth int) {
		var attrs []*hclsyntax.Attribute
		for _, a := range b.Attributes {
			attrs = append(attrs, a)
		}
		sort.Slice(attrs, func(i, j int) bool { return attrs[i].NameRange.Start.Byte < attrs[j].NameRange.Start.Byte })
		for i, a := range attrs {
			l := a.NameRange.Start.Line
			if !broken[l] {
				indent(l, depth, "attribute "+a.Name)
			}
			if i == 0 {
				continue
			}
			p := attrs[i-1]
			pl := p.NameRange.Start.Line
			if l != pl+1 || broken[l] || broken[pl] || a.SrcRange.End.Line != l || p.SrcRange.End.Line != pl {
				continue
			}
			x, y := p.EqualsRange.Start.Byte, a.EqualsRange.Start.Byte
			if cx, cy := m.at(x).Column, m.at(y).Column; cx != cy {
				c.Failf("equals signs of consecutive attributes %s and %s on lines %d and %d are in columns %d and %d\nformatted: %s", p.Name, a.Name, pl, l, cx, cy, q(src))
			}
			c.Event("equals signs aligned")
			tx, okx := trailing[pl]
			ty, oky := trailing[l]
			if okx && oky {
				if cx, cy := m.at(tx).Column, m.at(ty).Column; cx != cy {
					c.Failf("comments after consecutive attributes on lines %d and %d are in columns %d and %d\nformatted: %s", pl, l, cx, cy, q(src))
				}
				c.Event("comments aligned")
			}
		}
		for _, bl := range b.Blocks {
			l, e := bl.TypeRange.Start.Line, bl.CloseBraceRange.Start.Line
			if !broken[l] {
				indent(l, depth, "block "+bl.Type)
			}
			if l == e || len(bl.Body.Attributes)+len(bl.Body.Blocks) > 0 && oneLine(bl) {
				continue
			}
			if !broken[e] {
				indent(e, depth, "closing brace")
			}
			visit(bl.Body, depth+1)
		}
	}
	visit(body, 0)
}

// checkClose makes sure that alignment doesn't move things further to the right
// than the longest of the neighbouring lines needs.
func checkClose(c *mon.Case, src string, toks hclsyntax.Tokens, broken map[int]bool) {
	equals, comments := map[int]int{}, map[int]int{}
	last := 0
	joined := map[int]bool{}
	for i, t := range toks {
		l := t.Range.Start.Line
		if t.Type != hclsyntax.TokenNewline && bytes.IndexByte(t.Bytes, '\n') >= 0 && (t.Type != hclsyntax.TokenComment || broken[l]) {
			for n := l; n <= t.Range.End.Line; n++ {
				joined[n] = true
			}
		}
		last = t.Range.End.Line
		if i == 0 || toks[i-1].Range.End.Line != l || toks[i-1].Range.End.Column == 1 {
			continue // the first one on its line
		}
		gap := t.Range.Start.Byte - toks[i-1].Range.End.Byte
		if _, ok := equals[l]; !ok && t.Type == hclsyntax.TokenEqual {
			equals[l] = gap
		}
		if t.Type == hclsyntax.TokenComment && (bytes.HasSuffix(t.Bytes, []byte("\n")) || t.Range.End.Byte == len(src)) {
			comments[l] = gap
		}
	}
	for what, gaps := range map[string]map[int]int{"equals signs": equals, "comments": comments} {
		for l := 1; l <= last; l++ {
			first, min, skip := l, -1, false
			for ; l <= last; l++ {
				gap, ok := gaps[l]
				if !ok && !broken[l] && !joined[l] {
					break
				}
				skip = skip || broken[l] || joined[l]
				if ok && (min < 0 || gap < min) {
					min = gap
				}
			}
			if min < 0 || skip {
				continue
			}
			if min > 1 {
				c.Failf("%s on lines %d to %d are all %d or more columns away\nformatted: %s", what, first, l-1, min, q(src))
			}
			c.Event(what + " close")
		}
	}
}
