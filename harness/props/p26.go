package props

import (
	stdjson "encoding/json"
	"fmt"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hcled"
)

func init() {
	register(&mon.Prop{
		ID: "P26",
		Rule: "random files in native and JSON syntax, with every offset in them and some outside (up to 400 offsets of a file, always including those at the edges of blocks and attributes); " +
			"blocks at an offset are compared with the spans at which the renderer wrote them, attributes and expressions with a search of the whole syntax tree, descriptions with an independent scan of the JSON text; damaged files have to give consistent answers; distinct = (shape)",
		Assumptions: []string{
			"where an attribute or expression ends is the matter of another check; positions in redundant parentheses around an expression are in neither",
			"a block goes from its type keyword to its closing brace",
		},
		Quick:    100000,
		Thorough: 800000,
		Require:  []string{"no block", "block", "nested block", "attribute", "attribute in a block", "expression", "no expression", "JSON path", "JSON outside", "damaged", "outside the file"},
		Run:      runP26,
	})
}

type nested struct {
	item  *gen.Item
	block *hclsyntax.Block
	span  *gen.ItemSpan
}

func runP26(c *mon.Case) {
	if c.Chance(1, 3) {
		jsonPos(c)
		return
	}
	env := gen.NewEnv(c.Rand)
	g := &gen.G{R: c.Rand, Env: env}
	b := gen.GenBody(g, gen.BodyOpts{MaxItems: c.Size(5, 20), Depth: c.Range(1, 4), ExprDepth: c.Range(0, 2), Heredocs: true})
	w := gen.NewW(c.Rand)
	src := []byte(w.Config(b))
	if c.Chance(1, 5) {
		damagedPos(c, gen.Mutate(c.Rand, string(src)))
		return
	}
	c.Input("source", string(src))
	from := start
	if c.Bool() {
		from = hcl.Pos{Byte: c.Intn(1000), Line: c.Range(1, 50), Column: c.Range(1, 50)}
	}
	f, diags := hclsyntax.ParseConfig(src, "t.hcl", from)
	if diags.HasErrors() {
		c.Failf("valid configuration rejected: %s\nsource: %s", diagStr(diags), q(string(src)))
	}
	pm := newPosMap(src, from)

	// Offsets at which something begins or ends are the interesting ones.
	want := map[int]bool{-1: true, 0: true, len(src): true, len(src) + 1: true}
	edge := func(p [2]int) {
		for _, o := range p {
			for d := -1; d <= 1; d++ {
				want[o+d] = true
			}
		}
	}
	for _, sp := range w.Items {
		edge(sp.Whole)
		edge(sp.Name)
		edge(sp.Open)
		edge(sp.Expr)
		for _, l := range sp.Labels {
			edge(l)
		}
	}
	if len(src) < 400 {
		for i := range src {
			want[i] = true
		}
	} else {
		for i := 0; i < 100; i++ {
			want[c.Intn(len(src))] = true
		}
	}

	root := f.Body.(*hclsyntax.Body)
	for ofs := range want {
		// the blocks that were written around this offset
		var chain []nested
		mb, sb := b, root
	descend:
		for {
			n := 0
			for _, it := range mb.Items {
				if it.Body == nil {
					continue
				}
				if n >= len(sb.Blocks) {
					c.Failf("syntax tree has %d blocks in a body that has more\nsource: %s", len(sb.Blocks), q(string(src)))
				}
				if sp := w.Items[it]; ofs >= sp.Whole[0] && ofs < sp.Whole[1] {
					chain = append(chain, nested{it, sb.Blocks[n], sp})
					mb, sb = it.Body, sb.Blocks[n].Body
					continue descend
				}
				n++
			}
			break
		}
		pos := hcl.Pos{Byte: ofs + from.Byte}
		if ofs >= 0 && ofs <= len(src) {
			p := pm.at(ofs)
			pos.Line, pos.Column = p.Line, p.Column
		} else {
			c.Event("outside the file")
		}
		checkPos(c, f, root, chain, mb, sb, w, ofs, pos)
	}
	c.Sig(b.Shape(), len(src))
	c.Sample(clip(string(src), 200))
}

func checkPos(c *mon.Case, f *hcl.File, root *hclsyntax.Body, chain []nested, mb *gen.Body, sb *hclsyntax.Body, w *gen.W, ofs int, pos hcl.Pos) {
	same := func(what string, got *hcl.Block, want nested) {
		ok := got != nil && got.Type == want.item.Name && len(got.Labels) == len(want.item.Labels) && got.Body == hcl.Body(want.block.Body) &&
			got.TypeRange == want.block.TypeRange && headed(got.DefRange, want.block) && len(got.LabelRanges) == len(want.item.Labels)
		if ok {
			for i, l := range want.item.Labels {
				ok = ok && got.Labels[i] == l.Text
			}
		}
		if !ok {
			desc := "none"
			if got != nil {
				desc = fmt.Sprintf("%s %q at %v", got.Type, got.Labels, got.DefRange)
			}
			c.Failf("%s at offset %d: %s\nshould be %s %v at %d-%d\nsource: %s", what, ofs, desc, want.item.Name, want.item.Labels, want.span.Whole[0], want.span.Whole[1], q(string(f.Bytes)))
		}
	}
	blocks := f.BlocksAtPos(pos)
	if len(blocks) != len(chain) {
		c.Failf("%d blocks at offset %d, should be %d\nsource: %s", len(blocks), ofs, len(chain), q(string(f.Bytes)))
	}
	for i := range chain {
		same("block", blocks[i], chain[i])
	}
	inner, outer := f.InnermostBlockAtPos(pos), f.OutermostBlockAtPos(pos)
	desc := hcled.ContextString(f, pos.Byte)
	def := hcled.ContextDefRange(f, pos.Byte)
	if len(chain) == 0 {
		if inner != nil || outer != nil || desc != "" || def != f.Body.MissingItemRange() {
			c.Failf("at offset %d in no block: innermost %v, outermost %v, described as %q at %v\nsource: %s", ofs, inner != nil, outer != nil, desc, def, q(string(f.Bytes)))
		}
		c.Event("no block")
	} else {
		same("innermost block", inner, chain[len(chain)-1])
		same("outermost block", outer, chain[0])
		want := chain[0].item.Name
		for _, l := range chain[0].item.Labels {
			want += fmt.Sprintf(" %q", l.Text)
		}
		if desc != want || !headed(def, chain[0].block) {
			c.Failf("offset %d described as %q at %v, should be %q at %v\nsource: %s", ofs, desc, def, want, chain[0].block.DefRange(), q(string(f.Bytes)))
		}
		c.Event("block")
		if len(chain) > 1 {
			c.Event("nested block")
		}
	}

	// the attribute among all of them
	var attr *hclsyntax.Attribute
	hclsyntax.VisitAll(root, func(n hclsyntax.Node) hcl.Diagnostics {
		if a, ok := n.(*hclsyntax.Attribute); ok && a.SrcRange.Start.Byte <= pos.Byte && pos.Byte < a.SrcRange.End.Byte {
			attr = a
		}
		return nil
	})
	for _, it := range mb.Items {
		if sp := w.Items[it]; it.X != nil && ofs >= sp.Whole[0] && ofs < sp.Equals[1] && (attr == nil || attr.Name != it.Name) {
			c.Failf("the attribute %s written at %d-%d is not in the tree there\nsource: %s", it.Name, sp.Whole[0], sp.Whole[1], q(string(f.Bytes)))
		}
	}
	got := f.AttributeAtPos(pos)
	x := f.OutermostExprAtPos(pos)
	if attr == nil {
		if got != nil || x != nil {
			c.Failf("offset %d is in no attribute, but one is reported\nsource: %s", ofs, q(string(f.Bytes)))
		}
		return
	}
	if got == nil || got.Name != attr.Name || got.Range != attr.SrcRange || got.NameRange != attr.NameRange || got.Expr != hcl.Expression(attr.Expr) {
		c.Failf("offset %d is in attribute %s, but that is not reported\nsource: %s", ofs, attr.Name, q(string(f.Bytes)))
	}
	c.Event("attribute")
	if len(chain) > 0 {
		c.Event("attribute in a block")
	}
	if r := attr.Expr.Range(); r.Start.Byte <= pos.Byte && pos.Byte < r.End.Byte {
		if x != hcl.Expression(attr.Expr) {
			c.Failf("offset %d is in the expression of attribute %s, but that is not reported\nsource: %s", ofs, attr.Name, q(string(f.Bytes)))
		}
		c.Event("expression")
	} else {
		if x != nil {
			c.Failf("offset %d is in no expression, but one is reported\nsource: %s", ofs, q(string(f.Bytes)))
		}
		c.Event("no expression")
	}
}

// headed is whether a range covers the header of a block, with or without its
// opening brace.
func headed(r hcl.Range, b *hclsyntax.Block) bool {
	last := b.TypeRange
	if n := len(b.LabelRanges); n > 0 {
		last = b.LabelRanges[n-1]
	}
	return r.Start == b.TypeRange.Start && (r.End == last.End || r.End == b.OpenBraceRange.End)
}

// damagedPos asks about offsets in files that may not be valid.
func damagedPos(c *mon.Case, src string) {
	c.Input("source", src)
	f, _ := hclsyntax.ParseConfig([]byte(src), "t.hcl", start)
	for i := 0; i < 20; i++ {
		pos := hcl.Pos{Byte: c.Intn(len(src) + 1)}
		checkPanic(c, "looking up a position", func() {
			blocks := f.BlocksAtPos(pos)
			inner, outer := f.InnermostBlockAtPos(pos), f.OutermostBlockAtPos(pos)
			if (inner == nil) != (len(blocks) == 0) || (outer == nil) != (len(blocks) == 0) {
				c.Failf("%d blocks at offset %d, but innermost %v, outermost %v\nsource: %s", len(blocks), pos.Byte, inner != nil, outer != nil, q(src))
			}
			if inner != nil && (inner.Body != blocks[len(blocks)-1].Body || outer.Body != blocks[0].Body) {
				c.Failf("innermost and outermost blocks at offset %d are not those of the list\nsource: %s", pos.Byte, q(src))
			}
			if x := f.OutermostExprAtPos(pos); x != nil && f.AttributeAtPos(pos) == nil {
				c.Failf("expression but no attribute at offset %d\nsource: %s", pos.Byte, q(src))
			}
			if desc := hcled.ContextString(f, pos.Byte); (desc == "") != (outer == nil) && outer != nil && outer.Type != "" {
				c.Failf("offset %d described as %q\nsource: %s", pos.Byte, desc, q(src))
			}
			hcled.ContextDefRange(f, pos.Byte)
		})
	}
	c.Event("damaged")
	c.Sig("damaged", len(src))
}

// jspan is an object or array in JSON text.
type jspan struct {
	from, to int
	step     string
	in       []*jspan
}

// scanJSON finds the objects and arrays in valid JSON text.
func scanJSON(s string, i int, step string) (*jspan, int) {
	ws := func() {
		for i < len(s) && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r') {
			i++
		}
	}
	str := func() string {
		b := i
		for i++; s[i] != '"'; i++ {
			if s[i] == '\\' {
				i++
			}
		}
		i++
		var v string
		if err := stdjson.Unmarshal([]byte(s[b:i]), &v); err != nil {
			panic(err)
		}
		return v
	}
	ws()
	switch s[i] {
	case '"':
		str()
		return nil, i
	case '{', '[':
		sp := &jspan{from: i, step: step}
		obj := s[i] == '{'
		i++
		for n := 0; ; n++ {
			ws()
			if s[i] == '}' || s[i] == ']' {
				i++
				sp.to = i
				return sp, i
			}
			k := fmt.Sprintf("[%d]", n)
			if obj {
				k = "." + str()
				ws()
				i++ // colon
			}
			var sub *jspan
			sub, i = scanJSON(s, i, k)
			if sub != nil {
				sp.in = append(sp.in, sub)
			}
			ws()
			if s[i] == ',' {
				i++
			}
		}
	}
	for i < len(s) && s[i] != ',' && s[i] != ']' && s[i] != '}' && s[i] != ' ' && s[i] != '\t' && s[i] != '\n' && s[i] != '\r' {
		i++
	}
	return nil, i
}

func jsonPos(c *mon.Case) {
	var v interface{} = gen.JSONDoc(c.Rand, c.Size(3, 5))
	if c.Chance(1, 6) {
		v = []interface{}{v, gen.JSONDoc(c.Rand, 2)}
	}
	src := gen.JSONText(c.Rand, v)
	c.Input("JSON", src)
	f, diags := json.Parse([]byte(src), "t.json")
	if diags.HasErrors() {
		c.Failf("valid JSON rejected: %s\nsource: %s", diagStr(diags), q(src))
	}
	root, _ := scanJSON(src, 0, "")
	n := len(src) + 2
	for i := 0; i < n && i < 400; i++ {
		ofs := i - 1
		if n > 400 {
			ofs = c.Intn(n) - 1
		}
		want := ""
		for at := root; at != nil; {
			var next *jspan
			for _, s := range at.in {
				if ofs >= s.from && ofs < s.to {
					next = s
				}
			}
			if next != nil {
				want += next.step
			}
			at = next
		}
		if len(want) > 0 && want[0] == '.' {
			want = want[1:]
		}
		got := hcled.ContextString(f, ofs)
		if got != want {
			c.Failf("offset %d described as %q, should be %q\nsource: %s", ofs, got, want, q(src))
		}
		if want != "" {
			c.Event("JSON path")
		} else {
			c.Event("JSON outside")
		}
		if ofs >= 0 {
			pos := hcl.Pos{Byte: ofs}
			f.BlocksAtPos(pos)
			f.OutermostExprAtPos(pos)
			f.AttributeAtPos(pos)
			hcled.ContextDefRange(f, ofs)
		}
	}
	c.Sig("JSON", len(src), len(root.in))
}
