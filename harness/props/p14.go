package props

import (
	"fmt"
	"sort"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
	"github.com/zclconf/go-cty/cty"
)

func init() {
	register(&mon.Prop{
		ID: "P14",
		Rule: "a file, new or loaded from valid configuration in varying layout, gets a sequence of edits in any of its bodies, reached anew or through objects kept from earlier steps; after each the tokens of the output are compared with those before it, changed as the edit says, and the structure read back with the parsed output; " +
			"distinct = (kinds of edits in order, place)",
		Assumptions: []string{
			"line breaks may be added next to what is added and after the opening brace of its block",
			"clearing a body may leave comments and line breaks",
			"names of new items are identifiers, renaming uses new names, labels are in normal form C",
		},
		Quick:    60000,
		Thorough: 500000,
		Require: []string{"set existing to value", "set existing to reference", "set new to value", "set new to reference", "block appended", "filled block appended", "line break appended", "comment appended",
			"body cleared", "reference renamed", "renaming without match", "edit in one-line block", "edit through kept object", "read back"},
		Run: runP14,
	})
}

// ntok is a token in normal form with its place.
type ntok struct {
	tk
	ofs int
}

// normToks brings tokens to a form that doesn't depend on how literals and
// line comments are divided.
func normToks(ts []ntok) []ntok {
	var out []ntok
	for _, t := range ts {
		switch {
		case t.Type == hclsyntax.TokenComment && strings.HasSuffix(t.Bytes, "\n"):
			out = append(out, ntok{tk{t.Type, strings.TrimSuffix(t.Bytes, "\n")}, t.ofs}, ntok{tk{hclsyntax.TokenNewline, "\n"}, t.ofs + len(t.Bytes) - 1})
		case t.Type == hclsyntax.TokenQuotedLit && len(out) > 0 && out[len(out)-1].Type == hclsyntax.TokenQuotedLit:
			out[len(out)-1].Bytes += t.Bytes
		case t.Type == hclsyntax.TokenNumberLit && strings.HasPrefix(t.Bytes, "-"):
			out = append(out, ntok{tk{hclsyntax.TokenMinus, "-"}, t.ofs}, ntok{tk{t.Type, t.Bytes[1:]}, t.ofs + 1})
		default:
			out = append(out, t)
		}
	}
	return out
}

func normNative(native hclsyntax.Tokens) []ntok {
	var ts []ntok
	for _, t := range native {
		ts = append(ts, ntok{tk{t.Type, string(t.Bytes)}, t.Range.Start.Byte})
	}
	return normToks(ts)
}

func normed(ts []tk) []tk {
	var in []ntok
	for _, t := range ts {
		in = append(in, ntok{t, 0})
	}
	return plainToks(normToks(in))
}

func plainToks(ts []ntok) []tk {
	var out []tk
	for _, t := range ts {
		out = append(out, t.tk)
	}
	return out
}

// place is a body of the file.
type place struct {
	path  []int
	body  *hclsyntax.Body
	block *hclsyntax.Block // nil for the root
}

func places(b *hclsyntax.Body, bl *hclsyntax.Block, path []int, out []place) []place {
	out = append(out, place{append([]int(nil), path...), b, bl})
	for i, in := range b.Blocks {
		out = places(in.Body, in, append(path[:len(path):len(path)], i), out)
	}
	return out
}

func walkTo(f *hclwrite.File, path []int) *hclwrite.Body {
	b := f.Body()
	for _, i := range path {
		b = b.Blocks()[i].Body()
	}
	return b
}

// editor is the state of a file being edited.
type editor struct {
	c    *mon.Case
	g    *gen.G
	f    *hclwrite.File
	src  string
	toks []ntok
	body *hclsyntax.Body
	kept map[string]*hclwrite.Body
	log  []string
	sig  []string
	seq  int
}

func (e *editor) load() {
	e.src = string(e.f.Bytes())
	_, native := lexToks([]byte(e.src))
	e.toks = normNative(native)
	e.body = e.parse(e.src)
}

func (e *editor) parse(src string) *hclsyntax.Body {
	f, diags := hclsyntax.ParseConfig([]byte(src), "t.hcl", start)
	if diags.HasErrors() {
		e.c.Failf("output isn't valid configuration: %s\noutput: %s\nedits: %s", diagStr(diags), q(src), strings.Join(e.log, "; "))
	}
	return f.Body.(*hclsyntax.Body)
}

func (e *editor) fail(f string, args ...interface{}) {
	e.c.Failf("%s\nbefore: %s\nafter: %s\nedits: %s", fmt.Sprintf(f, args...), q(e.src), q(string(e.f.Bytes())), strings.Join(e.log, "; "))
}

func runP14(c *mon.Case) {
	env := gen.NewEnv(c.Rand)
	var source string
	var buf []byte
	e := &editor{c: c, g: &gen.G{R: c.Rand, Env: env, Hostile: 40}, kept: map[string]*hclwrite.Body{}}
	switch c.Intn(8) {
	case 0:
		e.f = hclwrite.NewEmptyFile()
	case 1:
		e.f = hclwrite.NewFile()
	default:
		size := c.Size(4, 10)
		if c.Chance(1, 60) {
			size = c.Range(16, 48)
		}
		b := gen.GenBody(e.g, gen.BodyOpts{MaxItems: size, Depth: c.Range(0, 3), ExprDepth: c.Range(0, 2), Heredocs: true})
		if c.Chance(1, 6) {
			related(c, b)
		}
		src := gen.NewW(c.Rand).Config(b)
		c.Input("source", src)
		source, buf = src, append(make([]byte, 0, len(src)+64), src...)
		e.f = loadWriter(c, buf)
	}
	checkPanic(c, "writing", e.load)
	for i, n := 0, 1+c.Size(6, 30); i < n; i++ {
		checkPanic(c, "editing", e.step)
	}
	if string(buf) != source {
		c.Failf("editing changed the source that was loaded\nfrom: %s\nto: %s\nedits: %s", q(source), q(string(buf)), strings.Join(e.log, "; "))
	}
	c.Input("edits", strings.Join(e.log, "\n"))
	c.Sig(strings.Join(e.sig, ""))
	c.Sample(strings.Join(e.log, "; "))
}

// related gives one of the attributes of a body an expression with many
// references that have some of their names in common.
func related(c *mon.Case, b *gen.Body) {
	attrs := b.Attrs()
	if len(attrs) == 0 {
		return
	}
	names := []string{"a", "b", "cc"}
	x := &gen.Expr{Kind: gen.KTuple}
	for i, n := 0, c.Range(2, 8); i < n; i++ {
		ref := gen.Var(names[c.Intn(3)])
		for c.Chance(2, 3) {
			if c.Chance(1, 8) {
				ref = &gen.Expr{Kind: gen.KIndex, X: []*gen.Expr{ref, gen.Num("0")}}
			} else {
				ref = &gen.Expr{Kind: gen.KAttr, Text: names[c.Intn(3)], X: []*gen.Expr{ref}}
			}
		}
		x.X = append(x.X, ref)
	}
	attrs[c.Intn(len(attrs))].X = x
}

// at finds the token at an offset.
func (e *editor) at(ofs int) int {
	return sort.Search(len(e.toks), func(i int) bool { return e.toks[i].ofs >= ofs })
}

func (e *editor) step() {
	c := e.c
	all := places(e.body, nil, nil, nil)
	p := all[c.Intn(len(all))]
	key := fmt.Sprint(p.path)
	wb := e.kept[key]
	if wb == nil || c.Bool() {
		wb = walkTo(e.f, p.path)
	} else {
		c.Event("edit through kept object")
	}
	if c.Chance(1, 3) {
		e.kept[key] = wb
	}
	// where things are added
	open, end := -1, len(e.toks)
	one := false
	if p.block != nil {
		open, end = e.at(p.block.OpenBraceRange.Start.Byte), e.at(p.block.CloseBraceRange.Start.Byte)
		one = p.block.OpenBraceRange.Start.Line == p.block.CloseBraceRange.Start.Line
	}
	var attrs []*hclsyntax.Attribute
	for _, a := range p.body.Attributes {
		attrs = append(attrs, a)
	}
	sort.Slice(attrs, func(i, j int) bool { return attrs[i].Name < attrs[j].Name })
	note := func(kind, f string, args ...interface{}) {
		e.log = append(e.log, fmt.Sprintf("%v: ", p.path)+fmt.Sprintf(f, args...))
		pl := "r"
		if one {
			pl = "o"
			c.Event("edit in one-line block")
		} else if p.block != nil {
			pl = "b"
		}
		e.sig = append(e.sig, kind+pl)
	}
	kind := c.Intn(20)
	switch {
	case kind < 9: // set an attribute
		name := ""
		var old *hclsyntax.Attribute
		if len(attrs) > 0 && c.Bool() {
			old = attrs[c.Intn(len(attrs))]
			name = old.Name
		} else {
			name = hardName(c.Rand)
			old = p.body.Attributes[name]
		}
		var ins []tk
		var v cty.Value
		var tr hcl.Traversal
		var got *hclwrite.Attribute
		if c.Chance(2, 3) {
			v = hardValue(c.Rand, c.Intn(3))
			note("v", "%s set to %s", name, valStr(v))
			ins = normed(writerToks(hclwrite.TokensForValue(v)))
			got = wb.SetAttributeValue(name, v)
			if old != nil {
				c.Event("set existing to value")
			} else {
				c.Event("set new to value")
			}
		} else {
			tr = someRef(c)
			note("t", "%s set to reference %s", name, travStr(tr))
			ins = normed(writerToks(hclwrite.TokensForTraversal(tr)))
			got = wb.SetAttributeTraversal(name, tr)
			if old != nil {
				c.Event("set existing to reference")
			} else {
				c.Event("set new to reference")
			}
		}
		if got == nil || wb.GetAttribute(name) != got {
			e.fail("the attribute returned isn't the one in the body")
		}
		if old != nil {
			e.replaced(old, ins)
		} else {
			item := append([]tk{{hclsyntax.TokenIdent, name}, {hclsyntax.TokenEqual, "="}}, ins...)
			e.inserted(open, end, append(item, tk{hclsyntax.TokenNewline, "\n"}))
		}
		e.after()
		at := e.bodyAt(p.path).Attributes[name]
		if at == nil {
			e.c.Failf("attribute %s isn't in the output\noutput: %s\nedits: %s", name, q(e.src), strings.Join(e.log, "; "))
		}
		if tr != nil {
			if rd, diags := hcl.AbsTraversalForExpr(at.Expr); diags.HasErrors() || !sameRef(tr, rd) {
				e.c.Failf("attribute %s is %s instead of the reference set\noutput: %s\nedits: %s", name, travStr(rd), q(e.src), strings.Join(e.log, "; "))
			}
		} else if rv, diags := at.Expr.Value(nil); diags.HasErrors() || !reproduced(v, rv) {
			e.c.Failf("attribute %s is %s instead of the value set\noutput: %s\nedits: %s", name, valStr(rv), q(e.src), strings.Join(e.log, "; "))
		}
	case kind < 12: // add a block
		typ, labels := hardName(c.Rand), someLabels(c)
		item := headToks(typ, labels)
		var bl *hclwrite.Block
		if c.Chance(2, 3) {
			note("b", "append block %s %q", typ, labels)
			bl = wb.AppendNewBlock(typ, labels)
			c.Event("block appended")
		} else {
			note("B", "append filled block %s %q", typ, labels)
			bl = hclwrite.NewBlock(typ, labels)
			item = append(item, fillBlock(c, bl.Body(), 2)...)
			if got := wb.AppendBlock(bl); got != bl {
				e.fail("another block is returned")
			}
			c.Event("filled block appended")
		}
		item = append(item, tk{hclsyntax.TokenCBrace, "}"}, tk{hclsyntax.TokenNewline, "\n"})
		e.inserted(open, end, item)
		e.kept[fmt.Sprint(append(p.path[:len(p.path):len(p.path)], len(p.body.Blocks)))] = bl.Body()
		e.after()
	case kind < 13:
		note("n", "append line break")
		wb.AppendNewline()
		e.inserted(open, end, []tk{{hclsyntax.TokenNewline, "\n"}})
		c.Event("line break appended")
		e.after()
	case kind < 14:
		// only where a line begins
		k := end - 1
		for k > open && e.toks[k].Type == hclsyntax.TokenComment && strings.HasPrefix(e.toks[k].Bytes, "/*") {
			k--
		}
		if k > open && e.toks[k].Type != hclsyntax.TokenNewline || k == open && open >= 0 {
			return
		}
		e.seq++
		text := fmt.Sprintf("# note %d\n", e.seq)
		note("c", "append comment %q", text)
		wb.AppendUnstructuredTokens(hclwrite.Tokens{{Type: hclsyntax.TokenComment, Bytes: []byte(text)}})
		e.inserted(open, end, normed([]tk{{hclsyntax.TokenComment, text}}))
		c.Event("comment appended")
		e.after()
	case kind < 15:
		if !c.Chance(1, 3) {
			return
		}
		note("x", "clear")
		for k := range e.kept {
			if strings.HasPrefix(k, strings.TrimSuffix(key, "]")) && k != key {
				delete(e.kept, k)
			}
		}
		wb.Clear()
		e.cleared(open, end)
		c.Event("body cleared")
		e.after()
		if b := e.bodyAt(p.path); len(b.Attributes)+len(b.Blocks) > 0 || len(wb.Attributes())+len(wb.Blocks()) > 0 {
			e.c.Failf("cleared body isn't empty\noutput: %s\nedits: %s", q(e.src), strings.Join(e.log, "; "))
		}
	default:
		if len(attrs) == 0 {
			return
		}
		a := attrs[c.Intn(len(attrs))]
		e.rename(wb, a, note)
		e.after()
	}
}

// bodyAt finds a body in the parsed output.
func (e *editor) bodyAt(path []int) *hclsyntax.Body {
	b := e.body
	for _, i := range path {
		if i >= len(b.Blocks) {
			e.c.Failf("block %v isn't in the output\noutput: %s\nedits: %s", path, q(e.src), strings.Join(e.log, "; "))
		}
		b = b.Blocks[i].Body
	}
	return b
}

// output gives the tokens after an edit.
func (e *editor) output() []tk {
	out, _ := lexToks(e.f.Bytes())
	return normed(out)
}

func (e *editor) expect(want [][]tk) {
	got := e.output()
	for _, w := range want {
		if sameToks(got, w) {
			return
		}
	}
	e.fail("output differs from the expected text %s", diffToks(got, want[0]))
}

func cat(parts ...[]tk) []tk {
	var out []tk
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

// inserted checks that something was added at the end of a body.
func (e *editor) inserted(open, end int, item []tk) {
	nl := []tk{{hclsyntax.TokenNewline, "\n"}}
	pre, mid, post := plainToks(e.toks[:open+1]), plainToks(e.toks[open+1:end]), plainToks(e.toks[end:])
	want := [][]tk{cat(pre, mid, item, post), cat(pre, mid, nl, item, post)}
	if open >= 0 {
		want = append(want, cat(pre, nl, mid, item, post), cat(pre, nl, mid, nl, item, post))
	}
	e.expect(want)
}

// replaced checks that the expression of an attribute was exchanged.
func (e *editor) replaced(a *hclsyntax.Attribute, ins []tk) {
	from, to := e.at(a.EqualsRange.End.Byte), e.at(a.SrcRange.End.Byte)
	pre, post := plainToks(e.toks[:from]), plainToks(e.toks[to:])
	// comments right before and after the expression aren't part of it
	var lead, tail []tk
	for i := from; i < to && e.toks[i].Type == hclsyntax.TokenComment; i++ {
		lead = append(lead, e.toks[i].tk)
	}
	for i := to - 1; i > from && e.toks[i].Type == hclsyntax.TokenComment; i-- {
		tail = append([]tk{e.toks[i].tk}, tail...)
	}
	e.expect([][]tk{cat(pre, lead, ins, tail, post)})
}

// cleared checks that a body was emptied.
func (e *editor) cleared(open, end int) {
	got := e.output()
	pre, post := plainToks(e.toks[:open+1]), plainToks(e.toks[end:])
	if len(got) < len(pre)+len(post) || !sameToks(got[:len(pre)], pre) || !sameToks(got[len(got)-len(post):], post) {
		e.fail("clearing changed text outside of the body")
	}
	left := map[tk]int{}
	for _, t := range e.toks[open+1 : end] {
		left[t.tk]++
	}
	for _, t := range got[len(pre) : len(got)-len(post)] {
		if t.Type != hclsyntax.TokenComment && t.Type != hclsyntax.TokenNewline {
			e.fail("clearing left %s", t)
		}
		left[t]--
		if left[t] < 0 {
			e.fail("clearing added %s", t)
		}
	}
}

// after reads the edited structure back and takes it as the new start.
func (e *editor) after() {
	e.load()
	_, native := lexToks([]byte(e.src))
	compareWriter(e.c, e.src, e.f.Body(), e.body, native)
	for k, b := range e.kept {
		var path []int
		for _, s := range strings.Fields(strings.Trim(k, "[]")) {
			n := 0
			fmt.Sscan(s, &n)
			path = append(path, n)
		}
		if walkTo(e.f, path) != b {
			e.c.Failf("the body at %s became another object\nedits: %s", k, strings.Join(e.log, "; "))
		}
	}
	e.c.Event("read back")
}

// rename renames references in an attribute.
func (e *editor) rename(wb *hclwrite.Body, a *hclsyntax.Attribute, note func(kind, f string, args ...interface{})) {
	c := e.c
	vars := a.Expr.Variables()
	prefix := func(tr hcl.Traversal) []string {
		var out []string
		for _, s := range tr {
			switch s := s.(type) {
			case hcl.TraverseRoot:
				out = append(out, s.Name)
			case hcl.TraverseAttr:
				out = append(out, s.Name)
			default:
				return out
			}
		}
		return out
	}
	search := []string{gen.Word(c.Rand)}
	if len(vars) > 0 && c.Chance(4, 5) {
		p := prefix(vars[c.Intn(len(vars))])
		search = append([]string(nil), p[:c.Range(1, len(p))]...)
		if c.Chance(1, 6) {
			search[c.Intn(len(search))] += "x"
		} else if c.Chance(1, 6) {
			search = append(search, gen.Word(c.Rand))
		}
	}
	repl := make([]string, len(search))
	for i := range repl {
		e.seq++
		repl[i] = fmt.Sprintf("new%d", e.seq)
		if c.Chance(1, 4) {
			repl[i] = search[i]
		}
	}
	note("r", "rename %q to %q in %s", search, repl, a.Name)
	want := plainToks(e.toks)
	matched := false
	for _, tr := range vars {
		p := prefix(tr)
		if len(p) < len(search) || strings.Join(p[:len(search)], ".") != strings.Join(search, ".") {
			continue
		}
		matched = true
		for i := range search {
			// the name is the last token of its step
			rng := tr[i].SourceRange()
			k := e.at(rng.End.Byte) - 1
			if want[k].Type != hclsyntax.TokenIdent || want[k].Bytes != search[i] {
				e.fail("range of step %d of a reference isn't the name", i)
			}
			want[k].Bytes = repl[i]
		}
	}
	wb.GetAttribute(a.Name).Expr().RenameVariablePrefix(search, repl)
	e.expect([][]tk{want})
	if matched {
		c.Event("reference renamed")
	} else {
		c.Event("renaming without match")
	}
}

// compareWriter compares what can be read from a body with its parsed text.
func compareWriter(c *mon.Case, src string, wb *hclwrite.Body, nb *hclsyntax.Body, native hclsyntax.Tokens) {
	attrs := wb.Attributes()
	if len(attrs) != len(nb.Attributes) {
		c.Failf("%d attributes exposed, %d written\noutput: %s", len(attrs), len(nb.Attributes), q(src))
	}
	span := func(a, b hcl.Pos) []tk { return trimToks(normed(within(native, [2]int{a.Byte, b.Byte}))) }
	has := func(what string, toks hclwrite.Tokens, want []tk) {
		if got := trimToks(normed(writerToks(toks))); !sameToks(got, want) {
			c.Failf("%s differs from its text %s\noutput: %s", what, diffToks(got, want), q(src))
		}
	}
	for name, at := range nb.Attributes {
		a := attrs[name]
		if a == nil || wb.GetAttribute(name) != a {
			c.Failf("attribute %s isn't exposed\noutput: %s", name, q(src))
		}
		has("attribute "+name, a.BuildTokens(nil), span(at.SrcRange.Start, at.SrcRange.End))
		has("expression of attribute "+name, a.Expr().BuildTokens(nil), span(at.EqualsRange.End, at.SrcRange.End))
		refs := at.Expr.Variables()
		sort.SliceStable(refs, func(i, j int) bool { return refs[i].SourceRange().Start.Byte < refs[j].SourceRange().Start.Byte })
		vars := a.Expr().Variables()
		if len(vars) != len(refs) {
			c.Failf("attribute %s has %d references, %d exposed\noutput: %s", name, len(refs), len(vars), q(src))
		}
		for i, v := range vars {
			rng := refs[i].SourceRange()
			has(fmt.Sprintf("reference %d of attribute %s", i, name), v.BuildTokens(nil), span(rng.Start, rng.End))
		}
	}
	blocks := wb.Blocks()
	if len(blocks) != len(nb.Blocks) {
		c.Failf("%d blocks exposed, %d written\noutput: %s", len(blocks), len(nb.Blocks), q(src))
	}
	for i, bl := range nb.Blocks {
		has("block "+bl.Type, blocks[i].BuildTokens(nil), span(bl.TypeRange.Start, bl.CloseBraceRange.End))
		has("body of block "+bl.Type, blocks[i].Body().BuildTokens(nil), span(bl.OpenBraceRange.End, bl.CloseBraceRange.Start))
		compareWriter(c, src, blocks[i].Body(), bl.Body, native)
	}
}

// someRef makes a reference.
func someRef(c *mon.Case) hcl.Traversal {
	root := hardName(c.Rand)
	for root == "null" || root == "true" || root == "false" {
		root = hardName(c.Rand)
	}
	tr := hcl.Traversal{hcl.TraverseRoot{Name: root}}
	for i, n := 0, c.Intn(5); i < n; i++ {
		switch c.Intn(3) {
		case 0:
			tr = append(tr, hcl.TraverseIndex{Key: cty.StringVal(hardKey(c.Rand))})
		case 1:
			tr = append(tr, hcl.TraverseIndex{Key: cty.NumberIntVal(int64(c.Size(20, 1<<30)))})
		default:
			tr = append(tr, hcl.TraverseAttr{Name: hardName(c.Rand)})
		}
	}
	return tr
}

func someLabels(c *mon.Case) []string {
	var out []string
	for i, n := 0, c.Intn(4); i < n; i++ {
		out = append(out, cty.StringVal(hardKey(c.Rand)).AsString())
	}
	return out
}

// headToks is the beginning of a block.
func headToks(typ string, labels []string) []tk {
	out := []tk{{hclsyntax.TokenIdent, typ}}
	for _, l := range labels {
		out = append(out, normed(writerToks(hclwrite.TokensForValue(cty.StringVal(l))))...)
	}
	return append(out, tk{hclsyntax.TokenOBrace, "{"}, tk{hclsyntax.TokenNewline, "\n"})
}

// fillBlock fills the body of a new block and returns its text.
func fillBlock(c *mon.Case, b *hclwrite.Body, depth int) []tk {
	var out []tk
	used := map[string]bool{}
	for i, n := 0, c.Intn(4); i < n; i++ {
		switch c.Intn(4) {
		case 0:
			b.AppendNewline()
			out = append(out, tk{hclsyntax.TokenNewline, "\n"})
		case 1:
			if depth > 0 {
				typ, labels := hardName(c.Rand), someLabels(c)
				in := b.AppendNewBlock(typ, labels)
				out = append(out, headToks(typ, labels)...)
				out = append(out, fillBlock(c, in.Body(), depth-1)...)
				out = append(out, tk{hclsyntax.TokenCBrace, "}"}, tk{hclsyntax.TokenNewline, "\n"})
			}
		default:
			name := hardName(c.Rand)
			if used[name] {
				continue
			}
			used[name] = true
			v := hardValue(c.Rand, 1)
			b.SetAttributeValue(name, v)
			out = append(out, tk{hclsyntax.TokenIdent, name}, tk{hclsyntax.TokenEqual, "="})
			out = append(out, normed(writerToks(hclwrite.TokensForValue(v)))...)
			out = append(out, tk{hclsyntax.TokenNewline, "\n"})
		}
	}
	return out
}
