package props

import (
	"bytes"
	"errors"
	"sort"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
)

func init() {
	register(&mon.Prop{
		ID: "P13",
		Rule: "valid configuration in varying layout with comments anywhere, loaded for editing and written out again; tokens are compared one by one with those of the source, and the exposed structure with the spans of the items in the generator; " +
			"distinct = (configuration shape, token classes)",
		Assumptions: []string{"a byte order mark at the start counts as space"},
		Quick:       150000,
		Thorough:    600000,
		Require:     []string{"written tokens equal", "written equals formatted", "attribute text exact", "expression text exact", "variable text exact", "block text exact", "comment kept", "layout reproduced"},
		Run:         runP13,
	})
}

// limitedWriter fails when it's full.
type limitedWriter struct {
	buf  bytes.Buffer
	left int
	err  error
}

func (w *limitedWriter) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n, _ := w.buf.Write(p[:w.left])
		w.left = 0
		return n, w.err
	}
	w.left -= len(p)
	return w.buf.Write(p)
}

func runP13(c *mon.Case) {
	env := gen.NewEnv(c.Rand)
	g := &gen.G{R: c.Rand, Env: env, Hostile: 40}
	b := gen.GenBody(g, gen.BodyOpts{MaxItems: c.Size(4, 12), Depth: c.Range(0, 3), ExprDepth: c.Range(0, 3), Heredocs: true})
	w := gen.NewW(c.Rand)
	src := w.Config(b)
	c.Input("source", src)
	want, native := lexToks([]byte(src))
	f := loadWriter(c, []byte(src))

	checkWriterBody(c, src, f.Body(), b, w, native, parseNative(c, src).Body.(*hclsyntax.Body))
	checkPanic(c, "writing", func() {
		out := f.Bytes()
		c.Input("written", string(out))
		got, _ := lexToks(out)
		if !sameToks(got, want) {
			c.Failf("tokens written differ from the source %s\nsource: %s\nwritten: %s", diffToks(got, want), q(src), q(string(out)))
		}
		c.Event("written tokens equal")
		for _, t := range want {
			if t.Type == hclsyntax.TokenComment {
				c.Event("comment kept")
			}
		}
		if fm := hclwrite.Format([]byte(src)); !bytes.Equal(out, fm) {
			c.Failf("written: %s\nformatted: %s\nsource: %s", q(string(out)), q(string(fm)), q(src))
		}
		c.Event("written equals formatted")
		checkSpacing(c, src, f, native)
		var buf bytes.Buffer
		n, err := f.WriteTo(&buf)
		if err != nil || !bytes.Equal(buf.Bytes(), out) || n != int64(len(out)) {
			c.Failf("writing to a stream: %d bytes, error %v, content %s\nexpected %s", n, err, q(buf.String()), q(string(out)))
		}
		if len(out) == 0 {
			return
		}
		lw := &limitedWriter{left: c.Intn(len(out)), err: errors.New("no room")}
		room := lw.left
		n, err = f.WriteTo(lw)
		if err == nil || n != int64(lw.buf.Len()) || n > int64(room) || !bytes.HasPrefix(out, lw.buf.Bytes()) {
			c.Failf("writing to a stream with room for %d of %d bytes: %d bytes, error %v, content %s\nexpected the start of %s", room, len(out), n, err, q(lw.buf.String()), q(string(out)))
		}
		c.Event("failed write reported")
	})
	var classes []string
	last := ""
	for _, t := range want {
		if s := string(rune(t.Type)); s != last && len(classes) < 40 {
			classes = append(classes, s)
			last = s
		}
	}
	c.Sig(b.Shape(), strings.Join(classes, ""))
	c.Sample(clip(src, 200))
}

// checkSpacing compares the layout of the loaded tokens with that of the source,
// where a tab counts as a space.
func checkSpacing(c *mon.Case, src string, f *hclwrite.File, native hclsyntax.Tokens) {
	if strings.HasPrefix(src, "\ufeff") {
		return
	}
	var want []byte
	last := 0
	for _, t := range native {
		want = append(want, bytes.Repeat([]byte{' '}, t.Range.Start.Byte-last)...)
		want = append(want, t.Bytes...)
		last = t.Range.End.Byte
	}
	toks := f.BuildTokens(nil)
	got := toks.Bytes()
	if !bytes.Equal(bytes.TrimRight(got, " \t"), bytes.TrimRight(want, " \t")) {
		c.Failf("layout of the loaded tokens differs from the source\nloaded: %s\nsource: %s", q(string(got)), q(src))
	}
	var buf bytes.Buffer
	if n, err := toks.WriteTo(&buf); err != nil || n != int64(len(got)) || !bytes.Equal(buf.Bytes(), got) {
		c.Failf("writing tokens to a stream: %d bytes, error %v, content %s\nexpected %s", n, err, q(buf.String()), q(string(got)))
	}
	c.Event("layout reproduced")
}

// checkWriterBody compares a body of the writer with the model.
func checkWriterBody(c *mon.Case, src string, wb *hclwrite.Body, b *gen.Body, w *gen.W, native hclsyntax.Tokens, nb *hclsyntax.Body) {
	attrs := wb.Attributes()
	if len(attrs) != len(b.Attrs()) {
		c.Failf("%d attributes exposed, %d written\nsource: %s", len(attrs), len(b.Attrs()), q(src))
	}
	for _, it := range b.Attrs() {
		a := attrs[it.Name]
		if a == nil || wb.GetAttribute(it.Name) != a {
			c.Failf("attribute %s isn't exposed\nsource: %s", it.Name, q(src))
		}
		sp := w.Items[it]
		got, want := trimToks(writerToks(a.BuildTokens(nil))), trimToks(within(native, sp.Whole))
		if !sameToks(got, want) {
			c.Failf("attribute %s differs from its text %s\nsource: %s", it.Name, diffToks(got, want), q(src))
		}
		c.Event("attribute text exact")
		got, want = writerToks(a.Expr().BuildTokens(nil)), within(native, sp.Expr)
		if !sameToks(trimToks(got), trimToks(want)) {
			c.Failf("expression of attribute %s differs from its text %s\nsource: %s", it.Name, diffToks(got, want), q(src))
		}
		c.Event("expression text exact")

		// variables in order of their position
		refs := nb.Attributes[it.Name].Expr.Variables()
		sort.SliceStable(refs, func(i, j int) bool { return refs[i].SourceRange().Start.Byte < refs[j].SourceRange().Start.Byte })
		vars := a.Expr().Variables()
		if len(vars) != len(refs) {
			c.Failf("attribute %s has %d references, %d exposed\nsource: %s", it.Name, len(refs), len(vars), q(src))
		}
		for i, v := range vars {
			rng := refs[i].SourceRange()
			got, want := trimToks(writerToks(v.BuildTokens(nil))), trimToks(within(native, [2]int{rng.Start.Byte, rng.End.Byte}))
			if !sameToks(got, want) {
				c.Failf("reference %d of attribute %s differs from its text %s\nsource: %s", i, it.Name, diffToks(got, want), q(src))
			}
			c.Event("variable text exact")
		}
	}
	if wb.GetAttribute("no_such_attribute") != nil {
		c.Failf("an attribute that isn't there is exposed\nsource: %s", q(src))
	}
	blocks := wb.Blocks()
	if len(blocks) != len(b.Blocks()) {
		c.Failf("%d blocks exposed, %d written\nsource: %s", len(blocks), len(b.Blocks()), q(src))
	}
	for i, it := range b.Blocks() {
		sp := w.Items[it]
		got, want := trimToks(writerToks(blocks[i].BuildTokens(nil))), trimToks(within(native, sp.Whole))
		if !sameToks(got, want) {
			c.Failf("block %s %d differs from its text %s\nsource: %s", it.Name, i, diffToks(got, want), q(src))
		}
		got, want = trimToks(writerToks(blocks[i].Body().BuildTokens(nil))), trimToks(within(native, [2]int{sp.Open[1], sp.Close[0]}))
		if !sameToks(got, want) {
			c.Failf("body of block %s %d differs from its text %s\nsource: %s", it.Name, i, diffToks(got, want), q(src))
		}
		c.Event("block text exact")
		checkWriterBody(c, src, blocks[i].Body(), it.Body, w, native, nb.Blocks[i].Body)
	}
}
