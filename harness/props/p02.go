package props

import (
	"bytes"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/apparentlymart/go-textseg/textseg"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
)

func init() {
	register(&mon.Prop{
		ID: "P02",
		Rule: "native source (valid configuration in varying layout, damaged, fragment soup, random bytes, very long and very deep) scanned as configuration, " +
			"expression and template from random starting positions; every token checked against the source and against independently counted positions; " +
			"distinct = source text with mode for sources of at least three tokens",
		Assumptions: []string{
			"columns count grapheme clusters as segmented by the textseg library within each token, as the scanner sees only whole tokens",
		},
		Quick:    60000,
		Thorough: 200000,
		Require:  []string{"token checked", "multi-byte token", "heredoc token", "invalid token"},
		Run:      runP02,
	})
}

func runP02(c *mon.Case) {
	g := &gen.G{R: c.Rand, Env: gen.NewEnv(c.Rand), Hostile: 30}
	for i := 0; i < 3; i++ {
		src, _ := gen.Native(g)
		if c.Chance(1, 6) {
			w := gen.NewW(c.Rand)
			src = w.Template(g.Parts(3, false))
		}
		st := start
		if c.Chance(1, 3) {
			st = hcl.Pos{Byte: c.Intn(1000), Line: c.Range(1, 50), Column: c.Range(1, 80)}
		}
		c.Input("source", src)
		for mode := 0; mode < 3; mode++ {
			tokensTile(c, []byte(src), mode, st)
		}
	}
}

var lexers = []struct {
	name string
	lex  func([]byte, string, hcl.Pos) (hclsyntax.Tokens, hcl.Diagnostics)
}{
	{"config", hclsyntax.LexConfig},
	{"expression", hclsyntax.LexExpression},
	{"template", hclsyntax.LexTemplate},
}

func tokensTile(c *mon.Case, src []byte, mode int, st hcl.Pos) {
	name := lexers[mode].name
	var toks hclsyntax.Tokens
	var diags hcl.Diagnostics
	orig := append([]byte(nil), src...)
	toks, diags = lexers[mode].lex(src, "t.hcl", st)
	if !bytes.Equal(orig, src) {
		c.Failf("scanning as %s changed the source", name)
	}
	_ = diags
	if len(toks) == 0 {
		c.Failf("scanning as %s gave no tokens", name)
	}
	pos := st // where we should be
	ofs := 0
	// Alternative column, counted over the whole line regardless of tokens
	global := newPosMap(src, st)
	for i, tok := range toks {
		r := tok.Range
		if r.Filename != "t.hcl" {
			c.Failf("%s token %d has filename %q", name, i, r.Filename)
		}
		s, e := r.Start.Byte-st.Byte, r.End.Byte-st.Byte
		if s < ofs {
			c.Failf("%s token %d %q begins at %d, before the end %d of the previous one", name, i, tok.Bytes, s, ofs)
		}
		if e < s || e > len(src) {
			c.Failf("%s token %d %q has extent %d-%d in source of %d bytes", name, i, tok.Bytes, s, e, len(src))
		}
		gap := src[ofs:s]
		if ofs == 0 && bytes.HasPrefix(gap, []byte("\ufeff")) {
			gap = gap[3:]
			// The mark may or may not count as a column.
			if r.Start.Line == pos.Line && (r.Start.Column == pos.Column+1+len(gap) || r.Start.Column == pos.Column+3+len(gap)) {
				pos.Column = r.Start.Column - len(gap)
			}
		}
		for _, b := range gap {
			if b != ' ' && b != '\t' {
				c.Failf("%s: source text %q between tokens %d and %d is in no token", name, gap, i-1, i)
			}
			pos.Column++
		}
		pos.Byte = r.Start.Byte
		if !bytes.Equal(tok.Bytes, src[s:e]) {
			c.Failf("%s token %d has bytes %q but its range covers %q", name, i, tok.Bytes, src[s:e])
		}
		if r.Start != pos && r.Start != global.at(s) {
			c.Failf("%s token %d %q starts at %+v, should be %+v", name, i, clip(string(tok.Bytes), 200), r.Start, pos)
		}
		b := tok.Bytes
		for len(b) > 0 {
			n, seq, err := textseg.ScanGraphemeClusters(b, true)
			if err != nil || n <= 0 {
				n, seq = 1, b[:1]
			}
			if len(seq) == 1 && seq[0] == '\n' || len(seq) == 2 && seq[0] == '\r' && seq[1] == '\n' {
				pos.Line++
				pos.Column = 1
			} else {
				pos.Column++
			}
			b = b[n:]
		}
		pos.Byte = r.End.Byte
		if r.End != pos && r.End != global.at(e) {
			c.Failf("%s token %d %q ends at %+v, should be %+v", name, i, clip(string(tok.Bytes), 200), r.End, pos)
		}
		ofs = e
		last := i == len(toks)-1
		if (tok.Type == hclsyntax.TokenEOF) != last {
			c.Failf("%s: end marker is token %d of %d", name, i, len(toks))
		}
		if !last && s == e && tok.Type != hclsyntax.TokenCHeredoc {
			c.Failf("%s: token %d of type %s is empty", name, i, tok.Type)
		}
		if last && (s != e || e != len(src)) {
			c.Failf("%s: end marker at %d-%d but source has %d bytes", name, s, e, len(src))
		}
		c.Event("token checked")
		switch tok.Type {
		case hclsyntax.TokenOHeredoc, hclsyntax.TokenCHeredoc:
			c.Event("heredoc token")
		case hclsyntax.TokenInvalid, hclsyntax.TokenBadUTF8:
			c.Event("invalid token")
		}
		if len(tok.Bytes) > 0 && tok.Bytes[len(tok.Bytes)-1] >= 0x80 {
			c.Event("multi-byte token")
		}
	}
	if len(toks) > 3 {
		c.Sig(name, src)
		if len(toks) < 30 {
			c.Sample(clip(string(src), 200))
		}
	}
}
