package props

import (
	"fmt"
	"strings"

	"verif/harness/mon"

	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
)

// tk is a token without its position.
type tk struct {
	Type  hclsyntax.TokenType
	Bytes string
}

func (t tk) String() string { return fmt.Sprintf("%s %q", t.Type, t.Bytes) }

// lexToks scans source, without the end marker and a leading byte order mark.
func lexToks(src []byte) ([]tk, hclsyntax.Tokens) {
	native, _ := hclsyntax.LexConfig(src, "t.hcl", start)
	var out []tk
	var keep hclsyntax.Tokens
	for _, t := range native {
		if t.Type == hclsyntax.TokenEOF {
			continue
		}
		out = append(out, tk{t.Type, string(t.Bytes)})
		keep = append(keep, t)
	}
	return out, keep
}

// writerToks converts tokens of the writer.
func writerToks(ts hclwrite.Tokens) []tk {
	var out []tk
	for _, t := range ts {
		if t.Type == hclsyntax.TokenEOF {
			continue
		}
		out = append(out, tk{t.Type, string(t.Bytes)})
	}
	return out
}

// within selects the tokens inside a span of bytes.
func within(native hclsyntax.Tokens, span [2]int) []tk {
	var out []tk
	for _, t := range native {
		if t.Range.Start.Byte >= span[0] && t.Range.End.Byte <= span[1] && t.Range.Start.Byte < span[1] {
			out = append(out, tk{t.Type, string(t.Bytes)})
		}
	}
	return out
}

// trimToks removes comments and line breaks from both ends.
func trimToks(ts []tk) []tk {
	blank := func(t tk) bool { return t.Type == hclsyntax.TokenNewline || t.Type == hclsyntax.TokenComment }
	for len(ts) > 0 && blank(ts[0]) {
		ts = ts[1:]
	}
	for len(ts) > 0 && blank(ts[len(ts)-1]) {
		ts = ts[:len(ts)-1]
	}
	return ts
}

func sameToks(a, b []tk) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// diffToks describes where two sequences begin to differ.
func diffToks(a, b []tk) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	at := func(ts []tk) string {
		var out []string
		for k := i - 1; k < i+3; k++ {
			if k >= 0 && k < len(ts) {
				out = append(out, ts[k].String())
			}
		}
		return strings.Join(out, ", ")
	}
	return fmt.Sprintf("at token %d of %d and %d: %s  and  %s", i, len(a), len(b), at(a), at(b))
}

// loadWriter loads valid configuration for editing.
func loadWriter(c *mon.Case, src []byte) *hclwrite.File {
	var f *hclwrite.File
	checkPanic(c, "loading for editing", func() {
		file, diags := hclwrite.ParseConfig(src, "t.hcl", start)
		if diags.HasErrors() {
			c.Failf("well-formed configuration rejected: %s\nsource: %s", diagStr(diags), q(string(src)))
		}
		f = file
	})
	return f
}
