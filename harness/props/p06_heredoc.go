package props

import (
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/zclconf/go-cty/cty"

	"verif/harness/mon"
)

// heredocText writes a heredoc whose lines look much like its end, and what
// it means with the variable v being "V".
func heredocText(c *mon.Case, depth int, outer []string) (src, val string) {
	marker := c.Pick("END", "EOT", "A", "end", "x1", "E_", "Ünï")
	for _, m := range outer {
		if strings.EqualFold(m, marker) {
			marker = "Q" + marker
		}
	}
	markers := append([]string{marker}, outer...)
	eol := c.Pick("\n", "\n", "\n", "\r\n")
	var b, v strings.Builder
	b.WriteString("<<" + marker + eol)
	put := func(s, m string) {
		b.WriteString(s)
		v.WriteString(m)
	}
	for i := c.Range(0, 4); i > 0; i-- {
		m := c.Pick(markers...)
		pre := c.Pick("", "", " ", "\t")
		put(pre, pre)
		switch c.Intn(17) {
		case 0, 1:
			s := c.Pick("$", "%", "x$", "x%", "$ ", "x ", "$$", "%%", "-", "\"", "\\")
			put(s+m, s+m)
		case 2, 3:
			s := c.Pick("", " ")
			put("${v}"+s+m, "V"+s+m)
		case 4:
			put("${\"\"}"+m, m)
		case 5:
			put("%{if true}"+m+"%{endif}", m)
		case 6:
			put("%{if false}"+m+"%{endif}"+m, m)
		case 7:
			put("%{for x in [1, 2]}"+m+"%{endfor}", m+m)
		case 8:
			s := c.Pick("x", "2", "$", " x", ",", ")", "_")
			put(m+s, m+s)
		case 9:
			put(m+"${v}", m+"V")
		case 10:
			put("$${"+m+"}", "${"+m+"}")
		case 11:
			if s := strings.ToUpper(m); s != m {
				put(s, s)
			} else {
				put(strings.ToLower(m)+"q", strings.ToLower(m)+"q")
			}
		case 12:
			put("${{"+"a = \""+m+"\"}.a}", m)
		case 13:
			put("\"${\"${v}"+m+"\"}"+m, "\"V"+m+m)
		case 14:
			if depth > 0 {
				s, sv := heredocText(c, depth-1, markers)
				put("${"+s+eol+"}"+m, sv+m)
				c.Event("heredoc inside a heredoc")
			}
		default:
			if m != marker {
				put(m, m)
			}
		}
		put(eol, eol)
	}
	b.WriteString(c.Pick("", "", " ", "   ", "\t", "\t ") + marker)
	return b.String(), v.String()
}

func runHeredoc(c *mon.Case) {
	src, want := heredocText(c, 1, nil)
	src = "a = " + src + "\nb = 1\n"
	c.Input("source", src)
	var f *hcl.File
	var diags hcl.Diagnostics
	checkPanic(c, "parsing", func() { f, diags = hclsyntax.ParseConfig([]byte(src), "t.hcl", start) })
	if diags.HasErrors() {
		c.Failf("valid heredoc rejected: %s\nsource: %s", diagStr(diags), q(src))
	}
	attrs, _ := f.Body.JustAttributes()
	if len(attrs) != 2 || attrs["a"] == nil || attrs["b"] == nil {
		c.Failf("heredoc and the attribute after it give %q\nsource: %s", sortedAttrs(attrs), q(src))
	}
	v, diags := attrs["a"].Expr.Value(&hcl.EvalContext{Variables: map[string]cty.Value{"v": cty.StringVal("V")}})
	if diags.HasErrors() || v.Type() != cty.String || v.IsNull() || !v.IsKnown() || v.AsString() != cty.StringVal(want).AsString() {
		c.Failf("heredoc gives %#v %s, should be %q\nsource: %s", v, diagStr(diags), want, q(src))
	}
	c.Event("lines like the end of the heredoc")
	c.Sig("heredoc", src)
}
