package props

import (
	"bytes"
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strings"
	"unicode/utf8"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hcled"
	"github.com/zclconf/go-cty/cty"
)

func init() {
	register(&mon.Prop{
		ID: "P28",
		Rule: "collections of diagnostics, made up and from real failures, over native, JSON and arbitrary files, with subjects and contexts at any characters, written at several widths with and without color; " +
			"the written text is read back piece by piece: severity, summary, place, the covered source lines with what is highlighted in them, the values of variables, the words of the detail; distinct = (kinds of the diagnostics)",
		Assumptions: []string{
			"a line consists of its text and its line ending; the text of covered lines is shown",
			"what is highlighted for an empty subject is not judged, nor is the exact description of structures",
			"source text is valid UTF-8 without escape characters",
		},
		Quick:    150000,
		Thorough: 1500000,
		Require:  []string{"written", "several lines", "blank line", "highlighted", "color", "wrapped", "no source", "no subject", "values", "warning", "context", "context does not contain the subject", "empty subject", "errors present", "no errors"},
		Run:      runP28,
	})
}

func wordsText(c *mon.Case) string {
	var b strings.Builder
	for n := c.Size(8, 80); n > 0; n-- {
		b.WriteString(c.Pick("a", "word", "longer-word", "é", "日本", "\"quoted\"", "x=1", "extraordinarilylongwordthatgoesonandon", "end."))
		switch c.Intn(12) {
		case 0:
			b.WriteString("\n")
		case 1:
			b.WriteString("\n\n")
		case 2:
			b.WriteString("  ")
		default:
			b.WriteString(" ")
		}
	}
	return strings.TrimSpace(b.String())
}

// diagFile makes a file to point into.
func diagFile(c *mon.Case, name string, g *gen.G) *hcl.File {
	src := ""
	switch c.Intn(5) {
	case 0, 1:
		src = gen.ValidConfig(g)
	case 2:
		src = gen.JSONText(c.Rand, gen.JSONDoc(c.Rand, 3))
		f, _ := json.Parse([]byte(src), name)
		c.Input(name, src)
		if strings.ContainsAny(src, "\x1b") {
			c.Skip("escape characters in the source")
		}
		return f
	case 3:
		for n := c.Size(10, 60); n > 0; n-- {
			src += c.Pick("a = 1", "b {", "}", "\n", "\n", "\r\n", "  ", "\t", "é", "日本語", "👨‍👩‍👧", "# comment", "\n\n\n")
		}
	case 4:
		src = gen.Soup(c.Rand)
	}
	if !utf8.ValidString(src) || strings.Contains(src, "\x1b") {
		src = strings.Map(func(r rune) rune {
			if r == 0x1b || r == utf8.RuneError {
				return '?'
			}
			return r
		}, src)
	}
	src = strings.TrimRight(src, "\r")
	c.Input(name, src)
	if c.Chance(1, 5) {
		return &hcl.File{Bytes: []byte(src)}
	}
	f, _ := hclsyntax.ParseConfig([]byte(src), name, start)
	return f
}

func runP28(c *mon.Case) {
	env := gen.NewEnv(c.Rand)
	ctx := evalCtx(env)
	g := &gen.G{R: c.Rand, Env: env, Hostile: 200}
	files := map[string]*hcl.File{}
	names := []string{"a.hcl", "b.hcl"}
	for _, n := range names[:c.Range(1, 2)] {
		files[n] = diagFile(c, n, g)
	}
	var diags hcl.Diagnostics
	var kinds []string
	for n := c.Range(0, 4); n > 0; n-- {
		d := &hcl.Diagnostic{Severity: hcl.DiagError, Summary: c.Pick("Broken", "Something is wrong", "A: b; c", "Ünïcode")}
		kind := "e"
		if c.Chance(1, 3) {
			d.Severity = hcl.DiagWarning
			c.Event("warning")
			kind = "w"
		}
		if c.Chance(7, 8) {
			d.Detail = wordsText(c)
		}
		if c.Chance(1, 8) {
			c.Event("no subject")
			diags = append(diags, d)
			kinds = append(kinds, kind)
			continue
		}
		name := names[c.Intn(2)]
		f := files[name]
		if f == nil || c.Chance(1, 12) {
			if f == nil && c.Bool() {
				files[name] = &hcl.File{}
			} else {
				name = "missing.hcl"
			}
			d.Subject = &hcl.Range{Filename: name, Start: hcl.Pos{Line: 3, Column: 4, Byte: 20}, End: hcl.Pos{Line: 3, Column: 5, Byte: 21}}
			kind += "m"
		} else {
			pm := newPosMap(f.Bytes, start)
			place := func(near int) int {
				for {
					i := c.Intn(len(f.Bytes) + 1)
					if near >= 0 && c.Chance(2, 3) {
						i = near + c.Range(-30, 30)
					}
					if i >= 0 && i <= len(f.Bytes) && pm.whole(i) {
						return i
					}
				}
			}
			i := place(-1)
			j := place(i)
			if c.Chance(1, 5) {
				j = i
			}
			if i > j {
				i, j = j, i
			}
			d.Subject = &hcl.Range{Filename: name, Start: pm.at(i), End: pm.at(j)}
			if i == j {
				c.Event("empty subject")
				kind += "0"
			}
			if c.Chance(1, 3) {
				from, to := place(i), place(j)
				if from > i {
					from = i
				}
				if to < j {
					to = j
				}
				if mid := i + (j-i)/2; c.Chance(1, 4) && i < j && pm.whole(mid) {
					// only one end or nothing of the subject is outside
					switch c.Intn(3) {
					case 0:
						to = j - (j-i)/2
					case 1:
						from = mid
					case 2:
						from, to = i, mid
					}
					if !pm.whole(to) {
						to = j
					}
					if from < to {
						c.Event("context does not contain the subject")
					}
				}
				d.Context = &hcl.Range{Filename: name, Start: pm.at(from), End: pm.at(to)}
				c.Event("context")
				kind += "c"
			}
		}
		if c.Chance(1, 3) {
			src := gen.Source(g.Expr(gen.WAny, 3))
			if x, pdiags := hclsyntax.ParseExpression([]byte(src), "x.hcl", start); !pdiags.HasErrors() {
				d.Expression = x
				if c.Chance(7, 8) {
					d.EvalContext = ctx
				}
				if ts := x.Variables(); len(ts) > 0 && c.Chance(1, 3) {
					// in an inner scope with a different value
					d.EvalContext = ctx.NewChild()
					d.EvalContext.Variables = map[string]cty.Value{ts[c.Intn(len(ts))].RootName(): gen.Value(c.Rand, gen.Type(c.Rand, 2), 5)}
				}
				kind += "x"
				c.Input("expression", src)
			}
		}
		diags = append(diags, d)
		kinds = append(kinds, kind)
	}
	if c.Chance(1, 3) {
		// real ones
		e := g.Expr(gen.WAny, 4)
		src := gen.Source(e)
		f := &hcl.File{Bytes: []byte(src)}
		if x, pdiags := hclsyntax.ParseExpression(f.Bytes, "x.hcl", start); !pdiags.HasErrors() && !strings.Contains(src, "\x1b") && utf8.ValidString(src) {
			files["x.hcl"] = f
			c.Input("x.hcl", src)
			mon.Guard(func() { // a crash is the matter of P01
				_, vdiags := x.Value(ctx)
				diags = append(diags, vdiags...)
				for range vdiags {
					kinds = append(kinds, "real")
				}
			})
		}
	}

	errors := 0
	for _, d := range diags {
		if d.Severity == hcl.DiagError {
			errors++
		}
	}
	if diags.HasErrors() != (errors > 0) || len(diags.Errs()) != errors {
		c.Failf("%d errors, but HasErrors is %v and Errs has %d", errors, diags.HasErrors(), len(diags.Errs()))
	}
	if errors > 0 {
		c.Event("errors present")
	} else {
		c.Event("no errors")
	}
	for _, d := range diags {
		if s := d.Error(); !strings.Contains(s, d.Summary) || !strings.Contains(s, d.Detail) {
			c.Failf("as an error, the diagnostic reads %s; its summary is %s, its detail %s", q(s), q(d.Summary), q(d.Detail))
		}
	}
	if len(diags) > 1 {
		k := c.Intn(len(diags))
		var cp hcl.Diagnostics
		for _, d := range diags[:k] {
			cp = cp.Append(d)
		}
		cp = cp.Extend(diags[k:])
		if len(cp) != len(diags) || cp.HasErrors() != (errors > 0) {
			c.Failf("collecting %d diagnostics gives %d", len(diags), len(cp))
		}
		for i := range cp {
			if cp[i] != diags[i] {
				c.Failf("collecting diagnostics changes their order")
			}
		}
	}

	width := []uint{0, 0, 10, 40, 78, 200}[c.Intn(6)]
	color := c.Bool()
	var buf bytes.Buffer
	checkPanic(c, "writing diagnostics", func() {
		if err := hcl.NewDiagnosticTextWriter(&buf, files, width, color).WriteDiagnostics(diags); err != nil {
			c.Failf("writing diagnostics: %s", err)
		}
	})
	c.Input("written", buf.String())
	text, marked := stripColor(c, buf.String())
	if color {
		c.Event("color")
	} else if buf.String() != text {
		c.Failf("escape codes without color: %s", q(buf.String()))
	}
	r := &diagReader{c: c, text: text, marked: marked, color: color}
	for _, d := range diags {
		r.diag(d, files, width)
		c.Event("written")
	}
	if r.at != len(r.text) {
		c.Failf("more text than there are diagnostics: %s", q(r.text[r.at:]))
	}
	c.Sig(strings.Join(kinds, " "), width, color, len(buf.String())/64)
	c.Sample(clip(text, 200))
}

var colorRE = regexp.MustCompile("\x1b\\[[0-9;]*m")

// stripColor takes out the escape codes and says which bytes were written
// with attributes.
func stripColor(c *mon.Case, s string) (string, []bool) {
	var b strings.Builder
	var marked []bool
	on := false
	at := 0
	add := func(t string) {
		b.WriteString(t)
		for range []byte(t) {
			marked = append(marked, on)
		}
	}
	for _, m := range colorRE.FindAllStringIndex(s, -1) {
		add(s[at:m[0]])
		code := s[m[0]:m[1]]
		on = code != "\x1b[0m" && code != "\x1b[m"
		at = m[1]
	}
	add(s[at:])
	if on {
		c.Failf("attributes are left switched on at the end: %s", q(s))
	}
	return b.String(), marked
}

type diagReader struct {
	c      *mon.Case
	text   string
	marked []bool
	color  bool
	at     int
}

// line reads the rest of the current line.
func (r *diagReader) line() (string, int) {
	from := r.at
	i := strings.IndexByte(r.text[r.at:], '\n')
	if i < 0 {
		r.c.Failf("text ends early, after %s", q(clip(r.text[r.at:], 300)))
	}
	r.at += i + 1
	return r.text[from : from+i], from
}

func (r *diagReader) expect(what, want string) int {
	if !strings.HasPrefix(r.text[r.at:], want) {
		r.c.Failf("%s: %s was expected, the text goes on with %s", what, q(want), q(clip(r.text[r.at:], 300)))
	}
	from := r.at
	r.at += len(want)
	return from
}

func (r *diagReader) diag(d *hcl.Diagnostic, files map[string]*hcl.File, width uint) {
	c := r.c
	sev := "Error"
	if d.Severity == hcl.DiagWarning {
		sev = "Warning"
	}
	r.expect("summary", sev+": "+d.Summary+"\n\n")
	if d.Subject != nil {
		f := files[d.Subject.Filename]
		where := fmt.Sprintf("  on %s line %d", d.Subject.Filename, d.Subject.Start.Line)
		r.expect("place", where)
		if f == nil || f.Bytes == nil {
			r.expect("missing source", ":\n")
			r.line()
			r.expect("missing source", "\n")
			c.Event("no source")
		} else {
			if s := hcled.ContextString(f, d.Subject.Start.Byte); s != "" {
				r.expect("surroundings", ", in "+s)
			}
			r.expect("place", ":\n")
			r.snippet(d, f.Bytes)
			r.expect("end of source", "\n")
		}
		if d.Expression != nil && d.EvalContext != nil {
			r.values(d)
		}
	}
	if d.Detail != "" {
		want := strings.Fields(d.Detail)
		lines := 0
		for len(want) > 0 {
			l, _ := r.line()
			lines++
			if width != 0 && len([]rune(strings.TrimSpace(l))) > int(width) && len(strings.Fields(l)) > 1 {
				c.Failf("line of %d characters at width %d: %s", len([]rune(l)), width, q(l))
			}
			for _, w := range strings.Fields(l) {
				if len(want) == 0 || want[0] != w {
					c.Failf("the detail %s is written with the word %s in place of %s", q(d.Detail), q(w), q(strings.Join(want, " ")))
				}
				want = want[1:]
			}
		}
		if width != 0 && lines > strings.Count(d.Detail, "\n")+1 {
			c.Event("wrapped")
		}
		r.expect("end of detail", "\n")
	}
}

// snippet reads the source lines of a diagnostic.
func (r *diagReader) snippet(d *hcl.Diagnostic, src []byte) {
	c := r.c
	from, to := d.Subject.Start.Byte, d.Subject.End.Byte
	if x := d.Context; x != nil && x.Start.Byte != x.End.Byte {
		if from == to {
			// the empty range has no say in what is covered
			from, to = x.Start.Byte, x.End.Byte
		}
		if x.Start.Byte < from {
			from = x.Start.Byte
		}
		if x.End.Byte > to {
			to = x.End.Byte
		}
	}
	if from == to {
		to++
	}
	shown := 0
	num := 0
	for at := 0; at < len(src); {
		num++
		end := len(src)
		next := end
		if i := bytes.IndexByte(src[at:], '\n'); i >= 0 {
			end, next = at+i, at+i+1
			if end > at && src[end-1] == '\r' {
				end--
			}
		}
		covered := from < next && to > at
		if next == len(src) && end == next && from == next {
			covered = true // at the end of a last line without newline
		}
		if covered {
			pre := fmt.Sprintf("%4d: ", num)
			at0 := r.expect("source line", pre+string(src[at:end])+"\n") + len(pre)
			shown++
			if at == end {
				c.Event("blank line")
			}
			if r.color && d.Subject.Start.Byte != d.Subject.End.Byte {
				for i := at; i < end; i++ {
					want := i >= d.Subject.Start.Byte && i < d.Subject.End.Byte
					if r.marked[at0+i-at] != want {
						c.Failf("byte %d of the source is highlighted: %v; the subject is at %d-%d", i, !want, d.Subject.Start.Byte, d.Subject.End.Byte)
					}
					if want {
						c.Event("highlighted")
					}
				}
			}
		}
		at = next
	}
	if shown > 1 {
		c.Event("several lines")
	}
}

// values reads the list of values of variables.
func (r *diagReader) values(d *hcl.Diagnostic) {
	c := r.c
	want := map[string]string{}
	count := map[string]int{}
	for _, t := range d.Expression.Variables() {
		v, diags := t.TraverseAbs(d.EvalContext)
		if diags.HasErrors() || !v.IsKnown() {
			continue
		}
		name := ""
		for _, s := range t {
			switch s := s.(type) {
			case hcl.TraverseRoot:
				name += s.Name
			case hcl.TraverseAttr:
				name += "." + s.Name
			case hcl.TraverseIndex:
				name += "[" + primStr(s.Key) + "]"
			}
		}
		want[name] = " as " + primStr(v)
		if v.IsNull() {
			want[name] = " set to null"
		} else if v.CanIterateElements() {
			count[name] = v.LengthInt()
		}
	}
	var names []string
	for n := range want {
		names = append(names, n)
	}
	// longer names first, as one may begin with another
	sort.Slice(names, func(i, j int) bool { return len(names[i]) > len(names[j]) })
	for n := 0; len(want) > 0; n++ {
		l, _ := r.line()
		pre := "     "
		if n == 0 {
			pre = "with "
		}
		if !strings.HasPrefix(l, pre) {
			c.Failf("value of a variable expected, the text has %s", q(l))
		}
		l = l[len(pre):]
		post := ","
		if len(want) == 1 {
			post = "."
		}
		found := false
		for _, n := range names {
			w, ok := want[n]
			if ok && strings.HasPrefix(l, n+w) && strings.HasSuffix(l, post) {
				rest := l[len(n+w) : len(l)-1]
				if rest != "" && !strings.HasSuffix(w, " as ") {
					continue
				}
				if k := count[n]; k > 1 && !strings.Contains(rest, fmt.Sprint(k)) {
					c.Failf("%s, which has %d elements, is shown as %s", n, k, q(rest))
				}
				delete(want, n)
				found = true
				c.Event("values")
				break
			}
		}
		if !found {
			c.Failf("value shown as %s, should be one of %v", q(l), want)
		}
	}
	if len(names) > 0 {
		r.expect("end of values", "\n")
	}
}

// primStr is how a primitive value is shown; structures are described in words
// of which nothing is said here.
func primStr(v cty.Value) string {
	switch {
	case v.IsNull():
		return "null"
	case v.Type() == cty.Bool:
		return fmt.Sprint(v.True())
	case v.Type() == cty.Number:
		return new(big.Float).Copy(v.AsBigFloat()).Text('g', 10)
	case v.Type() == cty.String:
		return fmt.Sprintf("%q", v.AsString())
	}
	return ""
}
