package gen

import (
	"fmt"
	"regexp"
	"strings"

	"verif/harness/mon"
)

var fragments = []string{
	"a", "b", "foo", "=", "{", "}", "[", "]", "(", ")", "\"", "\"", "${", "%{", "}", "~}", "${~", "%{~", "\n", "\n", "\r\n", "\r", " ", "  ", "\t",
	"#c", "//c", "/*", "*/", "/**/", "<<EOT\n", "<<-EOT\n", "EOT", "EOT\n", "\nEOT\n", "<<", "<<-", "<", ">", "<=", ">=", "==", "!=", "!", "&&", "||", "&", "|",
	"+", "-", "*", "/", "%", "?", ":", ",", ".", "..", "...", ".*", "[*]", "=>", "0", "1", "12", "1.5", "1e5", "1.", ".5", "0x1", "9999999999999999999999",
	"for", "in", "if", "else", "endif", "endfor", "true", "false", "null", "'", "`", ";", "\\", "$", "$$", "$${", "%%{", "%", "~", "^", "@", "\ufeff", "é", "é", "日", "😀", "\x00", "\x01", "\x7f",
	"\xff", "\xc3", "\xe2\x82", "\u00a0", "\u2028", "\u200d", "\u0301", "\\n", "\\u00e9", "\\U0001F600", "\\x", "\\\"", "a = 1\n", "b {\n", "}\n", "b \"l\" {\n", "x = \"${a}\"\n",
	"[for x in l: x]", "{for k, v in m: k => v}", "%{if a}", "%{endif}", "%{for x in y}", "%{endfor}", "%{else}", "f(", "f(a...)", "a.b", "a[0]", "a.*.b", "a[*].b", "a.0", "a.0.1",
}

var jsonFragments = []string{
	"{", "}", "[", "]", ":", ",", "\"", "\"a\"", "\"b\"", "\"\"", "1", "-1", "0", "01", "1.5", "1e5", "1E+5", "-", ".", "+1", "true", "false", "null", "nul", "tru", " ", "\n", "\t", "\r\n",
	"\"\\n\"", "\"\\u00e9\"", "\"\\ud83d\\ude00\"", "\"\\u12\"", "\"\\x\"", "\"${a}\"", "\"${\"", "\"%{if a}\"", "\\", "é", "日", "\xff", "\x00", "//", "#", "'", "{\"a\":1}", "[1,2]", "{\"a\":{\"b\":[]}}",
	"\"a\":", "\"//\":", "9999999999999999999999", "1e999", "\ufeff", "NaN", "Infinity", "$", "=",
}

// Soup makes a sequence of fragments of native syntax.
func Soup(r *mon.Rand) string { return soup(r, fragments) }

// JSONSoup makes a sequence of fragments of JSON syntax.
func JSONSoup(r *mon.Rand) string { return soup(r, jsonFragments) }

func soup(r *mon.Rand, frags []string) string {
	var b strings.Builder
	n := r.Size(12, 200)
	for i := 0; i < n; i++ {
		b.WriteString(frags[r.Intn(len(frags))])
		if r.Chance(1, 4) {
			b.WriteByte(' ')
		}
	}
	return tame(b.String())
}

var exponent = regexp.MustCompile(`[0-9][eE][+-]?[0-9]+`)

// tame shortens exponents whose number is accepted but takes millions of
// digits to write down.
func tame(s string) string {
	return exponent.ReplaceAllStringFunc(s, func(e string) string {
		n := len(e) - strings.LastIndexAny(e, "eE+-") - 1
		if n > 4 && n < 12 {
			e = e[:len(e)-n+4]
		}
		return e
	})
}

// Bytes makes random bytes.
func Bytes(r *mon.Rand) string {
	n := r.Size(20, 400)
	b := make([]byte, n)
	for i := range b {
		if r.Chance(1, 3) {
			b[i] = "{}[]()\"$%\\\n\r \t=.,<>#/*-~:a0"[r.Intn(27)]
		} else {
			b[i] = byte(r.Uint64())
		}
	}
	return string(b)
}

// Mutate damages text in a few places.
func Mutate(r *mon.Rand, s string, frags ...string) string {
	if len(frags) == 0 {
		frags = fragments
	}
	for n := r.Size(2, 10); n > 0; n-- {
		if s == "" {
			return frags[r.Intn(len(frags))]
		}
		i := r.Intn(len(s) + 1)
		switch r.Intn(7) {
		case 0: // insert
			s = s[:i] + frags[r.Intn(len(frags))] + s[i:]
		case 1: // delete some
			j := i + r.Intn(4)
			if j > len(s) {
				j = len(s)
			}
			s = s[:i] + s[j:]
		case 2: // replace a byte
			if i < len(s) {
				f := frags[r.Intn(len(frags))]
				s = s[:i] + f + s[i+1:]
			}
		case 3: // truncate
			if r.Chance(1, 3) {
				s = s[:i]
			}
		case 4: // duplicate a part
			j := i + r.Intn(20)
			if j > len(s) {
				j = len(s)
			}
			s = s[:j] + s[i:]
		case 5: // swap halves around a point
			if r.Chance(1, 4) {
				s = s[i:] + s[:i]
			}
		case 6: // change a bracket, quote or such
			k := strings.IndexAny(s[i:], "{}[]()\"$%=.,:?\n")
			if k >= 0 {
				s = s[:i+k] + r.Pick("", "{", "}", "[", "]", "(", ")", "\"", "$", "%", "=", ".", ",", "\n") + s[i+k+1:]
			}
		}
		if len(s) > 1<<20 {
			break
		}
	}
	return tame(s)
}

// Deep makes deeply nested source.
func Deep(r *mon.Rand, depth int) string {
	pairs := [][2]string{{"(", ")"}, {"[", "]"}, {"{a=", "}"}, {"\"${", "}\""}, {"f(", ")"}, {"-", ""}, {"!", ""}, {"a[", "]"}, {"[for x in ", ":x]"}, {"{for k, v in ", ": k => v}"}, {"a ? ", " : b"}, {"1 + ", ""}, {"%{if a}", "%{endif}"}, {"a.b", ""}, {"${", "}"}, {"b {\n", "}\n"}, {"[[", "]]"}}
	p := pairs[r.Intn(len(pairs))]
	close := depth
	if r.Chance(1, 3) {
		close = r.Intn(depth + 1)
	}
	return r.Pick("", "x = ") + strings.Repeat(p[0], depth) + r.Pick("1", "a", "", "\"\"") + strings.Repeat(p[1], close) + r.Pick("", "\n")
}

// JSONDeep makes deeply nested JSON.
func JSONDeep(r *mon.Rand, depth int) string {
	pairs := [][2]string{{"[", "]"}, {"{\"a\":", "}"}, {"[{\"a\":", "}]"}, {"{\"a\":[", "]}"}}
	p := pairs[r.Intn(len(pairs))]
	close := depth
	if r.Chance(1, 3) {
		close = r.Intn(depth + 1)
	}
	return strings.Repeat(p[0], depth) + r.Pick("1", "null", "", "\"${a}\"") + strings.Repeat(p[1], close)
}

// Long makes source with one very long construct.
func Long(r *mon.Rand) string {
	n := r.Pick("70000", "5000", "300")
	k := 0
	fmt.Sscan(n, &k)
	switch r.Intn(7) {
	case 0:
		return "x = \"" + strings.Repeat(r.Pick("a", "é", "😀", "\\n", "$${", "e\u0301"), k) + "\"\n"
	case 1:
		return "x = [" + strings.Repeat("1,", k/4) + "]\n"
	case 2:
		return "# " + strings.Repeat("c", k) + "\nx = 1\n"
	case 3:
		return "x = <<EOT\n" + strings.Repeat("line "+r.Pick("", "${a} ", "%{if a}y%{endif}")+"\n", k/20) + "EOT\n"
	case 4:
		return strings.Repeat("a"+r.Pick("", "b")+" = 1\n", k/50)
	case 5:
		return "/*" + strings.Repeat("*\n", k/2) + "*/"
	default:
		return "x = " + strings.Repeat("a+", k/20) + "a\n" + strings.Repeat(" ", k) + "\n"
	}
}

// constructs has each construct of the native syntax as a list of tokens, where
// E stands for an expression, T for a template and B for items of a body.
var constructs = map[string][]string{
	"E": {
		"a", "1", "( E )", "( E + E )", "E . b", "E [ E ]", "E . * . b", "E [ * ] . b", "E . 0", "E [ 0 ]", "[ E , E ]", "[ E , E , ]", "{ a = E }", "{ a = E , b : E }", "{ ( E ) = E \n b = E }", "{ \" T \" = E }",
		"f ( E , E )", "f ( E , E ... )", "f ( )", "E ? E : E", "- E", "! E", "E && E", "E == E", "E * E", "[ for x in E : E ]", "[ for k , v in E : E if E ]", "{ for k , v in E : E => E }", "{ for k , v in E : E => E ... if E }",
		"\" T \"", "\" T \"", "<<EOT \n T \n EOT \n", "<<-EOT \n T \n EOT \n", "E . *", "E [ * ]", "E [ * ] [ 0 ]", "true", "null", "a . 0 . 1",
	},
	"T": {
		"x", "${ E }", "${~ E ~}", "T T", "x ${ E } y", "%{ if E } T %{ endif }", "%{ if E } T %{ else } T %{ endif }", "%{ for x in E } T %{ endfor }", "%{ for k , v in E } T %{ endfor }", "%{~ for k , v in E ~} T %{~ endfor ~}",
		"%{~ if E ~} T %{~ else ~} T %{~ endif ~}", "$${", "%%{", "$ ${ E }", "\\n",
	},
	"B": {"a = E \n", "b { \n B }  \n", "b \"l\" c { \n B } \n", "b { a = E } \n", "b { } \n", "B B", "# c \n B", "a = E // c \n", "\"a\" = E \n", "b \" T \" { \n B } \n"},
}

// construct expands a symbol into tokens.
func construct(r *mon.Rand, sym string, depth int, out *[]string) {
	alts := constructs[sym]
	alt := alts[0]
	if depth > 0 {
		alt = alts[r.Intn(len(alts))]
	}
	for _, t := range strings.Split(alt, " ") {
		switch {
		case len(t) == 1 && constructs[t] != nil:
			construct(r, t, depth-1, out)
		case t != "":
			*out = append(*out, t)
		}
	}
}

// Broken makes source of a nest of constructs in which one or a few tokens
// have been removed, repeated, exchanged or replaced.
func Broken(r *mon.Rand) string {
	var toks []string
	construct(r, r.Pick("E", "E", "T", "T", "B"), r.Range(1, 4), &toks)
	for n := r.Range(1, 2); n > 0 && len(toks) > 0; n-- {
		i := r.Intn(len(toks))
		switch r.Intn(6) {
		case 0:
			toks = append(toks[:i:i], toks[i+1:]...)
		case 1:
			toks = append(toks[:i+1:i+1], toks[i:]...)
		case 2:
			j := r.Intn(len(toks))
			toks[i], toks[j] = toks[j], toks[i]
		case 3:
			toks = toks[:i]
		case 4:
			toks = append(toks[:i:i], append([]string{fragments[r.Intn(len(fragments))]}, toks[i:]...)...)
		default:
			toks[i] = fragments[r.Intn(len(fragments))]
		}
	}
	sep := r.Pick(" ", " ", "")
	var b strings.Builder
	switch r.Intn(4) {
	case 0:
		b.WriteString("x = ")
	case 1:
		b.WriteString("x = \"")
	}
	for _, t := range toks {
		b.WriteString(t)
		if !strings.HasSuffix(t, "\n") {
			b.WriteString(sep)
		}
	}
	if r.Chance(1, 2) {
		b.WriteString(r.Pick("\n", "\"\n", "\ny = 1\n", "}\n"))
	}
	return b.String()
}

// Native makes native configuration source, valid, damaged or hostile. The
// second result says whether it is valid.
func Native(g *G) (string, bool) {
	r := g.R
	switch r.Intn(14) {
	case 0:
		return Soup(r), false
	case 1:
		return Bytes(r), false
	case 2, 3, 4:
		return Mutate(r, ValidConfig(g)), false
	case 5:
		if r.Chance(1, 30) {
			return Long(r), false
		}
		return Deep(r, r.Size(20, 300)), false
	case 6, 7:
		return Broken(r), false
	default:
		return ValidConfig(g), true
	}
}

// ValidConfig makes valid native configuration source.
func ValidConfig(g *G) string {
	b := GenBody(g, BodyOpts{MaxItems: g.R.Size(6, 40), Depth: g.R.Intn(4), ExprDepth: g.R.Range(1, 4), Heredocs: true})
	return NewW(g.R).Config(b)
}
