package gen

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"verif/harness/mon"
)

// Style of layout.
type Style int

// Layout styles.
const (
	Plain Style = iota // one space between tokens
	Tight              // as few spaces as possible
	Loose              // random spaces, comments and newlines
	numStyles
)

// W renders models to source while varying insignificant layout.
type W struct {
	R     *mon.Rand
	Style Style
	CRLF  bool
	// NoComments leaves out comments.
	NoComments bool
	// NoParens leaves out redundant parentheses.
	NoParens bool
	B        []byte
	Spans    map[*Expr][2]int // extent of each expression, without parentheses
	Items    map[*Item]*ItemSpan
	nl       []bool // whether newlines are insignificant
	last     string // previous token in the current expression context
	ncomment int
}

// NewW makes a renderer with random style.
func NewW(r *mon.Rand) *W {
	w := &W{R: r, Spans: map[*Expr][2]int{}, nl: []bool{false}}
	w.Style = Style(r.Intn(int(numStyles)))
	w.CRLF = r.Chance(1, 8)
	return w
}

// Newline returns the line ending in use.
func (w *W) Newline() string {
	if w.CRLF {
		return "\r\n"
	}
	return "\n"
}

func (w *W) push(ok bool) { w.nl = append(w.nl, ok) }
func (w *W) pop()         { w.nl = w.nl[:len(w.nl)-1] }
func (w *W) nlOK() bool   { return w.nl[len(w.nl)-1] }

func isWordByte(b byte) bool {
	return b == '_' || b == '-' || b >= 0x80 || (b >= '0' && b <= '9') || (b >= 'a' && b <= 'z') || (b >= 'A' && b <= 'Z')
}

// needGap says whether two tokens would be scanned differently if adjacent.
func needGap(a, b string) bool {
	if a == "" || b == "" {
		return false
	}
	x, y := a[len(a)-1], b[0]
	if isWordByte(x) && isWordByte(y) {
		return true
	}
	if isWordByte(x) && y == '.' && x >= '0' && x <= '9' {
		return isNumTok(a) // 1 .foo or 1 ...
	}
	if x == '.' && y >= '0' && y <= '9' {
		return false
	}
	switch string(x) + string(y) {
	case "//", "/*", "==", "!=", "<=", ">=", "=>", "&&", "||", "<<", "..", "${", "%{", "~}", "!<", "!>":
		return true
	}
	return false
}

func isNumTok(s string) bool { return s != "" && s[0] >= '0' && s[0] <= '9' }

func (w *W) comment() string {
	w.ncomment++
	return w.R.Pick("c", " comment ", "x = 1", "${", "\"", "{", "é世", "'", "", "[ ( ", "<<EOT", "*", "/", "#") + fmt.Sprint(w.ncomment)
}

// gap writes layout between tokens; must says that something is needed.
func (w *W) gap(must bool) {
	switch w.Style {
	case Plain:
		w.B = append(w.B, ' ')
		return
	case Tight:
		if must {
			w.B = append(w.B, ' ')
		}
		return
	}
	if !must && w.R.Chance(1, 3) {
		return
	}
	n := 1
	if w.R.Chance(1, 6) {
		n = w.R.Range(2, 4)
		if w.R.Chance(1, 60) {
			w.B = append(w.B, strings.Repeat(" ", w.R.Range(30, 100))...)
		}
	}
	for i := 0; i < n; i++ {
		k := w.R.Intn(24)
		switch {
		case k == 0 && !w.NoComments:
			if len(w.B) > 0 && w.B[len(w.B)-1] == '/' {
				w.B = append(w.B, ' ')
			}
			w.B = append(w.B, "/*"+strings.Replace(w.comment(), "*/", "", -1)+" */"...)
		case k <= 2:
			w.B = append(w.B, '\t')
		case k == 3 && w.nlOK():
			w.B = append(w.B, w.Newline()...)
		case k == 4 && w.nlOK() && !w.NoComments:
			w.B = append(w.B, (" " + w.R.Pick("#", "//") + w.comment() + w.Newline())...)
		default:
			w.B = append(w.B, ' ')
		}
	}
}

func (w *W) tok(s string) {
	if w.last == "\x00heredoc" {
		w.last = ""
	}
	if w.last != "" {
		must := needGap(w.last, s)
		if must || w.Style == Loose || (w.Style == Plain && plainGap(w.last, s)) {
			w.gap(must)
		}
	}
	w.B = append(w.B, s...)
	w.last = s
}

// plainGap is whether the plain style puts a space here.
func plainGap(a, b string) bool {
	switch b {
	case ")", "]", ",", ".", "(", "[", ":", "...":
		return false
	}
	switch a {
	case "(", "[", ".", "!":
		return false
	}
	return true
}

// raw writes without layout.
func (w *W) raw(s string) { w.B = append(w.B, s...); w.last = "" }

// Expr renders an expression in a position that requires the given strength.
func (w *W) Expr(e *Expr, need int) {
	if e.Kind == KItem {
		return
	}
	paren := e.Prec() < need
	if !paren && !w.NoParens && w.Style == Loose && w.R.Chance(1, 12) && !isChain(e) {
		paren = true
	}
	if need == 8 && (e.Kind == KNum) {
		paren = true
	}
	if paren {
		w.tok("(")
		w.push(true)
		w.expr(e)
		w.tok(")")
		w.pop()
		return
	}
	w.expr(e)
}

// isChain is whether the expression is a postfix chain over a splat item,
// which can't be parenthesized.
func isChain(e *Expr) bool {
	for {
		switch e.Kind {
		case KItem:
			return true
		case KAttr, KIndex, KLegacy, KAttrSplat, KFullSplat:
			e = e.X[0]
		default:
			return false
		}
	}
}

// operand renders the operand of a postfix operator.
func (w *W) operand(e *Expr, op Kind) {
	if (e.Kind == KAttrSplat && op != KIndex && op != KFullSplat || e.Kind == KFullSplat || e.Kind == KHeredoc) && !isChain(e) {
		w.tok("(")
		w.push(true)
		w.expr(e)
		w.tok(")")
		w.pop()
		return
	}
	w.Expr(e, 8)
}

func (w *W) expr(e *Expr) {
	start := -1
	mark := func() {}
	if e.Kind != KItem {
		// The first token may be preceded by layout, so the start is found
		// after the fact.
		before := len(w.B)
		lastTok := w.last
		_ = lastTok
		mark = func() { start = before }
	}
	mark()
	w.expr1(e)
	if start >= 0 {
		// Skip layout emitted before the first token of this expression
		s := skipLayout(w.B, start)
		w.Spans[e] = [2]int{s, len(w.B)}
	}
}

// skipLayout advances over spaces, newlines and comments.
func skipLayout(b []byte, i int) int {
	for i < len(b) {
		switch {
		case b[i] == ' ' || b[i] == '\t' || b[i] == '\n' || b[i] == '\r':
			i++
		case b[i] == '#' || (b[i] == '/' && i+1 < len(b) && b[i+1] == '/'):
			for i < len(b) && b[i] != '\n' {
				i++
			}
		case b[i] == '/' && i+1 < len(b) && b[i+1] == '*':
			j := strings.Index(string(b[i+2:]), "*/")
			i += 2 + j + 2
		default:
			return i
		}
	}
	return i
}

func (w *W) expr1(e *Expr) {
	switch e.Kind {
	case KNum, KBool, KVar:
		w.tok(e.Text)
	case KNull:
		w.tok("null")
	case KItem:
	case KStr:
		w.quoted(e.Parts)
	case KHeredoc:
		w.heredoc(e)
	case KAttr:
		w.operand(e.X[0], e.Kind)
		w.tok(".")
		w.tok(e.Text)
	case KLegacy:
		w.operand(e.X[0], e.Kind)
		w.tok(".")
		if w.Style == Plain || w.Style == Tight {
			// two adjacent legacy indexes would be scanned as one number
			if e.X[0].Kind == KLegacy {
				w.B = append(w.B[:len(w.B)-1], " ."...)
			}
		} else if e.X[0].Kind == KLegacy && w.B[len(w.B)-2] >= '0' && w.B[len(w.B)-2] <= '9' {
			w.B = append(w.B[:len(w.B)-1], " ."...)
		}
		w.tok(e.Text)
	case KIndex:
		w.operand(e.X[0], e.Kind)
		w.tok("[")
		w.push(true)
		w.Expr(e.X[1], 0)
		w.tok("]")
		w.pop()
	case KAttrSplat:
		w.operand(e.X[0], e.Kind)
		w.tok(".")
		w.tok("*")
		w.expr(e.X[1])
	case KFullSplat:
		w.operand(e.X[0], e.Kind)
		w.tok("[")
		w.tok("*")
		w.tok("]")
		w.expr(e.X[1])
	case KTuple:
		w.tok("[")
		w.push(true)
		for i, x := range e.X {
			if i > 0 {
				w.tok(",")
			}
			w.Expr(x, 0)
		}
		if len(e.X) > 0 && w.Style == Loose && w.R.Chance(1, 5) {
			w.tok(",")
		}
		w.tok("]")
		w.pop()
	case KObject:
		w.tok("{")
		w.push(false)
		multi := w.Style == Loose && w.R.Bool() || w.Style == Plain && len(e.X) > 4
		if multi {
			w.eol()
		}
		for i := 0; i < len(e.X); i += 2 {
			k := e.X[i]
			switch e.Keys[i/2] {
			case KeyIdent:
				w.tok(k.Text)
				w.Spans[k] = [2]int{len(w.B) - len(k.Text), len(w.B)}
			case KeyParen:
				w.tok("(")
				w.push(true)
				w.Expr(k, 0)
				w.tok(")")
				w.pop()
			case KeyBare:
				st := w.Style
				w.Style = Plain // parentheses would make a difference
				w.expr(k)
				w.Style = st
			default:
				w.expr(k)
			}
			if w.Style == Loose && w.R.Chance(1, 4) {
				w.tok(":")
			} else {
				w.tok("=")
			}
			w.Expr(e.X[i+1], 0)
			last := i+2 >= len(e.X)
			if multi {
				if w.R.Bool() && !lastIsHeredoc(e.X[i+1]) {
					w.tok(",")
				}
				if !last || w.R.Chance(2, 3) {
					w.eol()
				}
			} else if !last || (w.Style == Loose && w.R.Chance(1, 5)) {
				w.tok(",")
			}
		}
		w.tok("}")
		w.pop()
	case KForTuple, KForObject:
		open, close := "[", "]"
		if e.Kind == KForObject {
			open, close = "{", "}"
		}
		w.tok(open)
		w.push(true)
		w.tok("for")
		if e.Key != "" {
			w.tok(e.Key)
			w.tok(",")
		}
		w.tok(e.Val)
		w.tok("in")
		w.Expr(e.X[0], 0)
		w.tok(":")
		if e.Kind == KForObject {
			w.Expr(e.X[3], 0)
			w.tok("=>")
		}
		w.Expr(e.X[1], 0)
		if e.Flag {
			w.tok("...")
		}
		if e.X[2] != nil {
			w.tok("if")
			w.Expr(e.X[2], 0)
		}
		w.tok(close)
		w.pop()
	case KCond:
		w.Expr(e.X[0], 1)
		w.tok("?")
		w.Expr(e.X[1], 0)
		w.tok(":")
		w.Expr(e.X[2], 0)
	case KBin:
		p := BinPrec(e.Text)
		w.Expr(e.X[0], p)
		w.tok(e.Text)
		w.Expr(e.X[1], p+1)
	case KUn:
		w.tok(e.Text)
		w.Expr(e.X[0], 7)
	case KCall:
		w.tok(e.Text)
		w.tok("(")
		w.push(true)
		for i, x := range e.X {
			if i > 0 {
				w.tok(",")
			}
			w.Expr(x, 0)
		}
		if e.Flag {
			w.tok("...")
		} else if len(e.X) > 0 && w.Style == Loose && w.R.Chance(1, 6) {
			w.tok(",")
		}
		w.tok(")")
		w.pop()
	default:
		panic("unknown kind")
	}
}

func lastIsHeredoc(e *Expr) bool { return e.Kind == KHeredoc }

// eol writes a significant line ending, perhaps with a comment and blank lines.
func (w *W) eol() {
	if w.Style == Loose {
		if !w.NoComments && w.R.Chance(1, 8) {
			w.B = append(w.B, (" " + w.R.Pick("#", "//") + w.comment())...)
		}
		if w.R.Chance(1, 6) {
			w.B = append(w.B, w.Newline()...)
		}
	}
	w.B = append(w.B, w.Newline()...)
	if w.Style == Loose {
		w.B = append(w.B, strings.Repeat(w.R.Pick(" ", "\t", ""), w.R.Intn(4))...)
	}
	w.last = ""
}

func (w *W) quoted(parts []*Part) {
	w.tok("\"")
	w.last = ""
	w.parts(parts, quotedEnc)
	w.B = append(w.B, '"')
	w.last = "\""
}

// encoder turns literal text into source; next is what follows ("" at the end).
type encoder func(w *W, s string, interpFollows bool) string

func quotedEnc(w *W, s string, interpFollows bool) string {
	var b strings.Builder
	rs := []rune(s)
	for i, c := range rs {
		var next rune = -1
		if i+1 < len(rs) {
			next = rs[i+1]
		}
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteRune(c)
		case c == '\n':
			b.WriteString("\\n")
		case c == '\r':
			b.WriteString("\\r")
		case c == '\t':
			if w.R.Bool() {
				b.WriteString("\\t")
			} else {
				b.WriteByte('\t')
			}
		case (c == '$' || c == '%') && next == '{':
			if i > 0 && rs[i-1] == c {
				fmt.Fprintf(&b, "\\u%04x", c)
			} else {
				b.WriteRune(c)
				b.WriteRune(c)
			}
		case (c == '$' || c == '%') && (next == c || (next == -1 && interpFollows)):
			fmt.Fprintf(&b, "\\u%04x", c)
		case w.Style == Loose && w.R.Chance(1, 20) && c != '{':
			if c > 0xffff || w.R.Chance(1, 4) {
				fmt.Fprintf(&b, w.R.Pick("\\U%08x", "\\U%08X"), c)
			} else {
				fmt.Fprintf(&b, w.R.Pick("\\u%04x", "\\u%04X"), c)
			}
		default:
			b.WriteRune(c)
		}
	}
	return b.String()
}

// bareEnc is for heredocs and standalone templates.
func bareEnc(w *W, s string, interpFollows bool) string {
	s = strings.Replace(s, "${", "$${", -1)
	s = strings.Replace(s, "%{", "%%{", -1)
	return s
}

// BareOK is whether literal text can be written in a heredoc or a standalone
// template without changing its meaning.
func BareOK(s string, interpFollows bool) bool {
	if !utf8.ValidString(s) || strings.Contains(s, "$$") || strings.Contains(s, "%%") {
		return false
	}
	if interpFollows && (strings.HasSuffix(s, "$") || strings.HasSuffix(s, "%")) {
		return false
	}
	return true
}

func (w *W) seq(open string, l bool, body func(), r bool) {
	w.B = append(w.B, open...)
	if l {
		w.B = append(w.B, '~')
	}
	w.last = ""
	w.push(true)
	if w.Style != Tight {
		w.gap(false)
	}
	body()
	if w.Style != Tight {
		w.gap(false)
	}
	w.pop()
	if r {
		w.B = append(w.B, '~')
	}
	w.B = append(w.B, '}')
	w.last = ""
}

func (w *W) parts(parts []*Part, enc encoder) {
	for i, p := range parts {
		switch p.Kind {
		case PLit:
			follows := i+1 < len(parts)
			w.B = append(w.B, enc(w, p.Text, follows)...)
			w.last = ""
		case PInterp:
			w.seq("${", p.L, func() { w.Expr(p.X, 0) }, p.R)
		case PIf:
			w.seq("%{", p.L, func() { w.tok("if"); w.Expr(p.X, 0) }, p.R)
			w.dirParts(p.Then, enc)
			if p.HasElse {
				w.seq("%{", p.ElseL, func() { w.tok("else") }, p.ElseR)
				w.dirParts(p.Else, enc)
			}
			w.seq("%{", p.EndL, func() { w.tok("endif") }, p.EndR)
		case PFor:
			w.seq("%{", p.L, func() {
				w.tok("for")
				if p.Key != "" {
					w.tok(p.Key)
					w.tok(",")
				}
				w.tok(p.Val)
				w.tok("in")
				w.Expr(p.X, 0)
			}, p.R)
			w.dirParts(p.Then, enc)
			w.seq("%{", p.EndL, func() { w.tok("endfor") }, p.EndR)
		}
	}
}

// dirParts renders the contents of a directive, which is always followed by
// another marker.
func (w *W) dirParts(parts []*Part, enc encoder) {
	w.parts(append(append([]*Part{}, parts...), &Part{Kind: PLit}), enc)
}

// Template renders parts as a standalone template.
func (w *W) Template(parts []*Part) string {
	w.parts(parts, bareEnc)
	return string(w.B)
}

func (w *W) heredoc(e *Expr) {
	op := "<<"
	if e.Flag {
		op = "<<-"
	}
	w.tok(op + e.Text)
	w.B = append(w.B, w.Newline()...)
	w.parts(e.Parts, bareEnc)
	if w.Style == Loose || e.Flag {
		w.B = append(w.B, strings.Repeat(" ", w.R.Intn(4))...)
	}
	w.B = append(w.B, e.Text...)
	w.B = append(w.B, w.Newline()...)
	w.last = "\x00heredoc"
}

// RenderExpr renders an expression on its own.
func RenderExpr(r *mon.Rand, e *Expr) (string, *W) {
	w := NewW(r)
	w.nl = []bool{true}
	w.Expr(e, 0)
	return string(w.B), w
}

// IsIdent is whether s is certainly an identifier.
func IsIdent(s string) bool {
	for _, w := range words {
		if s == w {
			return true
		}
	}
	for i, c := range s {
		if c > 126 {
			return false // depends on the version of Unicode
		}
		if i == 0 {
			if !(c == '_' || unicode.IsLetter(c)) {
				return false
			}
			continue
		}
		if !(c == '_' || c == '-' || unicode.IsLetter(c) || unicode.IsDigit(c)) {
			return false
		}
	}
	return s != ""
}

// Source renders an expression in a plain way.
func Source(e *Expr) string {
	w := NewW(mon.NewRand(0, "source", 0))
	w.Style = Plain
	w.NoComments = true
	w.nl = []bool{true}
	w.Expr(e, 0)
	return string(w.B)
}
