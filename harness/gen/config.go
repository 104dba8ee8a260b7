package gen

import (
	"fmt"
	"strings"

	"verif/harness/mon"
)

// Body is a configuration body in the model.
type Body struct {
	Items []*Item
}

// Item is an attribute or a block.
type Item struct {
	Name   string // attribute name or block type
	X      *Expr  // attribute value; nil for a block
	Labels []Label
	Body   *Body
	Raw    string // if set, text to be written in place of the item
	Plain  bool   // the body is to be read as bare attributes
	Env    *Env   // if set, the scope of the body rather than that of its container
	Dyn    *Dyn   // if set, the block stands for others
	Static bool   // the value is a name or a list written out
	Names  bool   // the value is a list of names
}

// Label of a block.
type Label struct {
	Text  string
	Ident bool // written as an identifier rather than quoted
}

// Attrs returns the attributes in order.
func (b *Body) Attrs() []*Item {
	var out []*Item
	for _, it := range b.Items {
		if it.X != nil {
			out = append(out, it)
		}
	}
	return out
}

// Blocks returns the blocks in order.
func (b *Body) Blocks() []*Item {
	var out []*Item
	for _, it := range b.Items {
		if it.X == nil && it.Raw == "" {
			out = append(out, it)
		}
	}
	return out
}

// Attr returns the named attribute or nil.
func (b *Body) Attr(name string) *Item {
	for _, it := range b.Items {
		if it.X != nil && it.Name == name {
			return it
		}
	}
	return nil
}

// Shape summarises the structure.
func (b *Body) Shape() string {
	var s strings.Builder
	for _, it := range b.Items {
		if it.Raw != "" {
			s.WriteString("raw")
		} else if it.X != nil {
			s.WriteString("a" + it.X.Shape())
		} else {
			fmt.Fprintf(&s, "b%d{%s}", len(it.Labels), it.Body.Shape())
		}
	}
	return s.String()
}

// WalkExprs calls f for each attribute value.
func (b *Body) WalkExprs(f func(*Item)) {
	for _, it := range b.Items {
		if it.X != nil {
			f(it)
		} else if it.Raw == "" {
			it.Body.WalkExprs(f)
		}
	}
}

// ItemSpan has the byte extents of the parts of an item in rendered source.
type ItemSpan struct {
	Whole  [2]int
	Name   [2]int
	Equals [2]int
	Expr   [2]int // with any parentheses
	Labels [][2]int
	Open   [2]int
	Close  [2]int
}

// BodyOpts steers the generation of free-form bodies.
type BodyOpts struct {
	MaxItems  int
	Depth     int // of nested blocks
	ExprDepth int
	Heredocs  bool
	OneLine   bool // allow only what fits in a one-line block
}

// GenBody makes a random body with distinct attribute names.
func GenBody(g *G, o BodyOpts) *Body {
	r := g.R
	b := &Body{}
	n := r.Intn(o.MaxItems + 1)
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		if o.Depth > 0 && r.Chance(2, 5) {
			it := &Item{Name: Name(r)}
			if seen["attr "+it.Name] {
				continue
			}
			seen["block "+it.Name] = true
			for k := r.Size(2, 6) - 1; k > 0; k-- {
				it.Labels = append(it.Labels, GenLabel(r))
			}
			sub := o
			sub.Depth--
			if sub.MaxItems > 4 {
				sub.MaxItems = 4
			}
			it.Body = GenBody(g, sub)
			b.Items = append(b.Items, it)
			continue
		}
		name := Name(r)
		if r.Chance(1, 12) {
			name = r.Pick("for", "in", "if", "true", "null", "else", "endif", "false")
		}
		if seen["attr "+name] || seen["block "+name] {
			continue
		}
		seen["attr "+name] = true
		it := &Item{Name: name}
		g.budget = 60
		if o.Heredocs && r.Chance(1, 10) {
			it.X = g.Heredoc(o.ExprDepth, r.Bool())
		} else {
			it.X = g.Expr(WAny, r.Intn(o.ExprDepth+1))
		}
		b.Items = append(b.Items, it)
	}
	return b
}

// GenLabel makes a block label.
func GenLabel(r *mon.Rand) Label {
	if r.Chance(1, 3) {
		return Label{Text: Name(r), Ident: true}
	}
	s := Str(r)
	// Labels have no templates; how an escaped marker is written in one is
	// not specified.
	if strings.Contains(s, "${") || strings.Contains(s, "%{") {
		s = strings.Replace(s, "{", "(", -1)
	}
	return Label{Text: s}
}

// Body renders a body; w.Items receives the extents.
func (w *W) Body(b *Body, indent int) {
	for _, it := range b.Items {
		if w.Style == Loose {
			for w.R.Chance(1, 5) {
				w.blankOrComment()
			}
			w.B = append(w.B, strings.Repeat(w.R.Pick(" ", "\t"), w.R.Intn(3))...)
		} else {
			w.B = append(w.B, strings.Repeat("  ", indent)...)
		}
		w.Item(it, indent)
	}
	if w.Style == Loose && w.R.Chance(1, 6) {
		w.blankOrComment()
	}
}

func (w *W) blankOrComment() {
	switch k := w.R.Intn(5); {
	case k == 0 && !w.NoComments:
		w.B = append(w.B, (w.R.Pick("", "  ", "\t") + w.R.Pick("#", "//") + w.comment() + w.Newline())...)
	case k == 1 && !w.NoComments:
		w.B = append(w.B, ("/* " + w.comment() + w.R.Pick("", w.Newline()+" more ") + "*/")...)
		if w.R.Bool() {
			w.B = append(w.B, w.Newline()...)
		}
	case k == 2:
		w.B = append(w.B, (w.R.Pick(" ", "\t") + w.Newline())...)
	default:
		w.B = append(w.B, w.Newline()...)
	}
}

// Item renders an attribute or block with the line ending that follows it.
func (w *W) Item(it *Item, indent int) {
	if w.Items == nil {
		w.Items = map[*Item]*ItemSpan{}
	}
	sp := &ItemSpan{}
	w.Items[it] = sp
	w.last = ""
	w.nl = []bool{false}
	if it.Raw != "" {
		sp.Whole = [2]int{len(w.B), len(w.B) + len(it.Raw)}
		w.B = append(w.B, it.Raw...)
		w.eol()
		return
	}
	if it.X != nil {
		w.attr(it, sp)
		if !w.endsLine() {
			w.eol()
		}
		w.last = ""
		return
	}
	w.last = ""
	w.tok(it.Name)
	sp.Name = [2]int{len(w.B) - len(it.Name), len(w.B)}
	sp.Whole[0] = sp.Name[0]
	for _, l := range it.Labels {
		if w.Style != Loose {
			w.B = append(w.B, ' ')
		} else {
			w.gap(true)
		}
		w.last = ""
		s := len(w.B)
		if l.Ident {
			w.tok(l.Text)
		} else {
			w.B = append(w.B, '"')
			w.B = append(w.B, labelEnc(w, l.Text)...)
			w.B = append(w.B, '"')
			w.last = "\""
		}
		sp.Labels = append(sp.Labels, [2]int{s, len(w.B)})
	}
	if w.Style == Tight && len(it.Labels) > 0 && !it.Labels[len(it.Labels)-1].Ident {
		// no space needed
	} else if w.Style != Loose {
		w.B = append(w.B, ' ')
		w.last = ""
	}
	w.tok("{")
	sp.Open = [2]int{len(w.B) - 1, len(w.B)}
	one := len(it.Body.Items) == 0 || len(it.Body.Items) == 1 && it.Body.Items[0].Raw == "" && it.Body.Items[0].X != nil && !hasHeredoc(it.Body.Items[0].X)
	if one && w.R.Bool() {
		if len(it.Body.Items) == 1 {
			w.gap(false)
			asp := &ItemSpan{}
			a := it.Body.Items[0]
			w.Items[a] = asp
			w.last = ""
			w.attr(a, asp)
			w.gap(false)
		}
	} else {
		w.eol()
		w.Body(it.Body, indent+1)
		w.nl = []bool{false}
		w.last = ""
		if w.Style != Loose {
			w.B = append(w.B, strings.Repeat("  ", indent)...)
		}
	}
	w.last = ""
	w.B = append(w.B, '}')
	sp.Close = [2]int{len(w.B) - 1, len(w.B)}
	sp.Whole[1] = len(w.B)
	w.eol()
}

func (w *W) attr(it *Item, sp *ItemSpan) {
	w.tok(it.Name)
	sp.Name = [2]int{len(w.B) - len(it.Name), len(w.B)}
	w.tok("=")
	sp.Equals = [2]int{len(w.B) - 1, len(w.B)}
	s := len(w.B)
	w.Expr(it.X, 0)
	sp.Expr = [2]int{skipLayout(w.B, s), len(w.B)}
	sp.Whole = [2]int{sp.Name[0], len(w.B)}
}

// endsLine is whether the last thing written was a heredoc outside of any
// brackets, whose end marker already ends the line.
func (w *W) endsLine() bool { return w.last == "\x00heredoc" }

func hasHeredoc(e *Expr) bool {
	found := false
	e.Walk(func(x *Expr) { found = found || x.Kind == KHeredoc })
	return found
}

// labelEnc encodes a label; there are no templates in labels.
func labelEnc(w *W, s string) string {
	var b strings.Builder
	for _, c := range s {
		switch c {
		case '"', '\\':
			b.WriteByte('\\')
			b.WriteRune(c)
		case '\n':
			b.WriteString("\\n")
		case '\r':
			b.WriteString("\\r")
		case '\t':
			b.WriteString("\\t")
		default:
			if w.Style == Loose && w.R.Chance(1, 25) && c < 0x10000 && c != '{' {
				fmt.Fprintf(&b, "\\u%04x", c)
			} else {
				b.WriteRune(c)
			}
		}
	}
	return b.String()
}

// Config renders a whole file.
func (w *W) Config(b *Body) string {
	if w.R.Chance(1, 60) {
		w.B = append(w.B, "\ufeff"...)
	}
	w.Body(b, 0)
	if w.R.Chance(1, 12) {
		// no newline at the end of the file
		s := strings.TrimRight(string(w.B), "\r\n")
		if !strings.HasSuffix(s, "\ufeff") && (len(b.Items) == 0 || b.Items[len(b.Items)-1].X == nil || !hasHeredoc(b.Items[len(b.Items)-1].X)) {
			w.B = []byte(s)
		}
	}
	return string(w.B)
}
