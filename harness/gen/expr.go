// Package gen makes workloads: expressions, templates, configurations and
// values, together with a reference interpretation of each that is independent
// of the code under test.
package gen

// Kind of expression node.
type Kind int

// Expression kinds. The tree has no parentheses; the renderer adds those that
// are needed and some that aren't.
const (
	KNum       Kind = iota // Text: decimal literal
	KBool                  // Text: true/false
	KNull                  //
	KStr                   // Parts: quoted template
	KHeredoc               // Parts, Text: marker, Flag: flush
	KVar                   // Text: name
	KAttr                  // X[0].Text
	KIndex                 // X[0][X[1]]
	KLegacy                // X[0].Text (integer)
	KAttrSplat             // X[0].* then X[1], a chain over KItem
	KFullSplat             // X[0][*] then X[1], a chain over KItem
	KItem                  // the current item in a splat chain
	KTuple                 // X...
	KObject                // X: key, value, key, value...; Keys: styles
	KForTuple              // Key, Val names; X[0] collection, X[1] value, X[2] condition or nil
	KForObject             // as above with X[3] key; Flag: grouping
	KCond                  // X[0] ? X[1] : X[2]
	KBin                   // X[0] Text X[1]
	KUn                    // Text X[0]
	KCall                  // Text(X...), Flag: expand final
)

// KeyStyle says how an object key is written.
type KeyStyle int

// Key styles.
const (
	KeyIdent KeyStyle = iota // bare word; the key expr is a KVar or keyword
	KeyStr                   // quoted template
	KeyNum                   // number literal
	KeyParen                 // (expr)
	KeyBare                  // expr; a reference of several steps is not allowed
)

// Expr is an expression in the model.
type Expr struct {
	Kind  Kind
	Text  string
	Flag  bool
	Key   string // for expressions
	Val   string
	X     []*Expr
	Keys  []KeyStyle
	Parts []*Part
}

// PartKind of a template part.
type PartKind int

// Template parts.
const (
	PLit    PartKind = iota // Text: literal text
	PInterp                 // X
	PIf                     // X condition; Then; Else (HasElse)
	PFor                    // Key, Val, X collection; Then
)

// Part is one part of a template.
type Part struct {
	Kind    PartKind
	Text    string
	Raw     string // for literals: source form chosen by the renderer when empty
	X       *Expr
	Then    []*Part
	Else    []*Part
	HasElse bool
	Key     string
	Val     string
	// Strip markers: opening left/right, then for directives the same for
	// the else and end markers.
	L, R       bool
	ElseL      bool
	ElseR      bool
	EndL, EndR bool
}

// Lit makes a quoted string literal.
func Lit(s string) *Expr { return &Expr{Kind: KStr, Parts: []*Part{{Kind: PLit, Text: s}}} }

// Num makes a number literal.
func Num(s string) *Expr { return &Expr{Kind: KNum, Text: s} }

// Var makes a reference.
func Var(s string) *Expr { return &Expr{Kind: KVar, Text: s} }

// Walk calls f for e and each descendent, including those in templates.
func (e *Expr) Walk(f func(*Expr)) {
	if e == nil {
		return
	}
	f(e)
	for _, x := range e.X {
		x.Walk(f)
	}
	walkParts(e.Parts, f)
}

func walkParts(ps []*Part, f func(*Expr)) {
	for _, p := range ps {
		p.X.Walk(f)
		walkParts(p.Then, f)
		walkParts(p.Else, f)
	}
}

// Size counts nodes.
func (e *Expr) Size() int {
	n := 0
	e.Walk(func(*Expr) { n++ })
	return n
}

// Shape is a short structural signature.
func (e *Expr) Shape() string {
	if e == nil {
		return "_"
	}
	s := string(rune('a' + int(e.Kind)))
	switch e.Kind {
	case KBin, KUn:
		s += e.Text
	}
	if len(e.X) > 0 || len(e.Parts) > 0 {
		s += "("
		for _, x := range e.X {
			s += x.Shape()
		}
		s += partsShape(e.Parts)
		s += ")"
	}
	return s
}

func partsShape(ps []*Part) string {
	s := ""
	for _, p := range ps {
		switch p.Kind {
		case PLit:
			s += "L"
		case PInterp:
			s += "$" + p.X.Shape()
		case PIf:
			s += "?" + p.X.Shape() + "{" + partsShape(p.Then) + "|" + partsShape(p.Else) + "}"
		case PFor:
			s += "@" + p.X.Shape() + "{" + partsShape(p.Then) + "}"
		}
		if p.L || p.R || p.EndL || p.EndR || p.ElseL || p.ElseR {
			s += "~"
		}
	}
	return s
}

// Prec is the binding strength of an expression: 0 conditional, 1-6 binary
// operators, 7 unary, 8 anything that can take a postfix operator.
func (e *Expr) Prec() int {
	switch e.Kind {
	case KCond:
		return 0
	case KBin:
		return BinPrec(e.Text)
	case KUn:
		return 7
	}
	return 8
}

// BinPrec is the precedence level of a binary operator.
func BinPrec(op string) int {
	switch op {
	case "||":
		return 1
	case "&&":
		return 2
	case "==", "!=":
		return 3
	case "<", ">", "<=", ">=":
		return 4
	case "+", "-":
		return 5
	}
	return 6
}

// BinOps are all of the binary operators.
var BinOps = []string{"||", "&&", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%"}

// Free lists the occurrences of variables in an expression that it doesn't
// bind itself, in no particular order.
func (e *Expr) Free() []string {
	var out []string
	freeExpr(e, nil, &out)
	return out
}

// FreeParts is Free for a template.
func FreeParts(ps []*Part) []string {
	var out []string
	freeParts(ps, nil, &out)
	return out
}

func freeExpr(e *Expr, bound []string, out *[]string) {
	if e == nil {
		return
	}
	switch e.Kind {
	case KVar:
		for _, b := range bound {
			if b == e.Text {
				return
			}
		}
		*out = append(*out, e.Text)
	case KForTuple, KForObject:
		freeExpr(e.X[0], bound, out)
		in := append(bound[:len(bound):len(bound)], e.Val)
		if e.Key != "" {
			in = append(in, e.Key)
		}
		for _, x := range e.X[1:] {
			freeExpr(x, in, out)
		}
	case KObject:
		for i, k := range e.Keys {
			if k != KeyIdent {
				freeExpr(e.X[2*i], bound, out)
			}
			freeExpr(e.X[2*i+1], bound, out)
		}
	default:
		for _, x := range e.X {
			freeExpr(x, bound, out)
		}
	}
	freeParts(e.Parts, bound, out)
}

func freeParts(ps []*Part, bound []string, out *[]string) {
	for _, p := range ps {
		freeExpr(p.X, bound, out)
		in := bound
		if p.Kind == PFor {
			in = append(bound[:len(bound):len(bound)], p.Val)
			if p.Key != "" {
				in = append(in, p.Key)
			}
		}
		freeParts(p.Then, in, out)
		freeParts(p.Else, in, out)
	}
}
