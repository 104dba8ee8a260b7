package props

import (
	"fmt"
	"math/big"
	"strings"
	"unicode"

	"verif/harness/gen"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/zclconf/go-cty/cty"
)

// The structure of expressions is compared as text in a canonical form, made
// here from the model and from the library's syntax tree. Spaces in literal
// text are left out because strip markers and flush heredocs remove some.

func noSpace(s string) string {
	s = cty.StringVal(s).AsString() // normalizes
	return strings.Map(func(r rune) rune {
		if unicode.IsSpace(r) {
			return -1
		}
		return r
	}, s)
}

func canonNum(f *big.Float) string { return "#" + f.Text('p', 0) }

// canonModel is the canonical form of a model expression.
func canonModel(e *gen.Expr) string {
	var b strings.Builder
	cm(&b, e)
	return b.String()
}

func cm(b *strings.Builder, e *gen.Expr) {
	list := func(op string, xs ...*gen.Expr) {
		b.WriteString("(" + op)
		for _, x := range xs {
			b.WriteByte(' ')
			cm(b, x)
		}
		b.WriteByte(')')
	}
	switch e.Kind {
	case gen.KNum:
		b.WriteString(canonNum(gen.ParseNum(e.Text).AsBigFloat()))
	case gen.KBool:
		b.WriteString(e.Text)
	case gen.KNull:
		b.WriteString("null")
	case gen.KStr, gen.KHeredoc:
		if len(e.Parts) == 1 && e.Parts[0].Kind == gen.PInterp {
			list("wrap", e.Parts[0].X)
			return
		}
		cmParts(b, e.Parts)
	case gen.KVar:
		b.WriteString("$" + e.Text)
	case gen.KItem:
		b.WriteString("@")
	case gen.KAttr:
		list("attr ."+e.Text, e.X[0])
	case gen.KIndex:
		list("index", e.X[0], e.X[1])
	case gen.KLegacy:
		list("index", e.X[0], gen.Num(e.Text))
	case gen.KAttrSplat, gen.KFullSplat:
		list("splat", e.X[0], e.X[1])
	case gen.KTuple:
		list("tuple", e.X...)
	case gen.KObject:
		b.WriteString("(object")
		for i := 0; i < len(e.X); i += 2 {
			b.WriteString(" [")
			if e.Keys[i/2] == gen.KeyIdent {
				b.WriteString("key:" + e.X[i].Text)
			} else {
				cm(b, e.X[i])
			}
			b.WriteByte(' ')
			cm(b, e.X[i+1])
			b.WriteByte(']')
		}
		b.WriteByte(')')
	case gen.KForTuple, gen.KForObject:
		fmt.Fprintf(b, "(for %q %q %v ", e.Key, e.Val, e.Flag)
		cm(b, e.X[0])
		b.WriteByte(' ')
		if e.Kind == gen.KForObject {
			cm(b, e.X[3])
			b.WriteString("=>")
		}
		cm(b, e.X[1])
		if e.X[2] != nil {
			b.WriteString(" if ")
			cm(b, e.X[2])
		}
		b.WriteByte(')')
	case gen.KCond:
		list("cond", e.X...)
	case gen.KBin:
		list(e.Text, e.X...)
	case gen.KUn:
		list("unary"+e.Text, e.X...)
	case gen.KCall:
		list(fmt.Sprintf("call %s %v", e.Text, e.Flag), e.X...)
	default:
		panic("unknown kind")
	}
}

func cmParts(b *strings.Builder, parts []*gen.Part) {
	b.WriteString("(tmpl")
	lit := ""
	flush := func() {
		if lit != "" {
			fmt.Fprintf(b, " %q", noSpace(lit))
		}
		lit = ""
	}
	for _, p := range parts {
		if p.Kind == gen.PLit {
			lit += noSpace(p.Text)
			continue
		}
		flush()
		b.WriteByte(' ')
		switch p.Kind {
		case gen.PInterp:
			cm(b, p.X)
		case gen.PIf:
			b.WriteString("(cond ")
			cm(b, p.X)
			b.WriteByte(' ')
			cmParts(b, p.Then)
			b.WriteByte(' ')
			cmParts(b, p.Else)
			b.WriteByte(')')
		case gen.PFor:
			fmt.Fprintf(b, "(join (for %q %q false ", p.Key, p.Val)
			cm(b, p.X)
			b.WriteByte(' ')
			cmParts(b, p.Then)
			b.WriteString("))")
		}
	}
	flush()
	b.WriteByte(')')
}

var opNames = map[*hclsyntax.Operation]string{
	hclsyntax.OpLogicalOr:          "||",
	hclsyntax.OpLogicalAnd:         "&&",
	hclsyntax.OpLogicalNot:         "!",
	hclsyntax.OpEqual:              "==",
	hclsyntax.OpNotEqual:           "!=",
	hclsyntax.OpGreaterThan:        ">",
	hclsyntax.OpGreaterThanOrEqual: ">=",
	hclsyntax.OpLessThan:           "<",
	hclsyntax.OpLessThanOrEqual:    "<=",
	hclsyntax.OpAdd:                "+",
	hclsyntax.OpSubtract:           "-",
	hclsyntax.OpMultiply:           "*",
	hclsyntax.OpDivide:             "/",
	hclsyntax.OpModulo:             "%",
	hclsyntax.OpNegate:             "-",
}

// canonAST is the canonical form of a parsed expression.
func canonAST(e hclsyntax.Expression) string {
	var b strings.Builder
	ca(&b, e)
	return b.String()
}

func canonVal(b *strings.Builder, v cty.Value) {
	switch {
	case v.IsNull():
		b.WriteString("null")
	case v.Type() == cty.Bool:
		fmt.Fprint(b, v.True())
	case v.Type() == cty.Number:
		b.WriteString(canonNum(v.AsBigFloat()))
	case v.Type() == cty.String:
		s := noSpace(v.AsString())
		if s == "" {
			b.WriteString("(tmpl)")
		} else {
			fmt.Fprintf(b, "(tmpl %q)", s)
		}
	default:
		fmt.Fprintf(b, "%#v", v)
	}
}

func ca(b *strings.Builder, e hclsyntax.Expression) {
	list := func(op string, xs ...hclsyntax.Expression) {
		b.WriteString("(" + op)
		for _, x := range xs {
			b.WriteByte(' ')
			ca(b, x)
		}
		b.WriteByte(')')
	}
	switch t := e.(type) {
	case *hclsyntax.LiteralValueExpr:
		canonVal(b, t.Val)
	case *hclsyntax.ScopeTraversalExpr:
		b.WriteString(canonTraversal("$"+t.Traversal.RootName(), t.Traversal[1:]))
	case *hclsyntax.RelativeTraversalExpr:
		b.WriteString(canonTraversal(canonAST(t.Source), t.Traversal))
	case *hclsyntax.AnonSymbolExpr:
		b.WriteString("@")
	case *hclsyntax.FunctionCallExpr:
		list(fmt.Sprintf("call %s %v", t.Name, t.ExpandFinal), t.Args...)
	case *hclsyntax.ConditionalExpr:
		list("cond", t.Condition, t.TrueResult, t.FalseResult)
	case *hclsyntax.IndexExpr:
		list("index", t.Collection, t.Key)
	case *hclsyntax.TupleConsExpr:
		list("tuple", t.Exprs...)
	case *hclsyntax.ObjectConsExpr:
		b.WriteString("(object")
		for _, it := range t.Items {
			b.WriteString(" [")
			ca(b, it.KeyExpr)
			b.WriteByte(' ')
			ca(b, it.ValueExpr)
			b.WriteByte(']')
		}
		b.WriteByte(')')
	case *hclsyntax.ObjectConsKeyExpr:
		// A bare word used as a key is its own value.
		if kw := hcl.ExprAsKeyword(t); kw != "" {
			b.WriteString("key:" + kw)
			return
		}
		ca(b, t.Wrapped)
	case *hclsyntax.ForExpr:
		fmt.Fprintf(b, "(for %q %q %v ", t.KeyVar, t.ValVar, t.Group)
		ca(b, t.CollExpr)
		b.WriteByte(' ')
		if t.KeyExpr != nil {
			ca(b, t.KeyExpr)
			b.WriteString("=>")
		}
		ca(b, t.ValExpr)
		if t.CondExpr != nil {
			b.WriteString(" if ")
			ca(b, t.CondExpr)
		}
		b.WriteByte(')')
	case *hclsyntax.SplatExpr:
		list("splat", t.Source, t.Each)
	case *hclsyntax.BinaryOpExpr:
		list(opNames[t.Op], t.LHS, t.RHS)
	case *hclsyntax.UnaryOpExpr:
		list("unary"+opNames[t.Op], t.Val)
	case *hclsyntax.TemplateExpr:
		b.WriteString("(tmpl")
		lit := ""
		flush := func() {
			if lit != "" {
				fmt.Fprintf(b, " %q", noSpace(lit))
			}
			lit = ""
		}
		for _, p := range t.Parts {
			if l, ok := p.(*hclsyntax.LiteralValueExpr); ok && l.Val.Type() == cty.String && !l.Val.IsNull() {
				lit += noSpace(l.Val.AsString())
				continue
			}
			flush()
			b.WriteByte(' ')
			ca(b, p)
		}
		flush()
		b.WriteByte(')')
	case *hclsyntax.TemplateJoinExpr:
		list("join", t.Tuple)
	case *hclsyntax.TemplateWrapExpr:
		list("wrap", t.Wrapped)
	default:
		fmt.Fprintf(b, "?%T", e)
	}
}

func canonTraversal(base string, steps hcl.Traversal) string {
	for _, s := range steps {
		switch t := s.(type) {
		case hcl.TraverseAttr:
			base = "(attr ." + t.Name + " " + base + ")"
		case hcl.TraverseIndex:
			var b strings.Builder
			canonVal(&b, t.Key)
			base = "(index " + base + " " + b.String() + ")"
		default:
			base = fmt.Sprintf("(?%T %s)", s, base)
		}
	}
	return base
}
