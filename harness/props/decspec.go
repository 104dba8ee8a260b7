package props

import (
	"fmt"
	"sort"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hcldec"
)

// decSpec converts a specification from the model.
func decSpec(c *mon.Case, s *gen.Spec) hcldec.Spec {
	kid := func(i int) hcldec.Spec { return decSpec(c, s.Kids[i]) }
	expr := func() hcl.Expression {
		src, _ := gen.RenderExpr(c.Rand, s.X)
		x, diags := hclsyntax.ParseExpression([]byte(src), "spec.hcl", start)
		if diags.HasErrors() {
			c.Failf("well-formed expression rejected: %s\nsource: %s", diagStr(diags), q(src))
		}
		return x
	}
	switch s.Kind {
	case gen.SObject:
		o := hcldec.ObjectSpec{}
		for i := range s.Kids {
			o[s.Keys[i]] = kid(i)
		}
		return o
	case gen.STuple:
		o := hcldec.TupleSpec{}
		for i := range s.Kids {
			o = append(o, kid(i))
		}
		return o
	case gen.SAttr:
		return &hcldec.AttrSpec{Name: s.Name, Type: s.Ty, Required: s.Required}
	case gen.SLiteral:
		return &hcldec.LiteralSpec{Value: s.Val}
	case gen.SExpr:
		return &hcldec.ExprSpec{Expr: expr()}
	case gen.SLabel:
		return &hcldec.BlockLabelSpec{Index: s.Index, Name: s.Name}
	case gen.SBlock:
		return &hcldec.BlockSpec{TypeName: s.Name, Nested: kid(0), Required: s.Required}
	case gen.SBlockList:
		return &hcldec.BlockListSpec{TypeName: s.Name, Nested: kid(0), MinItems: s.Min, MaxItems: s.Max}
	case gen.SBlockTuple:
		return &hcldec.BlockTupleSpec{TypeName: s.Name, Nested: kid(0), MinItems: s.Min, MaxItems: s.Max}
	case gen.SBlockSet:
		return &hcldec.BlockSetSpec{TypeName: s.Name, Nested: kid(0), MinItems: s.Min, MaxItems: s.Max}
	case gen.SBlockMap:
		return &hcldec.BlockMapSpec{TypeName: s.Name, LabelNames: s.Labels, Nested: kid(0)}
	case gen.SBlockObject:
		return &hcldec.BlockObjectSpec{TypeName: s.Name, LabelNames: s.Labels, Nested: kid(0)}
	case gen.SBlockAttrs:
		return &hcldec.BlockAttrsSpec{TypeName: s.Name, ElementType: s.Ty, Required: s.Required}
	case gen.SDefault:
		return &hcldec.DefaultSpec{Primary: kid(0), Default: kid(1)}
	case gen.STransExpr:
		return &hcldec.TransformExprSpec{Wrapped: kid(0), Expr: expr(), VarName: "val", TransformCtx: &hcl.EvalContext{Functions: gen.Funcs}}
	case gen.STransFunc:
		return &hcldec.TransformFuncSpec{Wrapped: kid(0), Func: gen.TransFuncs[s.Func]}
	}
	panic("unhandled spec")
}

// specStr describes a specification for replay.
func specStr(s *gen.Spec) string { return clip(specStr1(s, ""), 4000) }

var specNames = []string{"object", "tuple", "attr", "literal", "expr", "label", "block", "block_list", "block_tuple", "block_set", "block_map", "block_object", "block_attrs", "default", "transform_expr", "transform_func"}

func specStr1(s *gen.Spec, in string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s%s", in, specNames[s.Kind])
	if s.Name != "" {
		fmt.Fprintf(&b, " %q", s.Name)
	}
	if s.Required {
		b.WriteString(" required")
	}
	if len(s.Labels) > 0 {
		fmt.Fprintf(&b, " labels=%d", len(s.Labels))
	}
	if s.Min != 0 || s.Max != 0 {
		fmt.Fprintf(&b, " min=%d max=%d", s.Min, s.Max)
	}
	switch s.Kind {
	case gen.SAttr, gen.SBlockAttrs:
		fmt.Fprintf(&b, " %#v", s.Ty)
	case gen.SLiteral:
		fmt.Fprintf(&b, " %#v", s.Val)
	case gen.SLabel:
		fmt.Fprintf(&b, " %d", s.Index)
	case gen.STransFunc:
		fmt.Fprintf(&b, " %s", s.Func)
	case gen.SExpr, gen.STransExpr:
		fmt.Fprintf(&b, " %s", gen.Source(s.X))
	}
	b.WriteString("\n")
	for _, k := range s.Kids {
		b.WriteString(specStr1(k, in+"  "))
	}
	return b.String()
}

// parseNative parses configuration that must be valid.
func parseNative(c *mon.Case, src string) *hcl.File {
	f, diags := hclsyntax.ParseConfig([]byte(src), "t.hcl", start)
	if diags.HasErrors() {
		c.Failf("well-formed configuration rejected: %s\nsource: %s", diagStr(diags), q(src))
	}
	return f
}

// parseJSON parses JSON configuration that must be valid.
func parseJSON(c *mon.Case, src string) *hcl.File {
	f, diags := json.Parse([]byte(src), "t.hcl.json")
	if diags.HasErrors() {
		c.Failf("well-formed JSON rejected: %s\nsource: %s", diagStr(diags), q(src))
	}
	return f
}

// diagSet is the diagnostics in a form in which order doesn't matter.
func diagSet(diags hcl.Diagnostics) string {
	var ss []string
	for _, d := range diags {
		s := fmt.Sprintf("%d %s %s", d.Severity, d.Summary, d.Detail)
		if d.Subject != nil {
			s += fmt.Sprintf(" %v", *d.Subject)
		}
		if d.Context != nil {
			s += fmt.Sprintf(" %v", *d.Context)
		}
		ss = append(ss, s)
	}
	sort.Strings(ss)
	return strings.Join(ss, "\n")
}

// rootNames is the set of root names of references, in order.
func rootNames(ts []hcl.Traversal) []string {
	m := map[string]bool{}
	for _, t := range ts {
		if !t.IsRelative() {
			m[t.RootName()] = true
		}
	}
	var out []string
	for n := range m {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func sortedAttrs(m hcl.Attributes) []string {
	var out []string
	for n := range m {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}
