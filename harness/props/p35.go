package props

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"sort"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/hashicorp/hcl2/hclpack"
	"github.com/zclconf/go-cty/cty"
)

func init() {
	register(&mon.Prop{
		ID: "P35",
		Rule: "decoding specifications are sent through gob and the received ones used on the same bodies (valid and broken; native, JSON, packed), compared with the originals in implied type and schema, nested specifications, variables, values and errors; " +
			"and the source range answered for each specification is compared with the place of the item that it takes its value from; distinct = (form, specification shape, body shape)",
		Assumptions: []string{
			"specifications with expressions or functions in them can't be sent (Go functions and interfaces outside the package), nor literals and types that the type library can't send (only primitive literals and no placeholder types are used)",
			"source ranges are judged for bodies without errors only (best effort otherwise)",
		},
		Quick:    60000,
		Thorough: 600000,
		Require:  []string{"sent", "same value after sending", "same errors after sending", "range of attribute", "range of missing item", "range of label", "range of attributes block", "range of expression", "range of whole body"},
		Run:      runP35,
	})
}

// sendable changes a specification to one that gob can transport.
func sendable(s *gen.Spec) *gen.Spec {
	switch s.Kind {
	case gen.STransExpr, gen.STransFunc:
		return sendable(s.Kids[0])
	case gen.SExpr:
		return &gen.Spec{Kind: gen.SLiteral, Val: cty.StringVal("x")}
	case gen.SLiteral:
		if !s.Val.Type().IsPrimitiveType() || !s.Val.IsKnown() {
			return &gen.Spec{Kind: gen.SLiteral, Val: cty.NumberIntVal(7)}
		}
		return s
	}
	n := *s
	n.Kids = nil
	if (s.Kind == gen.SAttr || s.Kind == gen.SBlockAttrs) && hasDyn(s.Ty) {
		n.Ty = cty.String
	}
	for _, k := range s.Kids {
		n.Kids = append(n.Kids, sendable(k))
	}
	return &n
}

// envelope is how a specification is sent in practice, as a field.
type envelope struct {
	Name string
	Spec hcldec.Spec
}

func runP35(c *mon.Case) {
	env := gen.NewEnv(c.Rand)
	g := &gen.G{R: c.Rand, Env: env, Hostile: 40}
	s := gen.GenSpec(g, c.Range(0, 3))
	send := c.Bool()
	if send {
		s = sendable(s)
	}
	form := c.Pick("native", "json", "packed")
	o := gen.SpecBodyOpts{}
	if send && c.Chance(1, 3) {
		o = gen.SpecBodyOpts{Faults: c.Range(4, 25), Mixed: form != "json"}
	}
	b := gen.GenSpecBody(g, s, o)
	c.Input("scope", envStr(env))
	c.Input("specification", specStr(s))
	spec := decSpec(c, s)
	var body hcl.Body
	var src string
	if form == "json" {
		src = gen.JSONText(c.Rand, gen.JSONBodyValue(c.Rand, b, gen.JSONOpts{}))
		c.Input(form, src)
		body = parseJSON(c, src).Body
	} else {
		src = gen.NewW(c.Rand).Config(b)
		c.Input(form, src)
		body = parseNative(c, src).Body
		if form == "packed" {
			pb, diags := hclpack.PackNativeFile([]byte(src), "t.hcl", start)
			if diags.HasErrors() {
				c.Failf("well-formed configuration rejected: %s\nsource: %s", diagStr(diags), q(src))
			}
			body = pb
		}
	}
	ctx := evalCtx(env)
	decode := func(spec hcldec.Spec) (v cty.Value, diags hcl.Diagnostics, msg string) {
		msg = mon.Guard(func() { v, diags = hcldec.Decode(body, spec, ctx) })
		return v, diags, msg
	}
	v, diags, msg := decode(spec)
	if msg != "" {
		c.Skip("crash in decoding, judged elsewhere")
	}
	if send {
		var got envelope
		var buf bytes.Buffer
		checkPanic(c, "sending", func() {
			if err := gob.NewEncoder(&buf).Encode(&envelope{"e", spec}); err != nil {
				c.Failf("specification can't be sent: %s", err)
			}
		})
		checkPanic(c, "receiving", func() {
			if err := gob.NewDecoder(&buf).Decode(&got); err != nil {
				c.Failf("specification can't be received: %s", err)
			}
		})
		c.Event("sent")
		if got.Name != "e" {
			c.Failf("other field changed to %q", got.Name)
		}
		a, b := hcldec.ImpliedType(spec), hcldec.ImpliedType(got.Spec)
		if !a.Equals(b) {
			c.Failf("implied type %#v before sending, %#v after", a, b)
		}
		if a, b := schemaStr(hcldec.ImpliedSchema(spec)), schemaStr(hcldec.ImpliedSchema(got.Spec)); a != b {
			c.Failf("implied schema before sending: %s\nafter: %s", a, b)
		}
		checkChildTypes(c, s, got.Spec)
		v2, diags2, msg := decode(got.Spec)
		if msg != "" {
			c.Failf("crash after sending only: %s", msg)
		}
		if diags.HasErrors() != diags2.HasErrors() {
			c.Failf("errors before sending: %s\nafter: %s", diagStr(diags), diagStr(diags2))
		}
		if !diags.HasErrors() {
			// The type library takes an empty tuple type that was sent for
			// another one in sets.
			if !gen.SameValue(v, v2) && fmt.Sprintf("%#v", v) != fmt.Sprintf("%#v", v2) {
				c.Failf("value before sending: %s\nafter: %s", valStr(v), valStr(v2))
			}
			c.Event("same value after sending")
		} else {
			c.Event("same errors after sending")
		}
		x, y := travSet(hcldec.Variables(body, spec)), travSet(hcldec.Variables(body, got.Spec))
		if x != y {
			c.Failf("variables before sending: %s\nafter: %s", x, y)
		}
		c.Sig(form, "send", s.Shape(), diags.HasErrors())
		c.Sample("sent: " + clip(specStr(s), 200))
		spec = got.Spec
	}
	if diags.HasErrors() {
		return
	}
	checkSourceRange(c, body, nil, s, spec)
	c.Sig(form, s.Shape(), b.Shape())
}

func schemaStr(s *hcl.BodySchema) string {
	var ss []string
	for _, a := range s.Attributes {
		ss = append(ss, fmt.Sprintf("%s required=%v", a.Name, a.Required))
	}
	for _, b := range s.Blocks {
		ss = append(ss, fmt.Sprintf("%s %q", b.Type, b.LabelNames))
	}
	sort.Strings(ss)
	return strings.Join(ss, "; ")
}

func travSet(ts []hcl.Traversal) string {
	var ss []string
	for _, t := range ts {
		ss = append(ss, fmt.Sprintf("%s %v", t.RootName(), t.SourceRange()))
	}
	sort.Strings(ss)
	return strings.Join(ss, "; ")
}

// checkSourceRange compares the source range answered for a specification,
// and for each of those that it consists of, with the place of the item in
// the body. The labels are those of the block that the body belongs to.
func checkSourceRange(c *mon.Case, body hcl.Body, labels []hcl.Range, s *gen.Spec, spec hcldec.Spec) {
	if labels == nil {
		// Labels can't be given from outside.
		var got hcl.Range
		checkPanic(c, "source range", func() { got = hcldec.SourceRange(body, spec) })
		want, what := itemRange(body, nil, s, spec)
		if got != want {
			c.Failf("source range of %s is %v, expected %v (%s)", clip(specStr(s), 300), got, want, what)
		}
		c.Event("range of " + what)
	}
	switch s.Kind {
	case gen.SObject:
		for i, k := range s.Kids {
			checkSourceRange(c, body, labels, k, spec.(hcldec.ObjectSpec)[s.Keys[i]])
		}
	case gen.STuple:
		for i, k := range s.Kids {
			checkSourceRange(c, body, labels, k, spec.(hcldec.TupleSpec)[i])
		}
	}
}

func itemRange(body hcl.Body, labels []hcl.Range, s *gen.Spec, spec hcldec.Spec) (hcl.Range, string) {
	content, _, _ := body.PartialContent(hcldec.ImpliedSchema(spec))
	missing := func() (hcl.Range, string) { return body.MissingItemRange(), "missing item" }
	switch s.Kind {
	case gen.SObject, gen.STuple:
		return body.MissingItemRange(), "whole body"
	case gen.SAttr:
		if a := content.Attributes[s.Name]; a != nil {
			return a.Expr.Range(), "attribute"
		}
		return missing()
	case gen.SLiteral:
		return hcl.Range{Filename: "<unknown>"}, "literal"
	case gen.SExpr:
		return spec.(*hcldec.ExprSpec).Expr.Range(), "expression"
	case gen.SLabel:
		return labels[s.Index], "label"
	case gen.SDefault:
		return itemRange(body, labels, s.Kids[0], spec.(*hcldec.DefaultSpec).Primary)
	case gen.STransExpr:
		return itemRange(body, labels, s.Kids[0], spec.(*hcldec.TransformExprSpec).Wrapped)
	case gen.STransFunc:
		return itemRange(body, labels, s.Kids[0], spec.(*hcldec.TransformFuncSpec).Wrapped)
	}
	var blk *hcl.Block
	for _, b := range content.Blocks {
		if b.Type == s.Name {
			blk = b
			break
		}
	}
	if blk == nil {
		return missing()
	}
	ls := blk.LabelRanges
	var nested hcldec.Spec
	switch t := spec.(type) {
	case *hcldec.BlockSpec:
		nested = t.Nested
	case *hcldec.BlockListSpec:
		nested = t.Nested
	case *hcldec.BlockTupleSpec:
		nested = t.Nested
	case *hcldec.BlockSetSpec:
		nested = t.Nested
	case *hcldec.BlockMapSpec:
		nested, ls = t.Nested, ls[len(s.Labels):]
	case *hcldec.BlockObjectSpec:
		nested, ls = t.Nested, ls[len(s.Labels):]
	case *hcldec.BlockAttrsSpec:
		return blk.DefRange, "attributes block"
	}
	return itemRange(blk.Body, ls, s.Kids[0], nested)
}
