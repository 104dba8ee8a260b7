package props

import (
	"fmt"
	"sort"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/ext/transform"
	"github.com/hashicorp/hcl2/ext/typeexpr"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclpack"
	"github.com/zclconf/go-cty/cty"
)

func init() {
	register(&mon.Prop{
		ID: "P21",
		Rule: "type expressions made from types of any nesting, some with one fault, and arbitrary expressions, in native, JSON and packed form with free layout; acceptance and the type are compared with the reference reading of the model, " +
			"and types are rendered and read back; distinct = (form, source)",
		Assumptions: []string{
			"attribute names are identifiers, as documented, and the first one written isn't \"for\", which would begin a for expression",
			"objects with the same attribute twice and calls with argument expansion aren't judged",
		},
		Quick:    200000,
		Thorough: 1000000,
		Require:  []string{"type as written", "constraint as written", "refused", "any refused as exact type", "rendered and read back", "placeholder rendered and read back"},
		Run:      runP21,
	})
}

var attrNames = []string{"a", "b", "name", "id", "if", "in", "true", "null", "any", "list", "string", "object", "naïve", "Ω", "世界", "_u", "with-dash", "x1", "for", "else"}

// anyType makes a type, possibly with placeholders in it.
func anyType(c *mon.Case, depth int, holes bool) cty.Type {
	if depth <= 0 || c.Chance(1, 4) {
		switch n := c.Intn(8); {
		case n < 3:
			return cty.String
		case n < 5:
			return cty.Number
		case n < 7 || !holes:
			return cty.Bool
		}
		return cty.DynamicPseudoType
	}
	switch c.Intn(5) {
	case 0:
		return cty.List(anyType(c, depth-1, holes))
	case 1:
		return cty.Set(anyType(c, depth-1, holes))
	case 2:
		return cty.Map(anyType(c, depth-1, holes))
	case 3:
		l := []cty.Type{}
		for n := c.Size(3, 12); n > 0; n-- {
			l = append(l, anyType(c, depth-1, holes))
		}
		return cty.Tuple(l)
	}
	m := map[string]cty.Type{}
	for n := c.Size(3, 10); n > 0; n-- {
		m[attrNames[c.Intn(len(attrNames))]] = anyType(c, depth-1, holes)
	}
	return cty.Object(m)
}

// typeSrc expresses a type in the model of expressions.
func typeSrc(c *mon.Case, ty cty.Type) *gen.Expr {
	call := func(name string, x *gen.Expr) *gen.Expr {
		return &gen.Expr{Kind: gen.KCall, Text: name, X: []*gen.Expr{x}}
	}
	switch {
	case ty == cty.String:
		return gen.Var("string")
	case ty == cty.Number:
		return gen.Var("number")
	case ty == cty.Bool:
		return gen.Var("bool")
	case ty == cty.DynamicPseudoType:
		return gen.Var("any")
	case ty.IsListType():
		return call("list", typeSrc(c, ty.ElementType()))
	case ty.IsSetType():
		return call("set", typeSrc(c, ty.ElementType()))
	case ty.IsMapType():
		return call("map", typeSrc(c, ty.ElementType()))
	case ty.IsTupleType():
		t := &gen.Expr{Kind: gen.KTuple}
		for _, e := range ty.TupleElementTypes() {
			t.X = append(t.X, typeSrc(c, e))
		}
		return call("tuple", t)
	}
	o := &gen.Expr{Kind: gen.KObject}
	var names []string
	for n := range ty.AttributeTypes() {
		names = append(names, n)
	}
	sort.Strings(names)
	for i := len(names) - 1; i > 0; i-- {
		j := c.Intn(i + 1)
		names[i], names[j] = names[j], names[i]
	}
	for _, n := range names {
		o.X = append(o.X, gen.Var(n), typeSrc(c, ty.AttributeType(n)))
		o.Keys = append(o.Keys, gen.KeyIdent)
	}
	return call("object", o)
}

// forFirst is whether an object constructor begins with the word that begins
// for expressions.
func forFirst(e *gen.Expr) bool {
	found := false
	e.Walk(func(x *gen.Expr) {
		if x.Kind == gen.KObject && len(x.X) > 0 && x.Keys[0] == gen.KeyIdent && x.X[0].Text == "for" {
			found = true
		}
		if x.Kind == gen.KTuple && len(x.X) > 0 && x.X[0].Kind == gen.KVar && x.X[0].Text == "for" {
			found = true
		}
	})
	return found
}

// onlyFor is whether a type contains an object type whose only attribute has
// the name that begins for expressions, which can't be written.
func onlyFor(t cty.Type) bool {
	switch {
	case t.IsCollectionType():
		return onlyFor(t.ElementType())
	case t.IsTupleType():
		for _, e := range t.TupleElementTypes() {
			if onlyFor(e) {
				return true
			}
		}
	case t.IsObjectType():
		atys := t.AttributeTypes()
		if _, ok := atys["for"]; ok && len(atys) == 1 {
			return true
		}
		for _, e := range atys {
			if onlyFor(e) {
				return true
			}
		}
	}
	return false
}

// readType is the reference reading of a type expression.
func readType(e *gen.Expr, constraint bool) (ty cty.Type, ok, sure bool) {
	switch e.Kind {
	case gen.KVar:
		switch e.Text {
		case "string":
			return cty.String, true, true
		case "number":
			return cty.Number, true, true
		case "bool":
			return cty.Bool, true, true
		case "any":
			return cty.DynamicPseudoType, constraint, true
		}
	case gen.KCall:
		if e.Flag {
			return cty.NilType, false, false
		}
		if len(e.X) != 1 {
			return cty.NilType, false, true
		}
		arg := e.X[0]
		switch e.Text {
		case "list", "set", "map":
			ety, ok, sure := readType(arg, constraint)
			if !ok {
				return cty.NilType, false, sure
			}
			switch e.Text {
			case "list":
				return cty.List(ety), true, sure
			case "set":
				return cty.Set(ety), true, sure
			}
			return cty.Map(ety), true, sure
		case "tuple":
			if arg.Kind != gen.KTuple {
				return cty.NilType, false, true
			}
			l := []cty.Type{}
			ok, sure := true, true
			for _, x := range arg.X {
				t, o, s := readType(x, constraint)
				ok, sure = ok && o, sure && s
				l = append(l, t)
			}
			if !ok || !sure {
				return cty.NilType, ok, sure
			}
			return cty.Tuple(l), true, true
		case "object":
			if arg.Kind != gen.KObject {
				return cty.NilType, false, true
			}
			m := map[string]cty.Type{}
			ok, sure := true, true
			for i := 0; i < len(arg.X); i += 2 {
				k := arg.X[i]
				if arg.Keys[i/2] != gen.KeyIdent {
					ok = false
					continue
				}
				name := k.Text
				if k.Kind == gen.KNull {
					name = "null"
				}
				if _, dup := m[name]; dup {
					sure = false
				}
				t, o, s := readType(arg.X[i+1], constraint)
				ok, sure = ok && o, sure && s
				m[name] = t
			}
			if !ok || !sure {
				return cty.NilType, ok, sure
			}
			return cty.Object(m), true, true
		}
	}
	return cty.NilType, false, true
}

// breakType makes one change somewhere in a type expression.
func breakType(c *mon.Case, g *gen.G, e *gen.Expr) *gen.Expr {
	n := c.Intn(e.Size())
	var walk func(x *gen.Expr) *gen.Expr
	walk = func(x *gen.Expr) *gen.Expr {
		n--
		if n == -1 {
			switch c.Intn(12) {
			case 0:
				return gen.Var(c.Pick("strin", "str", "list", "object", "tuple", "map", "set", "Any", "STRING", "true", "null", "dynamic"))
			case 1:
				return gen.Lit(c.Pick("string", "a", ""))
			case 2:
				return gen.Num("1")
			case 3:
				return &gen.Expr{Kind: gen.KCall, Text: c.Pick("string", "any", "bool", "list", "tuple", "object", "map", "vector")}
			case 4:
				return &gen.Expr{Kind: gen.KCall, Text: c.Pick("string", "any", "list", "set", "tuple", "object", "lst"), X: []*gen.Expr{x}}
			case 5:
				return &gen.Expr{Kind: gen.KCall, Text: c.Pick("list", "set", "map", "tuple", "object"), X: []*gen.Expr{x, gen.Var("string")}}
			case 6:
				return &gen.Expr{Kind: gen.KTuple, X: []*gen.Expr{x}}
			case 7:
				return &gen.Expr{Kind: gen.KAttr, Text: "a", X: []*gen.Expr{gen.Var("string")}}
			case 8:
				return &gen.Expr{Kind: gen.KObject, X: []*gen.Expr{gen.Var("a"), x}, Keys: []gen.KeyStyle{gen.KeyIdent}}
			case 9:
				return g.Expr(gen.WAny, 2)
			case 10:
				if x.Kind == gen.KObject && len(x.X) > 0 {
					y := *x
					y.X = append([]*gen.Expr(nil), x.X...)
					y.Keys = append([]gen.KeyStyle(nil), x.Keys...)
					i := c.Intn(len(y.Keys))
					switch c.Intn(3) {
					case 0:
						y.Keys[i] = gen.KeyStr
						y.X[2*i] = gen.Lit(y.X[2*i].Text)
					case 1:
						y.Keys[i] = gen.KeyParen
					case 2:
						y.Keys[i] = gen.KeyNum
						y.X[2*i] = gen.Num("1")
					}
					return &y
				}
				return gen.Var("any")
			}
			return &gen.Expr{Kind: gen.KCond, X: []*gen.Expr{{Kind: gen.KBool, Text: "true"}, x, gen.Var("string")}}
		}
		y := *x
		y.X = nil
		for i, k := range x.X {
			if x.Kind == gen.KObject && i%2 == 0 {
				n--
				y.X = append(y.X, k)
				continue
			}
			y.X = append(y.X, walk(k))
		}
		return &y
	}
	return walk(e)
}

func runP21(c *mon.Case) {
	env := gen.NewEnv(c.Rand)
	g := &gen.G{R: c.Rand, Env: env, Hostile: 30}
	ty := anyType(c, c.Size(3, 7), c.Bool())
	e := typeSrc(c, ty)
	switch n := c.Intn(12); {
	case n < 4:
		e = breakType(c, g, e)
	case n == 4:
		e = g.Expr(gen.WAny, c.Size(2, 4))
	default:
		if got, ok, sure := readType(e, true); !ok || !sure || !got.Equals(ty) {
			panic("reference reading")
		}
	}
	if !forFirst(e) {
		readTypeExpr(c, e)
	}

	// rendering and reading back
	var src string
	checkPanic(c, "rendering a type", func() { src = typeexpr.TypeString(ty) })
	c.Input("rendered", src)
	if onlyFor(ty) {
		return
	}
	for _, form := range []string{"native", "json", "packed"} {
		x, diags := exprIn(c, form, src)
		if diags.HasErrors() {
			c.Failf("rendered type isn't an expression: %s\n%s: %s", diagStr(diags), form, q(src))
		}
		back, diags := typeexpr.TypeConstraint(x)
		if diags.HasErrors() || !back.Equals(ty) {
			c.Failf("type %#v is rendered as %s\nread back: %#v %s\nform: %s", ty, src, back, diagStr(diags), form)
		}
		if hasDyn(ty) {
			c.Event("placeholder rendered and read back")
			if _, diags := typeexpr.Type(x); !diags.HasErrors() {
				c.Failf("type with a placeholder accepted as exact\n%s: %s", form, q(src))
			}
			continue
		}
		back, diags = typeexpr.Type(x)
		if diags.HasErrors() || !back.Equals(ty) {
			c.Failf("type %#v is rendered as %s\nread back: %#v %s\nform: %s", ty, src, back, diagStr(diags), form)
		}
		c.Event("rendered and read back")
	}
}

// exprIn parses an expression in the given form.
func exprIn(c *mon.Case, form, src string) (hcl.Expression, hcl.Diagnostics) {
	switch form {
	case "json":
		obj := &gen.JObj{}
		obj.Add("type", src)
		f := parseJSON(c, gen.JSONText(c.Rand, obj))
		attrs, diags := f.Body.JustAttributes()
		if attrs["type"] == nil {
			c.Failf("JSON attribute missing: %s", diagStr(diags))
		}
		return attrs["type"].Expr, diags
	case "packed":
		px := &hclpack.Expression{Source: []byte(src), SourceType: hclpack.ExprNative}
		px.Range_.Start = start
		return px, nil
	case "transformed":
		f := parseNative(c, "type = "+src+"\n")
		attrs, diags := transform.Deep(f.Body, transform.TransformerFunc(func(b hcl.Body) hcl.Body { return b })).JustAttributes()
		return attrs["type"].Expr, diags
	}
	return hclsyntax.ParseExpression([]byte(src), "t.hcl", start)
}

func readTypeExpr(c *mon.Case, e *gen.Expr) {
	form := c.Pick("native", "native", "json", "packed")
	src, _ := gen.RenderExpr(c.Rand, e)
	if form == "json" && e.Kind == gen.KVar {
		src = e.Text // without parentheses, which are no part of a reference
	}
	c.Input(form, src)
	x, diags := exprIn(c, form, src)
	if diags.HasErrors() {
		c.Failf("well-formed expression rejected: %s\n%s: %s", diagStr(diags), form, q(src))
	}
	for _, constraint := range []bool{false, true} {
		want, ok, sure := readType(e, constraint)
		var got cty.Type
		var diags hcl.Diagnostics
		checkPanic(c, "reading a type", func() {
			if constraint {
				got, diags = typeexpr.TypeConstraint(x)
			} else {
				got, diags = typeexpr.Type(x)
			}
		})
		if !sure {
			continue
		}
		if ok == diags.HasErrors() {
			c.Failf("type constraint %v: reported: %s\nwell formed: %v\n%s: %s", constraint, diagStr(diags), ok, form, q(src))
		}
		switch {
		case !ok && !constraint && hasDynOK(e):
			c.Event("any refused as exact type")
		case !ok:
			c.Event("refused")
		case !got.Equals(want):
			c.Failf("type constraint %v: got %#v\nwritten: %#v\n%s: %s", constraint, got, want, form, q(src))
		case constraint:
			c.Event("constraint as written")
		default:
			c.Event("type as written")
		}
		for _, d := range diags {
			if d.Subject == nil {
				c.Failf("diagnostic without a place\n%s: %s", form, q(src))
			}
		}
	}
	c.Sig(form, src)
	c.Sample(fmt.Sprintf("%s %s", form, clip(src, 150)))
}

func hasDynOK(e *gen.Expr) bool {
	_, ok, _ := readType(e, true)
	return ok
}
