package props

import (
	stdjson "encoding/json"
	"fmt"
	"math/big"
	"strings"
	"unicode/utf8"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/zclconf/go-cty/cty"
	"golang.org/x/text/unicode/norm"
)

func init() {
	register(&mon.Prop{
		ID: "P11",
		Rule: "JSON documents in varying layout and escapes, damaged documents and token soup; acceptance is compared with encoding/json, and every value, member order and literal evaluation with an independent decoding; " +
			"strings and keys evaluated with a scope are compared with the reference interpreter; distinct = (document text class, outcome)",
		Assumptions: []string{
			"text that isn't valid UTF-8 or starts with a byte order mark is not judged",
			"numbers too large for the number representation are not judged",
		},
		Quick:    200000,
		Thorough: 800000,
		Require:  []string{"valid document accepted", "invalid document rejected", "literal value compared", "template value compared", "members in order", "duplicate reported", "duplicate reported by a step", "repeated member in value reported"},
		Run:      runP11,
	})
}

// jsonLit is the value that a JSON value means literally.
func jsonLit(v interface{}) (cty.Value, bool) {
	switch t := v.(type) {
	case nil:
		return cty.NullVal(cty.DynamicPseudoType), true
	case bool:
		return cty.BoolVal(t), true
	case stdjson.Number:
		f, _, err := big.ParseFloat(string(t), 10, 512, big.ToNearestEven)
		if err != nil || f.IsInf() {
			return cty.NilVal, false
		}
		return cty.NumberVal(f), true
	case string:
		return cty.StringVal(t), true
	case []interface{}:
		l := []cty.Value{}
		for _, e := range t {
			v, ok := jsonLit(e)
			if !ok {
				return v, false
			}
			l = append(l, v)
		}
		return cty.TupleVal(l), true
	case *gen.JObj:
		m := map[string]cty.Value{}
		for i, k := range t.Keys {
			k = norm.NFC.String(k)
			if _, dup := m[k]; dup {
				return cty.NilVal, false
			}
			v, ok := jsonLit(t.Vals[i])
			if !ok {
				return v, false
			}
			m[k] = v
		}
		return cty.ObjectVal(m), true
	}
	panic("bad model")
}

// repeats is whether some object has a member twice.
func repeats(v interface{}) bool {
	switch t := v.(type) {
	case []interface{}:
		for _, e := range t {
			if repeats(e) {
				return true
			}
		}
	case *gen.JObj:
		seen := map[string]bool{}
		for i, k := range t.Keys {
			if seen[k] || repeats(t.Vals[i]) {
				return true
			}
			seen[k] = true
		}
	}
	return false
}

// numbersOK is whether all numbers are within the representable range.
func numbersOK(v interface{}) bool {
	switch t := v.(type) {
	case stdjson.Number:
		f, _, err := big.ParseFloat(string(t), 10, 512, big.ToNearestEven)
		return err == nil && !f.IsInf()
	case []interface{}:
		for _, e := range t {
			if !numbersOK(e) {
				return false
			}
		}
	case *gen.JObj:
		for _, e := range t.Vals {
			if !numbersOK(e) {
				return false
			}
		}
	}
	return true
}

func runP11(c *mon.Case) {
	if c.Chance(1, 4) {
		jsonTemplates(c)
		return
	}
	var src string
	switch k := c.Intn(10); {
	case k < 4:
		src = gen.JSONText(c.Rand, gen.JSONDoc(c.Rand, c.Range(1, 5)))
	case k == 4:
		src = gen.JSONText(c.Rand, gen.JSONValue(c.Rand, c.Range(0, 4)))
	case k == 5:
		// repeated members
		o := gen.JSONDoc(c.Rand, 2)
		if n := len(o.Keys); n > 0 {
			at := c.Intn(n)
			o.Add(o.Keys[at], gen.JSONValue(c.Rand, 1))
		}
		if c.Chance(1, 3) {
			outer := gen.JSONDoc(c.Rand, 1)
			outer.Add("x", o)
			o = outer
		}
		src = gen.JSONText(c.Rand, o)
	case k == 6:
		src = gen.JSONSoup(c.Rand)
	case k == 7 && c.Chance(1, 20):
		src = gen.JSONDeep(c.Rand, c.Range(5, 300))
	case k == 7:
		// one wrong structural character
		src = gen.JSONText(c.Rand, gen.JSONDoc(c.Rand, c.Range(1, 4)))
		var at []int
		for i, r := range src {
			if strings.ContainsRune("{}[],:", r) {
				at = append(at, i)
			}
		}
		i := at[c.Intn(len(at))]
		s := c.Pick(",", ",", ":", "[", "]", "{", "}", "")
		switch c.Intn(3) {
		case 0:
			src = src[:i] + s + src[i:]
		case 1:
			src = src[:i+1] + s + src[i+1:]
		default:
			src = src[:i] + s + src[i+1:]
		}
	default:
		src = gen.Mutate(c.Rand, gen.JSONText(c.Rand, gen.JSONDoc(c.Rand, c.Range(1, 4))), "\"", "\\", ",", ":", "{", "}", "[", "]", "0", "-", ".", "e", "+", "true", "nul", "\\u", "\\n", "\t", "//", "۝", "1", "01", "'")
	}
	c.Input("json", src)
	if !utf8.ValidString(src) || strings.HasPrefix(src, "\ufeff") {
		c.Event("not judged")
		return
	}
	model, err := gen.JSONDecode(src)
	var f *hcl.File
	var diags hcl.Diagnostics
	checkPanic(c, "parsing", func() { f, diags = json.Parse([]byte(src), "t.json") })
	if err != nil {
		if !diags.HasErrors() {
			c.Failf("invalid JSON accepted (%s)\nsource: %s", err, q(src))
		}
		c.Event("invalid document rejected")
		c.Sig("invalid", diags[0].Summary, clip(src, 60))
		return
	}
	if !numbersOK(model) {
		c.Event("not judged")
		return
	}
	var objs []*gen.JObj
	rootOK := true
	switch t := model.(type) {
	case *gen.JObj:
		objs = append(objs, t)
	case []interface{}:
		for _, e := range t {
			o, ok := e.(*gen.JObj)
			rootOK = rootOK && ok
			if ok {
				objs = append(objs, o)
			}
		}
	default:
		rootOK = false
	}
	if !rootOK {
		// An array of something else is found out when content is requested.
		if !diags.HasErrors() {
			_, diags = f.Body.Content(&hcl.BodySchema{})
		}
		if !diags.HasErrors() {
			c.Failf("document whose root isn't an object or array of objects accepted\nsource: %s", q(src))
		}
		c.Event("wrong root rejected")
		return
	}
	if diags.HasErrors() {
		c.Failf("valid JSON rejected: %s\nsource: %s", diagStr(diags), q(src))
	}
	c.Event("valid document accepted")
	c.Sig("valid", clip(src, 200))
	c.Sample(clip(src, 300))
	if string(f.Bytes) != src {
		c.Failf("source bytes differ from input\nsource: %s", q(src))
	}
	// All members through a schema.
	schema := &hcl.BodySchema{}
	first := map[string]interface{}{}
	dup := map[string]bool{}
	for _, o := range objs {
		for i, k := range o.Keys {
			if _, ok := first[k]; ok {
				dup[k] = true
				continue
			}
			first[k] = o.Vals[i]
			schema.Attributes = append(schema.Attributes, hcl.AttributeSchema{Name: k})
		}
	}
	content, diags := f.Body.Content(schema)
	if len(dup) > 0 != diags.HasErrors() {
		c.Failf("repeated members: %d; diagnostics: %s\nsource: %s", len(dup), diagStr(diags), q(src))
	}
	if len(dup) > 0 {
		c.Event("duplicate reported")
	}
	if len(content.Attributes) != len(first) {
		c.Failf("%d members delivered, %d expected\nsource: %s", len(content.Attributes), len(first), q(src))
	}
	for k, m := range first {
		attr := content.Attributes[k]
		if attr == nil {
			c.Failf("member %q not delivered\nsource: %s", k, q(src))
		}
		if attr.Name != k {
			c.Failf("member %q delivered as %q\nsource: %s", k, attr.Name, q(src))
		}
		jsonValueOK(c, src, k, attr.Expr, m, 0)
	}
	// The same in two steps.
	var now, later hcl.BodySchema
	for _, a := range schema.Attributes {
		if c.Bool() {
			now.Attributes = append(now.Attributes, a)
		} else {
			later.Attributes = append(later.Attributes, a)
		}
	}
	part, rest, diags := f.Body.PartialContent(&now)
	checkStep := func(what string, schema hcl.BodySchema, got *hcl.BodyContent, diags hcl.Diagnostics) {
		bad := 0
		for _, a := range schema.Attributes {
			if dup[a.Name] {
				bad++
			}
			if attr, all := got.Attributes[a.Name], content.Attributes[a.Name]; attr == nil || attr.NameRange != all.NameRange || attr.Range != all.Range {
				c.Failf("%s: member %q is %v\nof all together: %v\nsource: %s", what, a.Name, attr, all, q(src))
			}
		}
		if bad > 0 != diags.HasErrors() {
			c.Failf("%s: repeated members: %d; diagnostics: %s\nsource: %s", what, bad, diagStr(diags), q(src))
		}
		if len(got.Attributes) != len(schema.Attributes) {
			c.Failf("%s: %d members delivered, %d expected\nsource: %s", what, len(got.Attributes), len(schema.Attributes), q(src))
		}
		if bad > 0 {
			c.Event("duplicate reported by a step")
		}
	}
	checkStep("first step", now, part, diags)
	left, diags := rest.Content(&later)
	checkStep("second step", later, left, diags)
	if _, ok := model.(*gen.JObj); ok && len(dup) > 0 && !(len(dup) == 1 && dup["//"]) {
		if _, diags := f.Body.JustAttributes(); !diags.HasErrors() {
			c.Failf("repeated attributes delivered\nsource: %s", q(src))
		}
	}
	if obj, ok := model.(*gen.JObj); ok && len(dup) == 0 {
		attrs, diags := f.Body.JustAttributes()
		if diags.HasErrors() {
			c.Failf("attributes not delivered: %s\nsource: %s", diagStr(diags), q(src))
		}
		n := 0
		for _, k := range obj.Keys {
			if k != "//" {
				n++
				if attrs[k] == nil {
					c.Failf("attribute %q not delivered\nsource: %s", k, q(src))
				}
			}
		}
		if len(attrs) != n {
			c.Failf("%d attributes delivered, %d expected\nsource: %s", len(attrs), n, q(src))
		}
	}
}

// jsonValueOK compares an expression with the JSON value it stands for.
func jsonValueOK(c *mon.Case, src, what string, x hcl.Expression, m interface{}, depth int) {
	if want, ok := jsonLit(m); ok {
		got, diags := x.Value(nil)
		if diags.HasErrors() {
			c.Failf("%s: literal evaluation failed: %s\nsource: %s", what, diagStr(diags), q(src))
		}
		if !got.RawEquals(want) && !gen.SameValue(got, want) {
			c.Failf("%s: got %s\nwant %s\nsource: %s", what, valStr(got), valStr(want), q(src))
		}
		c.Event("literal value compared")
	} else if repeats(m) {
		if got, diags := x.Value(nil); !diags.HasErrors() {
			c.Failf("%s: object with a repeated member has the value %s\nsource: %s", what, valStr(got), q(src))
		}
		c.Event("repeated member in value reported")
	}
	switch t := m.(type) {
	case []interface{}:
		l, diags := hcl.ExprList(x)
		if diags.HasErrors() || len(l) != len(t) {
			c.Failf("%s: array of %d has %d elements: %s\nsource: %s", what, len(t), len(l), diagStr(diags), q(src))
		}
		if depth < 6 {
			for i := range t {
				jsonValueOK(c, src, fmt.Sprintf("%s[%d]", what, i), l[i], t[i], depth+1)
			}
		}
		c.Event("members in order")
	case *gen.JObj:
		l, diags := hcl.ExprMap(x)
		if diags.HasErrors() || len(l) != len(t.Keys) {
			c.Failf("%s: object of %d has %d members: %s\nsource: %s", what, len(t.Keys), len(l), diagStr(diags), q(src))
		}
		for i := range l {
			k, _ := l[i].Key.Value(nil)
			if k.Type() != cty.String || k.AsString() != norm.NFC.String(t.Keys[i]) {
				c.Failf("%s: member %d is %s, want %q\nsource: %s", what, i, valStr(k), t.Keys[i], q(src))
			}
			if depth < 6 {
				jsonValueOK(c, src, what+"."+t.Keys[i], l[i].Value, t.Vals[i], depth+1)
			}
		}
		c.Event("members in order")
	}
}

// jsonTemplates compares evaluation in a scope with the reference interpreter.
func jsonTemplates(c *mon.Case) {
	env := gen.NewEnv(c.Rand)
	ctx := evalCtx(env)
	c.Input("scope", envStr(env))
	g := &gen.G{R: c.Rand, Env: env, Hostile: 30, NoStrip: c.Bool()}
	e := g.Expr(gen.Want(c.Intn(6)), c.Size(3, 5))
	obj := &gen.JObj{}
	obj.Add("x", gen.JSONExpr(c.Rand, e))
	// a key that is a template
	parts := (&gen.G{R: c.Rand, Env: env, Hostile: 30, NoStrip: true}).Parts(1, false)
	key := gen.NewW(c.Rand).Template(parts)
	wantKey, kerr := gen.EvalBare(parts, env)
	in := &gen.JObj{}
	in.Add(key, true)
	obj.Add("y", in)
	src := gen.JSONText(c.Rand, obj)
	c.Input("json", src)
	f := parseJSON(c, src)
	attrs, diags := f.Body.JustAttributes()
	if diags.HasErrors() || attrs["x"] == nil || attrs["y"] == nil {
		c.Failf("attributes not delivered: %s\nsource: %s", diagStr(diags), q(src))
	}
	want, werr := gen.Eval(e, env)
	var got cty.Value
	checkPanic(c, "evaluating "+q(src), func() { got, diags = attrs["x"].Expr.Value(ctx) })
	judge(c, src, "json "+e.Shape(), want, werr, got, diags)
	if werr == nil {
		c.Event("template value compared")
	}

	// Without a scope nothing is interpreted.
	raw, _ := jsonLit(obj.Vals[0])
	if raw != cty.NilVal {
		got, diags = attrs["x"].Expr.Value(nil)
		if diags.HasErrors() || !gen.SameValue(got, raw) {
			c.Failf("without a scope: got %s (%s)\nwant %s\nsource: %s", valStr(got), diagStr(diags), valStr(raw), q(src))
		}
	}

	checkPanic(c, "evaluating "+q(src), func() { got, diags = attrs["y"].Expr.Value(ctx) })
	if kerr == gen.ErrUnsure || strings.HasPrefix(key, "\ufeff") {
		return
	}
	if kerr == nil {
		s, err := convString(wantKey)
		if err != nil || s.IsNull() {
			kerr = fmt.Errorf("not a key")
		} else if !s.IsKnown() {
			return
		} else {
			want := cty.ObjectVal(map[string]cty.Value{s.AsString(): cty.True})
			if x, d := hclsyntax.ParseTemplate([]byte(key), "k", start); d.HasErrors() {
				_ = x
				c.Failf("well-formed template rejected: %s", diagStr(d))
			}
			if diags.HasErrors() || !gen.SameValue(got, want) {
				c.Failf("template key: got %s (%s)\nwant %s\nsource: %s", valStr(got), diagStr(diags), valStr(want), q(src))
			}
			c.Event("template key compared")
			return
		}
	}
	if !diags.HasErrors() {
		c.Failf("template key should be an error (%s) but gave %s\nsource: %s", kerr, valStr(got), q(src))
	}
}
