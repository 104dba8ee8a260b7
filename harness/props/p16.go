package props

import (
	"fmt"
	"math"
	"math/big"
	"strings"
	"unicode/utf8"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
	"github.com/zclconf/go-cty/cty"
)

func init() {
	register(&mon.Prop{
		ID: "P16",
		Rule: "values of all expressible types with hostile strings, keys and magnitudes, and references with any names and keys; the generated tokens are written out alone, inside of configuration and inside of other expressions, read and evaluated; " +
			"distinct = (shape of the value or reference, classes of its characters)",
		Assumptions: []string{
			"numbers are equal when they are to the precision carried by the given number; infinities can't be written",
			"lists, sets and tuples are all written as tuples, maps and objects as objects, and nulls as untyped nulls",
			"strings are valid UTF-8 and index keys aren't negative",
		},
		Quick:    200000,
		Thorough: 2000000,
		Require:  []string{"value reproduced", "value reproduced in configuration", "reference reproduced", "relative reference reproduced", "string", "number", "key quoted"},
		Run:      runP16,
	})
}

// hardStr is a string with a greater share of characters that matter to the
// template language.
func hardStr(r *mon.Rand) string {
	if r.Chance(1, 2) {
		return gen.Str(r)
	}
	var b strings.Builder
	for i, n := 0, r.Range(1, 8); i < n; i++ {
		if r.Chance(1, 8) {
			b.WriteRune(hardRune(r))
			continue
		}
		b.WriteString(r.Pick("$", "%", "{", "}", "~", "\"", "\\", "\n", "\r", "\t", "\x00", "\x1f", "\x7f", "\u0085", " ", "\ufeff", "‍", "́", "n", "u0041", "a", " ", "#", "//", "/*", "<<", "if", "\U0001f600", "\U000e0001", "�", " ", "　", "\U0010ffff"))
	}
	return b.String()
}

func hardRune(r *mon.Rand) rune {
	for {
		c := rune(r.Intn(0x800))
		switch r.Intn(4) {
		case 1:
			c = rune(r.Intn(0x10000))
		case 2:
			c = rune(r.Intn(0x110000))
		case 3:
			c = rune(r.Intn(0x21))
		}
		if utf8.ValidRune(c) {
			return c
		}
	}
}

// hardNum is a number of any magnitude and precision.
func hardNum(r *mon.Rand) cty.Value {
	switch r.Intn(9) {
	case 8:
		// as many digits as its precision can hold
		digits := make([]byte, r.Range(20, 154))
		for i := range digits {
			digits[i] = '0' + byte(r.Intn(10))
		}
		text := fmt.Sprintf("%d.%se%d", r.Range(-9, 9), digits, r.Range(-200, 200))
		f, _, err := big.ParseFloat(text, 10, uint(r.Range(65, 512)), big.ToNearestEven)
		if err != nil {
			panic(err)
		}
		return cty.NumberVal(f)
	case 0:
		return cty.NumberFloatVal(math.Float64frombits(finiteBits(r)))
	case 1:
		return cty.NumberIntVal(int64(r.Intn(math.MaxInt64)) * int64(1-2*r.Intn(2)))
	case 2:
		return cty.NumberUIntVal(uint64(r.Intn(math.MaxInt64))*2 + 1)
	case 3:
		return cty.NumberIntVal([]int64{0, 1, -1, math.MaxInt64, math.MinInt64, 1 << 53, 1<<53 + 1, -(1 << 53) - 1}[r.Intn(8)])
	case 4:
		f, _, err := big.ParseFloat(fmt.Sprintf("%se%d", gen.NumText(r)[:1]+".5", r.Range(-600, 600)), 10, uint(r.Range(53, 512)), big.ToNearestEven)
		if err != nil {
			panic(err)
		}
		return cty.NumberVal(f)
	case 5:
		return cty.NumberFloatVal([]float64{math.SmallestNonzeroFloat64, math.MaxFloat64, math.Copysign(0, -1), 0.1, 1e21, 1e-7, 123456789.125}[r.Intn(7)])
	default:
		return gen.NumVal(r)
	}
}

func finiteBits(r *mon.Rand) uint64 {
	for {
		b := uint64(r.Intn(math.MaxInt64))<<1 | uint64(r.Intn(2))
		if f := math.Float64frombits(b); !math.IsInf(f, 0) && !math.IsNaN(f) {
			return b
		}
	}
}

// hardValue makes a value of mixed types.
func hardValue(r *mon.Rand, depth int) cty.Value {
	n := 10
	if depth <= 0 {
		n = 5
	}
	switch r.Intn(n) {
	case 0, 1:
		return cty.StringVal(hardStr(r))
	case 2:
		return hardNum(r)
	case 3:
		return cty.BoolVal(r.Bool())
	case 4:
		if r.Bool() {
			return cty.NullVal(gen.Type(r, 1))
		}
		return cty.NullVal(cty.DynamicPseudoType)
	case 5:
		return gen.Value(r, gen.Type(r, 3), 10)
	case 6:
		vals := make([]cty.Value, r.Size(4, 30))
		for i := range vals {
			vals[i] = hardValue(r, depth-1)
		}
		return cty.TupleVal(vals)
	case 7:
		vals := map[string]cty.Value{}
		for i, n := 0, r.Size(4, 30); i < n; i++ {
			vals[cty.NormalizeString(hardKey(r))] = cty.StringVal(hardStr(r))
		}
		if len(vals) == 0 {
			return cty.MapValEmpty(cty.String)
		}
		return cty.MapVal(vals)
	default:
		vals := map[string]cty.Value{}
		for i, n := 0, r.Size(4, 30); i < n; i++ {
			vals[cty.NormalizeString(hardKey(r))] = hardValue(r, depth-1)
		}
		return cty.ObjectVal(vals)
	}
}

func hardKey(r *mon.Rand) string {
	return cty.StringVal(rawKey(r)).AsString() // normalized, as keys are
}

func rawKey(r *mon.Rand) string {
	switch r.Intn(4) {
	case 0:
		return gen.Word(r)
	case 1:
		return r.Pick("for", "in", "if", "null", "true", "false", "else", "endif", "1", "0", "1.5", "-", "a-b", "-a", "a.b", "a b", "", "_", "é", "é", "日本", "a‍", "٣", "a٣", "for_each", "1a", "℘", "a·", "$", "a$")
	default:
		return hardStr(r)
	}
}

// reproduced compares a value with what its source evaluates to.
func reproduced(want, got cty.Value) bool {
	if !got.IsKnown() || want.IsNull() != got.IsNull() {
		return false
	}
	if want.IsNull() {
		return true
	}
	ty, gty := want.Type(), got.Type()
	switch {
	case ty == cty.Number:
		if gty != cty.Number {
			return false
		}
		w, g := want.AsBigFloat(), got.AsBigFloat()
		if w.Cmp(g) == 0 {
			return true
		}
		// within half of a unit in the last place
		half := new(big.Float).SetMantExp(big.NewFloat(1), w.MantExp(nil)-int(w.Prec())-1)
		diff := new(big.Float).SetPrec(2000).Sub(w, g)
		return diff.Abs(diff).Cmp(half) <= 0
	case ty == cty.String:
		return gty == cty.String && want.AsString() == got.AsString()
	case ty == cty.Bool:
		return gty == cty.Bool && want.True() == got.True()
	case ty.IsListType() || ty.IsSetType() || ty.IsTupleType():
		if !gty.IsTupleType() || want.LengthInt() != got.LengthInt() {
			return false
		}
		i := 0
		for it := want.ElementIterator(); it.Next(); i++ {
			_, v := it.Element()
			if !reproduced(v, got.Index(cty.NumberIntVal(int64(i)))) {
				return false
			}
		}
		return true
	default:
		if !gty.IsObjectType() || want.LengthInt() != len(gty.AttributeTypes()) {
			return false
		}
		for it := want.ElementIterator(); it.Next(); {
			k, v := it.Element()
			if !gty.HasAttribute(k.AsString()) || !reproduced(v, got.GetAttr(k.AsString())) {
				return false
			}
		}
		return true
	}
}

func runP16(c *mon.Case) {
	if c.Chance(1, 4) {
		refP16(c)
		return
	}
	v := hardValue(c.Rand, c.Intn(4))
	if c.Chance(1, 20) {
		for i, n := 0, c.Size(10, 60); i < n; i++ {
			v = cty.TupleVal([]cty.Value{v})
		}
	}
	c.Input("value", valStr(v))
	var src string
	checkPanic(c, "generating", func() { src = string(hclwrite.TokensForValue(v).Bytes()) })
	c.Input("generated", src)
	read := func(text, where string) cty.Value {
		var got cty.Value
		checkPanic(c, "reading "+where, func() {
			x, diags := hclsyntax.ParseExpression([]byte(text), "t.hcl", start)
			if diags.HasErrors() {
				c.Failf("generated source %s isn't valid: %s\nvalue: %s\nsource: %s", where, diagStr(diags), valStr(v), q(text))
			}
			got, diags = x.Value(nil)
			if diags.HasErrors() {
				c.Failf("generated source %s isn't evaluated: %s\nvalue: %s\nsource: %s", where, diagStr(diags), valStr(v), q(text))
			}
		})
		return got
	}
	if got := read(src, "alone"); !reproduced(v, got) {
		c.Failf("generated source means something else\nvalue:  %s\nsource: %s\nmeans:  %s", valStr(v), q(src), valStr(got))
	}
	c.Event("value reproduced")
	// several in one
	if c.Chance(1, 4) {
		text := "[" + src + "," + src + "]"
		got := read(text, "in a tuple")
		if !reproduced(cty.TupleVal([]cty.Value{v, v}), got) {
			c.Failf("generated source in a tuple means something else\nvalue:  %s\nsource: %s\nmeans:  %s", valStr(v), q(text), valStr(got))
		}
	}
	// as an attribute of a file, between others
	checkPanic(c, "setting an attribute", func() {
		f := hclwrite.NewEmptyFile()
		f.Body().SetAttributeValue("before", cty.True)
		f.Body().SetAttributeValue("it", v)
		f.Body().SetAttributeValue("after", cty.NullVal(cty.String))
		out := f.Bytes()
		body := parseNative(c, string(out)).Body.(*hclsyntax.Body)
		if len(body.Attributes) != 3 || len(body.Blocks) != 0 {
			c.Failf("file with three attributes has %d attributes, %d blocks\nfile: %s", len(body.Attributes), len(body.Blocks), q(string(out)))
		}
		for name, w := range map[string]cty.Value{"before": cty.True, "it": v, "after": cty.NullVal(cty.String)} {
			at := body.Attributes[name]
			if at == nil {
				c.Failf("attribute %s is missing\nfile: %s", name, q(string(out)))
			}
			got, diags := at.Expr.Value(nil)
			if diags.HasErrors() || !reproduced(w, got) {
				c.Failf("attribute %s means something else\nvalue: %s\nfile: %s\nmeans: %s %s", name, valStr(w), q(string(out)), valStr(got), diagStr(diags))
			}
		}
		c.Event("value reproduced in configuration")
	})
	c.Sig("value", shapeOf(c, v, 3))
	c.Sample(clip(src, 200))
}

// shapeOf describes a value roughly and notes events.
func shapeOf(c *mon.Case, v cty.Value, depth int) string {
	ty := v.Type()
	switch {
	case v.IsNull():
		return "0"
	case ty == cty.String:
		c.Event("string")
		return "s" + runeClasses(v.AsString())
	case ty == cty.Number:
		c.Event("number")
		f := v.AsBigFloat()
		return fmt.Sprintf("n%d.%d.%v", f.Prec(), f.MantExp(nil)/16, f.IsInt())
	case ty == cty.Bool:
		return "b"
	case depth == 0:
		return "."
	}
	var parts []string
	for it := v.ElementIterator(); it.Next(); {
		k, e := it.Element()
		s := ""
		if ty.IsObjectType() || ty.IsMapType() {
			if !hclsyntax.ValidIdentifier(k.AsString()) {
				c.Event("key quoted")
			}
			s = runeClasses(k.AsString()) + "="
		}
		if len(parts) < 6 {
			parts = append(parts, s+shapeOf(c, e, depth-1))
		}
	}
	return "(" + strings.Join(parts, " ") + ")"
}

// runeClasses is a string of classes of characters.
func runeClasses(s string) string {
	var b strings.Builder
	var last byte
	for _, r := range s {
		cl := byte('x')
		switch {
		case strings.ContainsRune("$%{}~\"\\\n\r\t", r):
			cl = byte(r)
		case r < 0x20 || r == 0x7f:
			cl = 'c'
		case r < 0x80:
			cl = 'a'
		case r >= 0x10000:
			cl = 'W'
		}
		if cl != last && b.Len() < 12 {
			b.WriteByte(cl)
		}
		last = cl
	}
	return b.String()
}

// hardName is an identifier.
func hardName(r *mon.Rand) string {
	for {
		s := gen.Word(r)
		if r.Chance(1, 3) {
			s = hardKey(r)
		}
		if hclsyntax.ValidIdentifier(s) {
			return s
		}
	}
}

func refP16(c *mon.Case) {
	root := hardName(c.Rand)
	for root == "null" || root == "true" || root == "false" {
		root = hardName(c.Rand)
	}
	tr := hcl.Traversal{hcl.TraverseRoot{Name: root}}
	sig := "r"
	for i, n := 0, c.Size(4, 20); i < n; i++ {
		switch c.Intn(3) {
		case 0:
			tr = append(tr, hcl.TraverseAttr{Name: hardName(c.Rand)})
			sig += "."
		case 1:
			s := hardKey(c.Rand)
			tr = append(tr, hcl.TraverseIndex{Key: cty.StringVal(s)})
			sig += "[" + runeClasses(s)
		default:
			k := cty.NumberIntVal(int64(c.Size(20, math.MaxInt32)))
			switch c.Intn(6) {
			case 0:
				k = cty.NumberUIntVal(uint64(c.Intn(math.MaxInt64)))
			case 1:
				k = cty.NumberVal(new(big.Float).Abs(hardNum(c.Rand).AsBigFloat()))
			}
			tr = append(tr, hcl.TraverseIndex{Key: k})
			sig += "#"
		}
	}
	c.Input("reference", travStr(tr))
	var src, rel string
	checkPanic(c, "generating", func() {
		src = string(hclwrite.TokensForTraversal(tr).Bytes())
		rel = string(hclwrite.TokensForTraversal(tr[1:]).Bytes())
	})
	c.Input("generated", src)
	checkPanic(c, "reading", func() {
		compare := func(got hcl.Traversal, diags hcl.Diagnostics, how, text string) {
			if diags.HasErrors() {
				c.Failf("generated reference isn't valid (%s): %s\nreference: %s\nsource: %s", how, diagStr(diags), travStr(tr), q(text))
			}
			if !sameRef(tr, got) {
				c.Failf("generated source is another reference (%s)\nreference: %s\nsource: %s\nmeans: %s", how, travStr(tr), q(text), travStr(got))
			}
		}
		got, diags := hclsyntax.ParseTraversalAbs([]byte(src), "t.hcl", start)
		compare(got, diags, "as a traversal", src)
		x, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", start)
		if !diags.HasErrors() {
			got, diags = hcl.AbsTraversalForExpr(x)
		}
		compare(got, diags, "as an expression", src)
		c.Event("reference reproduced")
		// a relative one continues any expression
		text := root + rel
		got, diags = hclsyntax.ParseTraversalAbs([]byte(text), "t.hcl", start)
		compare(got, diags, "relative", text)
		c.Event("relative reference reproduced")

		f := hclwrite.NewEmptyFile()
		f.Body().SetAttributeTraversal("it", tr)
		out := string(f.Bytes())
		body := parseNative(c, out).Body.(*hclsyntax.Body)
		at := body.Attributes["it"]
		if at == nil || len(body.Attributes) != 1 {
			c.Failf("attribute set to a reference isn't there\nfile: %s", q(out))
		}
		got, diags = hcl.AbsTraversalForExpr(at.Expr)
		compare(got, diags, "in configuration", out)
	})
	c.Sig("ref", sig)
	c.Sample(src)
}

// sameRef compares references, numbers to their precision.
func sameRef(a, b hcl.Traversal) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, ok := a[i].(hcl.TraverseIndex)
		if !ok {
			if !sameSteps(a[i:i+1], b[i:i+1]) {
				return false
			}
			continue
		}
		y, ok := b[i].(hcl.TraverseIndex)
		if !ok || !x.Key.Type().Equals(y.Key.Type()) || !reproduced(x.Key, y.Key) {
			return false
		}
	}
	return true
}

func travStr(tr hcl.Traversal) string {
	var b strings.Builder
	for _, s := range tr {
		switch s := s.(type) {
		case hcl.TraverseRoot:
			b.WriteString(s.Name)
		case hcl.TraverseAttr:
			b.WriteString("." + s.Name)
		case hcl.TraverseIndex:
			fmt.Fprintf(&b, "[%#v]", s.Key)
		default:
			fmt.Fprintf(&b, "<%T>", s)
		}
	}
	return b.String()
}
