package gen

import (
	"fmt"
	"math/big"
	"strings"

	"verif/harness/mon"

	"github.com/zclconf/go-cty/cty"
)

var words = []string{
	"a", "b", "foo", "bar", "baz", "x1", "_u", "with-dash", "naïve", "世界", "Ω", "id", "name", "value", "key", "each",
	"CamelCase", "long_identifier_name_that_goes_on", "for_each", "iff", "nulls", "truex", "in_", "dynamic", "content",
}

var strPool = []string{
	"", "a", "foo", "hello world", "0", "1", "true", "false", "null", "5.5", "-3", " lead", "trail ", "\t", "\n", "a\nb", "\r\n", "\"", "\\", "\\n",
	"${", "%{", "${foo}", "%{ if }", "$", "%", "$$", "%%", "$${", "$$$", "{", "}", "#", "//", "/* */", "<<EOT", "'", "`", "é", "é", "日本語", "😀",
	"👨‍👩‍👧", " ", " ", "​", "a,b", "a=b", "[0]", "a.b", "~", "~}", "\x01", "\x7f", "EOT", "\ufeff", "x̀́y",
}

// Word returns an identifier.
func Word(r *mon.Rand) string {
	if r.Chance(1, 30) {
		return fmt.Sprintf("v%d", r.Intn(100000))
	}
	return words[r.Intn(len(words))]
}

// Name returns the name of an attribute, block or object element, which may be
// a keyword of expressions.
func Name(r *mon.Rand) string {
	if r.Chance(1, 25) {
		return r.Pick("for", "if", "in", "true", "false", "null", "else", "endif", "endfor")
	}
	return Word(r)
}

// Str returns a string, sometimes nasty or long.
func Str(r *mon.Rand) string {
	switch r.Intn(12) {
	case 0, 1, 2, 3, 4, 5:
		return strPool[r.Intn(len(strPool))]
	case 6, 7:
		return Word(r)
	case 8:
		n := r.Range(2, 5)
		s := ""
		for i := 0; i < n; i++ {
			s += strPool[r.Intn(len(strPool))]
		}
		return s
	case 9:
		return fmt.Sprint(r.Intn(1000))
	case 10:
		if r.Chance(1, 30) {
			return strings.Repeat(strPool[1+r.Intn(len(strPool)-1)], r.Range(100, 3000))
		}
		return "s" + fmt.Sprint(r.Intn(100))
	default:
		var b strings.Builder
		n := r.Range(1, 12)
		for i := 0; i < n; i++ {
			b.WriteRune(Rune(r))
		}
		return b.String()
	}
}

// Rune returns a valid character.
func Rune(r *mon.Rand) rune {
	switch r.Intn(8) {
	case 0:
		return rune(r.Range(0x80, 0x7ff))
	case 1:
		return rune(r.Range(0x4e00, 0x9fff))
	case 2:
		return rune(r.Range(0x1f300, 0x1f6ff))
	default:
		return rune(r.Range(0x20, 0x7e))
	}
}

// NumText returns a decimal literal.
func NumText(r *mon.Rand) string {
	switch r.Intn(12) {
	case 0, 1, 2, 3:
		return fmt.Sprint(r.Intn(10))
	case 4:
		return fmt.Sprint(r.Intn(100000))
	case 5:
		return fmt.Sprintf("%d.%d", r.Intn(100), r.Intn(1000))
	case 6:
		return fmt.Sprintf("%de%d", r.Range(1, 99), r.Intn(12))
	case 7:
		return fmt.Sprintf("%d.%dE-%d", r.Intn(10), r.Intn(100), r.Intn(8))
	case 8:
		return r.Pick("0", "0.0", "0.1", "0.5", "1.50", "00", "007", "9007199254740993", "18446744073709551616", "0.30000000000000004", "1e+3", "3.14159265358979323846264338327950288")
	case 9:
		n := r.Range(15, 60)
		s := fmt.Sprint(r.Range(1, 9))
		for i := 0; i < n; i++ {
			s += fmt.Sprint(r.Intn(10))
		}
		return s
	default:
		return fmt.Sprint(r.Intn(4))
	}
}

// NumVal returns a number.
func NumVal(r *mon.Rand) cty.Value {
	v := ParseNum(NumText(r))
	if r.Chance(1, 4) {
		v = cty.NumberVal(new(big.Float).Neg(v.AsBigFloat()))
	}
	return v
}

// Type returns a type without placeholders.
func Type(r *mon.Rand, depth int) cty.Type {
	n := 9
	if depth <= 0 {
		n = 3
	}
	switch r.Intn(n) {
	case 0:
		return cty.Number
	case 1:
		return cty.String
	case 2:
		return cty.Bool
	case 3:
		return cty.List(Type(r, depth-1))
	case 4:
		return cty.Map(Type(r, depth-1))
	case 5:
		return cty.Set(Type(r, depth-1))
	case 6:
		n := r.Intn(4)
		etys := make([]cty.Type, n)
		for i := range etys {
			etys[i] = Type(r, depth-1)
		}
		return cty.Tuple(etys)
	default:
		n := r.Intn(4)
		atys := map[string]cty.Type{}
		for i := 0; i < n; i++ {
			atys[cty.NormalizeString(Name(r))] = Type(r, depth-1)
		}
		return cty.Object(atys)
	}
}

// Value returns a known value of the given type, with occasional nulls.
func Value(r *mon.Rand, ty cty.Type, nulls int) cty.Value {
	if nulls > 0 && r.Chance(1, nulls) {
		return cty.NullVal(ty)
	}
	switch {
	case ty == cty.Number:
		return NumVal(r)
	case ty == cty.String:
		return cty.StringVal(Str(r))
	case ty == cty.Bool:
		return cty.BoolVal(r.Bool())
	case ty == cty.DynamicPseudoType:
		return Value(r, Type(r, 1), nulls)
	case ty.IsListType(), ty.IsSetType():
		n := r.Intn(4)
		if r.Chance(1, 60) {
			n = r.Range(10, 40)
		}
		if n == 0 {
			if ty.IsListType() {
				return cty.ListValEmpty(ty.ElementType())
			}
			return cty.SetValEmpty(ty.ElementType())
		}
		vals := make([]cty.Value, n)
		for i := range vals {
			vals[i] = Value(r, ty.ElementType(), nulls*2)
		}
		if ty.IsListType() {
			return cty.ListVal(vals)
		}
		return cty.SetVal(vals)
	case ty.IsMapType():
		n := r.Intn(4)
		if n == 0 {
			return cty.MapValEmpty(ty.ElementType())
		}
		vals := map[string]cty.Value{}
		for i := 0; i < n; i++ {
			k := Word(r)
			if r.Chance(1, 5) {
				k = Str(r)
			}
			vals[cty.NormalizeString(k)] = Value(r, ty.ElementType(), nulls*2)
		}
		return cty.MapVal(vals)
	case ty.IsTupleType():
		etys := ty.TupleElementTypes()
		vals := make([]cty.Value, len(etys))
		for i := range etys {
			vals[i] = Value(r, etys[i], nulls*2)
		}
		return cty.TupleVal(vals)
	case ty.IsObjectType():
		vals := map[string]cty.Value{}
		for n, aty := range sortedAttrs(ty) {
			_ = n
			vals[aty.name] = Value(r, aty.ty, nulls*2)
		}
		return cty.ObjectVal(vals)
	}
	panic("unhandled type")
}

type attrTy struct {
	name string
	ty   cty.Type
}

func sortedAttrs(ty cty.Type) []attrTy {
	var out []attrTy
	for n, t := range ty.AttributeTypes() {
		out = append(out, attrTy{n, t})
	}
	// insertion sort keeps this free of imports and deterministic
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j].name < out[j-1].name; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}
