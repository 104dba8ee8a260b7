package gen

import (
	"errors"
	"fmt"
	"math/big"
	"strings"
	"unicode"

	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/convert"
	"github.com/zclconf/go-cty/cty/function"
)

// ErrUnsure means that the language specification doesn't settle the outcome.
var ErrUnsure = errors.New("unspecified")

// Env is the reference interpreter's scope.
type Env struct {
	Vars   map[string]cty.Value
	Funcs  map[string]function.Function
	Parent *Env
	Iter   string // if set, the variable that is an iterator
	// Mode selects between readings of the specification where it's not
	// clear; only that of the outermost scope counts.
	Mode Mode
}

// Mode selects between readings of the specification.
type Mode int

// Readings.
const (
	// LineStrip limits a strip marker in a multi-line template to the
	// literal text of the adjacent line.
	LineStrip Mode = 1 << iota
	// BlankKeep leaves lines of only spaces in flush heredocs as they are.
	BlankKeep
	NumModes
)

func (n *Env) mode() Mode {
	for n.Parent != nil {
		n = n.Parent
	}
	return n.Mode
}

func (n *Env) lookup(name string) (cty.Value, bool) {
	for e := n; e != nil; e = e.Parent {
		if v, ok := e.Vars[name]; ok {
			return v, true
		}
	}
	return cty.NilVal, false
}

func (n *Env) fn(name string) (function.Function, bool) {
	for e := n; e != nil; e = e.Parent {
		if f, ok := e.Funcs[name]; ok {
			return f, true
		}
	}
	return function.Function{}, false
}

// Child makes a nested scope.
func (n *Env) Child(vars map[string]cty.Value) *Env { return &Env{Vars: vars, Parent: n} }

func bad(format string, args ...interface{}) (cty.Value, error) {
	return cty.NilVal, fmt.Errorf(format, args...)
}

// ParseNum is the value of a decimal literal.
func ParseNum(s string) cty.Value {
	f, _, err := big.ParseFloat(s, 10, 512, big.ToNearestEven)
	if err != nil {
		panic(err)
	}
	return cty.NumberVal(f)
}

// Eval evaluates an expression as the specification prescribes.
func Eval(e *Expr, env *Env) (cty.Value, error) { return eval(e, env, cty.NilVal) }

func eval(e *Expr, env *Env, item cty.Value) (cty.Value, error) {
	switch e.Kind {
	case KNum:
		return ParseNum(e.Text), nil
	case KBool:
		return cty.BoolVal(e.Text == "true"), nil
	case KNull:
		return cty.NullVal(cty.DynamicPseudoType), nil
	case KItem:
		return item, nil
	case KStr, KHeredoc:
		return evalTemplate(e, env, item)
	case KVar:
		v, ok := env.lookup(e.Text)
		if !ok {
			return bad("no variable %q", e.Text)
		}
		return v, nil
	case KAttr:
		x, err := eval(e.X[0], env, item)
		if err != nil {
			return x, err
		}
		return refAttr(x, e.Text)
	case KIndex:
		x, err := eval(e.X[0], env, item)
		if err != nil {
			return x, err
		}
		k, err := eval(e.X[1], env, item)
		if err != nil {
			return k, err
		}
		return refIndex(x, k)
	case KLegacy:
		x, err := eval(e.X[0], env, item)
		if err != nil {
			return x, err
		}
		return refIndex(x, ParseNum(e.Text))
	case KAttrSplat, KFullSplat:
		x, err := eval(e.X[0], env, item)
		if err != nil {
			return x, err
		}
		return refSplat(x, e.X[1], env)
	case KTuple:
		vals := make([]cty.Value, len(e.X))
		for i, c := range e.X {
			v, err := eval(c, env, item)
			if err != nil {
				return v, err
			}
			vals[i] = v
		}
		return cty.TupleVal(vals), nil
	case KObject:
		vals := map[string]cty.Value{}
		for i := 0; i < len(e.X); i += 2 {
			var k cty.Value
			var err error
			if e.Keys[i/2] == KeyIdent {
				k = cty.StringVal(e.X[i].Text)
			} else if e.Keys[i/2] == KeyBare && (e.X[i].Kind == KAttr || e.X[i].Kind == KIndex) {
				return bad("ambiguous key")
			} else {
				k, err = eval(e.X[i], env, item)
				if err != nil {
					return k, err
				}
			}
			v, err := eval(e.X[i+1], env, item)
			if err != nil {
				return v, err
			}
			if k.IsNull() {
				return bad("null key")
			}
			ks, err := convert.Convert(k, cty.String)
			if err != nil {
				return bad("key: %s", err)
			}
			vals[ks.AsString()] = v
		}
		return cty.ObjectVal(vals), nil
	case KForTuple, KForObject:
		return refFor(e, env, item)
	case KCond:
		return refCond(e, env, item)
	case KBin:
		a, err := eval(e.X[0], env, item)
		if err != nil {
			return a, err
		}
		b, err := eval(e.X[1], env, item)
		if err != nil {
			return b, err
		}
		return refBin(e.Text, a, b)
	case KUn:
		a, err := eval(e.X[0], env, item)
		if err != nil {
			return a, err
		}
		ty := cty.Number
		if e.Text == "!" {
			ty = cty.Bool
		}
		a, err = convert.Convert(a, ty)
		if err != nil {
			return a, err
		}
		if a.IsNull() {
			return bad("null operand")
		}
		if e.Text == "!" {
			return cty.BoolVal(a.False()), nil
		}
		return cty.NumberVal(new(big.Float).Neg(a.AsBigFloat())), nil
	case KCall:
		return refCall(e, env, item)
	}
	panic("unknown kind")
}

func refAttr(x cty.Value, name string) (cty.Value, error) {
	if x.IsNull() {
		return bad("attribute of null")
	}
	ty := x.Type()
	switch {
	case ty.IsObjectType():
		if !ty.HasAttribute(name) {
			return bad("no attribute %q", name)
		}
		return x.GetAttr(name), nil
	case ty.IsMapType():
		k := cty.StringVal(name)
		if x.HasIndex(k).False() {
			return bad("no element %q", name)
		}
		return x.Index(k), nil
	}
	return bad("no attributes")
}

func refIndex(x, k cty.Value) (cty.Value, error) {
	if x.IsNull() {
		return bad("index of null")
	}
	if k.IsNull() {
		return bad("null index")
	}
	ty := x.Type()
	switch {
	case ty.IsObjectType():
		ks, err := convert.Convert(k, cty.String)
		if err != nil {
			return ks, err
		}
		return refAttr(x, ks.AsString())
	case ty.IsMapType():
		ks, err := convert.Convert(k, cty.String)
		if err != nil {
			return ks, err
		}
		if x.HasIndex(ks).False() {
			return bad("no element")
		}
		return x.Index(ks), nil
	case ty.IsListType() || ty.IsTupleType():
		kn, err := convert.Convert(k, cty.Number)
		if err != nil {
			return kn, err
		}
		f := kn.AsBigFloat()
		if !f.IsInt() || f.Sign() < 0 {
			return bad("index must be a whole number")
		}
		i, acc := f.Int64()
		if acc != big.Exact || i >= int64(x.LengthInt()) {
			return bad("out of range")
		}
		n := int64(0)
		for it := x.ElementIterator(); it.Next(); n++ {
			if n == i {
				_, v := it.Element()
				return v, nil
			}
		}
	}
	return bad("not indexable")
}

func refSplat(x cty.Value, each *Expr, env *Env) (cty.Value, error) {
	ty := x.Type()
	seq := ty.IsTupleType() || ty.IsListType() || ty.IsSetType()
	if x.IsNull() {
		if seq {
			return bad("splat of null")
		}
		return cty.EmptyTupleVal, nil
	}
	if !seq {
		v, err := eval(each, env, x)
		if err != nil {
			return v, err
		}
		return cty.TupleVal([]cty.Value{v}), nil
	}
	var vals []cty.Value
	for it := x.ElementIterator(); it.Next(); {
		_, el := it.Element()
		v, err := eval(each, env, el)
		if err != nil {
			return v, err
		}
		vals = append(vals, v)
	}
	if ty.IsTupleType() {
		return cty.TupleVal(vals), nil
	}
	if len(vals) == 0 {
		// The element type can't be determined without a static analysis,
		// so we only say that the result is an empty sequence.
		if each.Kind == KItem {
			return cty.ListValEmpty(ty.ElementType()), nil
		}
		ety, ok := chainType(each, ty.ElementType())
		if !ok {
			return cty.NilVal, ErrUnsure
		}
		return cty.ListValEmpty(ety), nil
	}
	for _, v := range vals[1:] {
		if !v.Type().Equals(vals[0].Type()) {
			return cty.TupleVal(vals), nil
		}
	}
	return cty.ListVal(vals), nil
}

// chainType finds the static type of a chain over an item of the given type.
func chainType(e *Expr, item cty.Type) (cty.Type, bool) {
	switch e.Kind {
	case KItem:
		return item, true
	case KAttr:
		ty, ok := chainType(e.X[0], item)
		if ok && ty.IsObjectType() && ty.HasAttribute(e.Text) {
			return ty.AttributeType(e.Text), true
		}
	}
	return cty.NilType, false
}

func refFor(e *Expr, env *Env, item cty.Value) (cty.Value, error) {
	coll, err := eval(e.X[0], env, item)
	if err != nil {
		return coll, err
	}
	if coll.IsNull() {
		return bad("iteration over null")
	}
	if !coll.CanIterateElements() {
		return bad("not iterable")
	}
	var vals []cty.Value
	obj := map[string]cty.Value{}
	groups := map[string][]cty.Value{}
	var firstErr error
	if e.X[2] != nil && coll.LengthInt() == 0 {
		// The condition may or may not be checked if there are no elements.
		return cty.NilVal, ErrUnsure
	}
	for it := coll.ElementIterator(); it.Next(); {
		k, v := it.Element()
		vars := map[string]cty.Value{}
		if e.Key != "" {
			vars[e.Key] = k
		}
		vars[e.Val] = v
		inner := env.Child(vars)
		if e.X[2] != nil {
			c, err := eval(e.X[2], inner, item)
			if err != nil {
				return c, err
			}
			if c.IsNull() {
				return bad("null condition")
			}
			c, err = convert.Convert(c, cty.Bool)
			if err != nil {
				return c, err
			}
			if c.False() {
				continue
			}
		}
		if e.Kind == KForTuple {
			r, err := eval(e.X[1], inner, item)
			if err != nil {
				return r, err
			}
			vals = append(vals, r)
			continue
		}
		kv, err := eval(e.X[3], inner, item)
		if err != nil {
			return kv, err
		}
		if kv.IsNull() {
			return bad("null key")
		}
		kv, err = convert.Convert(kv, cty.String)
		if err != nil {
			return kv, err
		}
		r, err := eval(e.X[1], inner, item)
		if err != nil {
			return r, err
		}
		ks := kv.AsString()
		if e.Flag {
			groups[ks] = append(groups[ks], r)
		} else {
			if _, dup := obj[ks]; dup {
				firstErr = fmt.Errorf("duplicate key")
			}
			obj[ks] = r
		}
	}
	if firstErr != nil {
		return cty.NilVal, firstErr
	}
	if e.Kind == KForTuple {
		return cty.TupleVal(vals), nil
	}
	if e.Flag {
		for k, g := range groups {
			obj[k] = cty.TupleVal(g)
		}
	}
	return cty.ObjectVal(obj), nil
}

func refCond(e *Expr, env *Env, item cty.Value) (res cty.Value, err error) {
	c, cErr := eval(e.X[0], env, item)
	t, tErr := eval(e.X[1], env, item)
	f, fErr := eval(e.X[2], env, item)
	if cErr == ErrUnsure || tErr == ErrUnsure || fErr == ErrUnsure {
		return cty.NilVal, ErrUnsure
	}
	if cErr != nil {
		return c, cErr
	}
	if c.IsNull() {
		return bad("null condition")
	}
	c, err = convert.Convert(c, cty.Bool)
	if err != nil {
		return c, err
	}
	sel, selErr, oth, othErr := t, tErr, f, fErr
	if c.False() {
		sel, selErr, oth, othErr = f, fErr, t, tErr
	}
	if selErr != nil {
		return sel, selErr
	}
	if othErr != nil {
		// The specification doesn't say what type an invalid expression has.
		return cty.NilVal, ErrUnsure
	}
	dynNull := func(v cty.Value) bool { return v.IsNull() && v.Type() == cty.DynamicPseudoType }
	switch {
	case dynNull(t) && dynNull(f):
		return sel, nil
	case dynNull(sel):
		return cty.NullVal(oth.Type()), nil
	case dynNull(oth):
		return sel, nil
	}
	defer func() {
		// Some types make the conversion library crash.
		if r := recover(); r != nil {
			res, err = cty.NilVal, ErrUnsure
		}
	}()
	ty, _ := convert.UnifyUnsafe([]cty.Type{t.Type(), f.Type()})
	if ty == cty.NilType {
		return bad("inconsistent types")
	}
	v, err := convert.Convert(sel, ty)
	if err != nil {
		return v, err
	}
	return v, nil
}

func refBin(op string, a, b cty.Value) (res cty.Value, err error) {
	switch op {
	case "==", "!=":
		if (untypedNull(a, false) || untypedNull(b, false)) && !a.IsNull() && !b.IsNull() {
			// cty can't compare structures that contain untyped nulls
			return cty.NilVal, ErrUnsure
		}
		eq := RefEqual(a, b)
		return cty.BoolVal(eq == (op == "==")), nil
	}
	ty := cty.Number
	if op == "&&" || op == "||" {
		ty = cty.Bool
	}
	a, err = convert.Convert(a, ty)
	if err != nil {
		return a, err
	}
	b, err = convert.Convert(b, ty)
	if err != nil {
		return b, err
	}
	if a.IsNull() || b.IsNull() {
		return bad("null operand")
	}
	if ty == cty.Bool {
		if op == "&&" {
			return cty.BoolVal(a.True() && b.True()), nil
		}
		return cty.BoolVal(a.True() || b.True()), nil
	}
	x, y := a.AsBigFloat(), b.AsBigFloat()
	switch op {
	case "<":
		return cty.BoolVal(x.Cmp(y) < 0), nil
	case ">":
		return cty.BoolVal(x.Cmp(y) > 0), nil
	case "<=":
		return cty.BoolVal(x.Cmp(y) <= 0), nil
	case ">=":
		return cty.BoolVal(x.Cmp(y) >= 0), nil
	}
	if x.IsInf() || y.IsInf() {
		return cty.NilVal, ErrUnsure
	}
	switch op {
	case "+":
		return cty.NumberVal(new(big.Float).Add(x, y)), nil
	case "-":
		return cty.NumberVal(new(big.Float).Sub(x, y)), nil
	case "*":
		return cty.NumberVal(new(big.Float).Mul(x, y)), nil
	case "/":
		if y.Sign() == 0 {
			return cty.NilVal, ErrUnsure
		}
		return cty.NumberVal(new(big.Float).Quo(x, y)), nil
	case "%":
		if y.Sign() == 0 {
			return cty.NilVal, ErrUnsure
		}
		// The arithmetic is cty's; this only guards against its misuse.
		return a.Modulo(b), nil
	}
	panic("unknown operator " + op)
}

// untypedNull is whether a value has an untyped null inside.
func untypedNull(v cty.Value, inside bool) bool {
	found := false
	cty.Walk(v, func(p cty.Path, v cty.Value) (bool, error) {
		if len(p) > 0 && v.Type().HasDynamicTypes() {
			found = true
		}
		return !v.IsNull(), nil
	})
	return found
}

// RefEqual is equality of known values: identical types and equal values, and
// a null is equal only to another null.
func RefEqual(a, b cty.Value) bool {
	if a.IsNull() || b.IsNull() {
		return a.IsNull() && b.IsNull()
	}
	return SameValue(a, b)
}

// SameValue is structural identity of known values, with numbers compared by
// magnitude.
func SameValue(a, b cty.Value) bool {
	if !a.Type().Equals(b.Type()) {
		return false
	}
	if a.IsKnown() != b.IsKnown() {
		return false
	}
	if !a.IsKnown() {
		return true
	}
	if a.IsNull() != b.IsNull() {
		return false
	}
	if a.IsNull() {
		return true
	}
	ty := a.Type()
	switch {
	case ty == cty.Number:
		return a.AsBigFloat().Cmp(b.AsBigFloat()) == 0
	case ty == cty.String:
		return a.AsString() == b.AsString()
	case ty == cty.Bool:
		return a.True() == b.True()
	case ty.IsSetType():
		return a.RawEquals(b)
	case ty.IsObjectType():
		for n := range ty.AttributeTypes() {
			if !SameValue(a.GetAttr(n), b.GetAttr(n)) {
				return false
			}
		}
		return true
	case ty.IsListType() || ty.IsTupleType() || ty.IsMapType():
		if a.LengthInt() != b.LengthInt() {
			return false
		}
		ia, ib := a.ElementIterator(), b.ElementIterator()
		for ia.Next() && ib.Next() {
			ka, va := ia.Element()
			kb, vb := ib.Element()
			if !SameValue(ka, kb) || !SameValue(va, vb) {
				return false
			}
		}
		return true
	}
	return a.RawEquals(b)
}

func refCall(e *Expr, env *Env, item cty.Value) (cty.Value, error) {
	f, ok := env.fn(e.Text)
	if !ok {
		return bad("no function %q", e.Text)
	}
	var args []cty.Value
	for i, x := range e.X {
		v, err := eval(x, env, item)
		if err != nil {
			return v, err
		}
		if e.Flag && i == len(e.X)-1 {
			ty := v.Type()
			if !(ty.IsTupleType() || ty.IsListType() || ty.IsSetType()) || v.IsNull() {
				return bad("cannot expand")
			}
			for it := v.ElementIterator(); it.Next(); {
				_, el := it.Element()
				args = append(args, el)
			}
			continue
		}
		args = append(args, v)
	}
	return refApply(f, args)
}

func refApply(f function.Function, args []cty.Value) (cty.Value, error) {
	ps := f.Params()
	vp := f.VarParam()
	if len(args) < len(ps) || (vp == nil && len(args) > len(ps)) {
		return bad("wrong number of arguments")
	}
	conv := make([]cty.Value, len(args))
	for i, a := range args {
		p := vp
		if i < len(ps) {
			p = &ps[i]
		}
		c, err := convert.Convert(a, p.Type)
		if err != nil {
			return c, err
		}
		if c.IsNull() && !p.AllowNull {
			return bad("null argument")
		}
		conv[i] = c
	}
	return f.Call(conv)
}

// evalTemplate evaluates a quoted or heredoc template.
func evalTemplate(e *Expr, env *Env, item cty.Value) (cty.Value, error) {
	parts := e.Parts
	if e.Kind == KHeredoc {
		parts = SplitLines(parts)
		if e.Flag {
			if hasStrip(parts) {
				return cty.NilVal, ErrUnsure
			}
			parts = flush(parts, env.mode())
		} else if env.mode()&LineStrip == 0 {
			parts = e.Parts
		}
		if len(parts) == 1 && parts[0].Kind == PInterp {
			return cty.NilVal, ErrUnsure
		}
	}
	return EvalParts(parts, env, item)
}

// EvalBare evaluates the parts of a standalone template.
func EvalBare(parts []*Part, env *Env) (cty.Value, error) {
	if env.mode()&LineStrip != 0 {
		parts = SplitLines(parts)
	}
	return EvalParts(parts, env, cty.NilVal)
}

// SplitLines breaks literals after each newline.
func SplitLines(parts []*Part) []*Part {
	var out []*Part
	for _, p := range parts {
		np := *p
		switch p.Kind {
		case PLit:
			for _, line := range strings.SplitAfter(p.Text, "\n") {
				if line != "" {
					out = append(out, &Part{Kind: PLit, Text: line})
				}
			}
			continue
		case PIf, PFor:
			np.Then = SplitLines(p.Then)
			np.Else = SplitLines(p.Else)
		}
		out = append(out, &np)
	}
	return out
}

func hasStrip(parts []*Part) bool {
	for _, p := range parts {
		if p.L || p.R || p.ElseL || p.ElseR || p.EndL || p.EndR || hasStrip(p.Then) || hasStrip(p.Else) {
			return true
		}
	}
	return false
}

// flush removes the common indentation from parts split by line.
func flush(parts []*Part, mode Mode) []*Part {
	min := -1
	var lead []*Part  // literals at the start of a line
	var blank []*Part // those that consist only of spaces
	bol := true
	low := func(n int) {
		if min < 0 || n < min {
			min = n
		}
	}
	var visit func(parts []*Part) []*Part
	visit = func(parts []*Part) []*Part {
		var out []*Part
		for _, p := range parts {
			np := *p
			out = append(out, &np)
			if p.Kind != PLit {
				if bol {
					low(0)
				}
				bol = false
				np.Then = visit(p.Then)
				if p.Kind != PInterp {
					if p.HasElse {
						if bol {
							low(0)
						}
						bol = false
						np.Else = visit(p.Else)
					}
					if bol {
						low(0)
					}
					bol = false
				}
				continue
			}
			if bol {
				rest := trimLeft(p.Text)
				if rest == "" && strings.HasSuffix(p.Text, "\n") {
					blank = append(blank, &np)
				} else {
					low(len([]rune(p.Text)) - len([]rune(rest)))
					lead = append(lead, &np)
				}
			}
			bol = strings.HasSuffix(p.Text, "\n")
		}
		return out
	}
	out := visit(parts)
	if min <= 0 {
		return out
	}
	for _, p := range lead {
		p.Text = string([]rune(p.Text)[min:])
	}
	if mode&BlankKeep == 0 {
		for _, p := range blank {
			body := strings.TrimRight(p.Text, "\r\n")
			end := p.Text[len(body):]
			if rs := []rune(body); len(rs) > min {
				body = string(rs[min:])
			} else {
				body = ""
			}
			p.Text = body + end
		}
	}
	return out
}

// EvalParts evaluates template parts.
func EvalParts(parts []*Part, env *Env, item cty.Value) (cty.Value, error) {
	if len(parts) == 1 && parts[0].Kind == PInterp {
		return eval(parts[0].X, env, item)
	}
	parts = ApplyStrip(parts)
	var b strings.Builder
	if err := concatParts(&b, parts, env, item); err != nil {
		return cty.NilVal, err
	}
	return cty.StringVal(b.String()), nil
}

func concatParts(b *strings.Builder, parts []*Part, env *Env, item cty.Value) error {
	for _, p := range parts {
		switch p.Kind {
		case PLit:
			b.WriteString(p.Text)
		case PInterp:
			v, err := eval(p.X, env, item)
			if err != nil {
				return err
			}
			if v.IsNull() {
				return fmt.Errorf("null in template")
			}
			v, err = convert.Convert(v, cty.String)
			if err != nil {
				return err
			}
			b.WriteString(v.AsString())
		case PIf:
			c, err := eval(p.X, env, item)
			if err != nil {
				return err
			}
			if c.IsNull() {
				return fmt.Errorf("null condition")
			}
			c, err = convert.Convert(c, cty.Bool)
			if err != nil {
				return err
			}
			sel, oth := p.Then, p.Else
			if c.False() {
				sel, oth = p.Else, p.Then
			}
			if err := branch(b, sel, oth, env, item); err != nil {
				return err
			}
		case PFor:
			coll, err := eval(p.X, env, item)
			if err != nil {
				return err
			}
			if coll.IsNull() || !coll.CanIterateElements() {
				return fmt.Errorf("not iterable")
			}
			for it := coll.ElementIterator(); it.Next(); {
				k, v := it.Element()
				vars := map[string]cty.Value{}
				if p.Key != "" {
					vars[p.Key] = k
				}
				vars[p.Val] = v
				if err := directiveBody(b, p.Then, env.Child(vars), item); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

// branch evaluates a selected directive branch. A branch consisting only of
// one interpolation is still converted to a string.
func branch(b *strings.Builder, sel, oth []*Part, env *Env, item cty.Value) error {
	// The branch that isn't selected can still influence the outcome if it
	// fails, which the specification doesn't settle.
	var scratch strings.Builder
	if err := concatParts(&scratch, oth, env, item); err != nil {
		return ErrUnsure
	}
	return directiveBody(b, sel, env, item)
}

func directiveBody(b *strings.Builder, parts []*Part, env *Env, item cty.Value) error {
	return concatParts(b, parts, env, item)
}

// ApplyStrip resolves strip markers by trimming the adjacent literals. The
// result shares nothing that is modified.
func ApplyStrip(parts []*Part) []*Part {
	out, _, _ := strip(parts, false, false)
	return out
}

const stripSpace = " \t\r\n"

// strip processes a sequence; left says that the marker before the sequence
// strips to its right, right that the marker after strips to its left.
func strip(parts []*Part, left, right bool) (out []*Part, _ bool, _ bool) {
	for i, p := range parts {
		np := *p
		switch p.Kind {
		case PLit:
			trimL := left
			if i > 0 {
				trimL = stripsRight(parts[i-1])
			}
			trimR := right
			if i+1 < len(parts) {
				trimR = stripsLeft(parts[i+1])
			}
			if trimL {
				np.Text = trimLeft(np.Text)
			}
			if trimR {
				np.Text = trimRight(np.Text)
			}
		case PIf:
			if p.HasElse {
				np.Then, _, _ = strip(p.Then, p.R, p.ElseL)
				np.Else, _, _ = strip(p.Else, p.ElseR, p.EndL)
			} else {
				np.Then, _, _ = strip(p.Then, p.R, p.EndL)
			}
		case PFor:
			np.Then, _, _ = strip(p.Then, p.R, p.EndL)
		}
		out = append(out, &np)
	}
	return out, false, false
}

func stripsLeft(p *Part) bool { return p.Kind != PLit && p.L }
func stripsRight(p *Part) bool {
	switch p.Kind {
	case PInterp:
		return p.R
	case PIf, PFor:
		return p.EndR
	}
	return false
}

func trimLeft(s string) string  { return strings.TrimLeftFunc(s, unicode.IsSpace) }
func trimRight(s string) string { return strings.TrimRightFunc(s, unicode.IsSpace) }
