package gen

import (
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"verif/harness/mon"

	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/convert"
	"github.com/zclconf/go-cty/cty/function"
)

// SpecKind is a kind of decoding specification.
type SpecKind int

// Specification kinds.
const (
	SObject    SpecKind = iota // Keys, Kids
	STuple                     // Kids
	SAttr                      // Name, Ty, Required
	SLiteral                   // Val
	SExpr                      // X
	SLabel                     // Index, Name
	SBlock                     // Name, Kids[0], Required
	SBlockList                 // Name, Kids[0], Min, Max
	SBlockTuple
	SBlockSet
	SBlockMap    // Name, Labels, Kids[0]
	SBlockObject // Name, Labels, Kids[0]
	SBlockAttrs  // Name, Ty, Required
	SDefault     // Kids[0], Kids[1]
	STransExpr   // Kids[0], X over variable "val"
	STransFunc   // Kids[0], Func
)

// Spec is a decoding specification in the model.
type Spec struct {
	Kind     SpecKind
	Name     string
	Keys     []string
	Kids     []*Spec
	Ty       cty.Type
	Val      cty.Value
	X        *Expr
	Required bool
	Index    int
	Min, Max int
	Labels   []string
	Func     string
}

// TransFuncs are functions of one argument for use in transforms.
var TransFuncs = map[string]function.Function{
	"wrap": function.New(&function.Spec{
		Params: []function.Parameter{{Name: "v", Type: cty.DynamicPseudoType, AllowNull: true, AllowUnknown: true, AllowDynamicType: true}},
		Type: func(args []cty.Value) (cty.Type, error) {
			return cty.Tuple([]cty.Type{args[0].Type()}), nil
		},
		Impl: func(args []cty.Value, _ cty.Type) (cty.Value, error) {
			return cty.TupleVal([]cty.Value{args[0]}), nil
		},
	}),
	"isnull": function.New(&function.Spec{
		Params: []function.Parameter{{Name: "v", Type: cty.DynamicPseudoType, AllowNull: true, AllowDynamicType: true}},
		Type:   function.StaticReturnType(cty.Bool),
		Impl: func(args []cty.Value, _ cty.Type) (cty.Value, error) {
			return cty.BoolVal(args[0].IsNull()), nil
		},
	}),
	"short": function.New(&function.Spec{
		Params: []function.Parameter{{Name: "v", Type: cty.String, AllowNull: true}},
		Type:   function.StaticReturnType(cty.String),
		Impl: func(args []cty.Value, _ cty.Type) (cty.Value, error) {
			if !args[0].IsNull() && len(args[0].AsString()) > 3 {
				return cty.NilVal, errors.New("too long")
			}
			return args[0], nil
		},
	}),
}

type specGen struct {
	g    *G
	deep bool
}

// GenSpec makes a specification for a whole body.
func GenSpec(g *G, depth int) *Spec {
	return (&specGen{g: g}).level(depth, 0, false)
}

// GenSpecNest makes a specification with blocks in blocks.
func GenSpecNest(g *G, depth int) *Spec {
	used := map[string]bool{}
	name := (&specGen{g: g}).name
	s := &Spec{Kind: STuple, Kids: []*Spec{{Kind: SAttr, Name: name(used), Ty: cty.DynamicPseudoType}}}
	if depth > 0 {
		s.Kids = append(s.Kids, &Spec{Kind: SBlockTuple, Name: name(used), Kids: []*Spec{GenSpecNest(g, depth-1)}})
	}
	return s
}

// GenSpecDeep is GenSpec with maps of several levels.
func GenSpecDeep(g *G, depth int) *Spec {
	return (&specGen{g: g, deep: true}).level(depth, 0, false)
}

// level makes the specification of one body, which has the given number of
// labels, all of which have to be mentioned.
func (sg *specGen) level(depth, labels int, noDyn bool) *Spec {
	r := sg.g.R
	used := map[string]bool{}
	var kids []*Spec
	n := r.Intn(5)
	if r.Chance(1, 12) {
		n = r.Range(5, 12)
	}
	for i := 0; i < n; i++ {
		if k := sg.item(depth, used, noDyn); k != nil {
			kids = append(kids, k)
		}
	}
	if len(kids) > 0 && r.Chance(1, 8) {
		// the same attribute or block read in another way
		again := *kids[r.Intn(len(kids))]
		switch again.Kind {
		case SAttr:
			again.Required = r.Bool()
			if r.Bool() {
				again.Ty = sg.attrType(noDyn)
			}
			kids = append(kids, &again)
		case SBlockList, SBlockTuple, SBlockSet:
			kinds := []SpecKind{SBlockList, SBlockSet, SBlockTuple}
			if noDyn {
				kinds = kinds[:2]
			}
			again.Kind = kinds[r.Intn(len(kinds))]
			if !hasExprSpec(&again) { // these would be written twice
				kids = append(kids, &again)
			}
		}
	}
	for i := 0; i < labels; i++ {
		kids = append(kids, &Spec{Kind: SLabel, Index: i, Name: fmt.Sprintf("l%d", i)})
	}
	for i := len(kids) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		kids[i], kids[j] = kids[j], kids[i]
	}
	if len(kids) == 1 && r.Bool() {
		return kids[0]
	}
	if r.Chance(1, 6) {
		return &Spec{Kind: STuple, Kids: kids}
	}
	s := &Spec{Kind: SObject, Kids: kids}
	for i := range kids {
		s.Keys = append(s.Keys, fmt.Sprintf("k%d", i))
	}
	if len(kids) > 2 && r.Chance(1, 6) {
		// a nested object over the same body
		sub := &Spec{Kind: SObject, Kids: kids[:2], Keys: s.Keys[:2]}
		s = &Spec{Kind: SObject, Kids: append([]*Spec{sub}, kids[2:]...), Keys: append([]string{"sub"}, s.Keys[2:]...)}
	}
	return s
}

func hasExprSpec(s *Spec) bool {
	for _, k := range s.Kids {
		if k.Kind == SExpr || hasExprSpec(k) {
			return true
		}
	}
	return false
}

func (sg *specGen) name(used map[string]bool) string {
	for i := 0; ; i++ {
		n := Name(sg.g.R)
		if sg.g.R.Chance(1, 20) {
			n = sg.g.R.Pick("for", "content", "dynamic-x", "for_each")
		}
		if i > 3 {
			n = fmt.Sprintf("n%d", len(used))
		}
		if !used[n] {
			used[n] = true
			return n
		}
	}
}

func (sg *specGen) attrType(noDyn bool) cty.Type {
	r := sg.g.R
	if !noDyn && r.Chance(1, 6) {
		if r.Chance(1, 4) {
			return []cty.Type{cty.List(cty.DynamicPseudoType), cty.Map(cty.DynamicPseudoType), cty.Set(cty.DynamicPseudoType)}[r.Intn(3)]
		}
		return cty.DynamicPseudoType
	}
	if r.Chance(2, 3) {
		return pickType(r, cty.String, cty.Number, cty.Bool)
	}
	return Type(r, 2)
}

func (sg *specGen) attr(used map[string]bool, noDyn bool) *Spec {
	return &Spec{Kind: SAttr, Name: sg.name(used), Ty: sg.attrType(noDyn), Required: sg.g.R.Chance(1, 4)}
}

func (sg *specGen) item(depth int, used map[string]bool, noDyn bool) *Spec {
	r := sg.g.R
	switch k := r.Intn(20); {
	case k < 8:
		return sg.attr(used, noDyn)
	case k == 8:
		return &Spec{Kind: SLiteral, Val: Value(r, Type(r, 1), 6)}
	case k == 9:
		if noDyn {
			return sg.attr(used, noDyn)
		}
		return &Spec{Kind: SExpr, X: sg.g.Expr(WAny, 2)}
	case k == 10:
		if depth > 0 && r.Chance(1, 3) {
			// a literal in place of a missing block
			a := &Spec{Kind: SBlock, Name: sg.name(used), Required: r.Chance(1, 3), Kids: []*Spec{sg.level(depth-1, r.Intn(2), true)}}
			if ty := Implied(a); !HasDynamic(ty) {
				return &Spec{Kind: SDefault, Kids: []*Spec{a, {Kind: SLiteral, Val: Value(r, ty, 6)}}}
			}
			return a
		}
		a := sg.attr(used, noDyn)
		var d *Spec
		switch r.Intn(3) {
		case 0:
			d = &Spec{Kind: SAttr, Name: sg.name(used), Ty: a.Ty, Required: r.Chance(1, 4)}
		case 1:
			if ty := a.Ty; !HasDynamic(ty) {
				d = &Spec{Kind: SLiteral, Val: Value(r, ty, 6)}
				break
			}
			fallthrough
		default:
			if a.Ty == cty.DynamicPseudoType {
				d = &Spec{Kind: SExpr, X: sg.g.Expr(WAny, 2)}
			} else {
				d = &Spec{Kind: SAttr, Name: sg.name(used), Ty: a.Ty}
			}
		}
		return &Spec{Kind: SDefault, Kids: []*Spec{a, d}}
	case k == 11:
		w := sg.item(depth, used, noDyn)
		if r.Chance(1, 4) {
			w = &Spec{Kind: SAttr, Name: sg.name(used), Ty: cty.String}
			if r.Bool() {
				// fail for text that is not a number and for null
				xs := []*Expr{{Kind: KBin, Text: "+", X: []*Expr{Var("val"), Num("1")}}, {Kind: KCall, Text: "upper", X: []*Expr{Var("val")}}}
				return &Spec{Kind: STransExpr, Kids: []*Spec{w}, X: xs[r.Intn(2)]}
			}
			return &Spec{Kind: STransFunc, Kids: []*Spec{w}, Func: "short"}
		}
		if r.Bool() {
			return &Spec{Kind: STransFunc, Kids: []*Spec{w}, Func: r.Pick("wrap", "isnull")}
		}
		v := func() *Expr { return Var("val") }
		xs := []*Expr{
			v(),
			{Kind: KTuple, X: []*Expr{v(), v()}},
			{Kind: KObject, Keys: []KeyStyle{KeyIdent}, X: []*Expr{Var("x"), v()}},
			{Kind: KCall, Text: "isnull", X: []*Expr{v()}},
		}
		return &Spec{Kind: STransExpr, Kids: []*Spec{w}, X: xs[r.Intn(len(xs))]}
	}
	if depth <= 0 {
		return sg.attr(used, noDyn)
	}
	s := &Spec{Name: sg.name(used)}
	switch k := r.Intn(8); {
	case k == 0:
		s.Kind = SBlock
		s.Required = r.Chance(1, 3)
	case k == 1 || noDyn && (k == 2 || k == 6):
		s.Kind = SBlockList
	case k == 2:
		s.Kind = SBlockTuple
	case k == 3:
		s.Kind = SBlockSet
	case k == 4, k == 5:
		s.Kind = SBlockMap
	case k == 6:
		s.Kind = SBlockObject
	default:
		s.Kind = SBlockAttrs
		s.Required = r.Chance(1, 3)
		s.Ty = sg.attrType(noDyn)
		return s
	}
	sub := noDyn || s.Kind == SBlockMap
	labels := 0
	if r.Chance(1, 3) {
		labels = r.Range(1, 3)
	}
	s.Kids = []*Spec{sg.level(depth-1, labels, sub)}
	switch s.Kind {
	case SBlockMap, SBlockObject:
		n := r.Range(1, 2)
		if s.Kind == SBlockMap && !sg.deep {
			n = 1
		}
		for i := n; i > 0; i-- {
			s.Labels = append(s.Labels, fmt.Sprintf("key%d", i))
		}
	case SBlockList, SBlockTuple, SBlockSet:
		if r.Chance(1, 4) {
			s.Min = r.Intn(3)
		}
		if r.Chance(2, 5) {
			s.Max = s.Min
			if r.Chance(2, 3) {
				s.Max += r.Range(0, 3)
			}
		}
	}
	return s
}

// HasDynamic is whether any type is allowed somewhere in a type.
func HasDynamic(ty cty.Type) bool {
	switch {
	case ty == cty.DynamicPseudoType:
		return true
	case ty.IsCollectionType():
		return HasDynamic(ty.ElementType())
	case ty.IsTupleType():
		for _, t := range ty.TupleElementTypes() {
			if HasDynamic(t) {
				return true
			}
		}
	case ty.IsObjectType():
		for _, t := range ty.AttributeTypes() {
			if HasDynamic(t) {
				return true
			}
		}
	}
	return false
}

// SameBody lists the specifications that apply to the same body, from s down.
func (s *Spec) SameBody() []*Spec {
	out := []*Spec{s}
	switch s.Kind {
	case SObject, STuple, SDefault, STransExpr, STransFunc:
		for _, k := range s.Kids {
			out = append(out, k.SameBody()...)
		}
	}
	return out
}

// NumLabels is the number of labels of the blocks of a block specification.
func (s *Spec) NumLabels() int {
	n := len(s.Labels)
	if s.Kind == SBlockAttrs {
		return 0
	}
	max := 0
	for _, k := range s.Kids[0].SameBody() {
		if k.Kind == SLabel && k.Index+1 > max {
			max = k.Index + 1
		}
	}
	return n + max
}

// IsBlock is whether the specification describes a block type.
func (s *Spec) IsBlock() bool { return s.Kind >= SBlock && s.Kind <= SBlockAttrs }

// Shape is a short description of the structure.
func (s *Spec) Shape() string {
	out := string(rune('A' + int(s.Kind)))
	if s.Required {
		out += "!"
	}
	out += strings.Repeat("'", len(s.Labels))
	if len(s.Kids) > 0 {
		out += "("
		for _, k := range s.Kids {
			out += k.Shape()
		}
		out += ")"
	}
	return out
}

// ValueExpr is an expression for a value.
func ValueExpr(r *mon.Rand, v cty.Value) *Expr {
	ty := v.Type()
	switch {
	case v.IsNull():
		return &Expr{Kind: KNull}
	case ty == cty.Number:
		f := v.AsBigFloat()
		if f.IsInf() {
			return &Expr{Kind: KNull}
		}
		if f.Sign() < 0 {
			return &Expr{Kind: KUn, Text: "-", X: []*Expr{Num(new(big.Float).Neg(f).Text('f', -1))}}
		}
		return Num(f.Text('f', -1))
	case ty == cty.String:
		return Lit(v.AsString())
	case ty == cty.Bool:
		if v.True() {
			return &Expr{Kind: KBool, Text: "true"}
		}
		return &Expr{Kind: KBool, Text: "false"}
	case ty.IsTupleType(), ty.IsListType(), ty.IsSetType():
		e := &Expr{Kind: KTuple}
		for it := v.ElementIterator(); it.Next(); {
			_, el := it.Element()
			e.X = append(e.X, ValueExpr(r, el))
		}
		return e
	default:
		e := &Expr{Kind: KObject}
		for it := v.ElementIterator(); it.Next(); {
			k, el := it.Element()
			if ks := k.AsString(); IsIdent(ks) && ks != "for" && r.Bool() {
				e.Keys = append(e.Keys, KeyIdent)
				e.X = append(e.X, Var(ks))
			} else {
				e.Keys = append(e.Keys, KeyStr)
				e.X = append(e.X, Lit(ks))
			}
			e.X = append(e.X, ValueExpr(r, el))
		}
		return e
	}
}

// Typed makes an expression that usually can be converted to a type.
func (g *G) Typed(ty cty.Type) *Expr {
	r := g.R
	if !g.Sure && r.Chance(1, 15) {
		return g.Expr(WAny, 2)
	}
	if r.Chance(1, 4) {
		ps := g.allPaths()
		if len(ps) > 0 {
			at := r.Intn(len(ps))
			for i := range ps {
				p := ps[(at+i)%len(ps)]
				if p.val.Type().Equals(ty) {
					return p.make()
				}
			}
		}
	}
	switch {
	case g.Sure && !HasDynamic(ty):
	case ty == cty.Number && r.Bool():
		return g.Expr(WNum, 2)
	case ty == cty.String && r.Bool():
		return g.Expr(WStr, 2)
	case ty == cty.Bool && r.Bool():
		return g.Expr(WBool, 2)
	case ty == cty.DynamicPseudoType && r.Bool():
		return g.Expr(WAny, 2)
	case HasDynamic(ty) && ty != cty.DynamicPseudoType && ty.IsCollectionType():
		ety := pickType(r, cty.String, cty.Number, cty.Bool)
		switch {
		case ty.IsListType():
			ty = cty.List(ety)
		case ty.IsSetType():
			ty = cty.Set(ety)
		default:
			ty = cty.Map(ety)
		}
	}
	return ValueExpr(r, Value(r, ty, 10))
}

// SpecBodyOpts steers the generation of bodies for specifications.
type SpecBodyOpts struct {
	Faults int  // one in this many choices breaks a rule; 0 for none
	Once   bool // break a rule once only
	// Mixed allows faults that can't be expressed in JSON syntax, like the
	// wrong number of labels.
	Mixed bool
	// Dynamic makes one in this many block types one of dynamic blocks, and
	// if DynMixed is set they're used together with literal blocks. New
	// variables go into Root.
	Dynamic  int
	DynMixed bool
	Root     *Env

	done *bool
}

// fault decides whether to break a rule.
func (o SpecBodyOpts) fault(r *mon.Rand) bool {
	if o.Faults <= 0 || o.Once && *o.done || !r.Chance(1, o.Faults) {
		return false
	}
	if o.Once {
		*o.done = true
	}
	return true
}

// GenSpecBody makes a body for a specification.
func GenSpecBody(g *G, s *Spec, o SpecBodyOpts) *Body {
	r := g.R
	b := &Body{}
	if o.done == nil {
		o.done = new(bool)
	}
	fault := func() bool { return o.fault(r) }
	seen := map[string]bool{}
	for _, k := range s.SameBody() {
		switch {
		case k.Kind == SAttr:
			if seen[k.Name] {
				continue
			}
			seen[k.Name] = true
			if k.Required && fault() || !k.Required && r.Chance(1, 3) {
				continue
			}
			x := g.Typed(k.Ty)
			if its := g.Env.Iterators(); k.Ty == cty.DynamicPseudoType && len(its) > 0 && r.Bool() {
				x = &Expr{Kind: KAttr, Text: r.Pick("key", "value"), X: []*Expr{Var(its[r.Intn(len(its))])}}
			}
			b.Items = append(b.Items, &Item{Name: k.Name, X: x})
		case k.IsBlock():
			if seen[k.Name] {
				continue
			}
			seen[k.Name] = true
			n := 0
			switch k.Kind {
			case SBlock, SBlockAttrs:
				n = r.Intn(2)
				if k.Required {
					n = 1
				}
				if fault() {
					n = r.Intn(3)
				}
			default:
				lo, hi := k.Min, k.Min+3
				if k.Max > 0 {
					hi = k.Max
				}
				if fault() {
					lo, hi = 0, hi+1
					switch {
					case k.Max > 0 && r.Bool():
						lo = hi
					case k.Min > 0 && r.Bool():
						hi = k.Min - 1
					}
				}
				n = r.Range(lo, hi)
				if r.Chance(1, 50) && k.Max == 0 {
					n = r.Range(5, 30)
				}
			}
			labels := k.NumLabels()
			if o.Dynamic > 0 {
				free := k.Kind != SBlock && k.Kind != SBlockAttrs && k.Min == 0 && k.Max == 0
				pure := r.Chance(1, o.Dynamic)
				for tries := 0; tries < 4; tries++ {
					switch {
					case !pure && (!o.DynMixed || !r.Chance(1, o.Dynamic)):
					case free && r.Bool():
						b.Items = append(b.Items, g.genDyn(k, -1, tries, o))
					default:
						m := r.Range(0, n)
						if pure && tries == 3 {
							m = n
						}
						n -= m
						b.Items = append(b.Items, g.genDyn(k, m, tries, o))
					}
					if n == 0 {
						break
					}
				}
				if pure {
					n = 0
				}
			}
			for i := 0; i < n; i++ {
				it := &Item{Name: k.Name}
				nl := labels
				if o.Mixed && fault() {
					nl = r.Intn(labels + 2)
				}
				for j := 0; j < nl; j++ {
					l := GenLabel(r)
					if (k.Kind == SBlockMap || k.Kind == SBlockObject) && j == len(k.Labels)-1 && !fault() {
						l = Label{Text: fmt.Sprintf("%s%d", l.Text, i)}
					} else if r.Bool() {
						l = Label{Text: r.Pick("a", "b", "foo", "\u00e9", "e\u0301")}
					}
					it.Labels = append(it.Labels, l)
				}
				if k.Kind == SBlockAttrs {
					it.Plain = true
					it.Body = g.plainBody(k, o)
				} else {
					it.Body = GenSpecBody(g, k.Kids[0], o)
				}
				b.Items = append(b.Items, it)
			}
		}
	}
	if fault() {
		n := "extra"
		if !seen[n] {
			if r.Bool() || !o.Mixed {
				b.Items = append(b.Items, &Item{Name: n, X: g.Typed(cty.String)})
			} else {
				b.Items = append(b.Items, &Item{Name: n, Body: &Body{}})
			}
		}
	}
	if r.Bool() {
		for i := len(b.Items) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			b.Items[i], b.Items[j] = b.Items[j], b.Items[i]
		}
	}
	return b
}

// plainBody makes a body to be read as bare attributes.
func (g *G) plainBody(k *Spec, o SpecBodyOpts) *Body {
	r := g.R
	b := &Body{}
	names := map[string]bool{}
	for m := r.Intn(4); m > 0; m-- {
		nm := Word(r)
		if !names[nm] {
			names[nm] = true
			b.Items = append(b.Items, &Item{Name: nm, X: g.Typed(k.Ty)})
		}
	}
	if o.Mixed && !names["blk"] && o.fault(r) {
		b.Items = append(b.Items, &Item{Name: "blk", Body: &Body{}})
	}
	return b
}

// Decoded is the outcome of decoding in the model.
type Decoded struct {
	Val    cty.Value
	Errs   []string // why it is in error
	Unsure string   // why it can't be told

	// EmptyNested is whether there is a map of several levels without any
	// blocks. Such a map has the type of one level only if Flat is set.
	EmptyNested bool
	Flat        bool

	base *Env
}

func (d *Decoded) errf(format string, args ...interface{}) {
	d.Errs = append(d.Errs, fmt.Sprintf(format, args...))
}

// RefDecode decodes a body according to a specification.
func RefDecode(s *Spec, b *Body, env *Env, partial bool) (d *Decoded) {
	return refDecode(s, b, env, partial, false)
}

// RefDecodeFlat is RefDecode with Flat set.
func RefDecodeFlat(s *Spec, b *Body, env *Env, partial bool) (d *Decoded) {
	return refDecode(s, b, env, partial, true)
}

func refDecode(s *Spec, b *Body, env *Env, partial, flat bool) (d *Decoded) {
	d = &Decoded{Flat: flat, base: env}
	defer func() {
		if r := recover(); r != nil {
			d.Unsure = "crash in the conversion library"
		}
	}()
	d.Val = d.body(s, b, nil, env, partial)
	return d
}

func (d *Decoded) body(s *Spec, b *Body, labels []Label, env *Env, partial bool) cty.Value {
	attrs := map[string]bool{}
	blocks := map[string]*Spec{}
	for _, k := range s.SameBody() {
		switch {
		case k.Kind == SAttr:
			attrs[k.Name] = true
			if k.Required && b.Attr(k.Name) == nil {
				d.errf("required attribute %s is missing", k.Name)
			}
		case k.IsBlock():
			blocks[k.Name] = k
		}
	}
	good := &Body{}
	for _, it := range b.Items {
		if it.X != nil {
			switch {
			case attrs[it.Name]:
				good.Items = append(good.Items, it)
			case !partial || blocks[it.Name] != nil:
				d.errf("attribute %s not expected", it.Name)
			}
			continue
		}
		bs := blocks[it.Name]
		switch {
		case bs == nil && (!partial || attrs[it.Name]):
			d.errf("block %s not expected", it.Name)
		case bs == nil:
		case len(it.Labels) != bs.NumLabels():
			d.errf("block %s has %d labels", it.Name, len(it.Labels))
		default:
			good.Items = append(good.Items, it)
		}
	}
	return d.spec(s, good, labels, env)
}

func (d *Decoded) eval(x *Expr, env *Env) cty.Value {
	v, err := Eval(x, env)
	if err == ErrUnsure {
		d.Unsure = "evaluation unspecified"
		return cty.DynamicVal
	}
	if err != nil {
		d.errf("%s", err)
		return cty.DynamicVal
	}
	return v
}

func (d *Decoded) conv(v cty.Value, ty cty.Type) cty.Value {
	c, err := convert.Convert(v, ty)
	if err != nil {
		d.errf("%s", err)
		return cty.UnknownVal(ty)
	}
	return c
}

func (d *Decoded) spec(s *Spec, b *Body, labels []Label, env *Env) cty.Value {
	switch s.Kind {
	case SObject:
		vals := map[string]cty.Value{}
		for i, k := range s.Kids {
			vals[s.Keys[i]] = d.spec(k, b, labels, env)
		}
		return cty.ObjectVal(vals)
	case STuple:
		vals := []cty.Value{}
		for _, k := range s.Kids {
			vals = append(vals, d.spec(k, b, labels, env))
		}
		return cty.TupleVal(vals)
	case SAttr:
		it := b.Attr(s.Name)
		if it == nil {
			return cty.NullVal(s.Ty)
		}
		return d.conv(d.eval(it.X, env), s.Ty)
	case SLiteral:
		return s.Val
	case SExpr:
		return d.eval(s.X, d.base)
	case SLabel:
		return cty.StringVal(labels[s.Index].Text)
	case SDefault:
		v := d.spec(s.Kids[0], b, labels, env)
		if v.IsNull() {
			return d.spec(s.Kids[1], b, labels, env)
		}
		return v
	case STransExpr:
		n := len(d.Errs)
		v := d.spec(s.Kids[0], b, labels, env)
		if len(d.Errs) > n {
			return cty.DynamicVal
		}
		return d.eval(s.X, &Env{Vars: map[string]cty.Value{"val": v}, Funcs: Funcs})
	case STransFunc:
		n := len(d.Errs)
		v := d.spec(s.Kids[0], b, labels, env)
		if len(d.Errs) > n {
			return cty.DynamicVal
		}
		r, err := TransFuncs[s.Func].Call([]cty.Value{v})
		if err != nil {
			d.errf("%s", err)
			return cty.DynamicVal
		}
		return r
	}
	var blocks []*Item
	for _, it := range b.Blocks() {
		if it.Name == s.Name {
			blocks = append(blocks, it)
		}
	}
	scope := func(it *Item) *Env {
		if it.Env != nil {
			return it.Env
		}
		return env
	}
	switch s.Kind {
	case SBlock:
		if len(blocks) > 1 {
			d.errf("more than one block %s", s.Name)
		}
		if len(blocks) == 0 {
			if s.Required {
				d.errf("required block %s is missing", s.Name)
			}
			return cty.NullVal(d.Implied(s))
		}
		return d.body(s.Kids[0], blocks[0].Body, blocks[0].Labels, scope(blocks[0]), false)
	case SBlockAttrs:
		if len(blocks) > 1 {
			d.errf("more than one block %s", s.Name)
		}
		if len(blocks) == 0 {
			if s.Required {
				d.errf("required block %s is missing", s.Name)
			}
			return cty.NullVal(cty.Map(s.Ty))
		}
		vals := map[string]cty.Value{}
		for _, it := range blocks[0].Body.Items {
			if it.X == nil {
				d.errf("block %s not expected", it.Name)
				continue
			}
			vals[it.Name] = d.conv(d.eval(it.X, scope(blocks[0])), s.Ty)
		}
		if len(vals) == 0 {
			return cty.MapValEmpty(s.Ty)
		}
		var names []string
		for n := range vals {
			names = append(names, n)
		}
		sort.Strings(names)
		var l []cty.Value
		for _, n := range names {
			l = append(l, vals[n])
		}
		if !d.unify(l) {
			return cty.DynamicVal
		}
		for i, n := range names {
			vals[n] = l[i]
		}
		return cty.MapVal(vals)
	case SBlockList, SBlockTuple, SBlockSet:
		if len(blocks) < s.Min || s.Max > 0 && len(blocks) > s.Max {
			d.errf("%d blocks %s", len(blocks), s.Name)
		}
		var l []cty.Value
		for _, it := range blocks {
			l = append(l, d.body(s.Kids[0], it.Body, it.Labels, scope(it), false))
		}
		if s.Kind == SBlockTuple {
			return cty.TupleVal(l)
		}
		if len(l) == 0 {
			if s.Kind == SBlockSet {
				return cty.SetValEmpty(d.Implied(s.Kids[0]))
			}
			return cty.ListValEmpty(d.Implied(s.Kids[0]))
		}
		if !d.unify(l) {
			return cty.DynamicVal
		}
		if s.Kind == SBlockSet {
			return cty.SetVal(l)
		}
		return cty.ListVal(l)
	case SBlockMap, SBlockObject:
		root := map[string]interface{}{}
		for _, it := range blocks {
			n := len(s.Labels)
			v := d.body(s.Kids[0], it.Body, it.Labels[n:], scope(it), false)
			m := root
			for _, l := range it.Labels[:n-1] {
				k := cty.NormalizeString(l.Text)
				if m[k] == nil {
					m[k] = map[string]interface{}{}
				}
				m = m[k].(map[string]interface{})
			}
			k := cty.NormalizeString(it.Labels[n-1].Text)
			if _, ok := m[k]; ok {
				d.errf("block %s with labels %v repeated", s.Name, it.Labels)
				continue
			}
			m[k] = v
		}
		return d.nest(root, len(s.Labels), s)
	}
	panic("unhandled spec")
}

func (d *Decoded) nest(m map[string]interface{}, depth int, s *Spec) cty.Value {
	vals := map[string]cty.Value{}
	for k, v := range m {
		if depth == 1 {
			vals[k] = v.(cty.Value)
		} else {
			vals[k] = d.nest(v.(map[string]interface{}), depth-1, s)
		}
	}
	if s.Kind == SBlockObject {
		return cty.ObjectVal(vals)
	}
	if len(vals) == 0 {
		ety := d.Implied(s.Kids[0])
		d.EmptyNested = d.EmptyNested || depth > 1
		for i := 1; i < depth && !d.Flat; i++ {
			ety = cty.Map(ety)
		}
		return cty.MapValEmpty(ety)
	}
	if len(d.Errs) > 0 {
		return cty.DynamicVal // the elements may be anything
	}
	return cty.MapVal(vals)
}

// unify makes the values have one type.
func (d *Decoded) unify(l []cty.Value) bool {
	tys := make([]cty.Type, len(l))
	same := true
	for i, v := range l {
		tys[i] = v.Type()
		same = same && tys[i].Equals(tys[0])
	}
	if same {
		return true
	}
	ty, convs := convert.UnifyUnsafe(tys)
	if ty == cty.NilType {
		d.errf("types differ")
		return false
	}
	for i, conv := range convs {
		if conv != nil {
			v, err := conv(l[i])
			if err != nil {
				d.errf("types differ: %s", err)
				return false
			}
			l[i] = v
		}
	}
	for _, v := range l {
		if !v.Type().Equals(l[0].Type()) {
			d.Unsure = "types that unify only loosely"
			return false
		}
	}
	return true
}

// Implied is the type that a specification promises.
func (d *Decoded) Implied(s *Spec) cty.Type { return Implied(s) }

// Implied is the type that a specification promises.
func Implied(s *Spec) cty.Type {
	switch s.Kind {
	case SObject:
		tys := map[string]cty.Type{}
		for i, k := range s.Kids {
			tys[s.Keys[i]] = Implied(k)
		}
		return cty.Object(tys)
	case STuple:
		tys := []cty.Type{}
		for _, k := range s.Kids {
			tys = append(tys, Implied(k))
		}
		return cty.Tuple(tys)
	case SAttr:
		return s.Ty
	case SLiteral:
		return s.Val.Type()
	case SLabel:
		return cty.String
	case SBlock, SDefault:
		return Implied(s.Kids[0])
	case SBlockList:
		return cty.List(Implied(s.Kids[0]))
	case SBlockSet:
		return cty.Set(Implied(s.Kids[0]))
	case SBlockMap:
		ty := Implied(s.Kids[0])
		for range s.Labels {
			ty = cty.Map(ty)
		}
		return ty
	case SBlockAttrs:
		return cty.Map(s.Ty)
	case STransFunc:
		in := Implied(s.Kids[0])
		switch s.Func {
		case "wrap":
			return cty.Tuple([]cty.Type{in})
		case "isnull":
			return cty.Bool
		}
		return cty.String
	case STransExpr:
		in := Implied(s.Kids[0])
		switch s.X.Kind {
		case KVar:
			return in
		case KTuple:
			return cty.Tuple([]cty.Type{in, in})
		case KObject:
			return cty.Object(map[string]cty.Type{"x": in})
		case KBin:
			return cty.Number
		}
		if s.X.Text == "upper" {
			return cty.String
		}
		if in == cty.DynamicPseudoType {
			return in // a call with an argument of unknown type
		}
		return cty.Bool
	}
	return cty.DynamicPseudoType
}

// RefVars lists the names that decoding a body that fits the specification
// refers to.
func RefVars(s *Spec, b *Body) map[string]bool {
	out := map[string]bool{}
	refVars(s, b, out)
	return out
}

func refVars(s *Spec, b *Body, out map[string]bool) {
	add := func(e *Expr) {
		for _, n := range e.Free() {
			out[n] = true
		}
	}
	for _, k := range s.SameBody() {
		switch {
		case k.Kind == SAttr:
			if it := b.Attr(k.Name); it != nil {
				add(it.X)
			}
		case k.Kind == SExpr:
			add(k.X)
		case k.IsBlock():
			for _, it := range b.Blocks() {
				if it.Name != k.Name {
					continue
				}
				if k.Kind == SBlockAttrs {
					for _, a := range it.Body.Attrs() {
						add(a.X)
					}
				} else {
					refVars(k.Kids[0], it.Body, out)
				}
			}
		}
	}
}
