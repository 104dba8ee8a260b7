package gen

import (
	"fmt"

	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/convert"
)

// Dyn is a block that stands for one block per element of a collection.
type Dyn struct {
	ForEach *Expr
	Iter    string // the name of the iterator; that of the block type if empty
	Labels  []*Expr
	Content *Body
	Plain   bool
	Fault   string // if set, what is wrong with it
}

// Iterator is the name that has the current element.
func (d *Dyn) Iterator(typ string) string {
	if d.Iter != "" {
		return d.Iter
	}
	return typ
}

var dynFaults = []string{"null", "number", "no for_each", "two contents", "no content", "iterator expression", "label count", "null label", "extra attribute", "extra block", "failing for_each", "type label missing"}

var notNames = map[string]bool{"true": true, "false": true, "null": true, "for": true, "in": true, "if": true, "else": true, "endif": true, "endfor": true, "dynamic": true}

// Unk is the name of a variable that is unknown wherever it's defined.
const Unk = "unk__"

// genDyn makes a block that stands for n blocks, or for any number if n is
// negative.
func (g *G) genDyn(k *Spec, n int, seq int, o SpecBodyOpts) *Item {
	r := g.R
	d := &Dyn{Plain: k.Kind == SBlockAttrs}
	if notNames[k.Name] || r.Chance(1, 3) {
		d.Iter = r.Pick("it", "el", "each", "a", "value", "key", Word(r))
		for notNames[d.Iter] {
			d.Iter = Word(r)
		}
	}
	if outer := g.Env.Iterators(); len(outer) > 0 && r.Chance(1, 6) {
		d.Iter = outer[r.Intn(len(outer))] // hides another iterator
	}
	if n < 0 {
		n = r.Intn(4)
		for _, p := range g.Env.Iterators() {
			if r.Chance(2, 3) {
				d.ForEach = &Expr{Kind: KAttr, Text: "value", X: []*Expr{Var(p)}}
			}
		}
	}
	ety := Type(r, 1)
	if r.Chance(1, 3) {
		ety = cty.List(cty.String)
	}
	if d.ForEach == nil {
		switch what := r.Intn(8); {
		case what < 2:
			d.ForEach = &Expr{Kind: KTuple}
			for i := 0; i < n; i++ {
				d.ForEach.X = append(d.ForEach.X, g.Typed(ety))
			}
		case what == 2:
			d.ForEach = &Expr{Kind: KObject}
			for i := 0; i < n; i++ {
				d.ForEach.X = append(d.ForEach.X, Lit(fmt.Sprintf("%s%d", Word(r), i)), g.Typed(ety))
				d.ForEach.Keys = append(d.ForEach.Keys, KeyStr)
			}
		case n > 0 && what < 7 && o.Root != nil:
			var v cty.Value
			name := fmt.Sprintf("coll%d", len(o.Root.Vars))
			l := make([]cty.Value, n)
			for i := range l {
				l[i] = Value(r, ety, 4)
			}
			switch what {
			case 3, 4:
				v = cty.ListVal(l)
			case 5:
				m := map[string]cty.Value{}
				for i := range l {
					m[fmt.Sprintf("%s%d", Word(r), i)] = l[i]
				}
				v = cty.MapVal(m)
			case 6:
				for i := range l {
					l[i] = cty.StringVal(fmt.Sprintf("%s%d", Word(r), i))
				}
				v = cty.SetVal(l)
			}
			o.Root.Vars[name] = v
			d.ForEach = Var(name)
			if r.Chance(1, 8) {
				d.ForEach = &Expr{Kind: KForTuple, Val: "v", X: []*Expr{d.ForEach, Var("v"), nil}}
			}
		default:
			d.ForEach = &Expr{Kind: KTuple}
			for i := 0; i < n; i++ {
				d.ForEach.X = append(d.ForEach.X, Num(fmt.Sprint(i*3)))
			}
		}
	}
	iter := d.Iterator(k.Name)
	sample := cty.ObjectVal(map[string]cty.Value{"key": cty.StringVal("k"), "value": cty.StringVal("v")})
	scope := g.Env
	if o.Root != nil {
		scope = &Env{Vars: o.Root.Vars, Parent: g.Env}
	}
	if v, err := Eval(d.ForEach, scope); err == nil && iterable(v) {
		for it := v.ElementIterator(); it.Next(); {
			kv, ev := it.Element()
			sample = cty.ObjectVal(map[string]cty.Value{"key": kv, "value": ev})
			if r.Bool() {
				break
			}
		}
	}
	in := *g
	in.Env = &Env{Vars: map[string]cty.Value{iter: sample}, Parent: g.Env, Iter: iter}
	for i := 0; i < k.NumLabels(); i++ {
		if (k.Kind == SBlockMap || k.Kind == SBlockObject) && i == len(k.Labels)-1 {
			d.Labels = append(d.Labels, &Expr{Kind: KStr, Parts: []*Part{
				{Kind: PInterp, X: &Expr{Kind: KAttr, Text: "key", X: []*Expr{Var(iter)}}},
				{Kind: PLit, Text: fmt.Sprintf("-d%d", seq)},
			}})
			continue
		}
		switch r.Intn(4) {
		case 0:
			d.Labels = append(d.Labels, &Expr{Kind: KAttr, Text: "key", X: []*Expr{Var(iter)}})
		case 1:
			d.Labels = append(d.Labels, in.Typed(cty.String))
		case 2:
			d.Labels = append(d.Labels, Num(fmt.Sprint(r.Intn(5))))
		default:
			d.Labels = append(d.Labels, Lit(r.Pick("a", "b", "foo")))
		}
	}
	if r.Bool() {
		// so that most references are to the element
		near := *in.Env
		near.Parent = nil
		end := &near
		for e := g.Env; e != nil && e.Iter != "" && r.Chance(2, 3); e = e.Parent {
			up := *e
			up.Parent = nil
			end.Parent = &up
			end = &up
		}
		root := g.Env
		for root.Parent != nil {
			root = root.Parent
		}
		end.Funcs = root.Funcs
		in.Env = &near
	}
	if d.Plain {
		d.Content = in.plainBody(k, o)
	} else {
		d.Content = GenSpecBody(&in, k.Kids[0], o)
	}
	if o.fault(r) {
		d.Fault = dynFaults[r.Intn(len(dynFaults))]
	}
	return &Item{Name: k.Name, Dyn: d}
}

// Iterators lists the names of iterators in scope that aren't hidden,
// innermost first.
func (e *Env) Iterators() []string {
	var out []string
	seen := map[string]bool{}
	for ; e != nil; e = e.Parent {
		if e.Iter != "" && !seen[e.Iter] {
			out = append(out, e.Iter)
		}
		for n := range e.Vars {
			seen[n] = true
		}
	}
	return out
}

func iterable(v cty.Value) bool {
	if v.IsNull() || !v.IsKnown() {
		return false
	}
	ty := v.Type()
	return ty.IsCollectionType() || ty.IsTupleType() || ty.IsObjectType()
}

// Lower expresses dynamic blocks as the plain blocks they are written as.
func (b *Body) Lower() *Body {
	out := &Body{}
	for _, it := range b.Items {
		switch {
		case it.Dyn != nil:
			d := it.Dyn
			blk := &Item{Name: "dynamic", Labels: []Label{{Text: it.Name}}, Body: &Body{}}
			if d.Fault == "type label missing" {
				// stands for a block type that isn't in the schema
				blk.Labels[0].Text = it.Name + "_unheard_of"
			}
			add := func(it *Item) { blk.Body.Items = append(blk.Body.Items, it) }
			switch d.Fault {
			case "null":
				add(&Item{Name: "for_each", X: &Expr{Kind: KNull}})
			case "number":
				add(&Item{Name: "for_each", X: Num("5")})
			case "failing for_each":
				add(&Item{Name: "for_each", X: Var("no_such_variable_at_all")})
			case "no for_each":
			default:
				add(&Item{Name: "for_each", X: d.ForEach})
			}
			if d.Fault == "iterator expression" {
				add(&Item{Name: "iterator", X: &Expr{Kind: KAttr, Text: "b", X: []*Expr{Var("a")}}, Static: true})
			} else if d.Iter != "" {
				add(&Item{Name: "iterator", X: Var(d.Iter), Static: true})
			}
			ls := append([]*Expr(nil), d.Labels...)
			switch d.Fault {
			case "label count":
				ls = append(ls, Lit("more"))
			case "null label":
				if len(ls) > 0 {
					ls[len(ls)-1] = &Expr{Kind: KNull}
				}
			}
			if len(ls) > 0 {
				add(&Item{Name: "labels", X: &Expr{Kind: KTuple, X: ls}, Static: true})
			}
			content := &Item{Name: "content", Body: d.Content.Lower(), Plain: d.Plain}
			if d.Fault != "no content" {
				add(content)
			}
			if d.Fault == "two contents" {
				add(&Item{Name: "content", Body: &Body{}})
			}
			switch d.Fault {
			case "extra attribute":
				add(&Item{Name: "more", X: Num("1")})
			case "extra block":
				add(&Item{Name: "more", Body: &Body{}})
			}
			out.Items = append(out.Items, blk)
		case it.Body != nil:
			n := *it
			n.Body = it.Body.Lower()
			out.Items = append(out.Items, &n)
		default:
			out.Items = append(out.Items, it)
		}
	}
	return out
}

// Expanded is the outcome of expanding dynamic blocks in the model.
type Expanded struct {
	Body    *Body
	Errs    []string
	Unsure  string
	Blocks  int // the number of blocks generated
	StoodIn int // the number of blocks that stand for an unknown number
}

// Expand replaces dynamic blocks by the blocks they stand for. A block whose
// collection isn't known is replaced by a single one whose attributes aren't
// known either.
func (b *Body) Expand(env *Env) *Expanded {
	x := &Expanded{}
	x.Body = x.body(b, env, false)
	return x
}

func (x *Expanded) body(b *Body, env *Env, unknown bool) *Body {
	out := &Body{}
	for _, it := range b.Items {
		switch {
		case it.Dyn != nil:
			out.Items = append(out.Items, x.dyn(it, env, unknown)...)
		case it.Body != nil:
			n := *it
			n.Body = x.body(it.Body, env, unknown)
			out.Items = append(out.Items, &n)
		case unknown:
			out.Items = append(out.Items, &Item{Name: it.Name, X: Var(Unk)})
		default:
			out.Items = append(out.Items, it)
		}
	}
	return out
}

func (x *Expanded) dyn(it *Item, env *Env, unknown bool) []*Item {
	d := it.Dyn
	if d.Fault != "" {
		if d.Fault == "null label" && len(d.Labels) == 0 {
			// nothing is wrong then
		} else if d.Fault == "null label" {
			// wrong only if there is an element
			for _, n := range d.ForEach.Free() {
				if e, ok := env.lookup(n); ok && !e.IsWhollyKnown() {
					x.Unsure = "null label with an unknown collection"
					return nil
				}
			}
			v, err := Eval(d.ForEach, env)
			if err == ErrUnsure {
				x.Unsure = "collection unspecified"
			}
			if err == nil && iterable(v) && v.LengthInt() == 0 {
				return nil
			}
			x.Errs = append(x.Errs, d.Fault)
			return nil
		} else {
			x.Errs = append(x.Errs, d.Fault)
			return nil
		}
	}
	iter := d.Iterator(it.Name)
	refers := false
	for _, n := range d.ForEach.Free() {
		if e, ok := env.lookup(n); ok && !e.IsWhollyKnown() {
			refers = true
		}
	}
	direct := d.ForEach.Kind == KVar || d.ForEach.Kind == KAttr && d.ForEach.X[0].Kind == KVar
	var v cty.Value
	var err error
	switch f := d.ForEach; {
	case refers && f.Kind == KForTuple && f.X[0].Kind == KVar && f.X[2] == nil:
		if in, _ := env.lookup(f.X[0].Text); in.IsKnown() {
			x.Unsure = "collection computed from unknown values"
			return nil
		}
		v = cty.DynamicVal
	case refers && !direct:
		x.Unsure = "collection computed from unknown values"
		return nil
	default:
		v, err = Eval(f, env)
	}
	switch {
	case err == ErrUnsure:
		x.Unsure = "collection unspecified"
		return nil
	case err != nil:
		x.Errs = append(x.Errs, "for_each fails")
		return nil
	case !v.IsKnown():
		x.StoodIn++
		sub := &Env{Parent: env, Iter: iter, Vars: map[string]cty.Value{
			iter: cty.ObjectVal(map[string]cty.Value{"key": cty.DynamicVal, "value": cty.DynamicVal}),
			Unk:  cty.DynamicVal,
		}}
		if len(d.Labels) > 0 {
			x.Unsure = "labels of a block for an unknown collection"
			return nil
		}
		return []*Item{{Name: it.Name, Env: sub, Plain: d.Plain, Body: x.body(d.Content, sub, true)}}
	case !iterable(v):
		x.Errs = append(x.Errs, "for_each isn't a collection")
		return nil
	}
	var out []*Item
	for e := v.ElementIterator(); e.Next(); {
		kv, ev := e.Element()
		vars := map[string]cty.Value{iter: cty.ObjectVal(map[string]cty.Value{"key": kv, "value": ev})}
		if unknown {
			vars[Unk] = cty.DynamicVal
		}
		sub := &Env{Parent: env, Iter: iter, Vars: vars}
		n := &Item{Name: it.Name, Env: sub, Plain: d.Plain}
		bad := false
		for _, le := range d.Labels {
			for _, n := range le.Free() {
				if e, ok := sub.lookup(n); ok && !e.IsWhollyKnown() {
					x.Unsure = "labels computed from unknown values"
					return nil
				}
			}
			lv, err := Eval(le, sub)
			if err == ErrUnsure {
				x.Unsure = "label unspecified"
				return nil
			}
			if err == nil {
				lv, err = convert.Convert(lv, cty.String)
			}
			if err != nil || lv.IsNull() {
				x.Errs = append(x.Errs, "label fails")
				bad = true
				continue
			}
			if !lv.IsKnown() {
				x.Unsure = "label unknown"
				return nil
			}
			n.Labels = append(n.Labels, Label{Text: lv.AsString()})
		}
		if bad {
			continue
		}
		x.Blocks++
		n.Body = x.body(d.Content, sub, unknown)
		out = append(out, n)
	}
	return out
}

// HasDyn is whether there is a dynamic block.
func (b *Body) HasDyn() bool {
	for _, it := range b.Items {
		if it.Dyn != nil || it.Body != nil && it.Body.HasDyn() {
			return true
		}
	}
	return false
}

// DynVars lists the names that decoding a body with dynamic blocks refers to,
// or only those needed to find out which blocks there are.
func DynVars(s *Spec, b *Body, content bool) map[string]bool {
	out := map[string]bool{}
	dynVars(s, b, content, nil, out)
	return out
}

func dynVars(s *Spec, b *Body, content bool, bound []string, out map[string]bool) {
	add := func(e *Expr, bound []string) {
	next:
		for _, n := range e.Free() {
			for _, o := range bound {
				if n == o {
					continue next
				}
			}
			out[n] = true
		}
	}
	seen := map[string]bool{}
	for _, k := range s.SameBody() {
		switch {
		case k.Kind == SAttr:
			if it := b.Attr(k.Name); it != nil && content {
				add(it.X, bound)
			}
		case k.Kind == SExpr:
			if content {
				add(k.X, nil)
			}
		case k.IsBlock() && !seen[k.Name]:
			seen[k.Name] = true
			for _, it := range b.Items {
				if it.Name != k.Name || it.X != nil {
					continue
				}
				in, body := bound, it.Body
				if d := it.Dyn; d != nil {
					add(d.ForEach, bound)
					in = append(bound[:len(bound):len(bound)], d.Iterator(it.Name))
					for _, l := range d.Labels {
						add(l, in)
					}
					body = d.Content
				}
				if k.Kind != SBlockAttrs {
					dynVars(k.Kids[0], body, content, in, out)
				} else if content {
					for _, a := range body.Attrs() {
						add(a.X, in)
					}
				}
			}
		}
	}
}
