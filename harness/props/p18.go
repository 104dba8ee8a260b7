package props

import (
	"fmt"
	"reflect"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/gohcl"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/convert"
	"github.com/zclconf/go-cty/cty/gocty"
)

func init() {
	register(&mon.Prop{
		ID: "P18",
		Rule: "structure types of all field kinds made at run time; bodies for them, valid or with faults, in native, JSON, packed, merged, expanded and wrapped form, are decoded and each field compared with the reference; random structures are encoded into new and filled bodies and decoded again; " +
			"distinct = (structure shape, body shape or file kind)",
		Assumptions: []string{
			"conversion of one value to a Go type is as the gocty library does it",
			"after an error the fields aren't judged",
			"blocks are decoded to structures, pointers to them or slices of either",
		},
		Quick:    80000,
		Thorough: 600000,
		Require: []string{"attribute assigned", "absent attribute left empty", "expression assigned", "attribute object assigned", "block assigned", "blocks assigned", "absent block left empty", "label assigned", "remaining body", "remaining attributes", "remaining map",
			"fault reported", "decoded into used structure", "map decoded", "single expression decoded", "encoded and decoded", "encoded into filled body", "encoded as block", "encoded without undecoded fields", "encoded without nil blocks", "schema as described"},
		Run: runP18,
	})
}

func runP18(c *mon.Case) {
	// types are kept by the runtime, so there is a limited number of them
	tr := mon.NewRand(77, "P18", uint64(c.Intn(3000)))
	plain := c.Chance(1, 3)
	s := structType(tr, tr.Intn(4), false, plain)
	c.Input("type", s.String())
	switch {
	case plain:
		encodeP18(c, s)
	case c.Chance(1, 10):
		mapP18(c, tr)
	default:
		decodeP18(c, s)
	}
}

type goExpect struct {
	c       *mon.Case
	env     *gen.Env
	errs    []string
	unsure  bool
	oddJSON bool // contents that are read differently in JSON syntax
	used    bool // decoded into something that had values before
}

func (x *goExpect) errf(f string, args ...interface{}) {
	x.errs = append(x.errs, fmt.Sprintf(f, args...))
}

// value is the reference value of an expression.
func (x *goExpect) value(e *gen.Expr) (cty.Value, bool) {
	v, err := gen.Eval(e, x.env)
	if err == gen.ErrUnsure {
		x.unsure = true
		return cty.DynamicVal, false
	}
	if err != nil {
		x.errf("evaluation fails")
		return cty.DynamicVal, false
	}
	return v, true
}

// target is the reference value as a Go value.
func (x *goExpect) target(e *gen.Expr, t reflect.Type, ty cty.Type) (reflect.Value, bool) {
	v, ok := x.value(e)
	if !ok {
		return reflect.Value{}, false
	}
	out := reflect.New(t)
	if msg := mon.Guard(func() {
		var err error
		if v, err = convert.Convert(v, ty); err == nil {
			err = gocty.FromCtyValue(v, out.Interface())
		}
		if err != nil {
			x.errf("%s", err)
			ok = false
		}
	}); msg != "" {
		x.unsure = true
		return reflect.Value{}, false
	}
	return out.Elem(), ok
}

// scan finds what is wrong with a body.
func (x *goExpect) scan(s *goStruct, b *gen.Body) {
	known := map[string]*goField{}
	for _, f := range s.fields {
		switch f.kind {
		case "attr", "optional":
			known[f.name] = f
			it := b.Attr(f.name)
			if it == nil {
				if f.required() {
					x.errf("attribute %s is missing", f.name)
				}
				continue
			}
			if f.t != exprRT && f.t != attrRT {
				x.target(it.X, f.t, f.ty)
			}
		case "block":
			known[f.name] = f
			n := 0
			for _, it := range b.Blocks() {
				if it.Name != f.name {
					continue
				}
				n++
				if len(it.Labels) != f.sub.labels {
					x.errf("block %s has %d labels", f.name, len(it.Labels))
				} else {
					x.scan(f.sub, it.Body)
				}
			}
			if n > 1 && !f.slice {
				x.errf("%d blocks %s", n, f.name)
			}
			if n == 0 && !f.slice && !f.ptr {
				x.errf("no block %s", f.name)
			}
		}
	}
	for _, it := range b.Items {
		f := known[it.Name]
		if f != nil && (f.kind == "block") != (it.Body != nil) {
			x.errf("%s is of the wrong kind", it.Name)
			x.unsure = x.unsure || s.remain != nil
			continue
		}
		if f != nil {
			continue
		}
		switch {
		case s.remain == nil:
			x.errf("%s isn't expected", it.Name)
		case s.remain.t == bodyRT:
		case it.Body != nil:
			x.errf("block %s remains", it.Name)
			x.oddJSON = true
		case s.remain.t.Kind() == reflect.Map && s.remain.t != attrsRT:
			et := s.remain.t.Elem()
			if et != exprRT && et != attrRT {
				ty, _ := gocty.ImpliedType(reflect.Zero(et).Interface())
				x.target(it.X, et, ty)
			}
		}
	}
}

// structBody makes a body for a structure.
func structBody(c *mon.Case, g *gen.G, s *goStruct, faults int, mixed bool) *gen.Body {
	b := &gen.Body{}
	fault := func() bool { return faults > 0 && c.Chance(1, faults) }
	used := map[string]bool{}
	for _, f := range s.fields {
		used[f.name] = true
		switch f.kind {
		case "attr", "optional":
			if f.required() && fault() || !f.required() && c.Chance(1, 3) {
				continue
			}
			ty := f.ty
			if ty == cty.NilType {
				ty = cty.DynamicPseudoType
			}
			if fault() && mixed {
				b.Items = append(b.Items, &gen.Item{Name: f.name, Body: &gen.Body{}})
				continue
			}
			b.Items = append(b.Items, &gen.Item{Name: f.name, X: g.Typed(ty)})
		case "block":
			n := 1
			switch {
			case f.slice:
				n = c.Size(3, 12)
			case f.ptr:
				n = c.Intn(2)
			}
			if fault() {
				n = c.Intn(3)
			}
			for i := 0; i < n; i++ {
				it := &gen.Item{Name: f.name, Body: structBody(c, g, f.sub, faults, mixed)}
				nl := f.sub.labels
				if mixed && fault() {
					nl = c.Intn(4)
				}
				for j := 0; j < nl; j++ {
					it.Labels = append(it.Labels, gen.GenLabel(c.Rand))
				}
				it.Plain = f.sub.remain != nil && f.sub.remain.t != bodyRT
				b.Items = append(b.Items, it)
			}
		}
	}
	if s.remain != nil || fault() {
		for i, n := 0, c.Intn(4); i < n; i++ {
			name := tagName(c.Rand, used)
			if s.remain != nil && s.remain.t != bodyRT && !fault() || c.Bool() {
				ty := cty.DynamicPseudoType
				if s.remain != nil && s.remain.t == reflect.TypeOf(map[string]string(nil)) {
					ty = cty.String
				}
				b.Items = append(b.Items, &gen.Item{Name: name, X: g.Typed(ty)})
			} else {
				b.Items = append(b.Items, &gen.Item{Name: name, Body: &gen.Body{}})
			}
		}
	}
	for i := len(b.Items) - 1; i > 0; i-- {
		j := c.Intn(i + 1)
		b.Items[i], b.Items[j] = b.Items[j], b.Items[i]
	}
	return b
}

func decodeP18(c *mon.Case, s *goStruct) {
	env := gen.NewEnv(c.Rand)
	g := &gen.G{R: c.Rand, Env: env, Hostile: 40}
	faults, mixed := 0, false
	if c.Chance(1, 3) {
		faults, mixed = c.Range(3, 20), c.Bool()
	}
	b := structBody(c, g, s, faults, mixed)
	x := &goExpect{c: c, env: env}
	x.scan(s, b)
	if x.unsure {
		c.Skip("reference is undecided")
	}
	var bb builtBody
	if mixed {
		src := gen.NewW(c.Rand).Config(b)
		c.Input("native", src)
		bb = builtBody{Body: parseNative(c, src).Body, desc: "native"}
	} else {
		bb = buildBody(c, b, env, 2)
	}
	if bb.json && x.oddJSON {
		c.Skip("blocks and attributes can't be told apart")
	}
	c.Input("environment", envStr(env))
	checkSchema(c, s)

	v := reflect.New(s.rt)
	ctx := evalCtx(env)
	var diags hcl.Diagnostics
	if c.Chance(1, 4) {
		// The structure has values from another body, which must not show
		// through (except that absent attributes may leave theirs).
		src := gen.NewW(c.Rand).Config(structBody(c, g, s, 0, false))
		c.Input("decoded before", src)
		checkPanic(c, "decoding", func() { diags = gohcl.DecodeBody(parseNative(c, src).Body, ctx, v.Interface()) })
		if !diags.HasErrors() {
			x.used = true
			c.Event("decoded into used structure")
		} else {
			v = reflect.New(s.rt)
		}
	}
	checkPanic(c, "decoding", func() { diags = gohcl.DecodeBody(bb.Body, ctx, v.Interface()) })
	if diags.HasErrors() != (len(x.errs) > 0) {
		c.Failf("errors are %s\nexpected: %s\ntype: %s\nform: %s", diagStr(diags), strings.Join(x.errs, "; "), s, bb.desc)
	}
	if len(x.errs) > 0 {
		c.Event("fault reported")
		kinds := append([]string(nil), x.errs...)
		if len(kinds) > 3 {
			kinds = kinds[:3]
		}
		c.Sig("fault", s.shape(), fmt.Sprint(kinds))
		return
	}
	checkPanic(c, "reading the result", func() { x.verify(s, b, nil, v.Elem(), "", ctx) })
	c.Sig("decode", s.shape(), b.Shape(), bb.desc)
	c.Sample(s.String() + " from " + bb.desc)
}

// verify compares a decoded structure with the body.
func (x *goExpect) verify(s *goStruct, b *gen.Body, labels []gen.Label, v reflect.Value, where string, ctx *hcl.EvalContext) {
	c := x.c
	li := 0
	left := map[string]*gen.Item{}
	for _, it := range b.Items {
		left[it.Name] = it
	}
	evals := func(e hcl.Expression, at string, want *gen.Expr) {
		w, err := gen.Eval(want, x.env)
		if err == gen.ErrUnsure {
			return
		}
		got, diags := e.Value(ctx)
		if diags.HasErrors() != (err != nil) {
			c.Failf("expression of %s: errors %s, reference %v", at, diagStr(diags), err)
		}
		if err == nil && !gen.SameValue(w, got) {
			c.Failf("expression of %s is %s, should be %s", at, valStr(got), valStr(w))
		}
	}
	for i, f := range s.fields {
		fv := v.Field(i)
		at := where + "." + f.name
		if f.kind != "remain" {
			delete(left, f.name)
		}
		switch f.kind {
		case "none":
			if !isZero(fv) {
				c.Failf("field without tag was assigned: %s", goStr(fv))
			}
		case "label":
			if fv.String() != labels[li].Text {
				c.Failf("label %s is %q, should be %q", at, fv.String(), labels[li].Text)
			}
			li++
			c.Event("label assigned")
		case "attr", "optional":
			it := b.Attr(f.name)
			switch {
			case f.t == exprRT:
				e, _ := fv.Interface().(hcl.Expression)
				if e == nil {
					c.Failf("no expression for %s", at)
				}
				if it != nil {
					evals(e, at, it.X)
					c.Event("expression assigned")
				} else if got, diags := e.Value(nil); diags.HasErrors() || !got.IsNull() {
					c.Failf("absent expression %s is %s", at, valStr(got))
				}
			case it == nil:
				if !isZero(fv) && !x.used {
					c.Failf("absent attribute %s was assigned: %s", at, goStr(fv))
				}
				c.Event("absent attribute left empty")
			case f.t == attrRT:
				a := fv.Interface().(*hcl.Attribute)
				if a == nil || a.Name != f.name {
					c.Failf("attribute %s is %v", at, a)
				}
				evals(a.Expr, at, it.X)
				c.Event("attribute object assigned")
			default:
				want, ok := x.target(it.X, f.t, f.ty)
				if !ok {
					c.Skip("reference is undecided")
				}
				if !sameGo(want, fv) {
					c.Failf("attribute %s is %s, should be %s", at, goStr(fv), goStr(want))
				}
				c.Event("attribute assigned")
			}
		case "block":
			var its []*gen.Item
			for _, it := range b.Blocks() {
				if it.Name == f.name {
					its = append(its, it)
				}
			}
			if f.slice {
				if fv.Len() != len(its) {
					c.Failf("%s has %d elements for %d blocks", at, fv.Len(), len(its))
				}
				for j, it := range its {
					e := fv.Index(j)
					if f.ptr {
						if e.IsNil() {
							c.Failf("%s[%d] is nil", at, j)
						}
						e = e.Elem()
					}
					x.verify(f.sub, it.Body, it.Labels, e, fmt.Sprintf("%s[%d]", at, j), ctx)
					c.Event("blocks assigned")
				}
				continue
			}
			if len(its) == 0 {
				if !isZero(fv) {
					c.Failf("absent block %s was assigned", at)
				}
				c.Event("absent block left empty")
				continue
			}
			if f.ptr {
				if fv.IsNil() {
					c.Failf("block %s wasn't assigned", at)
				}
				fv = fv.Elem()
			}
			x.verify(f.sub, its[0].Body, its[0].Labels, fv, at, ctx)
			c.Event("block assigned")
		}
	}
	if s.remain == nil {
		return
	}
	fv := v.Field(s.remain.index)
	switch {
	case s.remain.t == bodyRT:
		body, _ := fv.Interface().(hcl.Body)
		if body == nil {
			c.Failf("no remaining body in %s", where)
		}
		schema := &hcl.BodySchema{}
		n := 0
		for _, it := range b.Items {
			if left[it.Name] != it {
				continue
			}
			n++
			if it.Body != nil {
				schema.Blocks = append(schema.Blocks, hcl.BlockHeaderSchema{Type: it.Name})
			} else {
				schema.Attributes = append(schema.Attributes, hcl.AttributeSchema{Name: it.Name, Required: true})
			}
		}
		content, diags := body.Content(schema)
		if diags.HasErrors() {
			c.Failf("remaining body of %s: %s", where, diagStr(diags))
		}
		if len(content.Attributes)+len(content.Blocks) != n {
			c.Failf("remaining body of %s has %d attributes and %d blocks, should have %d", where, len(content.Attributes), len(content.Blocks), n)
		}
		for name, a := range content.Attributes {
			evals(a.Expr, where+"."+name, left[name].X)
		}
		c.Event("remaining body")
	case s.remain.t == attrsRT:
		attrs := fv.Interface().(hcl.Attributes)
		if len(attrs) != len(left) {
			c.Failf("%d attributes remain in %s, should be %d", len(attrs), where, len(left))
		}
		for name, it := range left {
			if attrs[name] == nil {
				c.Failf("attribute %s doesn't remain in %s", name, where)
			}
			evals(attrs[name].Expr, where+"."+name, it.X)
		}
		c.Event("remaining attributes")
	default:
		x.verifyMap(left, fv, where, evals)
		c.Event("remaining map")
	}
}

// verifyMap compares a decoded map with attributes.
func (x *goExpect) verifyMap(left map[string]*gen.Item, m reflect.Value, where string, evals func(hcl.Expression, string, *gen.Expr)) {
	c := x.c
	if m.Len() != len(left) {
		c.Failf("map in %s has %d elements, should have %d", where, m.Len(), len(left))
	}
	for name, it := range left {
		e := m.MapIndex(reflect.ValueOf(name))
		at := where + "." + name
		if !e.IsValid() {
			c.Failf("map lacks %s", at)
		}
		switch et := m.Type().Elem(); et {
		case exprRT:
			evals(e.Interface().(hcl.Expression), at, it.X)
		case attrRT:
			if e.Interface().(*hcl.Attribute).Name != name {
				c.Failf("wrong attribute for %s", at)
			}
			evals(e.Interface().(*hcl.Attribute).Expr, at, it.X)
		default:
			ty, _ := gocty.ImpliedType(reflect.Zero(et).Interface())
			want, ok := x.target(it.X, et, ty)
			if !ok {
				c.Skip("reference is undecided")
			}
			if !sameGo(want, e) {
				c.Failf("map element %s is %s, should be %s", at, goStr(e), goStr(want))
			}
		}
	}
}

// checkSchema compares the schema with the fields.
func checkSchema(c *mon.Case, s *goStruct) {
	schema, partial := gohcl.ImpliedBodySchema(reflect.Zero(s.rt).Interface())
	if partial != (s.remain != nil) {
		c.Failf("schema is partial: %v\ntype: %s", partial, s)
	}
	attrs, blocks := map[string]bool{}, map[string]int{}
	for _, a := range schema.Attributes {
		attrs[a.Name] = a.Required
	}
	for _, b := range schema.Blocks {
		blocks[b.Type] = len(b.LabelNames)
	}
	na, nb := 0, 0
	for _, f := range s.fields {
		switch f.kind {
		case "attr", "optional":
			na++
			if req, ok := attrs[f.name]; !ok || req != f.required() {
				c.Failf("schema has attribute %s: %v, required: %v\ntype: %s", f.name, ok, req, s)
			}
		case "block":
			nb++
			if n, ok := blocks[f.name]; !ok || n != f.sub.labels {
				c.Failf("schema has block %s: %v, labels: %d\ntype: %s", f.name, ok, n, s)
			}
		}
	}
	if len(schema.Attributes) != na || len(schema.Blocks) != nb {
		c.Failf("schema has %d attributes and %d blocks, should be %d and %d", len(schema.Attributes), len(schema.Blocks), na, nb)
	}
	c.Event("schema as described")
}

// mapP18 decodes into maps and single expressions into Go values.
func mapP18(c *mon.Case, tr *mon.Rand) {
	env := gen.NewEnv(c.Rand)
	g := &gen.G{R: c.Rand, Env: env, Hostile: 40}
	et := goType(tr, 2, true)
	ty, err := gocty.ImpliedType(reflect.Zero(et).Interface())
	if err != nil {
		panic(err)
	}
	b := &gen.Body{}
	used := map[string]bool{}
	left := map[string]*gen.Item{}
	x := &goExpect{c: c, env: env}
	for i, n := 0, c.Size(4, 15); i < n; i++ {
		it := &gen.Item{Name: tagName(c.Rand, used), X: g.Typed(ty)}
		b.Items = append(b.Items, it)
		left[it.Name] = it
		x.target(it.X, et, ty)
	}
	if x.unsure {
		c.Skip("reference is undecided")
	}
	bb := buildBody(c, b, env, 2)
	c.Input("environment", envStr(env))
	ctx := evalCtx(env)
	m := reflect.New(reflect.MapOf(reflect.TypeOf(""), et))
	var diags hcl.Diagnostics
	checkPanic(c, "decoding", func() { diags = gohcl.DecodeBody(bb.Body, ctx, m.Interface()) })
	if diags.HasErrors() != (len(x.errs) > 0) {
		c.Failf("errors are %s\nexpected: %s\nmap of %s\nform: %s", diagStr(diags), strings.Join(x.errs, "; "), et, bb.desc)
	}
	if len(x.errs) == 0 {
		x.verifyMap(left, m.Elem(), "", nil)
		c.Event("map decoded")
	} else {
		c.Event("fault reported")
	}
	c.Sig("map", et.String(), len(left))

	// one by one
	attrs, _ := bb.Body.JustAttributes()
	for name, it := range left {
		y := &goExpect{c: c, env: env}
		want, ok := y.target(it.X, et, ty)
		got := reflect.New(et)
		var diags hcl.Diagnostics
		checkPanic(c, "decoding", func() { diags = gohcl.DecodeExpression(attrs[name].Expr, ctx, got.Interface()) })
		if diags.HasErrors() == ok {
			c.Failf("expression of %s: errors are %s, expected %v", name, diagStr(diags), y.errs)
		}
		if ok && !sameGo(want, got.Elem()) {
			c.Failf("expression of %s is %s, should be %s", name, goStr(got.Elem()), goStr(want))
		}
		c.Event("single expression decoded")
	}
}

func encodeP18(c *mon.Case, s *goStruct) {
	v := reflect.New(s.rt)
	fillStruct(c.Rand, s, v.Elem())
	if c.Chance(1, 3) && addNils(c.Rand, s, v.Elem()) {
		c.Event("encoded without nil blocks")
	}
	c.Input("value", clip(fmt.Sprintf("%#v", v.Interface()), 3000))
	arg := v.Interface()
	if c.Bool() {
		arg = v.Elem().Interface()
	}
	raw := c.Chance(1, 3)
	if raw {
		u := addUndecoded(c.Rand, s)
		arg = u.fill(c.Rand, v.Elem()).Interface()
		c.Input("type with undecoded fields", clip(u.rt.String(), 3000))
	}
	var f *hclwrite.File
	env := gen.NewEnv(c.Rand)
	filled := c.Bool()
	if filled {
		g := &gen.G{R: c.Rand, Env: env, Hostile: 40}
		b := gen.GenBody(g, gen.BodyOpts{MaxItems: c.Size(4, 10), Depth: c.Range(0, 2), ExprDepth: 1, Heredocs: true})
		src := gen.NewW(c.Rand).Config(b)
		c.Input("existing", src)
		f = loadWriter(c, []byte(src))
	} else {
		f = hclwrite.NewEmptyFile()
	}
	kind := "root"
	var path []int
	var out string
	checkPanic(c, "encoding", func() {
		dst := f.Body()
		if c.Bool() {
			for len(dst.Blocks()) > 0 && c.Chance(3, 4) {
				n := c.Intn(len(dst.Blocks()))
				path = append(path, n)
				dst = dst.Blocks()[n].Body()
			}
		}
		if c.Chance(1, 3) {
			kind = "block"
			path = append(path, len(dst.Blocks()))
			dst.AppendBlock(gohcl.EncodeAsBlock(arg, "encoded"))
		} else {
			gohcl.EncodeIntoBody(arg, dst)
		}
		out = string(f.Bytes())
	})
	c.Input("encoded", out)
	native := parseNative(c, out).Body.(*hclsyntax.Body)
	for _, i := range path {
		if i >= len(native.Blocks) {
			c.Failf("encoded block isn't in the output\noutput: %s", q(out))
		}
		native = native.Blocks[i].Body
	}
	got := reflect.New(s.rt)
	checkPanic(c, "decoding", func() {
		diags := gohcl.DecodeBody(native, nil, got.Interface())
		if diags.HasErrors() {
			c.Failf("encoded structure isn't decoded: %s\nvalue: %s\noutput: %s", diagStr(diags), goStr(v.Elem()), q(out))
		}
	})
	if d := sameStruct(s, v.Elem(), got.Elem(), ""); d != "" {
		c.Failf("encoded structure is decoded differently: %s\ntype: %s\noutput: %s", d, s, q(out))
	}
	c.Event("encoded and decoded")
	if filled {
		c.Event("encoded into filled body")
	}
	if raw {
		c.Event("encoded without undecoded fields")
	}
	if kind == "block" {
		c.Event("encoded as block")
	}
	c.Sig("encode", s.shape(), kind, len(path), filled)
	c.Sample(clip(out, 300))
}
