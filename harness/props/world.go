package props

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/ext/dynblock"
	"github.com/hashicorp/hcl2/ext/transform"
	"github.com/hashicorp/hcl2/ext/typeexpr"
	"github.com/hashicorp/hcl2/ext/userfunc"
	"github.com/hashicorp/hcl2/gohcl"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/hashicorp/hcl2/hcled"
	"github.com/hashicorp/hcl2/hclpack"
	"github.com/hashicorp/hcl2/hclwrite"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function"
)

// world is a set of objects that read operations can share.
type world struct {
	model  *gen.Spec
	env    *gen.Env
	src    []byte // native syntax
	jsrc   []byte // JSON syntax
	esrc   [][]byte
	tsrc   []byte
	fsrc   []byte
	gsrc   []byte
	native *hcl.File
	json   *hcl.File
	gofile *hcl.File
	packed *hclpack.Body
	wfile  *hclwrite.File
	bodies []hcl.Body
	descs  []string
	spec   hcldec.Spec
	schema *hcl.BodySchema
	spare  []string // the array behind label names of the schema
	ctx    *hcl.EvalContext
	exprs  []hclsyntax.Expression
	types  hcl.Expression
	trav   []hcl.Traversal
	funcs  map[string]function.Function
	diags  hcl.Diagnostics
	files  map[string]*hcl.File
	gotype *goStruct
	govals reflect.Value
	vals   []cty.Value
	splat  bool
	kept   []*hcl.BodyContent // extracted from the bodies in advance
	rest   []hcl.Body
	long   []hcl.Expression // with splats over many elements
	many   cty.Value
}

// newWorld makes a world; the same seed gives the same one.
func newWorld(c *mon.Case, seed uint64) *world {
	cc := *c
	cc.Rand = mon.NewRand(seed, "world", uint64(c.Idx))
	r := cc.Rand
	w := &world{}
	base := gen.NewEnv(r)
	root := &gen.Env{Vars: map[string]cty.Value{}}
	g := &gen.G{R: r, Env: base, Hostile: 60}
	w.model = gen.GenSpec(g, r.Range(1, 3))
	noDynamicSpec(w.model)
	dyn := 0
	if r.Bool() {
		dyn = r.Range(1, 3)
	}
	faults := 0
	if r.Chance(1, 4) {
		faults = 15
	}
	b := gen.GenSpecBody(g, w.model, gen.SpecBodyOpts{Dynamic: dyn, Root: root, Faults: faults}).Lower()
	w.env = &gen.Env{Vars: root.Vars, Parent: base}
	w.ctx = evalCtx(w.env)
	w.spec = decSpec(&cc, w.model)
	spareLabels(w.spec)
	w.src = []byte(gen.NewW(r).Config(b))
	w.jsrc = []byte(gen.JSONText(r, gen.JSONBodyValue(r, b, gen.JSONOpts{})))
	c.Input("native", string(w.src))
	w.native, w.diags = hclsyntax.ParseConfig(w.src, "t.hcl", start)
	w.json, _ = json.Parse(w.jsrc, "t.json")
	w.packed, _ = hclpack.PackNativeFile(w.src, "t.hcl", start)
	w.wfile, _ = hclwrite.ParseConfig(w.src, "t.hcl", start)
	w.add("native", w.native.Body)
	w.add("JSON", w.json.Body)
	w.add("packed", w.packed)
	w.add("expanded", dynblock.Expand(w.native.Body, w.ctx))
	w.add("expanded JSON", dynblock.Expand(w.json.Body, w.ctx))
	w.add("transformed", transform.Deep(w.native.Body, transform.TransformerFunc(func(b hcl.Body) hcl.Body { return dynblock.Expand(b, w.ctx) })))
	half := len(b.Items) / 2
	var parts []hcl.Body
	for _, its := range [][]*gen.Item{b.Items[:half], b.Items[half:]} {
		f, _ := hclsyntax.ParseConfig([]byte(gen.NewW(r).Config(&gen.Body{Items: its})), "p.hcl", start)
		parts = append(parts, f.Body)
	}
	w.add("merged", hcl.MergeBodies(parts))
	w.schema = hcldec.ImpliedSchema(w.spec)
	w.schema = &hcl.BodySchema{Attributes: w.schema.Attributes, Blocks: append([]hcl.BlockHeaderSchema(nil), w.schema.Blocks...)}
	w.schema.Attributes = append(make([]hcl.AttributeSchema, 0, len(w.schema.Attributes)+2), w.schema.Attributes...)
	sort.Slice(w.schema.Attributes, func(i, j int) bool { return w.schema.Attributes[i].Name < w.schema.Attributes[j].Name })
	sort.Slice(w.schema.Blocks, func(i, j int) bool { return w.schema.Blocks[i].Type < w.schema.Blocks[j].Type })
	for i, h := range w.schema.Blocks {
		buf := make([]string, len(h.LabelNames)+3)
		copy(buf, h.LabelNames)
		for j := len(h.LabelNames); j < len(buf); j++ {
			buf[j] = "spare"
		}
		w.schema.Blocks[i].LabelNames = buf[:len(h.LabelNames)]
	}
	if len(w.schema.Attributes) > 0 && r.Bool() {
		w.schema.Attributes = w.schema.Attributes[:len(w.schema.Attributes)-1] // with room behind
	}

	for i := 0; i < 3; i++ {
		e := g.Expr(gen.Want(r.Intn(6)), r.Size(3, 5))
		s, _ := gen.RenderExpr(r, e)
		x, _ := hclsyntax.ParseExpression([]byte(s), "e.hcl", start)
		w.esrc = append(w.esrc, []byte(s))
		w.exprs = append(w.exprs, x)
	}
	w.tsrc = []byte(gen.NewW(r).Template(g.Parts(3, false)))
	if x, diags := hclsyntax.ParseTemplate(w.tsrc, "t.tmpl", start); !diags.HasErrors() {
		w.exprs = append(w.exprs, x)
	}
	cc.Rand = r
	ts, _ := gen.RenderExpr(r, typeSrc(&cc, anyType(&cc, 3, true)))
	if x, diags := hclsyntax.ParseExpression([]byte(ts), "ty.hcl", start); !diags.HasErrors() {
		w.types = x
	} else {
		w.types = w.exprs[0]
	}
	for _, x := range w.exprs {
		for _, t := range x.Variables() {
			w.trav = append(w.trav, t)
		}
	}
	for _, n := range []string{"b[0].c", "a.b.c.d", "l[1]", `m["k"].z`} {
		if t, diags := hclsyntax.ParseTraversalAbs([]byte(n), "tr.hcl", start); !diags.HasErrors() {
			w.trav = append(w.trav, t)
		}
	}
	// functions that use a shared scope
	p := gen.Word(r) + "p"
	fg := &gen.G{R: r, Env: &gen.Env{Vars: map[string]cty.Value{p: gen.Value(r, gen.Type(r, 2), 0)}, Parent: base}}
	var fb gen.Body
	for i := 0; i < 2; i++ {
		f := &userFunc{name: fmt.Sprintf("f%d", i), params: []string{p}, result: fg.Expr(gen.WAny, 3)}
		fb.Items = append(fb.Items, f.item("function"))
	}
	w.fsrc = []byte(gen.NewW(r).Config(&fb))
	ff, _ := hclsyntax.ParseConfig(w.fsrc, "f.hcl", start)
	w.funcs, _, _ = userfunc.DecodeUserFunctions(ff.Body, "function", func() *hcl.EvalContext { return w.ctx })
	for i := 0; i < 3; i++ {
		w.vals = append(w.vals, gen.Value(r, gen.Type(r, 3), 6))
	}

	w.gotype = structType(mon.NewRand(78, "world", uint64(r.Intn(500))), 2, false, false)
	w.gsrc = []byte(gen.NewW(r).Config(structBody(&cc, g, w.gotype, 0, false)))
	w.gofile, _ = hclsyntax.ParseConfig(w.gsrc, "g.hcl", start)
	plain := structType(mon.NewRand(79, "world", uint64(r.Intn(500))), 2, false, true)
	w.govals = reflect.New(plain.rt)
	fillStruct(r, plain, w.govals.Elem())

	for _, x := range w.exprs {
		checkPanic(c, "evaluating", func() {
			_, diags := x.Value(w.ctx)
			w.diags = append(w.diags, diags...)
		})
	}
	_, diags := hcldec.Decode(w.native.Body, &hcldec.AttrSpec{Name: "nothing", Type: cty.String, Required: true}, w.ctx)
	w.diags = append(w.diags, diags...)
	for _, d := range w.diags {
		// suggestions depend on the order of map iteration
		if i := strings.Index(d.Detail, " Did you mean"); i >= 0 {
			d.Detail = d.Detail[:i]
		}
	}
	dkey := func(d *hcl.Diagnostic) string {
		s := d.Summary + d.Detail
		if d.Subject != nil {
			s = fmt.Sprintf("%s %6d ", d.Subject.Filename, d.Subject.Start.Byte) + s
		}
		return s
	}
	sort.SliceStable(w.diags, func(i, j int) bool { return dkey(w.diags[i]) < dkey(w.diags[j]) })
	w.files = map[string]*hcl.File{"t.hcl": w.native, "t.json": w.json, "g.hcl": w.gofile, "e.hcl": {Bytes: w.esrc[0]}}
	// The same splat expression may not be evaluated by several goroutines
	// in one context.
	w.splat = bytes.Contains(w.src, []byte("*")) || bytes.Contains(w.jsrc, []byte("*")) || bytes.Contains(w.fsrc, []byte("*")) || bytes.Contains(bytes.Join(w.esrc, nil), []byte("*")) || bytes.Contains(w.tsrc, []byte("*")) || bytes.Contains(w.gsrc, []byte("*"))
	for _, b := range w.bodies {
		var content *hcl.BodyContent
		var rest hcl.Body
		checkPanic(c, "extracting", func() { content, rest, _ = b.PartialContent(w.schema) })
		w.kept = append(w.kept, content)
		w.rest = append(w.rest, rest)
	}
	var many []cty.Value
	for i := r.Range(50, 200); i > 0; i-- {
		many = append(many, cty.ObjectVal(map[string]cty.Value{"a": cty.NumberIntVal(int64(i)), "b": cty.TupleVal([]cty.Value{cty.NumberIntVal(int64(i)), cty.True})}))
	}
	w.many = cty.TupleVal(many)
	for _, s := range []string{"many[*].a", "many.*.a", "many[*].b[*]", "many[*].b[0]", "[for x in [1, 2] : many[*].a]", `"${join(many.*.a)}"`} {
		x, _ := hclsyntax.ParseExpression([]byte(s), "l.hcl", start)
		w.long = append(w.long, x)
	}
	return w
}

func (w *world) add(desc string, b hcl.Body) {
	w.bodies = append(w.bodies, b)
	w.descs = append(w.descs, desc)
}

// spareLabels puts label names into arrays with room behind them.
func spareLabels(spec hcldec.Spec) {
	room := func(l []string) []string {
		if l == nil {
			return nil
		}
		buf := make([]string, len(l)+2)
		copy(buf, l)
		buf[len(l)], buf[len(l)+1] = "spare", "spare"
		return buf[:len(l)]
	}
	switch s := spec.(type) {
	case *hcldec.BlockMapSpec:
		s.LabelNames = room(s.LabelNames)
		spareLabels(s.Nested)
	case *hcldec.BlockObjectSpec:
		s.LabelNames = room(s.LabelNames)
		spareLabels(s.Nested)
	case hcldec.ObjectSpec:
		for _, k := range s {
			spareLabels(k)
		}
	case hcldec.TupleSpec:
		for _, k := range s {
			spareLabels(k)
		}
	case *hcldec.BlockSpec:
		spareLabels(s.Nested)
	case *hcldec.BlockListSpec:
		spareLabels(s.Nested)
	case *hcldec.BlockTupleSpec:
		spareLabels(s.Nested)
	case *hcldec.BlockSetSpec:
		spareLabels(s.Nested)
	}
}

// inputs describes everything that callers can see of the shared objects.
func (w *world) inputs() map[string]string {
	d := func(v interface{}) string {
		x := &dumper{seen: map[uintptr]bool{}}
		x.dump(reflect.ValueOf(v), 0)
		return x.b.String()
	}
	out := map[string]string{
		"native source":    string(w.src),
		"JSON source":      string(w.jsrc),
		"template source":  string(w.tsrc),
		"function source":  string(w.fsrc),
		"structure source": string(w.gsrc),
		"syntax tree":      d(w.native.Body),
		"structure tree":   d(w.gofile.Body),
		"packed body":      d(w.packed),
		"specification":    d(w.spec),
		"schema":           d(w.schema),
		"traversals":       d(w.trav),
		"diagnostics":      d(w.diags),
		"editable file":    string(w.wfile.BuildTokens(nil).Bytes()),
		"structure":        d(w.govals.Interface()),
		"type expression":  d(w.types),
	}
	for i, s := range w.esrc {
		out[fmt.Sprintf("expression source %d", i)] = string(s)
	}
	for i, x := range w.exprs {
		out[fmt.Sprintf("expression tree %d", i)] = d(x)
	}
	for i, c := 0, w.ctx; c != nil; i, c = i+1, c.Parent() {
		var vs []string
		for n, v := range c.Variables {
			vs = append(vs, n+" = "+valStr(v))
		}
		for n := range c.Functions {
			vs = append(vs, n+"()")
		}
		sort.Strings(vs)
		out[fmt.Sprintf("scope %d", i)] = fmt.Sprintf("%v %v ", c.Variables == nil, c.Functions == nil) + strings.Join(vs, "\n")
	}
	for i, v := range w.vals {
		out[fmt.Sprintf("value %d", i)] = valStr(v)
	}
	return out
}

// dumper writes out the parts of objects that are visible to callers.
type dumper struct {
	b    strings.Builder
	seen map[uintptr]bool
}

var ctyValueRT = reflect.TypeOf(cty.Value{})
var ctyTypeRT = reflect.TypeOf(cty.Type{})

func (d *dumper) dump(v reflect.Value, depth int) {
	if !v.IsValid() {
		d.b.WriteString("nil")
		return
	}
	if depth > 200 {
		d.b.WriteString("...")
		return
	}
	switch v.Type() {
	case ctyValueRT:
		if v.CanInterface() {
			d.b.WriteString(valStr(v.Interface().(cty.Value)))
		}
		return
	case ctyTypeRT:
		if v.CanInterface() {
			d.b.WriteString(v.Interface().(cty.Type).GoString())
		}
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		if d.seen[v.Pointer()] {
			d.b.WriteString("&again")
			return
		}
		d.seen[v.Pointer()] = true
		d.b.WriteString("&")
		d.dump(v.Elem(), depth+1)
		delete(d.seen, v.Pointer())
	case reflect.Interface:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		d.b.WriteString(v.Elem().Type().String())
		d.dump(v.Elem(), depth+1)
	case reflect.Struct:
		d.b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" && !v.Type().Field(i).Anonymous {
				continue
			}
			d.b.WriteString(v.Type().Field(i).Name + ":")
			d.dump(v.Field(i), depth+1)
			d.b.WriteString("\n")
		}
		d.b.WriteString("}")
	case reflect.Slice:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(&d.b, "%q", v.Bytes())
			return
		}
		// including the room behind
		full := v.Slice(0, v.Cap())
		fmt.Fprintf(&d.b, "[%d of %d:", v.Len(), v.Cap())
		for i := 0; i < full.Len(); i++ {
			if i == v.Len() {
				d.b.WriteString("|")
			}
			d.dump(full.Index(i), depth+1)
			d.b.WriteString(",")
		}
		d.b.WriteString("]")
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			d.dump(v.Index(i), depth+1)
			d.b.WriteString(",")
		}
	case reflect.Map:
		var ks []string
		m := map[string]reflect.Value{}
		for _, k := range v.MapKeys() {
			s := fmt.Sprint(k)
			ks = append(ks, s)
			m[s] = v.MapIndex(k)
		}
		sort.Strings(ks)
		fmt.Fprintf(&d.b, "map(%v)[", v.IsNil())
		for _, k := range ks {
			d.b.WriteString(k + ":")
			d.dump(m[k], depth+1)
			d.b.WriteString("\n")
		}
		d.b.WriteString("]")
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		fmt.Fprintf(&d.b, "%v", v.IsNil())
	case reflect.Bool:
		fmt.Fprint(&d.b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(&d.b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(&d.b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(&d.b, v.Float())
	case reflect.String:
		fmt.Fprintf(&d.b, "%q", v.String())
	}
}

// wop is a read operation on a world.
type wop struct {
	name string
	run  func(w *world) string
}

// errSet is the part of diagnostics that is the same each time.
func errSet(diags hcl.Diagnostics) string {
	m := map[string]bool{}
	for _, d := range diags {
		s := d.Summary
		if d.Subject != nil {
			s += fmt.Sprintf(" %v", *d.Subject)
		}
		m[s] = true
	}
	var ss []string
	for s := range m {
		ss = append(ss, s)
	}
	sort.Strings(ss)
	return strings.Join(ss, "; ")
}

func outcomeStr(v cty.Value, diags hcl.Diagnostics) string {
	if diags.HasErrors() {
		return "error: " + errSet(diags)
	}
	return valStr(v) + " " + errSet(diags)
}

func travsStr(ts []hcl.Traversal) string {
	var ss []string
	for _, t := range ts {
		ss = append(ss, travStr(t)+fmt.Sprint(t.SourceRange()))
	}
	sort.Strings(ss)
	return strings.Join(ss, " ")
}

// scope is a context to evaluate in.
func (w *world) scope() *hcl.EvalContext {
	if w.splat {
		return w.ctx.NewChild()
	}
	return w.ctx
}

// pickOp chooses an operation with its parameters.
func pickOp(r *mon.Rand) wop {
	n := r.Intn(1 << 20)
	op := func(name string, f func(w *world) string) wop { return wop{name, f} }
	bodyOp := func(name string, f func(b hcl.Body, w *world) string) wop {
		return wop{name, func(w *world) string { return f(w.bodies[n%len(w.bodies)], w) }}
	}
	switch r.Intn(37) {
	case 0, 1:
		return op("evaluate", func(w *world) string {
			v, diags := w.exprs[n%len(w.exprs)].Value(w.scope())
			return outcomeStr(v, diags)
		})
	case 2:
		return op("variables", func(w *world) string { return travsStr(w.exprs[n%len(w.exprs)].Variables()) })
	case 3, 4, 5:
		return bodyOp("decode", func(b hcl.Body, w *world) string {
			v, diags := hcldec.Decode(b, w.spec, w.scope())
			return outcomeStr(v, diags)
		})
	case 6:
		return bodyOp("decode partially", func(b hcl.Body, w *world) string {
			v, rest, diags := hcldec.PartialDecode(b, w.spec, w.scope())
			out := outcomeStr(v, diags)
			if !diags.HasErrors() {
				_, diags = rest.Content(&hcl.BodySchema{})
				out += errSet(diags)
			}
			return out
		})
	case 7:
		return bodyOp("variables of a body", func(b hcl.Body, w *world) string {
			return travsStr(hcldec.Variables(b, w.spec)) + fmt.Sprintf("%#v", hcldec.ImpliedType(w.spec)) + schemaSet(hcldec.ImpliedSchema(w.spec))
		})
	case 8:
		return op("variables with dynamic blocks", func(w *world) string {
			return travsStr(dynblock.VariablesHCLDec(w.native.Body, w.spec)) + travsStr(dynblock.ExpandVariablesHCLDec(w.json.Body, w.spec))
		})
	case 9:
		return bodyOp("source range", func(b hcl.Body, w *world) string { return fmt.Sprint(hcldec.SourceRange(b, w.spec)) })
	case 10, 11:
		return bodyOp("content", func(b hcl.Body, w *world) string { return readAll(b, w, 0) })
	case 12:
		return bodyOp("content in parts", func(b hcl.Body, w *world) string {
			out := ""
			for i := range w.schema.Blocks {
				var content *hcl.BodyContent
				content, b, _ = b.PartialContent(&hcl.BodySchema{Blocks: w.schema.Blocks[i : i+1]})
				for _, blk := range content.Blocks {
					out += fmt.Sprintf("%s %q %v;", blk.Type, blk.Labels, blk.DefRange)
				}
			}
			content, diags := b.Content(&hcl.BodySchema{Attributes: w.schema.Attributes})
			for _, n := range sortedAttrs(content.Attributes) {
				out += n + " "
			}
			return out + errSet(diags)
		})
	case 13:
		return bodyOp("attributes", func(b hcl.Body, w *world) string {
			attrs, diags := b.JustAttributes()
			out := errSet(diags)
			for _, n := range sortedAttrs(attrs) {
				v, diags := attrs[n].Expr.Value(w.scope())
				out += n + "=" + outcomeStr(v, diags) + ";"
			}
			return out
		})
	case 14:
		return op("decode into a structure", func(w *world) string {
			v := reflect.New(w.gotype.rt)
			diags := gohcl.DecodeBody(w.gofile.Body, w.scope(), v.Interface())
			if diags.HasErrors() {
				return "error: " + errSet(diags)
			}
			schema, partial := gohcl.ImpliedBodySchema(v.Interface())
			return clip(goStrStable(v), 2000) + schemaSet(schema) + fmt.Sprint(partial)
		})
	case 15:
		return op("encode a structure", func(w *world) string {
			f := hclwrite.NewEmptyFile()
			gohcl.EncodeIntoBody(w.govals.Interface(), f.Body())
			return string(f.Bytes())
		})
	case 16:
		return op("walk", func(w *world) string {
			count := 0
			diags := hclsyntax.VisitAll(w.native.Body.(*hclsyntax.Body), func(n hclsyntax.Node) hcl.Diagnostics {
				// the range of a whole set of attributes is that of any of them
				if _, set := n.(hclsyntax.Attributes); !set {
					count += n.Range().End.Byte
				}
				return nil
			})
			return fmt.Sprint(count, len(diags))
		})
	case 17, 18:
		return op("navigate", func(w *world) string {
			f := w.native
			if n%3 == 0 {
				f = w.json
			}
			at := n % (len(f.Bytes) + 1)
			pos := hcl.Pos{Byte: at}
			out := hcled.ContextString(f, at) + fmt.Sprint(hcled.ContextDefRange(f, at))
			for _, b := range f.BlocksAtPos(pos) {
				out += b.Type + fmt.Sprint(b.DefRange)
			}
			if b := f.OutermostBlockAtPos(pos); b != nil {
				out += "outer " + b.Type
			}
			if b := f.InnermostBlockAtPos(pos); b != nil {
				out += "inner " + b.Type
			}
			if x := f.OutermostExprAtPos(pos); x != nil {
				out += fmt.Sprint(x.Range())
			}
			if a := f.AttributeAtPos(pos); a != nil {
				out += a.Name
			}
			return out
		})
	case 19:
		return op("lex", func(w *world) string {
			toks, diags := hclsyntax.LexConfig(w.src, "t.hcl", start)
			d := &dumper{seen: map[uintptr]bool{}}
			for _, t := range toks {
				d.dump(reflect.ValueOf(t), 0)
			}
			return d.b.String() + errSet(diags)
		})
	case 20:
		return op("parse", func(w *world) string {
			f, diags := hclsyntax.ParseConfig(w.src, "t.hcl", start)
			d := &dumper{seen: map[uintptr]bool{}}
			d.dump(reflect.ValueOf(f.Body), 0)
			return d.b.String() + errSet(diags)
		})
	case 21:
		return op("parse JSON", func(w *world) string {
			f, diags := json.Parse(w.jsrc, "t.json")
			return readAll(f.Body, w, 0) + errSet(diags)
		})
	case 22, 23:
		return op("format", func(w *world) string { return string(hclwrite.Format(w.src)) + string(hclwrite.Format(w.esrc[0])) })
	case 24:
		return op("load for editing", func(w *world) string {
			f, diags := hclwrite.ParseConfig(w.src, "t.hcl", start)
			return string(f.Bytes()) + errSet(diags)
		})
	case 25:
		return op("read the editable file", func(w *world) string {
			if n%2 == 0 {
				return string(w.wfile.Bytes())
			}
			out := string(w.wfile.BuildTokens(nil).Bytes())
			attrs := w.wfile.Body().Attributes()
			var ns []string
			for n, a := range attrs {
				s := n
				for _, t := range a.Expr().Variables() {
					s += " " + string(t.BuildTokens(nil).Bytes())
				}
				ns = append(ns, s)
			}
			sort.Strings(ns)
			return out + strings.Join(ns, ";") + fmt.Sprint(len(w.wfile.Body().Blocks()))
		})
	case 26:
		return op("pack", func(w *world) string {
			pb, diags := hclpack.PackNativeFile(w.src, "t.hcl", start)
			buf, err := pb.MarshalJSON()
			buf2, err2 := w.packed.MarshalJSON()
			return string(buf) + string(buf2) + fmt.Sprint(err, err2) + errSet(diags)
		})
	case 27:
		return op("print diagnostics", func(w *world) string {
			var buf bytes.Buffer
			dw := hcl.NewDiagnosticTextWriter(&buf, w.files, uint(n%3*40), n%2 == 0)
			err := dw.WriteDiagnostics(w.diags)
			return buf.String() + fmt.Sprint(err)
		})
	case 28:
		return op("traverse", func(w *world) string {
			out := ""
			for _, t := range w.trav {
				v, diags := t.TraverseAbs(w.ctx)
				out += outcomeStr(v, diags) + string(hclwrite.TokensForTraversal(t).Bytes())
				s := t.SimpleSplit()
				v, diags = s.Abs.TraverseAbs(w.ctx)
				out += outcomeStr(v, diags)
				if !diags.HasErrors() {
					v, diags = s.Rel.TraverseRel(v)
					out += outcomeStr(v, diags)
				}
				j := hcl.TraversalJoin(s.Abs, s.Rel)
				out += travStr(j)
			}
			return out
		})
	case 29:
		return op("call functions", func(w *world) string {
			v, err := w.funcs[fmt.Sprintf("f%d", n%2)].Call([]cty.Value{w.vals[n%len(w.vals)]})
			if err != nil {
				return "error"
			}
			return valStr(v)
		})
	case 30:
		return op("generate tokens", func(w *world) string {
			out := ""
			for _, v := range w.vals {
				out += string(hclwrite.TokensForValue(v).Bytes())
			}
			return out
		})
	case 31:
		return op("merge", func(w *world) string {
			return readAll(hcl.MergeBodies([]hcl.Body{w.native.Body, w.bodies[n%len(w.bodies)]}), w, 0)
		})
	case 32:
		return op("expand and transform", func(w *world) string {
			b := dynblock.Expand(w.bodies[n%len(w.bodies)], w.ctx)
			b = transform.Deep(b, transform.TransformerFunc(func(b hcl.Body) hcl.Body { return b }))
			v, diags := hcldec.Decode(b, w.spec, w.scope())
			return outcomeStr(v, diags)
		})
	}
	switch n % 3 {
	case 0:
		return op("read what was extracted before", func(w *world) string {
			out := ""
			for i, content := range w.kept {
				out += readContent(content, w, 0) + readAll(w.rest[i], w, 1)
				for _, blk := range content.Blocks {
					attrs, diags := blk.Body.JustAttributes()
					for _, n := range sortedAttrs(attrs) {
						v, diags := attrs[n].Expr.Value(w.scope())
						out += n + "=" + outcomeStr(v, diags) + ";"
					}
					out += errSet(diags)
				}
			}
			return out
		})
	case 1:
		return op("long splat", func(w *world) string {
			out := ""
			for i := 0; i < 3; i++ {
				ctx := w.ctx.NewChild()
				ctx.Variables = map[string]cty.Value{"many": w.many}
				v, diags := w.long[n/3%len(w.long)].Value(ctx)
				out += outcomeStr(v, diags)
			}
			return out
		})
	}
	return op("static views", func(w *world) string {
		out := ""
		ty, diags := typeexpr.TypeConstraint(w.types)
		out += fmt.Sprintf("%#v", ty) + errSet(diags) + typeexpr.TypeString(ty)
		for _, x := range w.exprs {
			l, diags := hcl.ExprList(x)
			out += fmt.Sprint(len(l)) + errSet(diags)
			m, diags := hcl.ExprMap(x)
			out += fmt.Sprint(len(m)) + errSet(diags)
			_, diags = hcl.ExprCall(x)
			out += errSet(diags)
			t, diags := hcl.AbsTraversalForExpr(x)
			out += travsStr([]hcl.Traversal{t}) + errSet(diags) + hcl.ExprAsKeyword(x)
		}
		return out
	})
}

// readAll reads a body with the shared schema and everything in it.
func readAll(b hcl.Body, w *world, depth int) string {
	content, rest, diags := b.PartialContent(w.schema)
	out := readContent(content, w, depth)
	out += errSet(diags)
	_, diags = rest.Content(&hcl.BodySchema{})
	return out + " rest " + errSet(diags) + fmt.Sprint(b.MissingItemRange())
}

func readContent(content *hcl.BodyContent, w *world, depth int) string {
	out := ""
	for _, n := range sortedAttrs(content.Attributes) {
		a := content.Attributes[n]
		v, diags := a.Expr.Value(w.scope())
		out += n + "=" + outcomeStr(v, diags) + fmt.Sprint(a.Range) + ";"
	}
	for _, blk := range content.Blocks {
		out += fmt.Sprintf("%s %q %v", blk.Type, blk.Labels, blk.DefRange)
		if depth < 2 {
			out += "{" + readAll(blk.Body, w, depth+1) + "}"
		}
	}
	return out
}

// goStrStable describes a decoded structure without addresses.
func goStrStable(v reflect.Value) string {
	d := &dumper{seen: map[uintptr]bool{}}
	d.dump(v, 0)
	return d.b.String()
}

// doOp runs an operation and describes the outcome, which may be a crash that
// another check is about.
func doOp(w *world, op wop) (out string) {
	if msg := mon.Guard(func() { out = op.run(w) }); msg != "" {
		if convertPanic(msg) {
			return libCrash + msg
		}
		return "crash: " + strings.SplitN(msg, "\n", 2)[0]
	}
	return out
}

const libCrash = "crash in the conversion library: "

// schemaSet describes a schema, in which order does not matter.
func schemaSet(s *hcl.BodySchema) string {
	var ss []string
	for _, a := range s.Attributes {
		ss = append(ss, fmt.Sprintf("%+v", a))
	}
	for _, b := range s.Blocks {
		ss = append(ss, fmt.Sprintf("%+v", b))
	}
	sort.Strings(ss)
	return strings.Join(ss, " ")
}
