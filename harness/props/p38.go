package props

import (
	"fmt"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/ext/dynblock"
	"github.com/hashicorp/hcl2/ext/userfunc"
	"github.com/hashicorp/hcl2/gohcl"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/hashicorp/hcl2/hclpack"
	"github.com/zclconf/go-cty/cty"
)

func init() {
	register(&mon.Prop{
		ID: "P38",
		Rule: "expressions, bodies, structures, generated blocks and functions with two or more faults in parts that don't depend on each other, each of which is reported if it's the only one; all of them must be reported, each inside of its own text; " +
			"distinct = (kinds of faults, shape of what surrounds them)",
		Assumptions: []string{"operands of logical operators, branches and conditions, loops and their parts, expanded arguments, and default values depend on each other"},
		Quick:       120000,
		Thorough:    600000,
		Require:     []string{"expression faults", "body faults", "JSON faults", "schema faults", "missing items", "Go structure faults", "generated block faults", "function faults"},
		Run:         runP38,
	})
}

func runP38(c *mon.Case) {
	switch c.Intn(12) {
	case 0, 1, 2:
		manyExpr(c)
	case 3, 4, 5:
		manyBody(c)
	case 6, 7:
		manyJSON(c)
	case 8:
		manySchema(c)
	case 9:
		manyGo(c)
	case 10:
		manyDyn(c)
	default:
		manyFunc(c)
	}
}

// A flaw is a fault that can be put in and taken out again.
type flaw struct {
	what string
	set  func(on bool)
	// where it is, as far as written
	span func() (lo, hi int, ok bool)
}

// reportedIn is whether some error has its subject in an extent.
func reportedIn(diags hcl.Diagnostics, lo, hi int) bool {
	for _, d := range diags {
		if d.Severity == hcl.DiagError && d.Subject != nil && d.Subject.Start.Byte >= lo && d.Subject.End.Byte <= hi {
			return true
		}
	}
	return false
}

// allReported puts in each flaw by itself, and then all of those that were
// reported, which must be reported again.
func allReported(c *mon.Case, flaws []*flaw, run func() (src string, diags hcl.Diagnostics, ok bool)) []string {
	var alone []*flaw
	for _, f := range flaws {
		f.set(true)
		_, diags, ok := run()
		lo, hi, found := f.span()
		f.set(false)
		if ok && found && reportedIn(diags, lo, hi) {
			alone = append(alone, f)
		}
	}
	if len(alone) < 2 {
		c.Skip("fewer than two faults reached")
	}
	for _, f := range alone {
		f.set(true)
	}
	src, diags, ok := run()
	if !ok {
		c.Skip("left to others")
	}
	var kinds []string
	for _, f := range alone {
		lo, hi, found := f.span()
		if !found {
			c.Skip("not to be found in the text")
		}
		if !reportedIn(diags, lo, hi) {
			c.Failf("%s at %d-%d (%s) is reported by itself but not beside %d others: %s\nsource: %s", f.what, lo, hi, q(src[lo:hi]), len(alone)-1, diagStr(diags), q(src))
		}
		kinds = append(kinds, f.what)
	}
	return kinds
}

// independent is whether neither of two parts of an expression has an
// influence on whether the other one is evaluated.
func independent(e, a, b *gen.Expr) bool {
	has := func(e, x *gen.Expr) bool {
		found := false
		e.Walk(func(y *gen.Expr) { found = found || x == y })
		return found
	}
	for {
		if e == a || e == b {
			return false
		}
		var both *gen.Expr
		for _, x := range e.X {
			if x != nil && has(x, a) && has(x, b) {
				both = x
			}
		}
		for _, p := range e.Parts {
			part := &gen.Expr{Parts: []*gen.Part{p}}
			if has(part, a) && has(part, b) {
				if p.Kind != gen.PInterp {
					return false
				}
				both = p.X
			}
		}
		if both == nil {
			break
		}
		e = both
	}
	switch e.Kind {
	case gen.KTuple, gen.KObject, gen.KIndex, gen.KStr, gen.KHeredoc:
		return true
	case gen.KBin:
		return e.Text != "&&" && e.Text != "||"
	case gen.KCall:
		return !e.Flag
	}
	return false
}

// strictSlots are the places where neither null nor a collection can be used,
// whatever the rest is: keys and interpolations.
func strictSlots(e *gen.Expr) []**gen.Expr {
	var ret []**gen.Expr
	var parts func(ps []*gen.Part)
	parts = func(ps []*gen.Part) {
		for _, p := range ps {
			if p.Kind == gen.PInterp {
				ret = append(ret, &p.X)
			}
			parts(p.Then)
			parts(p.Else)
		}
	}
	e.Walk(func(x *gen.Expr) {
		if x.Kind == gen.KObject {
			for i := 0; i < len(x.X); i += 2 {
				if x.Keys[i/2] == gen.KeyParen {
					ret = append(ret, &x.X[i])
				}
			}
		}
		parts(x.Parts)
	})
	return ret
}

// exprFlaws chooses places in an expression that don't depend on each other.
func exprFlaws(c *mon.Case, g *gen.G, e *gen.Expr, n int, fault func(i int) (*gen.Expr, string)) (fs []*flaw, xs []*gen.Expr) {
	ss := slots(e)
	strict := strictSlots(e)
	var olds []*gen.Expr
	for tries := 0; tries < 20 && len(fs) < n && len(ss) > 0; tries++ {
		at := ss[c.Intn(len(ss))]
		fault := fault
		if len(strict) > 0 && c.Chance(1, 5) {
			at = strict[c.Intn(len(strict))]
			fault = func(i int) (*gen.Expr, string) {
				if c.Bool() {
					return &gen.Expr{Kind: gen.KNull}, "null"
				}
				return &gen.Expr{Kind: gen.KTuple}, "kind of value"
			}
		}
		old := *at
		count := 0
		e.Walk(func(x *gen.Expr) {
			if x == old {
				count++
			}
		})
		good := count == 1
		for _, o := range olds {
			good = good && independent(e, old, o)
		}
		if !good {
			continue
		}
		olds = append(olds, old)
		f, what := fault(len(fs))
		xs = append(xs, f)
		fs = append(fs, &flaw{what: "unsuitable " + what, set: func(on bool) {
			if on {
				*at = f
			} else {
				*at = old
			}
		}})
	}
	return fs, xs
}

func manyExpr(c *mon.Case) {
	env := gen.NewEnv(c.Rand)
	g := &gen.G{R: c.Rand, Env: env, Hostile: 80}
	ctx := evalCtx(env)
	e := g.Expr(gen.Want(c.Intn(6)), c.Size(4, 8))
	fs, xs := exprFlaws(c, g, e, c.Range(2, 4), func(int) (*gen.Expr, string) { return failing(c, g) })
	if len(fs) < 2 {
		c.Skip("nowhere to put faults")
	}
	c.Input("scope", envStr(env))
	var w *gen.W
	for i, f := range fs {
		x := xs[i]
		f.span = func() (int, int, bool) {
			sp, ok := w.Spans[x]
			return sp[0], sp[1], ok
		}
	}
	kinds := allReported(c, fs, func() (src string, diags hcl.Diagnostics, ok bool) {
		src, w = gen.RenderExpr(c.Rand, e)
		c.Input("expr", src)
		x, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", start)
		if diags.HasErrors() {
			c.Failf("well-formed expression rejected: %s\nsource: %s", diagStr(diags), q(src))
		}
		ok = mon.Guard(func() { _, diags = x.Value(ctx) }) == ""
		return src, diags, ok
	})
	c.Event("expression faults")
	c.Sig(kinds, e.Shape())
}

// underDefault collects the attributes that are only looked at, or not,
// depending on others.
func underDefault(s *gen.Spec, in bool, out map[string]bool) {
	in = in || s.Kind == gen.SDefault
	if in && s.Name != "" {
		out[s.Name] = true
	}
	for _, k := range s.Kids {
		underDefault(k, in, out)
	}
}

// usesType is whether blocks of some type are in a body, at any depth.
func usesType(b *gen.Body, name string) bool {
	for _, bl := range b.Blocks() {
		if bl.Name == name || usesType(bl.Body, name) {
			return true
		}
	}
	return false
}

// repeatBlock writes some block of a body twice. What's inside of it has no
// faults, because it needn't be looked at any more.
func repeatBlock(c *mon.Case, b *gen.Body, may func(it *gen.Item) bool) (fs []*flaw, old, again *gen.Item) {
	bls := b.Blocks()
	if len(bls) == 0 || !c.Chance(1, 3) {
		return nil, nil, nil
	}
	old = bls[c.Intn(len(bls))]
	if !may(old) {
		return nil, nil, nil
	}
	it := *old
	again = &it
	var with []*gen.Item
	for _, x := range b.Items {
		if with = append(with, x); x == old {
			with = append(with, again)
		}
	}
	items := b.Items
	return []*flaw{{what: "repeated block", set: func(on bool) {
		if b.Items = items; on {
			b.Items = with
		}
	}}}, old, again
}

func manyBody(c *mon.Case) {
	env := gen.NewEnv(c.Rand)
	g := &gen.G{R: c.Rand, Env: env, Hostile: 80, Sure: true}
	s := gen.GenSpec(g, c.Range(0, 3))
	spec := decSpec(c, s)
	b := gen.GenSpecBody(g, s, gen.SpecBodyOpts{})
	ctx := evalCtx(env)
	c.Input("scope", envStr(env))
	c.Input("specification", specStr(s))
	dep := map[string]bool{}
	underDefault(s, false, dep)
	type owned struct {
		body  *gen.Body
		owner *gen.Item
	}
	bodies := []owned{{b, nil}}
	var attrs []*gen.Item
	fs, spare, again := repeatBlock(c, b, func(it *gen.Item) bool {
		for _, k := range s.SameBody() {
			switch {
			case k.Name != it.Name || k.Kind == gen.SBlock || k.Kind == gen.SBlockMap || k.Kind == gen.SBlockObject:
			default:
				// may have as many as there are
				return false
			}
		}
		return !dep[it.Name]
	})
	for i := 0; i < len(bodies); i++ {
		for _, it := range bodies[i].body.Attrs() {
			if !dep[it.Name] {
				attrs = append(attrs, it)
			}
		}
		for _, bl := range bodies[i].body.Blocks() {
			if !dep[bl.Name] && bl != spare {
				bodies = append(bodies, owned{bl.Body, bl})
			}
		}
	}
	var w *gen.W
	for _, f := range fs {
		f.span = func() (int, int, bool) { sp := w.Items[again]; return sp.Whole[0], sp.Whole[1], true }
	}
	usedA, usedB := map[*gen.Item]bool{}, map[*gen.Body]bool{}
	if again != nil {
		usedB[b] = true
	}
	for n := c.Range(2, 5); n > 0; n-- {
		t := bodies[c.Intn(len(bodies))]
		switch k := c.Intn(6); {
		case k < 4 && len(attrs) > 0:
			it := attrs[c.Intn(len(attrs))]
			if usedA[it] {
				continue
			}
			usedA[it] = true
			x, what := failing(c, g)
			old := it.X
			fs = append(fs, &flaw{what: "unsuitable " + what, set: func(on bool) {
				if it.X = old; on {
					it.X = x
				}
			}, span: func() (int, int, bool) { sp, ok := w.Spans[x]; return sp[0], sp[1], ok }})
		default:
			if usedB[t.body] {
				continue
			}
			usedB[t.body] = true
			it := &gen.Item{Name: "left_over", X: g.Expr(gen.WAny, 1)}
			what := "unexpected attribute"
			if c.Bool() || t.owner != nil && blockAttrs(s, t.owner.Name) {
				it = &gen.Item{Name: "left_over", Body: gen.GenBody(g, gen.BodyOpts{MaxItems: 2})}
				what = "unexpected block"
			}
			old := t.body.Items
			k := c.Intn(len(old) + 1)
			with := append(old[:k:k], append([]*gen.Item{it}, old[k:]...)...)
			fs = append(fs, &flaw{what: what, set: func(on bool) {
				if t.body.Items = old; on {
					t.body.Items = with
				}
			}, span: func() (int, int, bool) { sp := w.Items[it]; return sp.Whole[0], sp.Whole[1], true }})
		}
	}
	form := c.Intn(6)
	if form == 0 && usesType(b, "dynamic") {
		c.Skip("blocks with the name of those to be expanded")
	}
	kinds := allReported(c, fs, func() (src string, diags hcl.Diagnostics, ok bool) {
		w = gen.NewW(c.Rand)
		src = w.Config(b)
		c.Input("source", src)
		body := parseNative(c, src).Body
		switch form {
		case 0:
			body = dynblock.Expand(body, ctx)
		case 1:
			body = hcl.MergeBodies([]hcl.Body{body, hcl.EmptyBody()})
		case 2:
			pb, diags := hclpack.PackNativeFile([]byte(src), "t.hcl", start)
			if diags.HasErrors() {
				c.Failf("well-formed configuration rejected: %s\nsource: %s", diagStr(diags), q(src))
			}
			body = pb
		}
		ok = mon.Guard(func() { _, diags = hcldec.Decode(body, spec, ctx) }) == ""
		return src, diags, ok
	})
	c.Event("body faults")
	c.Sig(form, kinds, s.Shape(), b.Shape())
}

func manyJSON(c *mon.Case) {
	if c.Bool() {
		manyJSONExpr(c)
		return
	}
	env := gen.NewEnv(c.Rand)
	g := &gen.G{R: c.Rand, Env: env, Hostile: 80, Sure: true}
	s := gen.GenSpec(g, c.Range(0, 3))
	spec := decSpec(c, s)
	b := gen.GenSpecBody(g, s, gen.SpecBodyOpts{})
	ctx := evalCtx(env)
	c.Input("scope", envStr(env))
	c.Input("specification", specStr(s))
	dep := map[string]bool{}
	underDefault(s, false, dep)
	var attrs []*gen.Item
	var walk func(b *gen.Body)
	walk = func(b *gen.Body) {
		for _, it := range b.Items {
			switch {
			case dep[it.Name]:
			case it.X != nil:
				attrs = append(attrs, it)
			default:
				walk(it.Body)
			}
		}
	}
	walk(b)
	if len(attrs) == 0 {
		c.Skip("no attribute")
	}
	var src string
	var fs []*flaw
	fault := func(int) (*gen.Expr, string) {
		name := fmt.Sprintf("nosuch_%c", 'a'+len(fs))
		return gen.Var(name), name
	}
	used := map[*gen.Item]bool{}
	for n := c.Range(1, 4); n > 0; n-- {
		it := attrs[c.Intn(len(attrs))]
		if used[it] {
			continue
		}
		used[it] = true
		if c.Bool() {
			n0 := len(fs)
			more, _ := exprFlaws(c, g, it.X, c.Range(1, 4), func(i int) (*gen.Expr, string) {
				name := fmt.Sprintf("nosuch_%c", 'a'+n0+i)
				return gen.Var(name), name
			})
			fs = append(fs, more...)
			continue
		}
		x, name := fault(0)
		old := it.X
		fs = append(fs, &flaw{what: "unsuitable " + name, set: func(on bool) {
			if it.X = old; on {
				it.X = x
			}
		}})
	}
	for _, f := range fs {
		name := strings.TrimPrefix(f.what, "unsuitable ")
		f.span = func() (lo, hi int, ok bool) { return jsonString(src, name) }
	}
	if len(fs) < 2 {
		c.Skip("nowhere to put faults")
	}
	allReported(c, fs, func() (string, hcl.Diagnostics, bool) {
		src = gen.JSONText(c.Rand, gen.JSONBodyValue(c.Rand, b, gen.JSONOpts{}))
		c.Input("source", src)
		body := parseJSON(c, src).Body
		var diags hcl.Diagnostics
		ok := mon.Guard(func() { _, diags = hcldec.Decode(body, spec, ctx) }) == ""
		return src, diags, ok
	})
	c.Event("JSON faults")
	c.Sig("json", len(fs), s.Shape(), b.Shape())
}

// manyJSONExpr evaluates one JSON value with faults in its strings, its keys
// and in keys that are there already.
func manyJSONExpr(c *mon.Case) {
	known := cty.ObjectVal(map[string]cty.Value{"k": cty.StringVal("K")})
	ctx := &hcl.EvalContext{Variables: map[string]cty.Value{
		"v": cty.StringVal("V"), "n": cty.NumberIntVal(4), "o": known, "l": cty.ListVal([]cty.Value{cty.StringVal("L")}),
		"u": cty.UnknownVal(cty.String), "d": cty.DynamicVal, "z": cty.NullVal(cty.String),
	}}
	good := []string{"plain", "${v}", "a ${v} b", "${n + 1}", "${o}", "${u}", "${d}", "x${u}", "$${v}", "%{ if n > 3 }y%{ endif }", "", "${l[0]}", "${z}"}
	bad := func(name string) string {
		return c.Pick("${"+name+"}", "a ${"+name+"} b", "${v}${"+name+"}", "${o."+name+"}", "${"+name+"(v)}", "${n + "+name+"}", "%{ if "+name+" }y%{ endif }", "%{ if n > 3 }${"+name+"}%{ endif }", "${l["+name+"]}")
	}
	var fs []*flaw
	var src string
	// a fault in a string, in the text or in the evaluation
	fault := func(text *string) {
		name := fmt.Sprintf("nosuch_%c", 'a'+len(fs))
		old, is := *text, bad(name)
		fs = append(fs, &flaw{what: "string " + strings.Replace(is, name, "?", 1), set: func(on bool) {
			if *text = old; on {
				*text = is
			}
		}, span: func() (lo, hi int, ok bool) { return jsonString(src, name) }})
	}
	space := func() string {
		return c.Pick("", "", "", " ", "\n", "  ")
	}
	var node func(depth int) func(w *strings.Builder)
	node = func(depth int) func(w *strings.Builder) {
		k := c.Intn(10)
		switch {
		case depth <= 0 && k > 4:
			k = c.Intn(5)
		case depth > 1 && k < 5:
			k += 5
		}
		switch {
		case k == 0:
			text := c.Pick("1", "true", "null", "-2.5e3", "[]", "{}")
			return func(w *strings.Builder) { w.WriteString(text) }
		case k <= 4:
			text := new(string)
			*text = c.Pick(good...)
			if len(fs) < 6 && c.Chance(1, 2) {
				fault(text)
			}
			return func(w *strings.Builder) { w.WriteString(`"` + *text + `"`) }
		case k <= 6:
			var parts []func(w *strings.Builder)
			for n := c.Range(1, 4); n > 0; n-- {
				parts = append(parts, node(depth-1))
			}
			return func(w *strings.Builder) {
				w.WriteString("[" + space())
				for i, p := range parts {
					if i > 0 {
						w.WriteString("," + space())
					}
					p(w)
				}
				w.WriteString(space() + "]")
			}
		default:
			type prop struct {
				name  *string
				value func(w *strings.Builder)
			}
			var props []prop
			var lasting []string // keys that stay as they are
			for i, n := 0, c.Range(1, 5); i < n; i++ {
				key := new(string)
				*key = fmt.Sprintf("k%d", i)
				was := len(fs)
				value := node(depth - 1)
				switch c.Intn(8) {
				default:
					lasting = append(lasting, *key)
				case 0:
					if len(fs) == was && len(fs) < 6 {
						fault(key)
					}
				case 1:
					*key = c.Pick("${u}", "${d}", "${z}", "${o}", "k${u}", "${v}"+fmt.Sprint(i), fmt.Sprintf("${n}%d", i))
				case 2:
					if len(fs) == was && len(lasting) > 0 && len(fs) < 6 {
						name := c.Pick(lasting...)
						old := *key
						var pos [2]int
						fs = append(fs, &flaw{what: "key again", set: func(on bool) {
							if *key = old; on {
								*key = name
							}
						}, span: func() (int, int, bool) { return pos[0], pos[1], pos[1] > 0 }})
						inner := value
						// notes where the key is written
						value = func(w *strings.Builder) {
							end := strings.LastIndexByte(w.String(), '"') + 1
							pos = [2]int{end - len(*key) - 2, end}
							inner(w)
						}
					}
				}
				props = append(props, prop{key, value})
			}
			return func(w *strings.Builder) {
				w.WriteString("{" + space())
				for i, p := range props {
					if i > 0 {
						w.WriteString("," + space())
					}
					w.WriteString(`"` + *p.name + `"` + space() + ":" + space())
					p.value(w)
				}
				w.WriteString(space() + "}")
			}
		}
	}
	root := node(c.Range(2, 4))
	if len(fs) < 2 {
		c.Skip("nowhere to put faults")
	}
	allReported(c, fs, func() (string, hcl.Diagnostics, bool) {
		var w strings.Builder
		w.WriteString(`{"a":`)
		root(&w)
		w.WriteString("}")
		src = w.String()
		c.Input("source", src)
		attrs, diags := parseJSON(c, src).Body.JustAttributes()
		if diags.HasErrors() || attrs["a"] == nil {
			c.Failf("attribute of JSON not delivered: %s\nsource: %s", diagStr(diags), q(src))
		}
		ok := mon.Guard(func() { _, diags = attrs["a"].Expr.Value(ctx) }) == ""
		return src, diags, ok
	})
	c.Event("JSON faults")
	c.Sig("jsonexpr", len(fs), len(src)/16)
}

// jsonString finds the string in JSON text that contains a name.
func jsonString(src, name string) (lo, hi int, ok bool) {
	lo = strings.Index(src, name)
	if lo < 0 || strings.Count(src, name) > 1 {
		return 0, 0, false
	}
	lo = strings.LastIndexByte(src[:lo], '"')
	if lo < 0 || lo > 0 && src[lo-1] == '\\' {
		return 0, 0, false
	}
	for hi = lo + 1; src[hi] != '"'; hi++ {
		if src[hi] == '\\' {
			return 0, 0, false
		}
	}
	return lo, hi + 1, true
}

// manySchema extracts content from bodies that lack items and have others that
// aren't expected.
func manySchema(c *mon.Case) {
	env := gen.NewEnv(c.Rand)
	g := &gen.G{R: c.Rand, Env: env, Hostile: 80}
	b := gen.GenBody(g, gen.BodyOpts{MaxItems: c.Size(6, 14), Depth: c.Range(0, 2), ExprDepth: 1})
	noDynamic(b)
	evenLabels(c.Rand, b)
	names := map[string]bool{}
	for _, it := range b.Items {
		if names[it.Name] {
			c.Skip("repeated name")
		}
		names[it.Name] = true
	}
	schema := &hcl.BodySchema{}
	var extra []*gen.Item
	wrong := 0
	for _, it := range b.Items {
		switch k := c.Intn(4); {
		case k < 2:
			extra = append(extra, it)
		case it.X != nil:
			schema.Attributes = append(schema.Attributes, hcl.AttributeSchema{Name: it.Name, Required: c.Bool()})
		case k == 2 || len(it.Labels) > 2:
			schema.Blocks = append(schema.Blocks, hcl.BlockHeaderSchema{Type: it.Name, LabelNames: labelNames(len(it.Labels))})
		default:
			n := c.Intn(3)
			if n == len(it.Labels) {
				n++
			}
			schema.Blocks = append(schema.Blocks, hcl.BlockHeaderSchema{Type: it.Name, LabelNames: labelNames(n)})
			extra = append(extra, it)
			wrong++
		}
	}
	missing := c.Intn(4)
	for i := 0; i < missing; i++ {
		name := fmt.Sprint("missing", i)
		if names[name] {
			c.Skip("there by chance")
		}
		k := c.Intn(len(schema.Attributes) + 1)
		schema.Attributes = append(schema.Attributes[:k:k], append([]hcl.AttributeSchema{{Name: name, Required: true}}, schema.Attributes[k:]...)...)
	}
	if missing+len(extra) < 2 {
		c.Skip("fewer than two faults")
	}
	c.Input("schema", fmt.Sprintf("%+v", *schema))
	if wrong == 0 {
		// any form of body
		body := buildBody(c, b, env, c.Range(0, 2))
		_, diags := body.Content(schema)
		n := 0
		for _, d := range diags {
			if d.Severity == hcl.DiagError {
				n++
			}
		}
		if n < missing+len(extra) {
			c.Failf("%d items missing and %d not expected but only %d errors (%s): %s", missing, len(extra), n, body.desc, diagStr(diags))
		}
		c.Event("schema faults")
		c.Event("schema faults in " + strings.Fields(body.desc)[0])
		c.Sig("schema", body.desc, missing, len(extra), b.Shape())
		return
	}
	w := gen.NewW(c.Rand)
	src := w.Config(b)
	c.Input("source", src)
	body := parseNative(c, src).Body
	_, diags := body.Content(schema)
	for _, it := range extra {
		sp := w.Items[it].Whole
		if !reportedIn(diags, sp[0], sp[1]) {
			c.Failf("%s isn't reported beside %d others: %s\nsource: %s", q(src[sp[0]:sp[1]]), missing+len(extra)-1, diagStr(diags), q(src))
		}
	}
	if len(diags) < missing+len(extra) {
		c.Failf("%d items missing and %d unsuitable but %d errors: %s\nsource: %s", missing, len(extra), len(diags), diagStr(diags), q(src))
	}
	if missing > 1 {
		c.Event("missing items")
	}
	c.Sig("schema labels", missing, len(extra), b.Shape())
}

// manyGo decodes a body with several faults into a structure.
func manyGo(c *mon.Case) {
	g := &gen.G{R: c.Rand, Env: gen.NewEnv(c.Rand)}
	b := &gen.Body{Items: []*gen.Item{{Name: "n", X: gen.Num("1")}}}
	block := func(name string) *gen.Item {
		it := &gen.Item{Name: name, Labels: []gen.Label{gen.GenLabel(c.Rand)}, Body: &gen.Body{}}
		add := func(n string, x *gen.Expr) { it.Body.Items = append(it.Body.Items, &gen.Item{Name: n, X: x}) }
		add("n", gen.Num("3"))
		if c.Bool() {
			add("s", gen.Lit("x"))
		}
		if c.Bool() {
			add("b", &gen.Expr{Kind: gen.KBool, Text: "true"})
		}
		if c.Bool() {
			add("l", &gen.Expr{Kind: gen.KTuple, X: []*gen.Expr{gen.Lit("y"), gen.Lit("z")}})
		}
		return it
	}
	if c.Bool() {
		b.Items = append(b.Items, block("one"))
	}
	for i := c.Intn(5); i > 0; i-- {
		b.Items = append(b.Items, block(c.Pick("many", "ptr")))
	}
	type owned struct {
		body  *gen.Body
		owner *gen.Item
	}
	bodies := []owned{{b, nil}}
	fs, spare, again := repeatBlock(c, b, func(it *gen.Item) bool { return it.Name == "one" })
	for _, bl := range b.Blocks() {
		if bl != spare {
			bodies = append(bodies, owned{bl.Body, bl})
		}
	}
	var w *gen.W
	for _, f := range fs {
		f.span = func() (int, int, bool) { sp := w.Items[again]; return sp.Whole[0], sp.Whole[1], true }
	}
	usedA, usedB := map[*gen.Item]bool{}, map[*gen.Body]bool{}
	if again != nil {
		usedB[b] = true
	}
	for n := c.Range(2, 6); n > 0; n-- {
		t := bodies[c.Intn(len(bodies))]
		it := t.body.Items[c.Intn(len(t.body.Items))]
		switch k := c.Intn(6); {
		case k < 4 && it.X != nil:
			if usedA[it] {
				continue
			}
			usedA[it] = true
			x, what := failing(c, g)
			if k < 2 {
				x, what = &gen.Expr{Kind: gen.KTuple, X: []*gen.Expr{{Kind: gen.KTuple}}}, "type"
			}
			old := it.X
			fs = append(fs, &flaw{what: "unsuitable " + what, set: func(on bool) {
				if it.X = old; on {
					it.X = x
				}
			}, span: func() (int, int, bool) { sp, ok := w.Spans[x]; return sp[0], sp[1], ok }})
		default:
			if usedB[t.body] {
				continue
			}
			usedB[t.body] = true
			in := &gen.Item{Name: "left_over", X: gen.Num("1")}
			what := "unexpected attribute"
			if c.Bool() {
				in, what = &gen.Item{Name: "left_over", Body: &gen.Body{}}, "unexpected block"
			}
			old := t.body.Items
			at := c.Intn(len(old) + 1)
			with := append(old[:at:at], append([]*gen.Item{in}, old[at:]...)...)
			fs = append(fs, &flaw{what: what, set: func(on bool) {
				if t.body.Items = old; on {
					t.body.Items = with
				}
			}, span: func() (int, int, bool) { sp := w.Items[in]; return sp.Whole[0], sp.Whole[1], true }})
		}
	}
	if len(fs) < 2 {
		c.Skip("fewer than two faults")
	}
	ctx := evalCtx(g.Env)
	kinds := allReported(c, fs, func() (src string, diags hcl.Diagnostics, ok bool) {
		w = gen.NewW(c.Rand)
		src = w.Config(b)
		c.Input("source", src)
		body := parseNative(c, src).Body
		checkPanic(c, "decoding", func() {
			var v goTop
			diags = gohcl.DecodeBody(body, ctx, &v)
		})
		return src, diags, true
	})
	c.Event("Go structure faults")
	c.Sig("go", kinds, b.Shape())
}

// manyDyn expands several blocks, some of which can't be.
func manyDyn(c *mon.Case) {
	var src strings.Builder
	var bad [][2]int
	mark := func(s string) {
		bad = append(bad, [2]int{src.Len(), src.Len() + len(s)})
		src.WriteString(s)
	}
	kind := ""
	nest := c.Chance(1, 3)
	if nest {
		src.WriteString("dynamic \"top\" {\n  for_each = [1, 2]\n  content {\n")
	}
	for n := c.Range(2, 5); n > 0; n-- {
		k := c.Intn(8)
		kind += fmt.Sprint(k)
		fe, lab, val := "[1, 2]", "blk.key", "blk.value"
		switch k {
		case 0:
			src.WriteString("blk \"x\" {\n  a = ")
			mark(c.Pick("nosuch", "[][1]", "1 + [1]", "[[]]"))
			src.WriteString("\n  b = ")
			mark(c.Pick("nosuch", "[][1]"))
			src.WriteString("\n}\n")
			continue
		case 1:
			src.WriteString("blk \"x\" {\n  a = 1\n}\n")
			continue
		}
		src.WriteString("dynamic \"blk\" {\n  for_each = ")
		if k == 2 {
			mark(c.Pick("nosuch", "5", "null", "[1] + 1", "true", "nosuch.a"))
		} else {
			src.WriteString(fe)
		}
		src.WriteString("\n  labels = [")
		if k == 3 {
			mark(c.Pick("nosuch", "null", "[]", "blk.nosuch", "blk.value.x", "{}"))
		} else {
			src.WriteString(lab)
		}
		src.WriteString("]\n  content {\n    a = ")
		if k == 4 || k == 6 {
			mark(c.Pick("nosuch", "[blk.value]", "blk.value.x", "-[]"))
		} else {
			src.WriteString(val)
		}
		if k == 5 || k == 6 {
			src.WriteString("\n    b = ")
			mark(c.Pick("nosuch", "blk.value.x", "blk.nosuch"))
		}
		src.WriteString("\n  }\n}\n")
	}
	if nest {
		src.WriteString("  }\n}\n")
	}
	if len(bad) < 2 {
		c.Skip("fewer than two faults")
	}
	var spec hcldec.Spec = &hcldec.BlockTupleSpec{TypeName: "blk", Nested: hcldec.TupleSpec{
		&hcldec.BlockLabelSpec{Index: 0, Name: "l"},
		&hcldec.AttrSpec{Name: "a", Type: cty.Number},
		&hcldec.AttrSpec{Name: "b", Type: cty.DynamicPseudoType},
	}}
	if nest {
		spec = &hcldec.BlockTupleSpec{TypeName: "top", Nested: spec}
	}
	text := src.String()
	c.Input("source", text)
	ctx := &hcl.EvalContext{Variables: map[string]cty.Value{}}
	body := dynblock.Expand(parseNative(c, text).Body, ctx)
	_, diags := hcldec.Decode(body, spec, ctx)
	for _, sp := range bad {
		if !reportedIn(diags, sp[0], sp[1]) {
			c.Failf("%s at %d isn't reported beside %d others: %s\nsource: %s", text[sp[0]:sp[1]], sp[0], len(bad)-1, diagStr(diags), q(text))
		}
	}
	c.Event("generated block faults")
	c.Sig("dynamic", kind, nest, len(text))
}

// manyFunc decodes several functions, some of which are wrong.
func manyFunc(c *mon.Case) {
	var src strings.Builder
	var bad [][2]int
	good := 0
	kind := ""
	for n := c.Range(2, 7); n > 0; n-- {
		lo := src.Len()
		k := c.Intn(9)
		kind += fmt.Sprint(k)
		fmt.Fprintf(&src, "function \"f%d\" {\n", n)
		params, vari, res := "[a]", "", "  result = a\n"
		switch k {
		case 0:
			params = "a"
		case 1:
			params = "[a, 5]"
		case 2:
			vari = "  variadic_param = 5\n"
		case 3:
			res = ""
		case 4:
			res += "  other = 1\n"
		case 5:
			res += "  other {}\n"
		}
		fmt.Fprintf(&src, "  params = %s\n%s%s}", params, vari, res)
		if k < 6 {
			bad = append(bad, [2]int{lo, src.Len()})
		} else {
			good++
		}
		src.WriteString("\n")
	}
	if len(bad) < 2 {
		c.Skip("fewer than two faults")
	}
	text := src.String()
	c.Input("source", text)
	fs, _, diags := userfunc.DecodeUserFunctions(parseNative(c, text).Body, "function", nil)
	for _, sp := range bad {
		if !reportedIn(diags, sp[0], sp[1]) {
			c.Failf("%s isn't reported beside %d others: %s\nsource: %s", q(text[sp[0]:sp[1]]), len(bad)-1, diagStr(diags), q(text))
		}
	}
	if len(fs) != good {
		c.Failf("%d functions beside %d wrong ones but %d in the result\nsource: %s", good, len(bad), len(fs), q(text))
	}
	c.Event("function faults")
	c.Sig("functions", kind)
}
