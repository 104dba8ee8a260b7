package props

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/ext/include"
	"github.com/hashicorp/hcl2/ext/transform"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hclparse"
	"github.com/zclconf/go-cty/cty"
)

func init() {
	register(&mon.Prop{
		ID: "P29",
		Rule: "bodies in all forms under shallow, deep, chained and repeated transforms that leave a mark or fail, read by chains of extractions; bodies including others from memory and from a scratch directory, at any depth, with missing, broken and wrongly referenced files; " +
			"marks and content are compared with the model at every level, all failures must be reported; distinct = (transform, form, shape) or (resolver, faults, shape)",
		Assumptions: []string{
			"includes at the top of an included body are not followed (the transform is applied to bodies, not to what it includes)",
			"problems with include blocks themselves may hide problems of other includes of the same body",
		},
		Quick:    150000,
		Thorough: 600000,
		Require:  []string{"mark seen once", "mark in remainder", "same as untransformed", "failing body reported", "included attribute", "included block", "include in nested block", "include fault reported", "file fault reported", "files from disk", "JSON file from disk", "warning passed on", "nothing included", "odd path"},
		Run: func(c *mon.Case) {
			if c.Bool() {
				runTransform(c)
			} else {
				runInclude(c)
			}
		},
	})
}

const markName = "zz_mark"

// markBody adds an attribute to a body, whose value is that of the inner body
// followed by a letter.
type markBody struct {
	inner  hcl.Body
	letter string
}

func (b markBody) split(schema *hcl.BodySchema) (*hcl.BodySchema, bool) {
	for _, a := range schema.Attributes {
		if a.Name == markName {
			return schema, true
		}
	}
	return schema, false
}

func (b markBody) mark(content *hcl.BodyContent) *hcl.BodyContent {
	cp := *content
	cp.Attributes = hcl.Attributes{}
	for k, v := range content.Attributes {
		cp.Attributes[k] = v
	}
	have := ""
	if a := cp.Attributes[markName]; a != nil {
		v, _ := a.Expr.Value(nil)
		have = v.AsString()
	}
	cp.Attributes[markName] = &hcl.Attribute{Name: markName, Expr: hcl.StaticExpr(cty.StringVal(have+b.letter), hcl.Range{})}
	return &cp
}

func (b markBody) Content(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Diagnostics) {
	content, diags := b.inner.Content(schema)
	if _, ok := b.split(schema); ok {
		content = b.mark(content)
	}
	return content, diags
}

func (b markBody) PartialContent(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Body, hcl.Diagnostics) {
	content, remain, diags := b.inner.PartialContent(schema)
	if _, ok := b.split(schema); ok {
		return b.mark(content), remain, diags
	}
	return content, markBody{remain, b.letter}, diags
}

func (b markBody) JustAttributes() (hcl.Attributes, hcl.Diagnostics) { return b.inner.JustAttributes() }
func (b markBody) MissingItemRange() hcl.Range                       { return b.inner.MissingItemRange() }

func marker(letter string) transform.Transformer {
	return transform.TransformerFunc(func(b hcl.Body) hcl.Body { return markBody{b, letter} })
}

// failer replaces bodies that have an attribute of the given name.
func failer(name string, wrap bool) transform.Transformer {
	return transform.TransformerFunc(func(b hcl.Body) hcl.Body {
		content, _, _ := b.PartialContent(&hcl.BodySchema{Attributes: []hcl.AttributeSchema{{Name: name}}})
		if content.Attributes[name] == nil {
			return b
		}
		diags := hcl.Diagnostics{
			{Severity: hcl.DiagWarning, Summary: "made-up warning"},
			{Severity: hcl.DiagError, Summary: "made-up failure"},
		}
		if wrap {
			return transform.BodyWithDiagnostics(b, diags)
		}
		return transform.NewErrorBody(diags)
	})
}

func hasSummary(diags hcl.Diagnostics, s string) bool {
	for _, d := range diags {
		if d.Summary == s {
			return true
		}
	}
	return false
}

func runTransform(c *mon.Case) {
	env := gen.NewEnv(c.Rand)
	g := &gen.G{R: c.Rand, Env: env}
	b := gen.GenBody(g, gen.BodyOpts{MaxItems: c.Size(4, 10), Depth: c.Range(1, 4), ExprDepth: 1})
	evenLabels(c.Rand, b)
	repeatBlocks(c.Rand, g, b)
	noDynamic(b)
	built := buildBody(c, b, env, c.Range(0, 2))

	t := &transCheck{c: c, json: built.json}
	var body hcl.Body
	kind := c.Pick("shallow", "deep", "deep chain", "deep twice", "deep failing", "shallow failing", "deep failing")
	switch kind {
	case "shallow":
		t.root = "A"
		body = transform.Shallow(built.Body, marker("A"))
	case "deep":
		t.root, t.nested = "A", "A"
		body = transform.Deep(built.Body, marker("A"))
	case "deep chain":
		var ts []transform.Transformer
		for n := c.Range(0, 4); n > 0; n-- {
			l := c.Pick("A", "B", "C")
			t.root += l
			ts = append(ts, marker(l))
		}
		t.nested = t.root
		body = transform.Deep(built.Body, transform.Chain(ts))
	case "deep twice":
		t.root, t.nested = "AB", "AB"
		body = transform.Deep(transform.Deep(built.Body, marker("A")), marker("B"))
	default:
		t.fail = "none"
		if attrs, _, _ := dupNames(b); len(attrs) > 0 {
			t.fail = attrs[c.Intn(len(attrs))]
		}
		var in []*gen.Item
		collectItems(b, &in)
		if c.Chance(3, 4) && len(in) > 0 {
			t.fail = in[c.Intn(len(in))].Name
		}
		wrap := c.Bool()
		if strings.HasPrefix(kind, "deep") {
			t.failDeep = true
			body = transform.Deep(built.Body, failer(t.fail, wrap))
		} else {
			body = transform.Shallow(built.Body, failer(t.fail, wrap))
		}
	}
	checkPanic(c, "reading a transformed body", func() { t.read(body, built.Body, b, 0) })
	c.Sig(kind, t.root, built.desc, b.Shape())
	c.Sample(kind + " " + built.desc)
}

func collectItems(b *gen.Body, out *[]*gen.Item) {
	for _, it := range b.Items {
		if it.X != nil {
			*out = append(*out, it)
		} else {
			collectItems(it.Body, out)
		}
	}
}

type transCheck struct {
	c            *mon.Case
	json         bool
	root, nested string
	fail         string
	failDeep     bool
}

// read reads a transformed body and the original side by side.
func (t *transCheck) read(body, orig hcl.Body, b *gen.Body, depth int) {
	c := t.c
	attrs, blocks, labels := dupNames(b)
	want := t.root
	if depth > 0 {
		want = t.nested
	}
	failing := false
	if t.fail != "" && (depth == 0 || t.failDeep) {
		for _, a := range attrs {
			failing = failing || a == t.fail
		}
		if t.json {
			// blocks look like attributes
			content, _, _ := orig.PartialContent(&hcl.BodySchema{Attributes: []hcl.AttributeSchema{{Name: t.fail}}})
			failing = content.Attributes[t.fail] != nil
		}
	}
	if failing {
		t.failing(body, depth)
		return
	}
	// parts of the schema
	n := c.Range(1, 3)
	parts := make([]*hcl.BodySchema, n)
	for i := range parts {
		parts[i] = &hcl.BodySchema{}
	}
	for _, a := range attrs {
		p := parts[c.Intn(n)]
		p.Attributes = append(p.Attributes, hcl.AttributeSchema{Name: a, Required: c.Bool()})
	}
	for _, ty := range blocks {
		p := parts[c.Intn(n)]
		p.Blocks = append(p.Blocks, hcl.BlockHeaderSchema{Type: ty, LabelNames: labelNames(labels[ty])})
	}
	if c.Chance(1, 6) {
		p := parts[c.Intn(n)]
		p.Attributes = append(p.Attributes, hcl.AttributeSchema{Name: "zz_missing", Required: c.Bool()})
	}
	markAt := c.Intn(n)
	orig0, body0 := orig, body
	for i, p := range parts {
		last := i == n-1
		with := *p
		if i == markAt {
			with.Attributes = append(append([]hcl.AttributeSchema(nil), p.Attributes...), hcl.AttributeSchema{Name: markName})
		}
		var got, exp *hcl.BodyContent
		var gdiags, ediags hcl.Diagnostics
		if last && c.Bool() {
			got, gdiags = body.Content(&with)
			exp, ediags = orig.Content(p)
			body, orig = nil, nil
		} else {
			got, body, gdiags = body.PartialContent(&with)
			exp, orig, ediags = orig.PartialContent(p)
			if body == nil {
				c.Failf("no remaining body at depth %d", depth)
			}
		}
		if errSet(gdiags) != errSet(ediags) {
			c.Failf("transformed body reports\n%s\nthe original\n%s", diagStr(gdiags), diagStr(ediags))
		}
		if i == markAt {
			have := ""
			if a := got.Attributes[markName]; a != nil {
				v, _ := a.Expr.Value(nil)
				have = v.AsString()
				cp := hcl.Attributes{}
				for k, v := range got.Attributes {
					if k != markName {
						cp[k] = v
					}
				}
				got = &hcl.BodyContent{Attributes: cp, Blocks: got.Blocks, MissingItemRange: got.MissingItemRange}
			}
			if have != want {
				c.Failf("transforms applied to a body at depth %d (extraction %d): %q, should be %q", depth, i, have, want)
			}
			if want != "" {
				c.Event("mark seen once")
				if i > 0 {
					c.Event("mark in remainder")
				}
			}
		}
		if a, b := contentKey(got), contentKey(exp); a != b {
			c.Failf("content of a transformed body:\n%s\nof the original:\n%s", a, b)
		}
		if a, b := got.MissingItemRange, exp.MissingItemRange; a != b {
			c.Failf("content of a transformed body has missing items at %s, that of the original at %s", a, b)
		}
		c.Event("same as untransformed")
		byType := map[string]int{}
		for j, blk := range got.Blocks {
			k := byType[blk.Type]
			byType[blk.Type]++
			var it *gen.Item
			for _, x := range b.Items {
				if x.X == nil && x.Name == blk.Type {
					if k == 0 {
						it = x
						break
					}
					k--
				}
			}
			if it == nil {
				c.Failf("unexpected block %s", blockKey(blk))
			}
			if t.json {
				// the order of blocks may differ from the model's
				it = matchItem(b, blk)
				if it == nil {
					continue
				}
			}
			t.read(blk.Body, exp.Blocks[j].Body, it.Body, depth+1)
		}
	}
	if body != nil {
		// nothing is left
		_, diags := body.Content(&hcl.BodySchema{})
		_, ediags := orig.Content(&hcl.BodySchema{})
		if errSet(diags) != errSet(ediags) {
			c.Failf("remainder of a transformed body reports\n%s\nthat of the original\n%s", diagStr(diags), diagStr(ediags))
		}
	}
	ga, gdiags := body0.JustAttributes()
	ea, ediags := orig0.JustAttributes()
	if errSet(gdiags) != errSet(ediags) || len(ga) != len(ea) {
		c.Failf("transformed body has %d attributes, reports\n%s\nthe original has %d,\n%s", len(ga), diagStr(gdiags), len(ea), diagStr(ediags))
	}
	if a, b := body0.MissingItemRange(), orig0.MissingItemRange(); a != b {
		c.Failf("missing items are reported at %s in the transformed body, at %s in the original", a, b)
	}
}

// matchItem finds the only item a block can be.
func matchItem(b *gen.Body, blk *hcl.Block) *gen.Item {
	var found *gen.Item
	for _, it := range b.Items {
		if it.X != nil || it.Name != blk.Type || len(it.Labels) != len(blk.Labels) {
			continue
		}
		if strings.Join(labelTexts(it), "\x00") == strings.Join(blk.Labels, "\x00") {
			if found != nil {
				return nil
			}
			found = it
		}
	}
	return found
}

// failing reads a body that the transform has replaced by errors.
func (t *transCheck) failing(body hcl.Body, depth int) {
	c := t.c
	check := func(how string, diags hcl.Diagnostics) {
		if !hasSummary(diags, "made-up failure") || !hasSummary(diags, "made-up warning") {
			c.Failf("%s of a body replaced by errors at depth %d reports %s", how, depth, diagStr(diags))
		}
		c.Event("failing body reported")
	}
	schema := &hcl.BodySchema{Attributes: []hcl.AttributeSchema{{Name: "any", Required: c.Bool()}}}
	content, diags := body.Content(schema)
	check("content", diags)
	if content == nil {
		c.Failf("no content from a body replaced by errors")
	}
	content, remain, diags := body.PartialContent(schema)
	check("partial content", diags)
	if content == nil || remain == nil {
		c.Failf("content %v, remainder %v from a body replaced by errors", content, remain)
	}
	remain.Content(schema)
	remain.PartialContent(schema)
	remain.JustAttributes()
	_, diags = body.JustAttributes()
	check("attributes", diags)
	body.MissingItemRange()
}

// ---- includes

type incBody struct {
	items []*incItem
	file  string
}

type incItem struct {
	name   string
	val    string // attribute
	labels []string
	body   *incBody // block
	// inclusion: name is the block type
	inc   bool
	ref   *incFile
	path  string // expression
	fault string // of the include block itself
}

type incFile struct {
	idx     int
	name    string
	body    *incBody
	missing bool
	broken  bool
	warn    bool
	empty   bool // resolves to nothing, without error
}

type incGen struct {
	c     *mon.Case
	n     int
	word  string
	files []*incFile
	dup   bool
	path  func(from string, f *incFile) string
}

func (g *incGen) body(file string, from, depth int, top bool) *incBody {
	c := g.c
	b := &incBody{file: file}
	used := map[string]bool{}
	for n := c.Size(3, 8); n > 0; n-- {
		g.n++
		switch {
		case c.Chance(1, 3) && depth > 0:
			ty := c.Pick("blk", "other", "tagged")
			it := &incItem{name: ty}
			if ty == "tagged" {
				it.labels = []string{fmt.Sprintf("l%d", g.n)}
			}
			it.body = g.body(file, from, depth-1, false)
			b.items = append(b.items, it)
		case c.Chance(1, 2) && from < len(g.files) && !(top && from > 0):
			it := &incItem{name: g.word, inc: true}
			f := g.files[from+c.Intn(len(g.files)-from)]
			it.ref = f
			it.path = g.path(file, f)
			if c.Chance(1, 10) {
				it.fault = c.Pick("no path", "extra", "null", "unknown", "undefined", "label", "list")
			}
			b.items = append(b.items, it)
		default:
			name := fmt.Sprintf("%s%d", c.Pick("a", "b"), g.n)
			if g.dup && c.Chance(1, 3) {
				name = "same"
			}
			if used[name] {
				continue
			}
			used[name] = true
			b.items = append(b.items, &incItem{name: name, val: fmt.Sprintf("v%d", g.n)})
		}
	}
	return b
}

func (it *incItem) path2() (string, []string) {
	switch it.fault {
	case "no path":
		return "", nil
	case "extra":
		return it.path, []string{"more"}
	case "null", "undefined", "list":
		return map[string]string{"null": "null", "undefined": "undefined_thing", "list": "[]"}[it.fault], nil
	case "unknown":
		return "unk", nil
	}
	return it.path, nil
}

func (b *incBody) native(w *strings.Builder, in string) {
	for _, it := range b.items {
		switch {
		case it.inc:
			p, extra := it.path2()
			w.WriteString(in + it.name)
			if it.fault == "label" {
				w.WriteString(` "x"`)
			}
			w.WriteString(" {\n")
			if p != "" {
				w.WriteString(in + "  path = " + p + "\n")
			}
			for _, e := range extra {
				w.WriteString(in + "  " + e + " = 1\n")
			}
			w.WriteString(in + "}\n")
		case it.body != nil:
			w.WriteString(in + it.name)
			for _, l := range it.labels {
				w.WriteString(" " + strconv.Quote(l))
			}
			w.WriteString(" {\n")
			it.body.native(w, in+"  ")
			w.WriteString(in + "}\n")
		default:
			w.WriteString(in + it.name + " = " + strconv.Quote(it.val) + "\n")
		}
	}
}

func jsonExprText(p string) string {
	if strings.HasPrefix(p, `"`) || p == "null" || p == "[]" {
		return p
	}
	return `"${` + p + `}"`
}

func (b *incBody) json(w *strings.Builder) {
	w.WriteString("{")
	sep := ""
	done := map[string]bool{}
	for _, it := range b.items {
		if done[it.name] {
			continue
		}
		done[it.name] = true
		w.WriteString(sep + strconv.Quote(it.name) + ":")
		sep = ","
		if !it.inc && it.body == nil {
			w.WriteString(strconv.Quote(it.val))
			continue
		}
		w.WriteString("[")
		sep2 := ""
		for _, x := range b.items {
			if x.name != it.name {
				continue
			}
			w.WriteString(sep2)
			sep2 = ","
			if x.inc {
				p, extra := x.path2()
				w.WriteString("{")
				s := ""
				if p != "" {
					w.WriteString(`"path":` + jsonExprText(p))
					s = ","
				}
				for _, e := range extra {
					w.WriteString(s + strconv.Quote(e) + ":1")
				}
				w.WriteString("}")
				continue
			}
			for _, l := range x.labels {
				w.WriteString("{" + strconv.Quote(l) + ":")
			}
			x.body.json(w)
			for range x.labels {
				w.WriteString("}")
			}
		}
		w.WriteString("]")
	}
	w.WriteString("}")
}

func (b *incBody) text(js bool) string {
	var w strings.Builder
	if js {
		b.json(&w)
	} else {
		b.native(&w, "")
	}
	return w.String()
}

// jsonable takes out what JSON syntax can't say.
func (b *incBody) jsonable() {
	for _, it := range b.items {
		if it.fault == "label" {
			it.fault = "no path"
		}
		if it.body != nil {
			it.body.jsonable()
		}
	}
}

func runInclude(c *mon.Case) {
	g := &incGen{c: c, word: c.Pick("include", "include", "import"), dup: c.Chance(1, 8)}
	kind := c.Pick("map", "func", "disk")
	dir := ""
	rel := false
	if kind == "disk" {
		d, err := os.MkdirTemp("", "hclmon-p29-")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(d)
		dir = d
		rel = c.Chance(1, 10)
	}
	dirs := []string{"", "sub/", "sub/deep/", "x y/"}
	for n := c.Range(1, 4); n > 0; n-- {
		f := &incFile{idx: len(g.files)}
		f.name = fmt.Sprintf("%sf%d.hcl", dirs[c.Intn(len(dirs))], f.idx)
		if c.Chance(1, 3) {
			f.name += ".json"
		}
		if kind != "disk" && c.Chance(1, 12) {
			// any string can be a path
			f.name = strings.Repeat(c.Pick("", " ", "../", "日"), f.idx)
			for _, o := range g.files {
				if o.name == f.name {
					f.name = fmt.Sprintf("%d", f.idx)
				}
			}
			c.Event("odd path")
		}
		switch c.Intn(12) {
		case 0:
			f.missing = true
		case 1:
			f.broken = true
		case 2:
			f.warn = kind == "func"
		case 3:
			f.empty = kind == "func"
		}
		g.files = append(g.files, f)
	}
	vars := map[string]cty.Value{"unk": cty.UnknownVal(cty.String)}
	g.path = func(from string, f *incFile) string {
		p := f.name
		if kind == "disk" {
			r, err := filepath.Rel(filepath.Dir("/"+from), "/"+f.name)
			if err != nil {
				panic(err)
			}
			p = r
			if c.Chance(1, 4) {
				p = "./" + p
			}
		}
		if c.Chance(1, 3) {
			v := fmt.Sprintf("path%d", len(vars))
			vars[v] = cty.StringVal(p)
			return v
		}
		return strconv.Quote(p)
	}
	rootName := "root.hcl"
	if kind == "disk" {
		rootName = c.Pick("root.hcl", "sub/root.hcl", "./root.hcl")
	}
	depth := c.Range(0, 3)
	root := g.body(rootName, 0, depth, true)
	for i, f := range g.files {
		f.body = g.body(f.name, i+1, c.Range(0, 2), true)
	}

	ctx := &hcl.EvalContext{Variables: vars}
	parser := hclparse.NewParser()
	var resolver include.Resolver
	text := func(f *incFile) string {
		js := strings.HasSuffix(f.name, ".json")
		if js {
			f.body.jsonable()
		}
		s := f.body.text(js)
		if f.broken {
			if js {
				s = s[:len(s)-1] // not closed
			} else {
				s += "= oops\n"
			}
		}
		c.Input(f.name, s)
		return s
	}
	switch kind {
	case "disk":
		for _, f := range g.files {
			path := filepath.Join(dir, f.name)
			os.MkdirAll(filepath.Dir(path), 0o755)
			if f.missing {
				if c.Bool() {
					os.MkdirAll(path, 0o755) // not a file
				}
				continue
			}
			if err := os.WriteFile(path, []byte(text(f)), 0o644); err != nil {
				panic(err)
			}
			c.Event("files from disk")
			if strings.HasSuffix(f.name, ".json") {
				c.Event("JSON file from disk")
			}
		}
		os.MkdirAll(filepath.Join(dir, "sub"), 0o755)
		base := dir
		if rel {
			wd, err := os.Getwd()
			if err != nil {
				panic(err)
			}
			if base, err = filepath.Rel(wd, dir); err != nil {
				panic(err)
			}
		}
		resolver = include.FileResolver(base, parser)
		if c.Chance(1, 3) && !rel {
			rootName = filepath.Join(dir, rootName)
		}
	default:
		m := map[string]hcl.Body{}
		byName := map[string]*incFile{}
		for _, f := range g.files {
			byName[f.name] = f
			if f.missing || kind == "map" && f.broken {
				f.missing, f.broken = true, false
				continue
			}
			s := text(f)
			var file *hcl.File
			var diags hcl.Diagnostics
			if strings.HasSuffix(f.name, ".json") {
				file, diags = json.Parse([]byte(s), f.name)
			} else {
				file, diags = hclsyntax.ParseConfig([]byte(s), f.name, start)
			}
			if diags.HasErrors() != f.broken {
				c.Failf("parsing %s: %s", f.name, diagStr(diags))
			}
			if file != nil {
				m[f.name] = file.Body
			}
		}
		resolver = include.MapResolver(m)
		if kind == "func" {
			inner := resolver
			resolver = include.ResolverFunc(func(path string, rng hcl.Range) (hcl.Body, hcl.Diagnostics) {
				f := byName[path]
				warning := hcl.Diagnostics{{Severity: hcl.DiagWarning, Summary: "made-up warning"}}
				switch {
				case f == nil || f.missing:
					return inner.ResolveBodyPath(path, rng)
				case f.broken:
					return m[path], hcl.Diagnostics{{Severity: hcl.DiagError, Summary: "broken", Subject: &rng}}
				case f.empty && f.idx%2 == 0:
					return nil, warning
				case f.empty:
					return nil, nil
				case f.warn:
					return m[path], warning
				}
				return m[path], nil
			})
		}
	}

	src := root.text(false)
	c.Input(rootName, src)
	file, diags := parser.ParseHCL([]byte(src), rootName)
	if diags.HasErrors() {
		c.Failf("%s rejected: %s", rootName, diagStr(diags))
	}
	deep := c.Chance(2, 3)
	tr := include.Transformer(g.word, ctx, resolver)
	r := &incReader{c: c, deep: deep, word: g.word, known: rel, each: kind != "disk", reported: map[string]bool{}}
	checkPanic(c, "reading a body with includes", func() {
		var body hcl.Body
		if deep {
			body = transform.Deep(file.Body, tr)
		} else {
			body = transform.Shallow(file.Body, tr)
		}
		r.read(body, root, 0, true)
	})
	for _, n := range r.broken {
		if kind == "disk" && !r.reported[n] && !r.lossy {
			c.Failf("nothing is reported for the included file %s, which is broken", n)
		}
	}
	sort.Strings(r.faults)
	c.Sig(kind, deep, strings.Join(r.faults, " "), len(src)/32, r.n)
	c.Sample(fmt.Sprintf("%s, %d files, %d bodies read, faults: %v", kind, len(g.files), r.n, r.faults))
}

type incReader struct {
	c      *mon.Case
	deep   bool
	word   string
	known  bool // relative base directory
	each   bool // broken files are reported each time
	faults []string

	broken   []string
	reported map[string]bool
	lossy    bool // not everything could be read
	skipped  bool // files may have been loaded for bodies that aren't read
	n        int
}

// read reads a body; expand is whether the includes in it are followed.
func (r *incReader) read(body hcl.Body, b *incBody, depth int, expand bool) {
	c := r.c
	r.n++
	// what should be there
	var items []*incItem
	var own, files, warns int
	seenHere := map[string]bool{}
	included := map[*incItem]bool{}
	if !expand {
		items = b.items
	} else {
		for _, it := range b.items {
			if !it.inc {
				items = append(items, it)
			}
		}
		for _, it := range b.items {
			if !it.inc {
				continue
			}
			if depth > 0 {
				c.Event("include in nested block")
			}
			f := it.ref
			switch {
			case it.fault != "":
				own++
				r.faults = append(r.faults, it.fault)
			case f.missing:
				files++
				r.faults = append(r.faults, "missing")
			case f.broken:
				// reported when first loaded, which may be for another body
				if r.each {
					files++
				}
				seenHere[f.name] = true
				r.faults = append(r.faults, "broken")
			case f.empty:
				if f.idx%2 == 0 {
					warns++
				}
				c.Event("nothing included")
			default:
				if f.warn {
					warns++
				}
				for _, x := range f.body.items {
					items = append(items, x)
					included[x] = true
				}
			}
			if r.known && b.file != "" && b.file != "root.hcl" && b.file != "./root.hcl" && b.file != "sub/root.hcl" {
				// the file name is taken as relative to the base directory
				// though it already is relative to the working directory
				diags := firstErrors(c, body)
				if diags.HasErrors() {
					c.Known("include-relative-base", "a file included with a base directory that is a relative path can't include others: %s", diagStr(diags))
					c.Skip("known finding")
				}
			}
		}
	}
	schema := &hcl.BodySchema{}
	have := map[string]int{}
	dup := false
	blocks := map[string][]*incItem{}
	for _, it := range items {
		have[it.name]++
		if it.body == nil && !it.inc {
			if have[it.name] > 1 {
				dup = true
				continue
			}
			schema.Attributes = append(schema.Attributes, hcl.AttributeSchema{Name: it.name, Required: c.Bool()})
			continue
		}
		if len(blocks[it.name]) == 0 {
			schema.Blocks = append(schema.Blocks, hcl.BlockHeaderSchema{Type: it.name, LabelNames: labelNames(len(it.labels))})
		}
		blocks[it.name] = append(blocks[it.name], it)
		if it.inc && it.fault == "label" {
			dup = true // not the labels of the schema
		}
	}

	content := &hcl.BodyContent{Attributes: hcl.Attributes{}}
	var diags hcl.Diagnostics
	switch {
	case len(schema.Blocks) == 0 && c.Chance(1, 3) && !dup:
		var as hcl.Attributes
		as, diags = body.JustAttributes()
		if own+files == 0 || !diags.HasErrors() {
			for n, a := range as {
				content.Attributes[n] = a
			}
		}
	case c.Bool():
		var got *hcl.BodyContent
		got, diags = body.Content(schema)
		if got == nil {
			c.Failf("no content")
		}
		content = got
	default:
		n := c.Range(1, 3)
		parts := make([]*hcl.BodySchema, n)
		for i := range parts {
			parts[i] = &hcl.BodySchema{}
		}
		for _, a := range schema.Attributes {
			p := parts[c.Intn(n)]
			p.Attributes = append(p.Attributes, a)
		}
		for _, a := range schema.Blocks {
			p := parts[c.Intn(n)]
			p.Blocks = append(p.Blocks, a)
		}
		rest := body
		for _, p := range parts {
			got, remain, pdiags := rest.PartialContent(p)
			if got == nil || remain == nil {
				c.Failf("content %v, remainder %v", got, remain)
			}
			diags = append(diags, pdiags...)
			for n, a := range got.Attributes {
				content.Attributes[n] = a
			}
			content.Blocks = append(content.Blocks, got.Blocks...)
			rest = remain
		}
		_, pdiags := rest.Content(&hcl.BodySchema{})
		diags = append(diags, pdiags...)
	}

	errors, warnings := 0, 0
	for _, d := range diags {
		if d.Severity == hcl.DiagError {
			errors++
		} else if d.Summary == "made-up warning" {
			warnings++
		}
	}
	for _, d := range diags {
		if d.Severity == hcl.DiagError && d.Subject != nil {
			r.reported[filepath.Base(d.Subject.Filename)] = true
		}
	}
	if errors > 0 {
		for _, it := range items {
			r.lossy = r.lossy || it.body != nil // these are not read
		}
	}
	if own > 0 {
		r.lossy = true
	}
	for n := range seenHere {
		if !r.skipped {
			r.broken = append(r.broken, filepath.Base(n))
		}
	}
	switch {
	case own > 0:
		if errors < own {
			c.Failf("%d include blocks are wrong, %d errors are reported: %s", own, errors, diagStr(diags))
		}
		c.Event("include fault reported")
		return
	case files > 0:
		if errors < files {
			c.Failf("%d includes fail, %d errors are reported: %s", files, errors, diagStr(diags))
		}
		c.Event("file fault reported")
		return
	case len(seenHere) > 0:
		r.skipped = true
		return // a broken file that is already known
	case dup:
		if errors == 0 {
			c.Failf("attributes defined several times in %s and what it includes are not reported", b.file)
		}
		return
	case errors > 0:
		c.Failf("unexpected errors: %s", diagStr(diags))
	}
	if warnings < warns {
		c.Failf("%d warnings from including, reported: %s", warns, diagStr(diags))
	}
	if warns > 0 {
		c.Event("warning passed on")
	}

	wantAttrs := 0
	for _, it := range items {
		if it.body != nil || it.inc {
			continue
		}
		wantAttrs++
		a := content.Attributes[it.name]
		if a == nil {
			c.Failf("attribute %s of %s is missing", it.name, b.file)
		}
		v, vdiags := a.Expr.Value(nil)
		if vdiags.HasErrors() || v.Type() != cty.String || v.AsString() != it.val {
			c.Failf("attribute %s is %s, should be %q", it.name, valStr(v), it.val)
		}
		if included[it] {
			c.Event("included attribute")
		}
	}
	if len(content.Attributes) != wantAttrs {
		c.Failf("%d attributes delivered, %d expected", len(content.Attributes), wantAttrs)
	}
	got := content.Blocks.ByType()
	for ty, want := range blocks {
		if len(got[ty]) != len(want) {
			c.Failf("%d blocks %s delivered, %d expected", len(got[ty]), ty, len(want))
		}
		for i, it := range want {
			blk := got[ty][i]
			if strings.Join(blk.Labels, "/") != strings.Join(it.labels, "/") {
				c.Failf("block %d of type %s has the labels %q, should have %q", i, ty, blk.Labels, it.labels)
			}
			if included[it] {
				c.Event("included block")
			}
			if it.inc {
				// an include that isn't followed is a block as any other
				if it.fault == "" {
					if as, adiags := blk.Body.JustAttributes(); adiags.HasErrors() || as["path"] == nil {
						c.Failf("include block that isn't followed has %v: %s", as, diagStr(adiags))
					}
				}
				continue
			}
			r.read(blk.Body, it.body, depth+1, r.deep)
		}
	}
	if len(got) != len(blocks) {
		c.Failf("unexpected types of blocks among %d", len(content.Blocks))
	}
}

func firstErrors(c *mon.Case, body hcl.Body) hcl.Diagnostics {
	_, _, diags := body.PartialContent(&hcl.BodySchema{})
	return diags
}
