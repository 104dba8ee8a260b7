package props

import (
	"bytes"
	stdjson "encoding/json"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hclpack"
	"github.com/hashicorp/hcl2/hclwrite"
)

func init() {
	register(&mon.Prop{
		ID: "P01",
		Rule: "hostile, damaged and valid source (fragment soups, random bytes, mutations of valid source, deep nesting, very long constructs) is scanned, parsed in every mode, formatted and loaded for writing, " +
			"and everything returned, partial results included, is read, evaluated, navigated, decoded and printed; crashes, fatal errors, endless loops and missing results are violations; distinct = source text",
		Assumptions: []string{"nesting is kept below 20000 levels, so that the recursion of the parser fits into the stack"},
		Quick:       100000,
		Thorough:    600000,
		Require:     []string{"native parsed", "native with errors", "json parsed", "json with errors", "evaluated", "content read", "decoded", "diagnostics printed", "position looked up"},
		Run:         runP01,
	})
}

func runP01(c *mon.Case) {
	g := &gen.G{R: c.Rand, Env: gen.NewEnv(c.Rand), Hostile: 30}
	ctx := evalCtx(g.Env)
	if c.Chance(1, 3) {
		src := ""
		switch c.Intn(5) {
		case 0:
			src = gen.JSONSoup(c.Rand)
		case 1:
			src = gen.Bytes(c.Rand)
		case 2:
			src = gen.Mutate(c.Rand, gen.JSONText(c.Rand, gen.JSONDoc(c.Rand, 4)), `"`, "{", "}", "[", "]", ",", ":", "\\", "\\u", "-", "0", "$", "%", "\x00", "\xff", "é", "tru", "null", " ", "\n", `"${`, `}"`)
		case 3:
			src = gen.JSONDeep(c.Rand, c.Size(30, 300))
		default:
			src = gen.JSONText(c.Rand, gen.JSONDoc(c.Rand, 4))
		}
		c.Input("json", src)
		if c.Chance(1, 50) {
			src := gen.JSONDeep(c.Rand, c.Size(1000, 15000))
			checkPanic(c, "deep JSON", func() {
				f, diags := json.Parse([]byte(src), "t.json")
				if f == nil && !diags.HasErrors() {
					c.Failf("no file and no error")
				}
				useDiags(c, diags, map[string]*hcl.File{"t.json": {Bytes: []byte(src)}})
			})
		}
		c.Sig("json", src)
		checkPanic(c, "JSON", func() { p01JSON(c, []byte(src), ctx) })
		return
	}
	src, valid := gen.Native(g)
	if c.Chance(1, 100) {
		src = gen.Deep(c.Rand, c.Size(200, 10000))
		valid = false
	}
	c.Input("source", src)
	c.Sig(src)
	b := []byte(src)
	parts := []func(){
		func() { p01Native(c, b, ctx) },
		func() {
			for _, l := range lexers {
				l.lex(b, "t.hcl", start)
			}
			hclsyntax.ValidIdentifier(src)
			out := hclwrite.Format(b)
			if len(b) > 0 && len(bytes.TrimSpace(b)) > 0 && len(out) == 0 {
				c.Failf("formatting gave nothing")
			}
			f, diags := hclwrite.ParseConfig(b, "t.hcl", start)
			if f == nil && !diags.HasErrors() {
				c.Failf("loading for writing gave no file and no error")
			}
			if f != nil && !diags.HasErrors() {
				f.Bytes()
				useWriteBody(f.Body(), 4)
				c.Event("loaded for writing")
			}
		},
		func() {
			x, diags := hclsyntax.ParseExpression(b, "t.hcl", start)
			useDiags(c, diags, map[string]*hcl.File{"t.hcl": {Bytes: b}})
			if x == nil {
				if !diags.HasErrors() {
					c.Failf("no expression and no error")
				}
				return
			}
			useTree(c, x, ctx)
			c.Event("expression parsed")
		},
		func() {
			x, diags := hclsyntax.ParseTemplate(b, "t.hcl", start)
			useDiags(c, diags, nil)
			if x == nil {
				if !diags.HasErrors() {
					c.Failf("no template and no error")
				}
				return
			}
			useTree(c, x, ctx)
			c.Event("template parsed")
		},
		func() {
			tr, diags := hclsyntax.ParseTraversalAbs(b, "t.hcl", start)
			if len(tr) == 0 && !diags.HasErrors() {
				c.Failf("no traversal and no error")
			}
			if len(tr) > 0 {
				useTraversal(tr, ctx)
			}
		},
		func() {
			pb, diags := hclpack.PackNativeFile(b, "t.hcl", start)
			if pb == nil && !diags.HasErrors() {
				c.Failf("packing gave no body and no error")
			}
			if pb != nil && !diags.HasErrors() {
				useBody(c, pb, ctx, []string{"a", "b", "foo", "x"}, 1)
				j, err := pb.MarshalJSON()
				if err != nil {
					c.Failf("packed body doesn't marshal: %s", err)
				}
				// damaged in transit
				d := []byte(gen.Mutate(c.Rand, string(j), "1", "0", "-", "\"", "A", "{}", "[]", "null", ",", ":"))
				var pb2 hclpack.Body
				if stdjson.Unmarshal(d, &pb2) == nil {
					useBody(c, &pb2, ctx, []string{"a", "b", "foo", "x"}, 1)
					c.Event("damaged pack read")
				}
			}
		},
	}
	if valid {
		parts = parts[:2]
	}
	for _, p := range parts {
		checkPanic(c, "native", p)
	}
}

func useWriteBody(b *hclwrite.Body, depth int) {
	for n, a := range b.Attributes() {
		for _, tr := range a.Expr().Variables() {
			tr.BuildTokens(nil).Bytes()
		}
		a.BuildTokens(nil).Bytes()
		b.GetAttribute(n)
	}
	for _, bl := range b.Blocks() {
		bl.BuildTokens(nil).Bytes()
		if depth > 0 {
			useWriteBody(bl.Body(), depth-1)
		}
	}
}

func p01Native(c *mon.Case, b []byte, ctx *hcl.EvalContext) {
	f, diags := hclsyntax.ParseConfig(b, "t.hcl", start)
	if f == nil {
		c.Failf("no file")
	}
	files := map[string]*hcl.File{"t.hcl": f}
	useDiags(c, diags, files)
	c.Event("native parsed")
	if diags.HasErrors() {
		c.Event("native with errors")
	}
	body, ok := f.Body.(*hclsyntax.Body)
	if !ok || body == nil {
		c.Failf("file has body %T", f.Body)
	}
	var walk func(b *hclsyntax.Body)
	walk = func(b *hclsyntax.Body) {
		if b == nil {
			c.Failf("missing body")
		}
		for n, a := range b.Attributes {
			if a == nil || a.Expr == nil {
				c.Failf("attribute %q has no expression", n)
			}
		}
		for _, bl := range b.Blocks {
			walk(bl.Body)
			bl.AsHCLBlock()
			bl.DefRange()
		}
	}
	walk(body)
	useTree(c, body, ctx)
	names := bodyNames(body)
	useBody(c, body, ctx, names, 2)
	useDecoders(c, body, ctx, names)
	usePositions(c, f, len(b))
	_, diags = body.Content(&hcl.BodySchema{})
	useDiags(c, diags, files)
}

func usePositions(c *mon.Case, f *hcl.File, n int) {
	for k := 0; k < 8; k++ {
		pos := hcl.Pos{Byte: c.Intn(n + 2), Line: 1, Column: 1}
		f.BlocksAtPos(pos)
		f.InnermostBlockAtPos(pos)
		f.OutermostBlockAtPos(pos)
		f.AttributeAtPos(pos)
		f.OutermostExprAtPos(pos)
		if n, ok := f.Nav.(interface {
			ContextString(int) string
			ContextDefRange(int) hcl.Range
		}); ok {
			n.ContextString(pos.Byte)
			n.ContextDefRange(pos.Byte)
		}
		c.Event("position looked up")
	}
}

func p01JSON(c *mon.Case, b []byte, ctx *hcl.EvalContext) {
	f, diags := json.Parse(b, "t.json")
	if f == nil {
		if !diags.HasErrors() {
			c.Failf("no file and no error")
		}
		useDiags(c, diags, map[string]*hcl.File{"t.json": {Bytes: b}})
		c.Event("json with errors")
		return
	}
	useDiags(c, diags, map[string]*hcl.File{"t.json": f})
	c.Event("json parsed")
	if diags.HasErrors() {
		c.Event("json with errors")
	}
	names := []string{"a", "b", "foo", "x", "dynamic", "content", "value"}
	if attrs, _ := f.Body.JustAttributes(); attrs != nil {
		for i, n := range sortedAttrNames(attrs) {
			if i > 20 {
				break
			}
			names = append(names, n)
		}
	}
	seen := map[string]bool{}
	uniq := names[:0]
	for _, n := range names {
		if !seen[n] {
			seen[n] = true
			uniq = append(uniq, n)
		}
	}
	if len(b) > 2000 && bytes.Contains(b, []byte(`[{"a":[{"a":`)) {
		uniq = uniq[:3] // evaluation is expensive
	}
	useBody(c, f.Body, ctx, uniq, 2)
	useDecoders(c, f.Body, ctx, uniq)
	usePositions(c, f, len(b))
}
