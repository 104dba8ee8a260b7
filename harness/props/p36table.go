package props

import (
	"fmt"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/ext/dynblock"
	"github.com/hashicorp/hcl2/ext/include"
	"github.com/hashicorp/hcl2/ext/transform"
	"github.com/hashicorp/hcl2/ext/typeexpr"
	"github.com/hashicorp/hcl2/ext/userfunc"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function"
)

// faultTable has sources with the place of a fault marked « ». The markers
// are removed, and some layout is added in front.
var faultTable = []struct {
	kind string
	src  string
}{
	{"dyn", "dynamic \"blk\" {\n  for_each = «5»\n  content {}\n}\n"},
	{"dyn", "dynamic \"blk\" {\n  for_each = «null»\n  content {}\n}\n"},
	{"dyn", "dynamic \"blk\" {\n  for_each = [for x in «true» : x]\n  content {}\n}\n"},
	{"dyn", "dynamic \"blk\" {\n  for_each = [1]\n  iterator = «\"x\"»\n  content {}\n}\n"},
	{"dyn", "dynamic \"blk\" {\n  for_each = [1]\n  iterator = «a.b»\n  content {}\n}\n"},
	{"dyn", "dynamic \"lab\" {\n  for_each = [1]\n  labels = [\"a\", «\"b\"»]\n  content {}\n}\n"},
	{"dyn", "dynamic \"lab\" {\n  for_each = [1]\n  labels = «[]»\n  content {}\n}\n"},
	{"dyn", "dynamic \"lab\" {\n  for_each = [1]\n  labels = «lab.value»\n  content {}\n}\n"},
	{"dyn", "dynamic \"lab\" {\n  for_each = [1]\n  labels = [«[lab.value]»]\n  content {}\n}\n"},
	{"dyn", "dynamic \"lab\" {\n  for_each = [1]\n  labels = [«null»]\n  content {}\n}\n"},
	{"dyn", "dynamic \"lab\" {\n  for_each = [1]\n  labels = [\"x${«nosuch»}\"]\n  content {}\n}\n"},
	{"dyn", "dynamic \"lab\" {\n  for_each = [1]\n  labels = [«unk»]\n  content {}\n}\n"},
	{"dyn", "blk {}\n«dynamic \"blk\" {\n  for_each = [1]\n}»\nblk {}\n"},
	{"dyn", "dynamic \"blk\" {\n  for_each = [1]\n  content {}\n  «content {}»\n}\n"},
	{"dyn", "«dynamic \"blk\" {\n  content {}\n}»\n"},
	{"dyn", "dynamic \"blk\" {\n  for_each = [1]\n  «left_over = 1»\n  content {}\n}\n"},
	{"dyn", "dynamic «\"other\"» {\n  for_each = [1]\n  content {}\n}\n"},
	{"dyn", "«dynamic {\n  for_each = [1]\n  content {}\n}»\n"},
	{"dyn", "dynamic \"blk\" «\"more\" {»\n  for_each = [1]\n  content {}\n}\n"},
	{"dyn", "dynamic \"blk\" {\n  for_each = [1]\n  content {\n    «left_over = 1»\n  }\n}\n"},
	{"dyn", "dynamic \"blk\" {\n  for_each = [1]\n  content {\n    a = «[blk.value]»\n  }\n}\n"},
	{"dyn", "dynamic \"blk\" {\n  for_each = [1]\n  content {\n    a = blk.value«.foo»\n  }\n}\n"},
	{"dyn", "dynamic \"blk\" {\n  for_each = [1]\n  content {\n    a = blk«.nosuch»\n  }\n}\n"},
	{"dyn", "dynamic \"blk\" {\n  for_each = «blk.value»\n  content {}\n}\n"},

	{"type", "«foo»"},
	{"type", "«list»"},
	{"type", "list(«foo»)"},
	{"type", "map(list(«5»))"},
	{"type", "object({a = string, b = «x»})"},
	{"type", "object({a = string, «(b)» = string})"},
	{"type", "object(«[]»)"},
	{"type", "tuple(«string»)"},
	{"type", "tuple([string, «x»])"},
	{"type", "set«()»"},
	{"type", "set(bool, «bool»)"},
	{"type", "tuple([set(list(map(«number.a»)))])"},
	{"type", "list(«\"string\"»)"},
	{"type", "«f(string)»"},
	{"type", "«string(list)»"},
	{"type", "list(«string()»)"},

	{"func", "function \"f\" {\n  params = [a, «\"b\"»]\n  result = 1\n}\n"},
	{"func", "function \"f\" {\n  params = [«a.b»]\n  result = 1\n}\n"},
	{"func", "function \"f\" {\n  params = «5»\n  result = 1\n}\n"},
	{"func", "function \"f\" {\n  params = []\n  variadic_param = «\"x\"»\n  result = 1\n}\n"},
	{"func", "function \"f\" {\n  params = []\n  variadic_param = «a[0]»\n  result = 1\n}\n"},
	{"func", "«function \"f\" {\n  params = [a]\n}»\nfunction \"g\" {\n  params = [a]\n  result = a\n}\n"},
	{"func", "«function \"f\" {\n  result = 1\n}»\n"},
	{"func", "«function {\n  params = [a]\n  result = 1\n}»\n"},
	{"func", "function \"f\" {\n  params = [a]\n  result = 1\n  «left_over = 2»\n}\n"},

	{"call", "[1, «fail(2)»]"},
	{"call", "1 + «addone([])»"},
	{"call", "\"x${«addone(\"a\")»}\""},
	{"call", "addone(addone(«addone()»))"},
	{"call", "addone(1, «2»)"},
	{"call", "addone(addone(«null»))"},
	{"call", "{a = «addon(1)»}"},
	{"call", "positive(«0»)"}, {"call", "positive(1, «-1»)"}, {"call", "positive(1, 2, «0», 4)"}, {"call", "positive(1, positive(1, 2, «-3»))"}, {"call", "positive(2, «[1, -1]»...)"}, {"call", "positive(2, 3, «[-1]»...)"}, {"call", "positive(«-1», [1]...)"},
	{"call", "mix(«\"x\"», \"y\")"}, {"call", "mix(1, «[]»)"}, {"call", "mix(1, \"y\", «5»)"}, {"call", "mix(1, \"y\", true, «[]», false)"}, {"call", "mix(1, \"y\", true, «null», false)"}, {"call", "mix(1, «null», true)"}, {"call", "mix(1, \"y\", «[1]»...)"},

	{"expr", "{«(null)» = 1}"},
	{"expr", "{a = 1, «(null)» = 2, b = 3}"},
	{"expr", "{«([])» = 1}"},
	{"expr", "{«({})» = {}}"},
	{"expr", "«[]» + 1"}, {"expr", "1 + «[]»"}, {"expr", "2 * (3 + «{}»)"}, {"expr", "«\"a\"» - 1"}, {"expr", "1 % «\"b\"»"}, {"expr", "«null / 2»"}, {"expr", "«2 / null»"},
	{"expr", "«[]» && true"}, {"expr", "true || «[]»"}, {"expr", "true && «5»"}, {"expr", "«[]» > 2"}, {"expr", "2 >= «[]»"}, {"expr", "«\"x\"» < 2"}, {"expr", "«1 <= null»"},
	{"expr", "-«\"x\"»"}, {"expr", "!«7»"}, {"expr", "«-null»"}, {"expr", "1 + -(«[]»)"},
	{"expr", "«[]» ? 1 : 2"}, {"expr", "«null» ? 1 : 2"}, {"expr", "«5» ? 1 : 2"}, {"expr", "(«true ? \"x\" : \"y\"») + 1"},
	{"expr", "[1, 2]«[2]»"}, {"expr", "[1, 2]«[-1]»"}, {"expr", "[1, 2]«[0.5]»"}, {"expr", "[1, 2]«[\"a\"]»"}, {"expr", "[1, 2]«[null]»"}, {"expr", "{a = 1}«[\"b\"]»"}, {"expr", "{a = 1}«[null]»"},
	{"expr", "{a = 1}«.b»"}, {"expr", "{a = {}}.a«.b»"}, {"expr", "{a = {b = 5}}.a.b«.c»"}, {"expr", "[[1]][0]«[1]»"}, {"expr", "5«[0]»"}, {"expr", "null«.a»"}, {"expr", "null«[0]»"}, {"expr", "{a = null}.a«.b»"},
	{"expr", "obj«.nosuch»"}, {"expr", "obj.a«.nosuch»"}, {"expr", "obj.l«[7]»"}, {"expr", "obj.l[0]«.x»"}, {"expr", "obj.m«[\"nosuch\"]»"}, {"expr", "obj.m«.nosuch»"}, {"expr", "obj.l«.nosuch»"}, {"expr", "obj.n«.x»"}, {"expr", "obj.l.*«.x»"}, {"expr", "obj«.nosuch».more[0]"}, {"expr", "obj.l«.9».x"},
	{"expr", "[for x in «5» : x]"}, {"expr", "[for x in «null» : x]"}, {"expr", "{for x in «\"abc\"» : x => x}"}, {"expr", "{for x in [\"a\", \"a\"] : «x» => 1}"}, {"expr", "{for x in [1] : «null» => 1}"}, {"expr", "{for x in [1] : «[]» => 1}"},
	{"expr", "[for x in [1] : x if «[]»]"}, {"expr", "[for x in [1] : x if «null»]"}, {"expr", "{for x in [\"a\"] : x => 1 if «x»}"}, {"expr", "{for x in [\"a\"] : x => 1 if «null»}"},
	{"expr", "[for x in [1] : x if «nosuch»]"}, {"expr", "[for x in [] : x if «nosuch»]"}, {"expr", "{for x in [1] : «nosuch» => 1}"}, {"expr", "{for x in [\"a\"] : x => «nosuch»}"},
	{"expr", "\"a${«[]»}b\""}, {"expr", "\"a${«null»}b\""}, {"expr", "\"a${1}b${«{}»}\""}, {"expr", "<<E\na ${«[]»}\n b\nE\n"}, {"expr", "<<-E\n  a ${1}\n  ${«null»} b\n  E\n"},
	{"expr", "\"%{ if «[]» }a%{ endif }\""}, {"expr", "\"%{ for x in «5» }a%{ endfor }\""}, {"expr", "\"%{ for x in [1] }a${«[x]»}%{ endfor }\""}, {"expr", "\"%{ if true }${«nosuch»}%{ endif }\""},
	{"expr", "«fail(1)»"}, {"expr", "[1, «nosuch(2)»]"}, {"expr", "addone(«[1, 2]»...)"}, {"expr", "addone(«5»...)"}, {"expr", "addone(«null»...)"}, {"expr", "addone(1 + «\"x\"»)"}, {"expr", "addone([1, 2]«[5]»)"}, {"expr", "addone(«nosuch»...)"},
	{"expr", "«nulls»[*].a"}, {"expr", "«nulls».*.a"}, {"expr", "[1][*]«.a»"}, {"expr", "[{}].*«.a»"}, {"expr", "[{a = 1}, {}][*]«.a»"}, {"expr", "«nosuch»[*].a"}, {"expr", "«nosuch».*.a"}, {"expr", "[{a = 1}][*].a«.b»"},

	{"list", "«5»"}, {"list", "«{a = 1}»"}, {"list", "«f(1)»"},
	{"map", "«5»"}, {"map", "«[1]»"}, {"map", "«a.b»"},
	{"fcall", "«5»"}, {"fcall", "«a.b»"},
	{"trav", "«5»"}, {"trav", "«f(1)»"}, {"trav", "«a[b]»"}, {"trav", "«a.*.b»"}, {"trav", "«(1 + 2)»"},

	{"content", "a = 1\nblk {}\nlab \"x\" «\"y\" {»}\n"},
	{"content", "a = 1\n«lab {}»\n"},
	{"content", "a = 1\n«a {}»\n"},
	{"content", "«blk = 1»\na = 1\n"},
	{"content", "a = 1\n«left_over \"x\" {\n  a = 1\n}»\nblk {}\n"},
	{"content", "a = 1\nblk {\n}\n«left_over = [\n  1,\n]»\nblk {}\n"},
	{"attrs", "a = 1\n«blk {\n}»\nb = 2\n"},
	{"attrs", "«lab \"x\" {}»\nb = 2\n"},

	{"include", "a = 1\ninclude {\n  path = «nosuch»\n}\n"},
	{"include", "include {\n  path = «[]»\n}\n"},
	{"include", "include {\n  path = «\"absent\"»\n}\n"},
	{"include", "«include {\n}»\na = 1\n"},
	{"include", "include {\n  path = \"f\"\n  «left_over = 1»\n}\n"},
	{"include", "include {\n  path = \"f\"\n  «other {\n  }»\n}\n"},

	{"json", `{"a": 1, "blk": «5»}`},
	{"json", `{"a": 1, "blk": [{}, «5», {}]}`},
	{"json", `{"a": 1, «"left_over": 1»}`},
	{"json", `{"a": 1, "blk": {«"left_over": 1»}}`},
	{"json", `{"a": 1, "lab": {"x": «true»}}`},
	{"json", `{"a": 1, "lab": «"x"»}`},
	{"json", `«{"blk": []}»`},
	{"json", `[{"blk": []}, {"a": 1}, {«"left_over": 2»}]`},
	{"json", `{"a": 1, "blk": {"a": «"${nosuch}"»}}`},
	{"json", `{"a": [«"${nosuch}"», 1]}`},
	{"json", `{"a": {"x": 1, «"${nosuch}"»: 2}}`},
	{"json", `{"a": {"x": 1, «"${[]}"»: 2}}`},
	{"json", `{"a": 1, "blk": [{"a": 2}, {"a": «[1]»}]}`},
	{"json", `{"a": 1, «"a"»: 2}`},
}

func placeTable(c *mon.Case) {
	e := faultTable[c.Intn(len(faultTable))]
	lo := strings.Index(e.src, "«")
	src := strings.Replace(e.src, "«", "", 1)
	hi := strings.Index(src, "»")
	src = strings.Replace(src, "»", "", 1)
	pre := ""
	switch e.kind {
	case "dyn", "func", "content", "attrs", "include":
		for i := c.Intn(4); i > 0; i-- {
			pre += c.Pick("\n", "# é世界\n", "/* a\n b */\n", "\t\n", "// x\r\n")
		}
	case "json":
		pre = c.Pick("", "\n", "  ", "\n\n")
	default:
		pre = c.Pick("", " ", "/* é */", "\t", "((")
		if pre == "((" {
			pre = "  "
		}
	}
	src = pre + src
	lo, hi = lo+len(pre), hi+len(pre)
	c.Input("source", src)
	ctx := &hcl.EvalContext{
		Variables: map[string]cty.Value{
			"unk":   cty.UnknownVal(cty.String),
			"nulls": cty.NullVal(cty.List(cty.String)),
			"obj": cty.ObjectVal(map[string]cty.Value{
				"a": cty.EmptyObjectVal,
				"l": cty.ListVal([]cty.Value{cty.StringVal("x")}),
				"m": cty.MapVal(map[string]cty.Value{"k": cty.StringVal("x")}),
				"n": cty.NullVal(cty.EmptyObject),
			}),
		},
		Functions: map[string]function.Function{"fail": gen.Funcs["fail"], "mix": gen.Funcs["mix"], "positive": gen.Funcs["positive"]},
	}
	fs, _, _ := userfunc.DecodeUserFunctions(parseNative(c, "function \"addone\" {\n  params = [a]\n  result = a + 1\n}\n").Body, "function", func() *hcl.EvalContext { return nil })
	ctx.Functions["addone"] = fs["addone"]
	file := "t.hcl"
	mode := 0
	var diags hcl.Diagnostics
	expr := func() hcl.Expression {
		mode = 1
		x, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", start)
		if diags.HasErrors() {
			c.Failf("well-formed expression rejected: %s\nsource: %s", diagStr(diags), q(src))
		}
		return x
	}
	spec := hcldec.TupleSpec{
		&hcldec.BlockTupleSpec{TypeName: "blk", Nested: &hcldec.AttrSpec{Name: "a", Type: cty.Number}},
		&hcldec.BlockObjectSpec{TypeName: "lab", LabelNames: []string{"name"}, Nested: &hcldec.AttrSpec{Name: "a", Type: cty.Number}},
	}
	schema := &hcl.BodySchema{
		Attributes: []hcl.AttributeSchema{{Name: "a", Required: true}},
		Blocks:     []hcl.BlockHeaderSchema{{Type: "blk"}, {Type: "lab", LabelNames: []string{"name"}}},
	}
	checkPanic(c, e.kind+" "+q(src), func() {
		switch e.kind {
		case "dyn":
			_, diags = hcldec.Decode(dynblock.Expand(parseNative(c, src).Body, ctx), spec, ctx)
		case "type":
			_, diags = typeexpr.TypeConstraint(expr())
		case "func":
			_, _, diags = userfunc.DecodeUserFunctions(parseNative(c, src).Body, "function", func() *hcl.EvalContext { return ctx })
		case "call", "expr":
			_, diags = expr().Value(ctx)
		case "list":
			_, diags = hcl.ExprList(expr())
		case "map":
			_, diags = hcl.ExprMap(expr())
		case "fcall":
			_, diags = hcl.ExprCall(expr())
		case "trav":
			_, diags = hcl.AbsTraversalForExpr(expr())
		case "content":
			_, diags = parseNative(c, src).Body.Content(schema)
		case "attrs":
			_, diags = parseNative(c, src).Body.JustAttributes()
		case "include":
			body := transform.Deep(parseNative(c, src).Body, include.Transformer("include", ctx, include.MapResolver(map[string]hcl.Body{"f": hcl.EmptyBody()})))
			_, diags = body.Content(&hcl.BodySchema{Attributes: []hcl.AttributeSchema{{Name: "a"}}})
		case "json":
			file, mode = "t.hcl.json", -1
			f, ds := json.Parse([]byte(src), file)
			diags = ds
			if !ds.HasErrors() {
				_, diags = hcldec.Decode(f.Body, hcldec.TupleSpec{&hcldec.AttrSpec{Name: "a", Type: cty.DynamicPseudoType, Required: true}, spec}, ctx)
			}
		}
	})
	if !diags.HasErrors() {
		c.Failf("%s: fault not reported\nsource: %s", e.kind, q(src))
	}
	rc := newRangeChecker(c, []byte(src), start, file, mode)
	rc.json = e.kind == "json"
	p := &placed{c: c, rc: rc, ctx: ctx, src: src, what: fmt.Sprintf("fault (%s)", e.kind), lo: lo, hi: hi}
	p.check(diags, false)
	c.Event("special fault placed")
	c.Sig("table", e.kind, e.src)
}
