package props

import (
	"bytes"
	stdjson "encoding/json"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/ext/userfunc"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/hashicorp/hcl2/hclwrite"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function"
	"github.com/zclconf/go-cty/cty/function/stdlib"
	ctyjson "github.com/zclconf/go-cty/cty/json"
)

func init() {
	register(&mon.Prop{
		ID: "P31",
		Rule: "runs of the formatter and decoder commands in a scratch directory with options, specifications, variables, inputs and faults of all kinds; output, exit status and the directory afterwards are compared with what the library gives; " +
			"distinct = (command, options, kinds of inputs and faults, outcome)",
		Assumptions: []string{
			"what happens to files named after one that can't be read is not judged",
			"the text of error messages is not judged, nor are warnings without errors",
			"properties that are null are left out of the decoder's output (stated in the source)",
		},
		Quick:    14000,
		Thorough: 200000,
		Require: []string{"formatted to output", "formatted in place", "left alone", "change reported", "format failure reported", "other files untouched", "standard input formatted",
			"decoded value", "decoder errors", "diagnostics as JSON", "variable references", "with type", "decoded to file", "bad specification refused", "output failure reported", "several inputs", "variables given", "functions used", "exact number"},
		Run: func(c *mon.Case) {
			if c.Chance(1, 3) {
				runFmt(c)
			} else {
				runDec(c)
			}
		},
	})
}

type cmdResult struct {
	out, err string
	code     int
}

// runCmd runs a command built from the tree.
func runCmd(c *mon.Case, dir, name string, stdin string, stdout *os.File, args ...string) cmdResult {
	c.Input("command", fmt.Sprintf("%s %q", name, args))
	cmd := exec.Command(filepath.Join(os.Getenv("VERIF_ROOT"), ".build", name), args...)
	cmd.Dir = dir
	cmd.Stdin = strings.NewReader(stdin)
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	if stdout != nil {
		cmd.Stdout = stdout
	}
	err := cmd.Run()
	r := cmdResult{out.String(), errs.String(), 0}
	if err != nil {
		x, ok := err.(*exec.ExitError)
		if !ok {
			panic(err)
		}
		r.code = x.ExitCode()
	}
	if strings.Contains(r.err, "\ngoroutine ") || strings.HasPrefix(r.err, "panic:") || r.code < 0 {
		if convertPanic(r.err) {
			c.Known("cty-convert-panic", "%s crashes in the conversion library", name)
			c.Skip("crash in a library")
		}
		c.Failf("%s crashes: %s", name, clip(r.err, 2000))
	}
	return r
}

// dirState is what is in a directory.
func dirState(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == dir {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		if fi.IsDir() {
			out[rel] = "directory"
			return nil
		}
		b, _ := os.ReadFile(p)
		out[rel] = fmt.Sprintf("%o %s", fi.Mode(), b)
		return nil
	})
	return out
}

func scratch(c *mon.Case) string {
	dir, err := os.MkdirTemp("", "hclmon-cli-")
	if err != nil {
		panic(err)
	}
	return dir
}

func put(dir, name, text string) {
	os.MkdirAll(filepath.Dir(filepath.Join(dir, name)), 0o755)
	if err := os.WriteFile(filepath.Join(dir, name), []byte(text), 0o644); err != nil {
		panic(err)
	}
}

func runFmt(c *mon.Case) {
	dir := scratch(c)
	defer os.RemoveAll(dir)
	g := &gen.G{R: c.Rand, Env: gen.NewEnv(c.Rand)}
	source := func() string {
		switch c.Intn(6) {
		case 0:
			return gen.Soup(c.Rand)
		case 1:
			return c.Pick("", "\n", "a=1", "a = 1\n", "\ufeffa=1\n", "a=1\r\nb  = 2\r\n", "a = ", "b {", "\xff\xfe", "a=1 # c\n")
		case 2:
			return string(hclwrite.Format([]byte(gen.ValidConfig(g))))
		}
		return gen.ValidConfig(g)
	}
	names := []string{"a.hcl", "b.hcl", "c d.hcl", "other.txt", "-dash.hcl"}
	content := map[string]string{}
	for _, n := range names {
		content[n] = source()
		put(dir, n, content[n])
		if c.Chance(1, 4) {
			os.Chmod(filepath.Join(dir, n), 0o600)
		}
		c.Input(n, content[n])
	}
	os.Mkdir(filepath.Join(dir, "adir"), 0o755)
	before := dirState(dir)

	var args []string
	check, noChange, write := c.Bool(), c.Bool(), c.Bool()
	if check {
		args = append(args, "-check")
	}
	if noChange {
		args = append(args, "-require-no-change")
	}
	if write {
		args = append(args, c.Pick("-w", "-w=true", "--w"))
	}
	var files []string
	fault := ""
	stdin := ""
	n := c.Intn(4)
	for i := 0; i < n; i++ {
		files = append(files, names[c.Intn(3)])
	}
	if n > 0 && c.Chance(1, 8) {
		at := c.Intn(n + 1)
		fault = c.Pick("missing.hcl", "adir")
		files = append(files[:at:at], append([]string{fault}, files[at:]...)...)
	}
	if len(files) == 0 {
		stdin = source()
		c.Input("standard input", stdin)
	} else if c.Chance(1, 6) {
		args = append(args, "--")
		if c.Bool() {
			files = append(files, "-dash.hcl")
		}
	}
	args = append(args, files...)

	// what should happen
	var out strings.Builder
	failed, changed := false, false
	certain := true
	one := func(name, src string) (string, bool) {
		if check {
			if _, diags := hclsyntax.ParseConfig([]byte(src), name, start); diags.HasErrors() {
				failed = true
				c.Event("left alone")
				return src, false
			}
		}
		f := string(hclwrite.Format([]byte(src)))
		if f != src {
			changed = true
		}
		return f, true
	}
	if len(files) == 0 {
		if write {
			failed = true
		} else if f, ok := one("<stdin>", stdin); ok {
			out.WriteString(f)
			c.Event("standard input formatted")
		}
	}
	var after []string
	for i, n := range files {
		if n == fault {
			failed = true
			certain = false
			after = files[i+1:]
			break
		}
		f, ok := one(n, content[n])
		if !ok {
			continue
		}
		if write {
			content[n] = f
			c.Event("formatted in place")
		} else {
			out.WriteString(f)
			c.Event("formatted to output")
		}
	}
	r := runCmd(c, dir, "hclfmt", stdin, nil, args...)
	wantFail := failed || noChange && changed
	if wantFail != (r.code != 0) {
		c.Failf("exit status %d; errors: %v, something changed: %v, error output: %s", r.code, failed, changed, q(r.err))
	}
	if failed {
		c.Event("format failure reported")
		if r.err == "" {
			c.Failf("failure without any message")
		}
	} else if wantFail {
		c.Event("change reported")
	}
	if certain && r.out != out.String() || !strings.HasPrefix(r.out, out.String()) {
		c.Failf("output is %s, should be %s", q(r.out), q(out.String()))
	}
	now := dirState(dir)
	late := map[string]bool{}
	for _, n := range after {
		late[n] = true
	}
	for n, was := range before {
		if t, ok := content[n]; ok && write {
			was = was[:strings.Index(was, " ")+1] + t
		}
		if now[n] != was && !late[n] {
			c.Failf("%s is now %s, should be %s", n, q(now[n]), q(was))
		}
		c.Event("other files untouched")
	}
	if len(now) != len(before) {
		c.Failf("files have appeared: %d before, %d after", len(before), len(now))
	}
	c.Sig("fmt", check, noChange, write, len(files), fault, failed, changed, len(r.out)/32)
	c.Sample(fmt.Sprintf("hclfmt %q: status %d", args, r.code))
}

// ---- decoder

// cliSpec reduces a specification to what the command's language can say.
func cliSpec(c *mon.Case, s *gen.Spec, lit *gen.G) *gen.Spec {
	for i, k := range s.Kids {
		s.Kids[i] = cliSpec(c, k, lit)
	}
	literal := func() *gen.Spec {
		return &gen.Spec{Kind: gen.SLiteral, X: lit.Expr(gen.WAny, 2)}
	}
	switch s.Kind {
	case gen.SLiteral, gen.SExpr, gen.SLabel:
		return literal()
	case gen.SBlockTuple:
		s.Kind = gen.SBlockList
	case gen.SBlockObject:
		s.Kind = gen.SBlockList
		s.Labels = nil
	case gen.STransFunc:
		s.Kind = gen.STransExpr
		fallthrough
	case gen.STransExpr:
		s.X = nil
		s.Func = c.Pick("nested", "[nested, nested]", "{x = nested}", "jsonencode(nested)", "nested == null", "nested + 1")
	case gen.SObject:
		if c.Chance(1, 6) {
			s.Kind, s.Keys = gen.STuple, nil
			break
		}
		for i, k := range s.Kids {
			if k.Name != "" && c.Bool() {
				dup := false
				for _, n := range s.Keys {
					dup = dup || n == k.Name
				}
				if !dup {
					s.Keys[i] = k.Name
				}
			}
		}
	}
	return s
}

func typeText(ty cty.Type) string {
	switch {
	case ty == cty.DynamicPseudoType:
		return "any"
	case ty == cty.String:
		return "string"
	case ty == cty.Number:
		return "number"
	case ty == cty.Bool:
		return "bool"
	case ty.IsListType():
		return "list(" + typeText(ty.ElementType()) + ")"
	case ty.IsSetType():
		return "set(" + typeText(ty.ElementType()) + ")"
	case ty.IsMapType():
		return "map(" + typeText(ty.ElementType()) + ")"
	case ty.IsTupleType():
		var out []string
		for _, t := range ty.TupleElementTypes() {
			out = append(out, typeText(t))
		}
		return "tuple([" + strings.Join(out, ", ") + "])"
	case ty.IsObjectType():
		var out []string
		for n, t := range ty.AttributeTypes() {
			out = append(out, hclQuote(n)+" = "+typeText(t))
		}
		sort.Strings(out)
		return "object({" + strings.Join(out, ", ") + "})"
	}
	panic("unhandled type")
}

// hclQuote writes a string literal.
func hclQuote(s string) string {
	b, _ := stdjson.Marshal(s)
	t := string(b)
	t = strings.Replace(t, "${", "$${", -1)
	return strings.Replace(t, "%{", "%%{", -1)
}

type cliWriter struct {
	c *mon.Case
	w strings.Builder
	// fault is what is wrong with the specification, if anything
	fault string
	// place of the fault, counting blocks
	at, n int
}

func (w *cliWriter) line(in int, format string, args ...interface{}) {
	w.w.WriteString(strings.Repeat("  ", in))
	fmt.Fprintf(&w.w, format+"\n", args...)
}

// spec writes a specification block; key is its label, or empty. The result is
// the specification the library is to be used with.
func (w *cliWriter) spec(s *gen.Spec, key string, in int) hcldec.Spec {
	c := w.c
	label := ""
	if key != "" {
		label = " " + hclQuote(key)
	}
	here := ""
	if w.n++; w.n == w.at {
		here = w.fault
	}
	open := func(kind string) {
		if here == "unknown kind" {
			kind = "nosuch"
		}
		w.line(in, "%s%s {", kind, label)
		if here == "extra attribute" {
			w.line(in+1, "unexpected_thing = 1")
		}
	}
	name := func(attr, name string) {
		if here == "no name" && key == "" {
			return
		}
		if key != name || c.Bool() || here == "no name" {
			w.line(in+1, "%s = %s", attr, hclQuote(name))
		}
	}
	typ := func(attr string, ty cty.Type) {
		if here == "bad type" {
			w.line(in+1, "%s = %s", attr, c.Pick("nosuch", "list", "1", "list(string, string)", "\"string\"", "tuple(string)", "object([string])", "list(null)"))
			return
		}
		if here == "any in map" {
			w.line(in+1, "%s = %s", attr, c.Pick("any", "list(any)", "map(set(any))", "tuple([string, list(any)])", "object({a = map(any)})"))
			return
		}
		if ty == cty.DynamicPseudoType && c.Bool() && attr == "type" {
			return
		}
		w.line(in+1, "%s = %s", attr, typeText(ty))
	}
	required := func(r bool) {
		if r || c.Chance(1, 4) {
			w.line(in+1, "required = %v", r)
		}
	}
	nested := func() hcldec.Spec {
		if here == "no nested" {
			return w.spec(&gen.Spec{Kind: gen.SObject}, "unwanted", in+1)
		}
		ret := w.spec(s.Kids[0], "", in+1)
		if here == "two nested" {
			w.line(in+1, "literal {")
			w.line(in+2, "value = 1")
			w.line(in+1, "}")
		}
		return ret
	}
	limits := func() {
		if s.Min > 0 || c.Chance(1, 6) {
			w.line(in+1, "min_items = %d", s.Min)
		}
		if s.Max > 0 || c.Chance(1, 6) {
			w.line(in+1, "max_items = %d", s.Max)
		}
	}
	defer w.line(in, "}")
	switch s.Kind {
	case gen.SObject:
		open("object")
		o := hcldec.ObjectSpec{}
		for i, k := range s.Kids {
			o[s.Keys[i]] = w.spec(k, s.Keys[i], in+1)
		}
		return o
	case gen.STuple:
		open("array")
		o := hcldec.TupleSpec{}
		for _, k := range s.Kids {
			o = append(o, w.spec(k, "", in+1))
		}
		return o
	case gen.SAttr:
		open("attr")
		name("name", s.Name)
		typ("type", s.Ty)
		required(s.Required)
		return &hcldec.AttrSpec{Name: s.Name, Type: s.Ty, Required: s.Required}
	case gen.SLiteral:
		open("literal")
		src := gen.Source(s.X)
		if strings.Contains(src, "\n") {
			src = "1"
		}
		x, diags := hclsyntax.ParseExpression([]byte(src), "spec", start)
		if diags.HasErrors() {
			c.Failf("well-formed expression rejected: %s\nsource: %s", diagStr(diags), q(src))
		}
		var v cty.Value
		if msg := mon.Guard(func() { v, diags = x.Value(cliFuncCtx) }); msg != "" {
			c.Skip("crash in evaluation, the matter of P01")
		}
		if diags.HasErrors() || !v.IsWhollyKnown() {
			src, v = "\"fallback\"", cty.StringVal("fallback")
		}
		w.line(in+1, "value = %s", src)
		return &hcldec.LiteralSpec{Value: v}
	case gen.SBlock:
		open("block")
		name("block_type", s.Name)
		required(s.Required)
		return &hcldec.BlockSpec{TypeName: s.Name, Required: s.Required, Nested: nested()}
	case gen.SBlockList:
		open("block_list")
		name("block_type", s.Name)
		limits()
		return &hcldec.BlockListSpec{TypeName: s.Name, MinItems: s.Min, MaxItems: s.Max, Nested: nested()}
	case gen.SBlockSet:
		open("block_set")
		name("block_type", s.Name)
		limits()
		return &hcldec.BlockSetSpec{TypeName: s.Name, MinItems: s.Min, MaxItems: s.Max, Nested: nested()}
	case gen.SBlockMap:
		open("block_map")
		name("block_type", s.Name)
		var ls []string
		for _, l := range s.Labels {
			ls = append(ls, hclQuote(l))
		}
		if here == "no labels" {
			w.line(in+1, "labels = []")
		} else {
			w.line(in+1, "labels = [%s]", strings.Join(ls, ", "))
		}
		return &hcldec.BlockMapSpec{TypeName: s.Name, LabelNames: s.Labels, Nested: nested()}
	case gen.SBlockAttrs:
		open("block_attrs")
		name("block_type", s.Name)
		typ("element_type", s.Ty)
		required(s.Required)
		return &hcldec.BlockAttrsSpec{TypeName: s.Name, ElementType: s.Ty, Required: s.Required}
	case gen.SDefault:
		open("default")
		if here == "no nested" {
			return nil
		}
		a := w.spec(s.Kids[0], "", in+1)
		was, n := w.w.String(), w.n
		b := w.spec(s.Kids[1], "", in+1)
		sameType := func() bool {
			ty := hcldec.ImpliedType(a)
			return ty == cty.DynamicPseudoType || ty.Equals(hcldec.ImpliedType(b))
		}
		if w.fault == "" && !sameType() {
			// a default of another type is not defined
			w.w.Reset()
			w.w.WriteString(was)
			w.n = n
			return a
		}
		return &hcldec.DefaultSpec{Primary: a, Default: b}
	case gen.STransExpr:
		open("transform")
		src := s.Func
		so := w.w.String()
		pos := hcl.Pos{Line: 1 + strings.Count(so, "\n"), Column: 2*in + 12, Byte: len(so) + 2*in + 11}
		if here != "no result" {
			w.line(in+1, "result = %s", src)
		}
		x, diags := hclsyntax.ParseExpression([]byte(src), "spec.hcldec", pos)
		if diags.HasErrors() {
			c.Failf("well-formed expression rejected: %s\nsource: %s", diagStr(diags), q(src))
		}
		return &hcldec.TransformExprSpec{Wrapped: nested(), Expr: x, VarName: "nested", TransformCtx: cliFuncCtx}
	}
	panic("unhandled specification")
}

// the functions named in the documentation of the specification format
var cliFuncCtx = &hcl.EvalContext{Functions: map[string]function.Function{
	"abs": stdlib.AbsoluteFunc, "coalesce": stdlib.CoalesceFunc, "concat": stdlib.ConcatFunc, "hasindex": stdlib.HasIndexFunc, "int": stdlib.IntFunc,
	"jsondecode": stdlib.JSONDecodeFunc, "jsonencode": stdlib.JSONEncodeFunc, "length": stdlib.LengthFunc, "lower": stdlib.LowerFunc, "max": stdlib.MaxFunc,
	"min": stdlib.MinFunc, "reverse": stdlib.ReverseFunc, "strlen": stdlib.StrlenFunc, "substr": stdlib.SubstrFunc, "upper": stdlib.UpperFunc,
}}

const cliFunctions = `
function "ident" {
  params = [v]
  result = v
}
function "upper" {
  params = [str]
  result = upper(str)
}
function "sub" {
  params = [a, b]
  result = a - b
}
function "sum" {
  params         = []
  variadic_param = nums
  result         = max(nums...)
}
function "pair" {
  params = [a, b]
  result = [a, b]
}
function "isnull" {
  params = [v]
  result = v == null
}
function "concat" {
  params         = []
  variadic_param = strs
  result         = jsonencode(strs)
}
`

// applicable is whether a fault can be planted in a block of the
// specification, as the n-th one written.
func faultyAt(c *mon.Case, s *gen.Spec, fault string) int {
	n := 0
	var ok []int
	var walk func(s *gen.Spec, keyed, inMap bool)
	walk = func(s *gen.Spec, keyed, inMap bool) {
		n++
		switch fault {
		case "unknown kind", "extra attribute":
			// anything
			ok = append(ok, n)
		case "no name":
			if !keyed && (s.Kind == gen.SAttr || s.IsBlock()) {
				ok = append(ok, n)
			}
		case "bad type":
			if s.Kind == gen.SAttr || s.Kind == gen.SBlockAttrs {
				ok = append(ok, n)
			}
		case "any in map":
			if inMap && (s.Kind == gen.SAttr || s.Kind == gen.SBlockAttrs) {
				ok = append(ok, n)
			}
		case "no nested":
			if s.Kind == gen.SDefault || s.Kind == gen.STransExpr || s.IsBlock() && s.Kind != gen.SBlockAttrs {
				ok = append(ok, n)
			}
		case "two nested":
			if s.Kind == gen.STransExpr || s.IsBlock() && s.Kind != gen.SBlockAttrs {
				ok = append(ok, n)
			}
		case "no labels":
			if s.Kind == gen.SBlockMap {
				ok = append(ok, n)
			}
		case "no result":
			if s.Kind == gen.STransExpr {
				ok = append(ok, n)
			}
		}
		for _, k := range s.Kids {
			m := inMap
			switch s.Kind {
			case gen.SBlockMap:
				m = true
			case gen.STransExpr, gen.SDefault:
				m = false
			}
			walk(k, s.Kind == gen.SObject, m)
		}
	}
	walk(s, false, false)
	if len(ok) == 0 {
		return 0
	}
	return ok[c.Intn(len(ok))]
}

func runDec(c *mon.Case) {
	dir := scratch(c)
	defer os.RemoveAll(dir)
	env := gen.NewEnv(c.Rand)
	g := &gen.G{R: c.Rand, Env: env, Hostile: 60, NoFunc: c.Chance(1, 3)}
	lit := &gen.G{R: c.Rand, Env: &gen.Env{Vars: map[string]cty.Value{}}, NoFunc: true}
	s := cliSpec(c, gen.GenSpec(g, c.Range(0, 3)), lit)

	// specification file
	w := &cliWriter{c: c}
	if c.Chance(1, 8) {
		w.fault = c.Pick("unknown kind", "extra attribute", "no name", "bad type", "no nested", "two nested", "no labels", "no result", "any in map", "two roots", "no root", "syntax", "variables", "missing", "bad function")
		w.at = faultyAt(c, s, w.fault)
		switch w.fault {
		case "two roots", "no root", "syntax", "variables", "missing", "bad function":
			w.at = -1
		}
		if w.at == 0 {
			w.fault = ""
		}
	}
	vars := map[string]cty.Value{}
	names := []string{}
	all := map[string]string{} // as JSON
	for e := env; e != nil; e = e.Parent {
		for n, v := range e.Vars {
			if _, ok := all[n]; ok || !v.IsWhollyKnown() {
				continue
			}
			if b, err := ctyjson.Marshal(v, v.Type()); err == nil {
				all[n] = string(b)
				names = append(names, n)
			}
		}
	}
	sort.Strings(names)
	nativeVal := func(js string) string {
		return strings.Replace(strings.Replace(js, "${", "$${", -1), "%{", "%%{", -1)
	}
	inSpec := map[string]string{}
	for _, n := range names {
		if c.Chance(1, 3) {
			inSpec[n] = nativeVal(all[n])
		}
	}
	if len(inSpec) > 0 || w.fault == "variables" {
		w.line(0, "variables {")
		for _, n := range names {
			if t, ok := inSpec[n]; ok {
				if c.Chance(1, 4) {
					t = nativeVal(all[names[c.Intn(len(names))]]) // to be overridden
					inSpec[n] = t
				}
				w.line(1, "%s = %s", n, t)
				vars[n] = exprValue(c, t)
			}
		}
		if w.fault == "variables" {
			w.line(1, "wrong = nosuch")
		}
		w.line(0, "}")
	}
	funcs := map[string]function.Function{}
	if !g.NoFunc {
		w.w.WriteString(cliFunctions)
		f := parseNative(c, cliFunctions)
		var diags hcl.Diagnostics
		funcs, _, diags = userfunc.DecodeUserFunctions(f.Body, "function", func() *hcl.EvalContext { return cliFuncCtx })
		if diags.HasErrors() {
			c.Failf("functions rejected: %s", diagStr(diags))
		}
		c.Event("functions used")
	}
	if w.fault == "bad function" {
		w.line(0, "function %q {\n  params = 5\n  result = 1\n}", "broken")
	}
	spec := hcldec.Spec(nil)
	if w.fault != "no root" {
		spec = w.spec(s, "", 0)
	}
	if w.fault == "two roots" {
		w.line(0, "literal {\n  value = 1\n}")
	}
	if w.fault == "syntax" {
		w.line(0, "= oops")
	}
	c.Input("specification", w.w.String())
	c.Input("fault", w.fault)
	if w.fault != "missing" {
		put(dir, "spec.hcldec", w.w.String())
	}

	// variables
	var args []string
	fault := ""
	giveVars := func(i int) {
		var pick []string
		for _, n := range names {
			if _, ok := inSpec[n]; !ok || c.Chance(1, 3) {
				if c.Chance(7, 8) {
					pick = append(pick, n)
				}
			}
		}
		kind := c.Pick("literal", "json", "hcl")
		name := fmt.Sprintf("vars%d.%s", i, kind)
		var js, native strings.Builder
		sep := "{"
		for _, n := range pick {
			k, _ := stdjson.Marshal(n)
			js.WriteString(sep + string(k) + ":" + all[n])
			sep = ","
			native.WriteString(n + " = " + nativeVal(all[n]) + "\n")
		}
		if sep == "{" {
			js.WriteString("{")
		}
		js.WriteString("}")
		bad := c.Chance(1, 30)
		if bad {
			fault = "variables"
			js.WriteString("]")
			native.WriteString("= oops\n")
		}
		switch kind {
		case "hcl":
			put(dir, name, native.String())
			c.Input(name, native.String())
			args = append(args, "--vars="+name)
		case "json":
			put(dir, name, js.String())
			c.Input(name, js.String())
			args = append(args, "-V", name)
		default:
			args = append(args, "-V", js.String())
		}
		for _, n := range pick {
			if kind == "hcl" {
				vars[n] = exprValue(c, nativeVal(all[n]))
			} else {
				f, diags := json.Parse([]byte(`{"v":`+all[n]+`}`), "v")
				if diags.HasErrors() {
					c.Failf("JSON rejected: %s", diagStr(diags))
				}
				as, _ := f.Body.JustAttributes()
				vars[n], diags = as["v"].Expr.Value(nil)
				if diags.HasErrors() {
					fault = "variables"
				}
			}
		}
		c.Event("variables given")
	}
	for n := c.Intn(3); n > 0; n-- {
		giveVars(n)
	}
	if c.Chance(1, 40) {
		args = append(args, "-V", c.Pick("nosuch.hcl", "nosuch.json"))
		fault = "variables"
	}

	// inputs
	opts := gen.SpecBodyOpts{}
	if c.Chance(1, 3) {
		opts = gen.SpecBodyOpts{Faults: c.Range(6, 25)}
	}
	b := gen.GenSpecBody(g, s, opts)
	var bodies []hcl.Body
	var files []string
	stdin := ""
	rest := b.Items
	var diags hcl.Diagnostics
	nfiles := c.Range(1, 3)
	for i := 0; i < nfiles; i++ {
		n := len(rest)
		if i < nfiles-1 {
			n = c.Intn(len(rest) + 1)
		}
		part := &gen.Body{Items: rest[:n]}
		rest = rest[n:]
		name := fmt.Sprintf("in%d.hcl", i)
		js := c.Chance(1, 3)
		var src string
		if js {
			name += ".json"
			src = gen.JSONText(c.Rand, gen.JSONBodyValue(c.Rand, part, gen.JSONOpts{}))
		} else {
			src = gen.NewW(c.Rand).Config(part)
		}
		if c.Chance(1, 30) {
			src += " = oops"
		}
		missing := c.Chance(1, 40)
		if nfiles == 1 && !js && c.Chance(1, 3) && !missing {
			name = "<stdin>"
			stdin = src
		} else {
			files = append(files, name)
			if !missing {
				put(dir, name, src)
			}
		}
		c.Input(name, src)
		var f *hcl.File
		var fdiags hcl.Diagnostics
		switch {
		case missing:
			fdiags = hcl.Diagnostics{{Severity: hcl.DiagError, Summary: "missing"}}
		case js:
			f, fdiags = json.Parse([]byte(src), name)
		default:
			f, fdiags = hclsyntax.ParseConfig([]byte(src), name, start)
		}
		diags = append(diags, fdiags...)
		if missing {
			fault = "missing input"
		}
		if !fdiags.HasErrors() {
			bodies = append(bodies, f.Body)
		}
	}
	if len(files) > 1 {
		c.Event("several inputs")
	}

	// options
	args = append([]string{c.Pick("--spec=spec.hcldec", "--spec", "-s")}, args...)
	if args[0] != "--spec=spec.hcldec" {
		args = append([]string{args[0], "spec.hcldec"}, args[1:]...)
	}
	jsonDiags, withType, varRefs, toFile, full := c.Chance(1, 3), c.Chance(1, 4), c.Chance(1, 5), c.Chance(1, 5), c.Chance(1, 30)
	if jsonDiags {
		args = append(args, "--diags=json")
	}
	if withType {
		args = append(args, "--with-type")
	}
	if varRefs {
		args = append(args, "--var-refs")
	}
	if toFile {
		args = append(args, c.Pick("--out=out.json", "-oout.json"))
		if c.Bool() {
			put(dir, "out.json", strings.Repeat("old content\n", 1000))
		}
	}
	if len(files) > 0 {
		args = append(args, files...)
	}
	if w.fault != "" {
		fault = "specification: " + w.fault
	}

	var stdout *os.File
	if full && !toFile {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			panic(err)
		}
		defer f.Close()
		stdout = f
	}
	before := dirState(dir)
	r := runCmd(c, dir, "hcldec", stdin, stdout, args...)
	sig := func(outcome string) {
		c.Sig("dec", jsonDiags, withType, varRefs, toFile, fault, outcome, s.Shape(), len(files))
		c.Sample(fmt.Sprintf("hcldec %q: status %d, %s", args, r.code, outcome))
	}
	after := dirState(dir)
	out := r.out
	if toFile {
		out = ""
		if t, ok := after["out.json"]; ok && (r.code == 0 || t != before["out.json"]) {
			out = t[strings.Index(t, " ")+1:]
		}
		if r.out != "" {
			c.Failf("output %s in spite of an output file", q(r.out))
		}
	}
	delete(after, "out.json")
	delete(before, "out.json")
	if !reflect.DeepEqual(before, after) {
		c.Failf("the decoder changes files: %v before, %v after", before, after)
	}
	fails := func(why string) {
		if r.code == 0 {
			c.Failf("exit status 0, output %s, though there is an error: %s", q(out), why)
		}
		if out != "" {
			c.Failf("output %s though there is an error: %s", q(out), why)
		}
		if r.err == "" {
			c.Failf("no message about an error: %s", why)
		}
	}

	if w.fault != "" {
		fails("specification: " + w.fault)
		c.Event("bad specification refused")
		sig("refused")
		return
	}
	if fault != "" || diags.HasErrors() {
		fails(fault + " " + diagStr(diags))
		c.Event("decoder errors")
		if fault == "" && jsonDiags {
			sameJSONDiags(c, r.err, diags)
		}
		sig("inputs refused")
		return
	}
	body := hcl.EmptyBody()
	switch len(bodies) {
	case 1:
		body = bodies[0]
	default:
		body = hcl.MergeBodies(bodies)
	}
	var ctx *hcl.EvalContext
	if len(vars) > 0 || len(funcs) > 0 {
		ctx = &hcl.EvalContext{}
		if len(vars) > 0 {
			ctx.Variables = vars
		}
		if len(funcs) > 0 {
			ctx.Functions = funcs
		}
	}
	if varRefs {
		var refs []hcl.Traversal
		if msg := mon.Guard(func() { refs = hcldec.Variables(body, spec) }); msg != "" {
			c.Skip("crash in the library, not the command's matter")
		}
		if stdout != nil {
			if r.code == 0 {
				c.Failf("exit status 0 though the output can't be written")
			}
			c.Event("output failure reported")
			return
		}
		if r.code != 0 {
			c.Failf("exit status %d when asked for references: %s", r.code, q(r.err))
		}
		sameRefs(c, out, refs, ctx)
		c.Event("variable references")
		sig("references")
		return
	}
	var v cty.Value
	if msg := mon.Guard(func() { v, diags = hcldec.Decode(body, spec, ctx) }); msg != "" {
		c.Failf("the library crashes where the command doesn't: %s", msg)
	}
	if diags.HasErrors() {
		fails(diagStr(diags))
		c.Event("decoder errors")
		if jsonDiags {
			sameJSONDiags(c, r.err, diags)
		}
		sig("errors")
		return
	}
	js, err := ctyjson.Marshal(v, v.Type())
	if withType && err == nil {
		js, err = ctyjson.Marshal(v, cty.DynamicPseudoType)
	}
	if err != nil {
		fails(err.Error())
		sig("no JSON")
		return
	}
	if stdout != nil {
		if r.code == 0 {
			c.Failf("exit status 0 though the output can't be written")
		}
		c.Event("output failure reported")
		return
	}
	if r.code != 0 {
		c.Failf("exit status %d, but the library gives %s: %s", r.code, valStr(v), q(r.err))
	}
	want, got := stripNulls(decodeJSON(c, string(js))), decodeJSON(c, out)
	if !sameJSON(c, want, got) {
		c.Failf("output %s, should be %s without nulls", q(out), q(string(js)))
	}
	c.Event("decoded value")
	if withType {
		c.Event("with type")
	}
	if toFile {
		c.Event("decoded to file")
	}
	sig("value")
}

func exprValue(c *mon.Case, src string) cty.Value {
	x, diags := hclsyntax.ParseExpression([]byte(src), "v", start)
	if diags.HasErrors() {
		c.Failf("expression rejected: %s\n%s", diagStr(diags), q(src))
	}
	v, diags := x.Value(nil)
	if diags.HasErrors() {
		c.Failf("constant expression has errors: %s\n%s", diagStr(diags), q(src))
	}
	return v
}

func decodeJSON(c *mon.Case, s string) interface{} {
	d := stdjson.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		c.Failf("output is not JSON: %s\n%s", err, q(s))
	}
	if _, err := d.Token(); err != io.EOF {
		c.Failf("output goes on after the JSON value: %s", q(s))
	}
	return v
}

func stripNulls(v interface{}) interface{} {
	switch v := v.(type) {
	case map[string]interface{}:
		for k, e := range v {
			if e == nil {
				delete(v, k)
			} else {
				v[k] = stripNulls(e)
			}
		}
	case []interface{}:
		for i, e := range v {
			v[i] = stripNulls(e)
		}
	}
	return v
}

func sameJSON(c *mon.Case, a, b interface{}) bool {
	switch a := a.(type) {
	case map[string]interface{}:
		b, ok := b.(map[string]interface{})
		if !ok || len(a) != len(b) {
			return false
		}
		for k, x := range a {
			y, ok := b[k]
			if !ok || !sameJSON(c, x, y) {
				return false
			}
		}
		return true
	case []interface{}:
		b, ok := b.([]interface{})
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !sameJSON(c, a[i], b[i]) {
				return false
			}
		}
		return true
	case stdjson.Number:
		b, ok := b.(stdjson.Number)
		if !ok {
			return false
		}
		if len(a) > 18 {
			c.Event("exact number")
		}
		if a == b {
			return true
		}
		x, _, err1 := big.ParseFloat(string(a), 10, 2000, big.ToNearestEven)
		y, _, err2 := big.ParseFloat(string(b), 10, 2000, big.ToNearestEven)
		return err1 == nil && err2 == nil && x.Cmp(y) == 0
	}
	return reflect.DeepEqual(a, b)
}

type cliPos struct{ Line, Column, Byte int }
type cliRange struct {
	Filename   string
	Start, End cliPos
}

func (r *cliRange) String() string {
	if r == nil {
		return "nowhere"
	}
	return fmt.Sprintf("%s %v %v", r.Filename, r.Start, r.End)
}

func toCLIRange(r *hcl.Range) *cliRange {
	if r == nil {
		return nil
	}
	return &cliRange{r.Filename, cliPos{r.Start.Line, r.Start.Column, r.Start.Byte}, cliPos{r.End.Line, r.End.Column, r.End.Byte}}
}

// sameJSONDiags compares diagnostics printed as JSON, apart from details, in
// which names are suggested at random.
func sameJSONDiags(c *mon.Case, text string, diags hcl.Diagnostics) {
	var got struct {
		Diagnostics []struct {
			Severity, Summary, Detail string
			Subject                   *cliRange
		}
	}
	if err := stdjson.Unmarshal([]byte(text), &got); err != nil {
		c.Failf("diagnostics are not JSON: %s\n%s", err, q(text))
	}
	var a, b []string
	for _, d := range got.Diagnostics {
		if d.Severity == "warning" {
			continue // those about the specification are not known here
		}
		a = append(a, fmt.Sprintf("%s: %s at %s, detail: %v", d.Severity, d.Summary, d.Subject, d.Detail != ""))
	}
	for _, d := range diags {
		if d.Severity == hcl.DiagWarning {
			continue
		}
		sev := map[hcl.DiagnosticSeverity]string{hcl.DiagError: "error", hcl.DiagWarning: "warning"}[d.Severity]
		b = append(b, fmt.Sprintf("%s: %s at %s, detail: %v", sev, d.Summary, toCLIRange(d.Subject), d.Detail != ""))
	}
	sort.Strings(a)
	sort.Strings(b)
	if !reflect.DeepEqual(a, b) {
		c.Failf("diagnostics printed:\n%s\nthe library gives:\n%s", strings.Join(a, "\n"), strings.Join(b, "\n"))
	}
	c.Event("diagnostics as JSON")
}

// sameRefs compares printed references.
func sameRefs(c *mon.Case, text string, refs []hcl.Traversal, ctx *hcl.EvalContext) {
	var got []struct {
		RootName string `json:"root_name"`
		Value    stdjson.RawMessage
		Steps    []struct {
			Kind, Name string
			Key        stdjson.RawMessage
			Range      *cliRange
		}
		Range *cliRange
	}
	if err := stdjson.Unmarshal([]byte(text), &got); err != nil {
		c.Failf("references are not JSON: %s\n%s", err, q(text))
	}
	norm := func(raw []byte) string {
		if len(raw) == 0 {
			return "none"
		}
		d := stdjson.NewDecoder(bytes.NewReader(raw))
		d.UseNumber()
		var v interface{}
		if err := d.Decode(&v); err != nil {
			return "bad"
		}
		out, _ := stdjson.Marshal(v)
		return string(out)
	}
	var a, b []string
	for _, t := range got {
		s := t.RootName + " " + t.Range.String() + " = " + norm(t.Value)
		for _, st := range t.Steps {
			s += fmt.Sprintf(" | %s %s %s %s", st.Kind, st.Name, norm(st.Key), st.Range)
		}
		a = append(a, s)
	}
	for _, t := range refs {
		rng := t.SourceRange()
		val := []byte(nil)
		if v, diags := t.TraverseAbs(ctx); !diags.HasErrors() {
			if js, err := ctyjson.Marshal(v, v.Type()); err == nil {
				val = js
			}
		}
		s := t.RootName() + " " + toCLIRange(&rng).String() + " = " + norm(val)
		for _, st := range t {
			r := st.SourceRange()
			kind, name, key := "", "", []byte(nil)
			switch st := st.(type) {
			case hcl.TraverseRoot:
				kind, name = "root", st.Name
			case hcl.TraverseAttr:
				kind, name = "attr", st.Name
			case hcl.TraverseIndex:
				kind = "index"
				key, _ = ctyjson.Marshal(st.Key, st.Key.Type())
			}
			s += fmt.Sprintf(" | %s %s %s %s", kind, name, norm(key), toCLIRange(&r))
		}
		b = append(b, s)
	}
	sort.Strings(a)
	sort.Strings(b)
	if !reflect.DeepEqual(a, b) {
		c.Failf("references printed:\n%s\nthe library gives:\n%s", strings.Join(a, "\n"), strings.Join(b, "\n"))
	}
}
