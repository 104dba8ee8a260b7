package props

import (
	stdjson "encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/ext/typeexpr"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hclwrite"
	"github.com/zclconf/go-cty/cty"
	ctyjson "github.com/zclconf/go-cty/cty/json"
)

func init() {
	register(&mon.Prop{
		ID: "P34",
		Rule: "directories of test definitions for the specification suite runner, with results, result types, references and diagnostics expected, and a stand-in decoder that answers as expected or with one difference in a value, type, reference, key, position, severity or form; " +
			"the runner has to succeed if there is no difference and to fail if there is one, and to name every test; distinct = (expectations, difference)",
		Assumptions: []string{
			"a reference is expected at one place only",
			"a decoder that fails says why",
			"results have no sets, whose equality in the type library depends on the precision of numbers",
		},
		Quick:    6000,
		Thorough: 80000,
		Require:  []string{"suite succeeds", "suite fails", "value expected", "type expected", "references expected", "diagnostics expected", "both syntaxes", "nested directory"},
		Run:      runP34,
	})
}

type suiteRef struct {
	steps hcl.Traversal
	rng   hcl.Range
}

type suiteDiag struct {
	severity string
	rng      *hcl.Range
}

// suiteTest is a test definition, or what a decoder answers to it.
type suiteTest struct {
	val      cty.Value
	hasVal   bool
	ty       cty.Type
	hasType  bool
	refs     []suiteRef
	hasRefs  bool
	diags    []suiteDiag
	hasDiags bool
}

func shq(s string) string { return "'" + strings.Replace(s, "'", `'\''`, -1) + "'" }

func suiteRange(c *mon.Case) hcl.Range {
	a, b := c.Intn(20), c.Intn(20)
	return hcl.Range{Start: hcl.Pos{Line: a + 1, Column: c.Range(1, 9), Byte: a}, End: hcl.Pos{Line: a + b + 1, Column: c.Range(1, 9), Byte: a + b}}
}

// noSetType is a type without sets, whose equality in the type library
// depends on the precision of numbers.
func noSetType(c *mon.Case) cty.Type {
	for {
		ty := gen.Type(c.Rand, 2)
		if !strings.Contains(fmt.Sprintf("%#v", ty), "Set(") {
			return ty
		}
	}
}

func suiteSteps(c *mon.Case) hcl.Traversal {
	t := hcl.Traversal{hcl.TraverseRoot{Name: fmt.Sprintf("v%d", c.Intn(1000000))}}
	for n := c.Intn(4); n > 0; n-- {
		switch c.Intn(3) {
		case 0:
			t = append(t, hcl.TraverseAttr{Name: gen.Word(c.Rand)})
		case 1:
			t = append(t, hcl.TraverseIndex{Key: cty.NumberIntVal(int64(c.Intn(5)))})
		default:
			t = append(t, hcl.TraverseIndex{Key: cty.StringVal(c.Pick("1", "a", "é b", ""))})
		}
	}
	return t
}

func rangeText(in string, r hcl.Range) string {
	f := func(n string, p hcl.Pos) string {
		return fmt.Sprintf("%s%s {\n%s  line = %d\n%s  column = %d\n%s  byte = %d\n%s}\n", in, n, in, p.Line, in, p.Column, in, p.Byte, in)
	}
	return f("from", r.Start) + f("to", r.End)
}

// text writes the definition of a test.
func (t *suiteTest) text() string {
	var b strings.Builder
	if t.hasType {
		fmt.Fprintf(&b, "result_type = %s\n", typeexpr.TypeString(t.ty))
	}
	if t.hasVal {
		fmt.Fprintf(&b, "result = %s\n", hclwrite.TokensForValue(t.val).Bytes())
	}
	if t.hasRefs {
		b.WriteString("traversals {\n")
		for _, r := range t.refs {
			fmt.Fprintf(&b, "  expect {\n    ref = %s\n%s  }\n", hclwrite.TokensForTraversal(r.steps).Bytes(), rangeText("    ", r.rng))
		}
		b.WriteString("}\n")
	}
	if t.hasDiags {
		b.WriteString("diagnostics {\n")
		for _, d := range t.diags {
			fmt.Fprintf(&b, "  %s {\n%s  }\n", d.severity, rangeText("    ", *d.rng))
		}
		b.WriteString("}\n")
	}
	return b.String()
}

func jsonRange(r *hcl.Range) interface{} {
	if r == nil {
		return nil
	}
	pos := func(p hcl.Pos) interface{} {
		return map[string]interface{}{"line": p.Line, "column": p.Column, "byte": p.Byte}
	}
	return map[string]interface{}{"filename": r.Filename, "start": pos(r.Start), "end": pos(r.End)}
}

func mustJSON(v interface{}) string {
	b, err := stdjson.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// answers are the scripts with which the stand-in answers.
func (t *suiteTest) answers() (value, refs string) {
	if len(t.diags) > 0 {
		var ds []interface{}
		for _, d := range t.diags {
			m := map[string]interface{}{"severity": d.severity, "summary": "it is " + d.severity, "detail": "some detail"}
			if d.rng != nil {
				m["subject"] = jsonRange(d.rng)
			}
			ds = append(ds, m)
		}
		value = "printf %s " + shq(mustJSON(map[string]interface{}{"diagnostics": ds})) + " >&2\nexit 2\n"
	} else {
		b, err := ctyjson.Marshal(t.val, cty.DynamicPseudoType)
		if err != nil {
			panic(err)
		}
		value = "printf %s " + shq(string(b)) + "\n"
	}
	rs := []interface{}{}
	for _, r := range t.refs {
		var steps []interface{}
		for i, s := range r.steps {
			m := map[string]interface{}{}
			switch s := s.(type) {
			case hcl.TraverseRoot:
				m["kind"], m["name"] = "root", s.Name
			case hcl.TraverseAttr:
				m["kind"], m["name"] = "attr", s.Name
			case hcl.TraverseIndex:
				b, err := ctyjson.Marshal(s.Key, s.Key.Type())
				if err != nil {
					panic(err)
				}
				m["kind"], m["key"] = "index", stdjson.RawMessage(b)
			}
			// the whole goes from the first to the last step
			sr := hcl.Range{Filename: r.rng.Filename, Start: r.rng.Start, End: r.rng.End}
			if i > 0 {
				sr.Start = r.rng.End
			}
			m["range"] = jsonRange(&sr)
			steps = append(steps, m)
		}
		rs = append(rs, map[string]interface{}{"steps": steps})
	}
	refs = "printf %s " + shq(mustJSON(rs)) + "\n"
	return
}

func bump(c *mon.Case, r hcl.Range) hcl.Range {
	p := &r.Start
	if c.Bool() {
		p = &r.End
	}
	switch c.Intn(3) {
	case 0:
		p.Line++
	case 1:
		p.Column++
	default:
		p.Byte++
	}
	return r
}

func runP34(c *mon.Case) {
	dir := scratch(c)
	defer os.RemoveAll(dir)
	root := "tests"
	if c.Chance(1, 4) {
		root = filepath.Join(dir, "tests")
	}
	n := c.Range(1, 3)
	bad := c.Intn(n + 1) // which test is answered wrongly, if any
	var names, kinds []string
	why := "none"
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("t%d", i)
		if c.Chance(1, 3) {
			name = c.Pick("sub/", "sub/deeper/", "a.b/") + name
			c.Event("nested directory")
		}
		names = append(names, name)
		kind, w := suiteCase(c, dir, root, name, i == bad)
		kinds = append(kinds, kind)
		if i == bad {
			why = w
		}
	}
	if c.Chance(1, 4) {
		// these are none of the runner's business
		put(dir, "tests/.hidden.t", "}{")
		put(dir, "tests/.git/x.t", "}{")
		put(dir, "tests/readme.txt", "}{")
	}
	args := []string{root, filepath.Join(os.Getenv("VERIF_ROOT"), "tools", "standin.sh")}
	if bad == n && c.Chance(1, 8) {
		switch c.Intn(4) {
		case 0:
			why, args = "no decoder", []string{root, filepath.Join(dir, "nosuch")}
		case 1:
			why, args[0] = "no directory", root+"/nosuch"
		case 2:
			why, args = "argument missing", args[:1]
		default:
			why, args = "argument too many", append(args, "x")
		}
		names = nil
	}
	r := runCmd(c, dir, "hclspecsuite", "", nil, args...)
	if (r.code == 0) != (why == "none") {
		c.Failf("suite exits with %d, difference: %s\n%s\n%s", r.code, why, r.out, clip(r.err, 2000))
	}
	for _, nm := range names {
		if !strings.Contains(r.out, nm) {
			c.Failf("suite does not name the test %s: %s", nm, r.out)
		}
	}
	if why == "none" {
		c.Event("suite succeeds")
	} else {
		c.Event("suite fails")
		if r.err == "" {
			c.Failf("suite fails without saying anything, difference: %s", why)
		}
	}
	c.Sig(strings.Join(kinds, ";"), why)
	c.Sample(strings.Join(kinds, ";") + " " + why)
}

// suiteCase writes a test and the answers to it, with one difference if wrong
// is set. It returns a description of what is expected and of the difference.
func suiteCase(c *mon.Case, dir, root, name string, wrong bool) (string, string) {
	t := &suiteTest{ty: cty.DynamicPseudoType}
	kind := ""
	vty := noSetType(c)
	for onlyFor(vty) {
		vty = noSetType(c)
	}
	t.val = gen.Value(c.Rand, vty, 10)
	if c.Bool() {
		t.hasRefs = true
		for k := c.Intn(4); k > 0; k-- {
			t.refs = append(t.refs, suiteRef{suiteSteps(c), suiteRange(c)})
		}
		c.Event("references expected")
		kind += fmt.Sprintf("refs%d ", len(t.refs))
	}
	if c.Chance(1, 3) {
		t.hasDiags = true
		for k := c.Range(1, 3); k > 0; k-- {
			r := suiteRange(c)
			t.diags = append(t.diags, suiteDiag{c.Pick("error", "warning"), &r})
		}
		c.Event("diagnostics expected")
		kind += fmt.Sprintf("diags%d ", len(t.diags))
	} else {
		if t.hasVal = c.Chance(3, 4); t.hasVal {
			t.hasType = true // collections can't be written otherwise
			t.ty = vty
			c.Event("value expected")
			kind += "value "
		}
		if t.hasType = t.hasType || c.Bool(); t.hasType {
			t.ty = vty
			c.Event("type expected")
			kind += "type "
		}
	}
	forms := []string{".hcl"}
	if c.Chance(1, 3) {
		forms = []string{".hcl", ".hcl.json"}
		c.Event("both syntaxes")
	} else if c.Bool() {
		forms[0] = ".hcl.json"
	}
	kind += strings.Join(forms, " ")

	def := t.text()
	spec := true
	why := "none"
	wrongForm := c.Intn(len(forms))
	for wrong && why == "none" {
		// differences in the definition itself
		switch c.Intn(12) {
		case 0:
			why, spec = "specification missing", false
		case 1:
			def += c.Pick("}\n", "x = 1\n", "diagnostics \"l\" {\n}\n", "\"\n", "traversals {\n  x = 1\n}\n")
			why = "definition broken"
		case 2:
			if t.hasDiags {
				def += c.Pick("result = 1\n", "diagnostics {\n  error {\n"+rangeText("    ", suiteRange(c))+"  }\n}\n")
			} else {
				def += "diagnostics {\n}\n"
			}
			why = "definition contradictory"
		case 3:
			if t.hasRefs {
				def += "traversals {\n}\n"
			} else {
				def += c.Pick("traversals {\n  expect {\n    ref = 1 + 1\n"+rangeText("    ", suiteRange(c))+"  }\n}\n", "traversals {\n  expect {\n    ref = a\n  }\n}\n")
			}
			why = "definition of references broken"
		case 4:
			if !t.hasVal && !t.hasDiags {
				def += "result = nosuch\n"
				why = "expected result fails"
			} else if !t.hasType {
				def += "result_type = nosuch\n"
				why = "expected type fails"
			}
		default:
			why = "answer"
		}
	}
	for k, form := range forms {
		in := filepath.Join(root, name+form)
		if !filepath.IsAbs(root) {
			in = root + "/" + name + form
		}
		a := &suiteTest{val: t.val}
		for _, r := range t.refs {
			r.rng.Filename = in
			a.refs = append(a.refs, r)
		}
		for _, d := range t.diags {
			r := *d.rng
			r.Filename = in
			a.diags = append(a.diags, suiteDiag{d.severity, &r})
		}
		for j := range a.refs { // in any order
			o := c.Intn(j + 1)
			a.refs[j], a.refs[o] = a.refs[o], a.refs[j]
		}
		var value, refs string
		if why == "answer" && k == wrongForm {
			why, value, refs = suiteDifference(c, t, a, in)
		} else {
			value, refs = a.answers()
		}
		put(dir, "tests/"+name+form, "a = 1\nb = 2\n\n\n\n\n\n\n\n\n\n\n")
		put(dir, "tests/"+name+form+".value", value)
		put(dir, "tests/"+name+form+".refs", refs)
		c.Input("value of "+name+form, value)
		c.Input("references of "+name+form, refs)
	}
	if spec {
		put(dir, "tests/"+name+".hcldec", "literal {\n  value = 1\n}\n")
	}
	put(dir, "tests/"+name+".t", def)
	c.Input(name, def)
	return kind, why
}

// suiteDifference changes an answer so that it is not as expected.
func suiteDifference(c *mon.Case, t, a *suiteTest, in string) (why, value, refs string) {
	for {
		switch c.Intn(16) {
		case 0:
			if t.hasVal {
				if v := gen.Value(c.Rand, t.ty, 10); !v.RawEquals(t.val) {
					a.val = v
					why = "other value"
				}
			}
		case 1:
			if t.hasType && !t.hasDiags {
				v := gen.Value(c.Rand, noSetType(c), 0)
				if len(v.Type().TestConformance(t.ty)) > 0 {
					a.val = v
					why = "other type"
				}
			}
		case 2:
			if t.hasRefs && len(a.refs) > 0 {
				a.refs = a.refs[1:]
				why = "reference missing"
			}
		case 3:
			if t.hasRefs {
				r := suiteRef{suiteSteps(c), suiteRange(c)}
				r.rng.Filename = in
				a.refs = append(a.refs, r)
				why = "reference too many"
			}
		case 4:
			if t.hasRefs && len(a.refs) > 0 {
				r := &a.refs[c.Intn(len(a.refs))]
				if len(r.steps) > 1 {
					r.rng = bump(c, r.rng)
				} else {
					r.rng.End = bump(c, hcl.Range{Start: r.rng.End, End: r.rng.End}).End
					r.rng.Start.Byte++
				}
				why = "reference elsewhere"
			}
		case 5:
			if t.hasRefs && len(a.refs) > 0 {
				a.refs[c.Intn(len(a.refs))].rng.Filename = in + "x"
				why = "reference in another file"
			}
		case 6, 7:
			if !t.hasRefs || len(a.refs) == 0 {
				break
			}
			r := &a.refs[c.Intn(len(a.refs))]
			steps := append(hcl.Traversal(nil), r.steps...)
			k := c.Intn(len(steps))
			switch s := steps[k].(type) {
			case hcl.TraverseRoot:
				steps[k] = hcl.TraverseRoot{Name: s.Name + "x"}
			case hcl.TraverseAttr:
				if c.Bool() {
					steps[k] = hcl.TraverseAttr{Name: s.Name + "x"}
				} else {
					steps[k] = hcl.TraverseIndex{Key: cty.StringVal(s.Name)}
				}
			case hcl.TraverseIndex:
				if s.Key.Type() == cty.Number {
					f, _ := s.Key.AsBigFloat().Int64()
					steps[k] = hcl.TraverseIndex{Key: cty.NumberIntVal(f + 1)}
					if c.Bool() {
						steps[k] = hcl.TraverseIndex{Key: cty.StringVal(fmt.Sprint(f))}
					}
				} else {
					steps[k] = hcl.TraverseIndex{Key: cty.StringVal(s.Key.AsString() + "x")}
				}
			}
			if c.Chance(1, 4) {
				steps = append(append(hcl.Traversal(nil), r.steps...), hcl.TraverseAttr{Name: "more"})
			}
			r.steps = steps
			why = "other reference"
		case 8:
			if t.hasDiags && len(a.diags) > 1 {
				// unless the same is there twice
				if *a.diags[0].rng != *a.diags[1].rng {
					a.diags = a.diags[1:]
					if len(a.diags) > 1 && *a.diags[1].rng == *t.diags[0].rng {
						break
					}
					why = "diagnostic missing"
				}
			}
		case 9:
			r := suiteRange(c)
			r.Filename = in
			r.End.Byte = 1000
			a.diags = append(a.diags, suiteDiag{c.Pick("error", "warning"), &r})
			why = "diagnostic too many"
			if !t.hasDiags && a.diags[len(a.diags)-1].severity == "warning" {
				why = "warning too many"
			}
		case 10:
			if t.hasDiags {
				d := &a.diags[0]
				r := bump(c, *d.rng)
				d.rng = &r
				why = "diagnostic elsewhere"
				for _, o := range a.diags[1:] {
					if o.rng.Start == t.diags[0].rng.Start || o.rng.Start == r.Start {
						why = ""
					}
				}
				if why == "" {
					a.diags[0] = suiteDiag{t.diags[0].severity, &hcl.Range{Filename: in, Start: t.diags[0].rng.Start, End: t.diags[0].rng.End}}
				}
			}
		case 11:
			if t.hasDiags && len(a.diags) == 1 {
				if a.diags[0].severity == "error" {
					a.diags[0].severity = "warning"
				} else {
					a.diags[0].severity = "error"
				}
				why = "other severity"
			}
		case 12:
			d := suiteDiag{c.Pick("error", "warning"), nil}
			why = "diagnostic without a place"
			if c.Bool() {
				d.rng = &hcl.Range{Filename: in + "x", Start: hcl.Pos{Line: 1, Column: 1}, End: hcl.Pos{Line: 1, Column: 2, Byte: 1}}
				why = "diagnostic in another file"
			}
			a.diags = append(a.diags, d)
		case 13:
			a.diags = append(a.diags, suiteDiag{"unheard-of", nil})
			why = "unknown severity"
		case 14:
			value, refs = a.answers()
			value = c.Pick("printf nonsense\n", "printf '{'\n", "printf '{\"value\":1,\"type\":\"nosuch\"}'\n", "printf nonsense >&2; exit 1\n", "exit 3\n", "printf '[]'\n")
			return "decoder broken", value, refs
		case 15:
			if t.hasRefs {
				value, refs = a.answers()
				refs = c.Pick("printf nonsense\n", "printf '{'\n", "exit 3\n", "printf '[{\"steps\":[{\"kind\":\"index\",\"key\":nonsense}]}]'\n", "printf '{\"diagnostics\":[{\"severity\":\"error\",\"summary\":\"x\"}]}' >&2; exit 1\n")
				return "decoder broken for references", value, refs
			}
		}
		if why != "" {
			value, refs = a.answers()
			return why, value, refs
		}
	}
}
