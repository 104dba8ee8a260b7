package props

import (
	"fmt"
	"reflect"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
)

func init() {
	register(&mon.Prop{
		ID: "P32",
		Rule: "syntax trees of random configurations, expressions and templates, valid and damaged, walked with both walking functions; every call is compared with the tree as found by reflection over the exported fields of the nodes: " +
			"each node exactly once, below its own parent, entered before and left after everything below it, in local scopes with the names of their for expression, with all diagnostics given by the callbacks handed back; distinct = (multiset of node kinds)",
		Assumptions: []string{
			"an object key that is a bare name is a literal, and the reference that the parser made of it is not part of the tree",
			"collections of attributes and blocks and local scopes are levels of their own, which may be there or not",
			"the order of siblings is not judged",
		},
		Quick:    150000,
		Thorough: 800000,
		Require:  []string{"node", "deep node", "local scope", "error from a callback", "configuration", "expression", "template", "damaged"},
		Run:      runP32,
	})
}

var nodeType = reflect.TypeOf((*hclsyntax.Node)(nil)).Elem()

// identity of a node, or nil for those that are only levels of the walk.
func nodeID(n hclsyntax.Node) interface{} {
	if v := reflect.ValueOf(n); v.Kind() == reflect.Ptr {
		return n
	}
	return nil
}

// childNodes finds the nodes directly below n.
func childNodes(n hclsyntax.Node) []hclsyntax.Node {
	var out []hclsyntax.Node
	var look func(v reflect.Value)
	look = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface, reflect.Ptr:
			if v.IsNil() {
				return
			}
		}
		if v.Type().Implements(nodeType) || v.Kind() == reflect.Interface && v.Elem().Type().Implements(nodeType) {
			node := v.Interface().(hclsyntax.Node)
			if nodeID(node) != nil {
				out = append(out, node)
				return
			}
		}
		switch v.Kind() {
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				look(v.Index(i))
			}
		case reflect.Map:
			for _, k := range v.MapKeys() {
				look(v.MapIndex(k))
			}
		case reflect.Struct:
			if v.Type() == reflect.TypeOf(hclsyntax.ObjectConsItem{}) {
				for i := 0; i < v.NumField(); i++ {
					look(v.Field(i))
				}
			}
		}
	}
	v := reflect.ValueOf(n).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if f.PkgPath != "" || f.Anonymous {
			continue
		}
		switch tn := n.(type) {
		case *hclsyntax.SplatExpr:
			if f.Name == "Item" { // only names a node within Each
				continue
			}
		case *hclsyntax.ObjectConsKeyExpr:
			if hcl.ExprAsKeyword(tn) != "" {
				continue
			}
		}
		look(v.Field(i))
	}
	return out
}

type walkMonitor struct {
	c      *mon.Case
	src    string
	parent map[interface{}]interface{} // the tree, by reflection
	seen   map[interface{}]bool
	stack  []hclsyntax.Node
	calls  int
	local  int
	errors int // one in so many diagnostics is an error
}

func (m *walkMonitor) fail(format string, args ...interface{}) {
	m.c.Failf("%s\nsource: %s", fmt.Sprintf(format, args...), q(m.src))
}

func (m *walkMonitor) diag() hcl.Diagnostics {
	m.calls++
	d := &hcl.Diagnostic{Severity: hcl.DiagWarning, Summary: fmt.Sprint(m.calls), Subject: &hcl.Range{}}
	if m.errors > 0 && m.c.Chance(1, m.errors) {
		d.Severity = hcl.DiagError
		m.c.Event("error from a callback")
	}
	return hcl.Diagnostics{d}
}

func (m *walkMonitor) visit(n hclsyntax.Node) {
	id := nodeID(n)
	if id == nil {
		return
	}
	if _, known := m.parent[id]; !known {
		m.fail("walk visits a %T which is not in the tree", n)
	}
	if m.seen[id] {
		m.fail("walk visits a %T twice", n)
	}
	m.seen[id] = true
}

// Enter and Exit make this a hclsyntax.Walker.
func (m *walkMonitor) Enter(n hclsyntax.Node) hcl.Diagnostics {
	m.visit(n)
	if id := nodeID(n); id != nil {
		var above interface{}
		for i := len(m.stack) - 1; i >= 0 && above == nil; i-- {
			above = nodeID(m.stack[i])
		}
		if above != m.parent[id] {
			m.fail("walk enters a %T below %T, it belongs to %T", n, above, m.parent[id])
		}
	}
	if sc, ok := n.(hclsyntax.ChildScope); ok {
		m.local++
		f, ok := m.stack[len(m.stack)-1].(*hclsyntax.ForExpr)
		if !ok {
			m.fail("local scope outside of a for expression")
		}
		want := map[string]bool{f.ValVar: true}
		if f.KeyVar != "" {
			want[f.KeyVar] = true
		}
		for k := range sc.LocalNames {
			if !want[k] {
				m.fail("local scope with the name %q, for expression has %q and %q", k, f.KeyVar, f.ValVar)
			}
		}
		if len(sc.LocalNames) != len(want) {
			m.fail("local scope has names %v, for expression has %q and %q", sc.LocalNames, f.KeyVar, f.ValVar)
		}
	}
	m.stack = append(m.stack, n)
	return m.diag()
}

func (m *walkMonitor) Exit(n hclsyntax.Node) hcl.Diagnostics {
	if len(m.stack) == 0 {
		m.fail("walk leaves a %T which it has not entered", n)
	}
	top := m.stack[len(m.stack)-1]
	if reflect.TypeOf(top) != reflect.TypeOf(n) || nodeID(top) != nodeID(n) {
		m.fail("walk leaves a %T, innermost entered is %T", n, top)
	}
	m.stack = m.stack[:len(m.stack)-1]
	return m.diag()
}

func (m *walkMonitor) done(how string, diags hcl.Diagnostics) {
	for id := range m.parent {
		if !m.seen[id] {
			m.fail("%s omits a %T (below %T)", how, id, m.parent[id])
		}
	}
	got := map[string]int{}
	for _, d := range diags {
		got[d.Summary]++
	}
	if len(diags) != m.calls || len(got) != m.calls {
		m.fail("%s hands back %d diagnostics (%d different), its callbacks gave %d", how, len(diags), len(got), m.calls)
	}
	if len(m.stack) != 0 {
		m.fail("%s has not left a %T", how, m.stack[len(m.stack)-1])
	}
}

func runP32(c *mon.Case) {
	env := gen.NewEnv(c.Rand)
	g := &gen.G{R: c.Rand, Env: env, Hostile: 20}
	var src string
	kind := c.Pick("configuration", "expression", "template")
	switch kind {
	case "configuration":
		src = gen.NewW(c.Rand).Config(gen.GenBody(g, gen.BodyOpts{MaxItems: c.Size(5, 20), Depth: c.Range(1, 4), ExprDepth: c.Range(0, 3), Heredocs: true}))
	case "expression":
		src, _ = gen.RenderExpr(c.Rand, g.Expr(gen.Want(0), c.Size(4, 7)))
	case "template":
		src = gen.NewW(c.Rand).Template(g.Parts(c.Range(1, 4), false))
	}
	damaged := c.Chance(1, 4)
	if damaged {
		src = gen.Mutate(c.Rand, src)
	}
	c.Input(kind, src)
	var root hclsyntax.Node
	var diags hcl.Diagnostics
	switch kind {
	case "configuration":
		var f *hcl.File
		f, diags = hclsyntax.ParseConfig([]byte(src), "t.hcl", start)
		root = f.Body.(*hclsyntax.Body)
	case "expression":
		root, diags = hclsyntax.ParseExpression([]byte(src), "t.hcl", start)
	case "template":
		root, diags = hclsyntax.ParseTemplate([]byte(src), "t.hcl", start)
	}
	if diags.HasErrors() && !damaged {
		c.Failf("valid %s rejected: %s\nsource: %s", kind, diagStr(diags), q(src))
	}
	if diags.HasErrors() {
		c.Event("damaged")
	} else {
		c.Event(kind)
	}
	if root == nil || reflect.ValueOf(root).IsNil() {
		return
	}

	parent := map[interface{}]interface{}{}
	kinds := map[string]int{}
	var build func(n hclsyntax.Node, depth int)
	build = func(n hclsyntax.Node, depth int) {
		kinds[fmt.Sprintf("%T", n)]++
		c.Event("node")
		if depth > 8 {
			c.Event("deep node")
		}
		for _, ch := range childNodes(n) {
			if _, dup := parent[nodeID(ch)]; dup {
				c.Failf("a %T is in the tree twice\nsource: %s", ch, q(src))
			}
			parent[nodeID(ch)] = nodeID(n)
			build(ch, depth+1)
		}
	}
	parent[nodeID(root)] = nil
	build(root, 0)

	errors := []int{0, 1, 3, 20}[c.Intn(4)]
	m := &walkMonitor{c: c, src: src, parent: parent, seen: map[interface{}]bool{}, errors: errors}
	m.done("Walk", hclsyntax.Walk(root, m))
	c.Events("local scope", m.local)
	m = &walkMonitor{c: c, src: src, parent: parent, seen: map[interface{}]bool{}, errors: errors}
	m.done("VisitAll", hclsyntax.VisitAll(root, func(n hclsyntax.Node) hcl.Diagnostics {
		if id := nodeID(n); id != nil {
			if up := m.parent[id]; up != nil && !m.seen[up] {
				m.fail("VisitAll visits a %T before the %T which it is in", n, up)
			}
		}
		m.visit(n)
		return m.diag()
	}))
	c.Sig(kind, fmt.Sprint(kinds))
	c.Sample(clip(src, 200))
}
