package props

import (
	"fmt"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/zclconf/go-cty/cty"
)

func init() {
	register(&mon.Prop{
		ID: "P12",
		Rule: "abstract configurations written out once in native syntax and once in JSON syntax, in one of the equivalent forms; both are read by random schemas, as bare attributes and with decoding specifications and must agree at every level; " +
			"distinct = (configuration shape, specification shape, JSON form)",
		Assumptions: []string{
			"blocks of one type have the same number of labels, which JSON syntax can't vary",
			"object constructors with repeated keys, which the syntaxes treat differently on purpose, are not generated",
		},
		Quick:    80000,
		Thorough: 400000,
		Require:  []string{"attribute values equal", "blocks equal", "decoded values equal", "both in error", "bare attributes equal", "same variables"},
		Run:      runP12,
	})
}

// evenLabels gives all blocks of one type in a body the same number of labels.
func evenLabels(r *mon.Rand, b *gen.Body) {
	n := map[string]int{}
	for _, it := range b.Blocks() {
		if _, ok := n[it.Name]; !ok {
			n[it.Name] = len(it.Labels)
		}
		for len(it.Labels) < n[it.Name] {
			it.Labels = append(it.Labels, gen.GenLabel(r))
		}
		it.Labels = it.Labels[:n[it.Name]]
		evenLabels(r, it.Body)
	}
}

// repeatBlocks makes blocks of the same type, some of them with labels in common.
func repeatBlocks(r *mon.Rand, g *gen.G, b *gen.Body) {
	bs := b.Blocks()
	for _, it := range bs {
		repeatBlocks(r, g, it.Body)
		for r.Chance(1, 2) {
			cp := &gen.Item{Name: it.Name}
			for i, l := range it.Labels {
				if r.Bool() {
					l = gen.GenLabel(r)
				}
				_ = i
				cp.Labels = append(cp.Labels, l)
			}
			cp.Body = gen.GenBody(g, gen.BodyOpts{MaxItems: 2, Depth: 1, ExprDepth: 1})
			evenLabels(r, cp.Body)
			b.Items = append(b.Items, cp)
		}
	}
	if r.Bool() {
		for i := len(b.Items) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			b.Items[i], b.Items[j] = b.Items[j], b.Items[i]
		}
	}
}

func runP12(c *mon.Case) {
	env := gen.NewEnv(c.Rand)
	g := &gen.G{R: c.Rand, Env: env, Hostile: 40}
	c.Input("scope", envStr(env))
	if c.Bool() {
		b := gen.GenBody(g, gen.BodyOpts{MaxItems: c.Size(4, 10), Depth: c.Range(0, 3), ExprDepth: 2, Heredocs: true})
		evenLabels(c.Rand, b)
		repeatBlocks(c.Rand, g, b)
		nsrc := gen.NewW(c.Rand).Config(b)
		jo := gen.JSONOpts{Simple: c.Chance(1, 8), Objects: c.Bool()}
		jsrc := gen.JSONText(c.Rand, gen.JSONBodyValue(c.Rand, b, jo))
		c.Input("native", nsrc)
		c.Input("json", jsrc)
		nb, jb := parseNative(c, nsrc).Body, parseJSON(c, jsrc).Body
		compareRead(c, nb, jb, b, env, "root", 0, jo.Simple || jo.Objects)
		c.Sig(b.Shape(), strings.Count(jsrc, "["), strings.Count(jsrc, "{"))
		c.Sample(clip(nsrc, 150) + "  as  " + clip(jsrc, 150))
		return
	}
	s := gen.GenSpec(g, c.Range(0, 2))
	faults := 0
	if c.Bool() {
		faults = 12
	}
	b := gen.GenSpecBody(g, s, gen.SpecBodyOpts{Faults: faults})
	nsrc := gen.NewW(c.Rand).Config(b)
	jsrc := gen.JSONText(c.Rand, gen.JSONBodyValue(c.Rand, b, gen.JSONOpts{Simple: c.Chance(1, 8)}))
	c.Input("specification", specStr(s))
	c.Input("native", nsrc)
	c.Input("json", jsrc)
	spec := decSpec(c, s)
	nb, jb := parseNative(c, nsrc).Body, parseJSON(c, jsrc).Body
	if n, j := strings.Join(rootNames(hcldec.Variables(nb, spec)), " "), strings.Join(rootNames(hcldec.Variables(jb, spec)), " "); n != j {
		c.Failf("variables in native form: %s\nvariables in JSON form: %s\nnative: %s\njson: %s", n, j, q(nsrc), q(jsrc))
	}
	c.Event("same variables")
	for _, ctx := range []*hcl.EvalContext{evalCtx(env), evalCtx(someUnknown(c.Rand, env))} {
		var nv, jv cty.Value
		var nd, jd hcl.Diagnostics
		checkPanic(c, "decoding", func() { nv, nd = hcldec.Decode(nb, spec, ctx) })
		checkPanic(c, "decoding", func() { jv, jd = hcldec.Decode(jb, spec, ctx) })
		if nd.HasErrors() != jd.HasErrors() {
			c.Failf("native: %s %s\nJSON: %s %s\nnative: %s\njson: %s", valStr(nv), diagStr(nd), valStr(jv), diagStr(jd), q(nsrc), q(jsrc))
		}
		if nd.HasErrors() {
			c.Event("both in error")
			continue
		}
		if !gen.SameValue(nv, jv) {
			c.Failf("native: %s\nJSON: %s\nnative: %s\njson: %s", valStr(nv), valStr(jv), q(nsrc), q(jsrc))
		}
		c.Event("decoded values equal")
	}
	c.Sig(s.Shape(), b.Shape())
	c.Sample(clip(specStr(s), 100) + "  for  " + clip(nsrc, 100) + "  as  " + clip(jsrc, 100))
}

// someUnknown replaces some of the variables with unknown values.
func someUnknown(r *mon.Rand, env *gen.Env) *gen.Env {
	if env == nil {
		return nil
	}
	ret := &gen.Env{Funcs: env.Funcs, Mode: env.Mode, Parent: someUnknown(r, env.Parent), Vars: map[string]cty.Value{}}
	for _, n := range sortedVars(env.Vars) {
		v := env.Vars[n]
		if r.Chance(1, 4) {
			v = cty.UnknownVal(v.Type())
		}
		ret.Vars[n] = v
	}
	return ret
}

// compareRead reads one body in both forms with the same schemas. If bare is
// set, all bodies can be read as bare attributes also in JSON.
func compareRead(c *mon.Case, nb, jb hcl.Body, b *gen.Body, env *gen.Env, path string, depth int, bare bool) {
	ctx := evalCtx(env)
	if bare && len(b.Blocks()) == 0 && c.Bool() {
		na, nd := nb.JustAttributes()
		ja, jd := jb.JustAttributes()
		if nd.HasErrors() != jd.HasErrors() {
			c.Failf("%s: attributes of the native form: %s\nof the JSON form: %s", path, diagStr(nd), diagStr(jd))
		}
		if !jd.HasErrors() {
			compareAttrs(c, na, ja, ctx, path)
			c.Event("bare attributes equal")
		}
	}
	for round := 0; round < 2; round++ {
		schema := &hcl.BodySchema{}
		labels := map[string]int{}
		all := true
		seen := map[string]bool{}
		for _, it := range b.Items {
			if seen[it.Name] {
				continue
			}
			seen[it.Name] = true
			if round == 0 && c.Chance(1, 6) {
				all = false
				continue
			}
			if it.X != nil {
				schema.Attributes = append(schema.Attributes, hcl.AttributeSchema{Name: it.Name, Required: c.Chance(1, 3)})
				continue
			}
			h := hcl.BlockHeaderSchema{Type: it.Name}
			for i := range it.Labels {
				h.LabelNames = append(h.LabelNames, fmt.Sprintf("label%d", i))
			}
			labels[it.Name] = len(it.Labels)
			schema.Blocks = append(schema.Blocks, h)
		}
		if round == 0 && c.Chance(1, 4) && !seen["absent"] {
			if c.Bool() {
				schema.Attributes = append(schema.Attributes, hcl.AttributeSchema{Name: "absent", Required: c.Bool()})
			} else {
				schema.Blocks = append(schema.Blocks, hcl.BlockHeaderSchema{Type: "absent"})
			}
		}
		var nc, jc *hcl.BodyContent
		var nd, jd hcl.Diagnostics
		if !all || c.Bool() {
			var nr, jr hcl.Body
			nc, nr, nd = nb.PartialContent(schema)
			jc, jr, jd = jb.PartialContent(schema)
			// whatever is left must be the same as well
			rest := &gen.Body{}
			asked := map[string]bool{}
			for _, a := range schema.Attributes {
				asked[a.Name] = true
			}
			for _, h := range schema.Blocks {
				asked[h.Type] = true
			}
			for _, it := range b.Items {
				if !asked[it.Name] {
					rest.Items = append(rest.Items, it)
				}
			}
			if depth < 6 {
				compareRead(c, nr, jr, rest, env, path+" remainder", depth+3, bare)
			}
			_, nd2 := nb.Content(schema)
			_, jd2 := jb.Content(schema)
			if nd2.HasErrors() != jd2.HasErrors() {
				c.Failf("%s: native: %s\nJSON: %s\nschema: %+v", path, diagStr(nd2), diagStr(jd2), *schema)
			}
			if nd2.HasErrors() {
				c.Event("both in error")
			}
		} else {
			nc, nd = nb.Content(schema)
			jc, jd = jb.Content(schema)
		}
		if nd.HasErrors() != jd.HasErrors() {
			c.Failf("%s: native: %s\nJSON: %s\nschema: %+v", path, diagStr(nd), diagStr(jd), *schema)
		}
		compareAttrs(c, nc.Attributes, jc.Attributes, ctx, path)
		nby, jby := nc.Blocks.ByType(), jc.Blocks.ByType()
		if len(nby) != len(jby) || len(nc.Blocks) != len(jc.Blocks) {
			c.Failf("%s: %d blocks of %d types in native form, %d blocks of %d types in JSON form", path, len(nc.Blocks), len(nby), len(jc.Blocks), len(jby))
		}
		for ty, nl := range nby {
			jl := jby[ty]
			var ml []*gen.Item
			for _, it := range b.Blocks() {
				if it.Name == ty {
					ml = append(ml, it)
				}
			}
			if len(nl) != len(jl) || len(nl) != len(ml) {
				c.Failf("%s: %d blocks %s written, %d delivered in native form, %d in JSON form", path, len(ml), ty, len(nl), len(jl))
			}
		}
		for _, h := range schema.Blocks {
			ty := h.Type
			i := -1
			for _, it := range b.Blocks() {
				if it.Name != ty {
					continue
				}
				i++
				n, j := nby[ty][i], jby[ty][i]
				where := fmt.Sprintf("%s/%s[%d]", path, ty, i)
				if fmt.Sprintf("%q", n.Labels) != fmt.Sprintf("%q", j.Labels) || len(n.LabelRanges) != len(j.LabelRanges) {
					c.Failf("%s: labels %q in native form, %q in JSON form", where, n.Labels, j.Labels)
				}
				c.Event("blocks equal")
				if depth < 6 {
					compareRead(c, n.Body, j.Body, it.Body, env, where, depth+1, bare)
				}
			}
		}
		if depth > 1 {
			break
		}
	}
}

func compareAttrs(c *mon.Case, na, ja hcl.Attributes, ctx *hcl.EvalContext, path string) {
	if len(na) != len(ja) {
		c.Failf("%s: %d attributes in native form, %d in JSON form", path, len(na), len(ja))
	}
	for _, name := range sortedAttrs(na) {
		n, j := na[name], ja[name]
		if j == nil {
			c.Failf("%s: attribute %s missing in JSON form", path, name)
		}
		if n.Name != j.Name {
			c.Failf("%s: attribute %s is called %s in JSON form", path, n.Name, j.Name)
		}
		var nv, jv cty.Value
		var nd, jd hcl.Diagnostics
		checkPanic(c, "evaluating", func() { nv, nd = n.Expr.Value(ctx) })
		checkPanic(c, "evaluating", func() { jv, jd = j.Expr.Value(ctx) })
		if nd.HasErrors() != jd.HasErrors() || !nd.HasErrors() && !gen.SameValue(nv, jv) {
			c.Failf("%s: attribute %s in native form: %s %s\nin JSON form: %s %s", path, name, valStr(nv), diagStr(nd), valStr(jv), diagStr(jd))
		}
		if nd.HasErrors() {
			c.Event("both in error")
		} else {
			c.Event("attribute values equal")
		}
		if g, w := rootNames(j.Expr.Variables()), rootNames(n.Expr.Variables()); strings.Join(g, " ") != strings.Join(w, " ") {
			c.Failf("%s: attribute %s refers to %s in native form and to %s in JSON form", path, name, w, g)
		}
	}
}
