package props

import (
	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/ext/dynblock"
	"github.com/hashicorp/hcl2/ext/transform"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hclpack"
)

var bodyForms = []string{"native", "json", "packed", "merged", "expanded", "transformed", "warned"}

// isJSON is whether some part of the form is in JSON syntax.
type builtBody struct {
	hcl.Body
	json bool
	desc string
}

// buildBody expresses a model body in one of the forms. Blocks of one type
// must have the same number of labels.
func buildBody(c *mon.Case, b *gen.Body, env *gen.Env, depth int) builtBody {
	return buildBodyForms(c, b, env, depth, true)
}

// buildBodyForms is buildBody, with or without parts in JSON syntax.
func buildBodyForms(c *mon.Case, b *gen.Body, env *gen.Env, depth int, json bool) builtBody {
	form := bodyForms[c.Intn(len(bodyForms))]
	if depth <= 0 {
		form = bodyForms[c.Intn(3)]
	}
	if form == "json" && !json {
		form = "native"
	}
	switch form {
	case "native":
		src := gen.NewW(c.Rand).Config(b)
		c.Input("native", src)
		return builtBody{Body: parseNative(c, src).Body, desc: "native"}
	case "packed":
		src := gen.NewW(c.Rand).Config(b)
		c.Input("packed", src)
		pb, diags := hclpack.PackNativeFile([]byte(src), "t.hcl", start)
		if diags.HasErrors() {
			c.Failf("well-formed configuration rejected: %s\nsource: %s", diagStr(diags), q(src))
		}
		if c.Bool() {
			return builtBody{Body: repack(c, pb), desc: "packed"}
		}
		return builtBody{Body: pb, desc: "packed"}
	case "json":
		src := gen.JSONText(c.Rand, gen.JSONBodyValue(c.Rand, b, gen.JSONOpts{Simple: c.Chance(1, 6), Objects: true}))
		c.Input("json", src)
		return builtBody{Body: parseJSON(c, src).Body, json: true, desc: "json"}
	case "merged":
		var parts []hcl.Body
		ret := builtBody{desc: "merged"}
		rest := b.Items
		for len(rest) > 0 || len(parts) == 0 || c.Chance(1, 4) {
			n := 0
			if len(rest) > 0 {
				n = c.Intn(len(rest) + 1)
			}
			p := buildBodyForms(c, &gen.Body{Items: rest[:n]}, env, depth-1, json)
			rest = rest[n:]
			ret.json = ret.json || p.json
			ret.desc += " " + p.desc
			parts = append(parts, p.Body)
			if c.Chance(1, 8) {
				parts = append(parts, hcl.EmptyBody())
			}
		}
		ret.Body = hcl.MergeBodies(parts)
		return ret
	case "expanded":
		p := buildBodyForms(c, b, env, depth-1, json)
		p.Body = dynblock.Expand(p.Body, evalCtx(env))
		p.desc = "expanded " + p.desc
		return p
	case "transformed":
		p := buildBodyForms(c, b, env, depth-1, json)
		p.Body = transform.Deep(p.Body, transform.TransformerFunc(func(b hcl.Body) hcl.Body { return b }))
		p.desc = "transformed " + p.desc
		return p
	case "warned":
		p := buildBodyForms(c, b, env, depth-1, json)
		p.Body = transform.BodyWithDiagnostics(p.Body, hcl.Diagnostics{{Severity: hcl.DiagWarning, Summary: "careful", Subject: &hcl.Range{}}})
		p.desc = "warned " + p.desc
		return p
	}
	panic("unhandled form")
}

// repack writes out a packed body and reads it back.
func repack(c *mon.Case, b *hclpack.Body) *hclpack.Body {
	buf, err := b.MarshalJSON()
	if err != nil {
		c.Failf("packed body can't be written: %s", err)
	}
	ret := &hclpack.Body{}
	if err := ret.UnmarshalJSON(buf); err != nil {
		c.Failf("packed body can't be read back: %s\n%s", err, q(string(buf)))
	}
	return ret
}

// labelNames makes up names for labels.
func labelNames(n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, string(rune('a'+i))+"_label")
	}
	return out
}

// noDynamic renames items whose name has a meaning when expanding.
func noDynamic(b *gen.Body) {
	for _, it := range b.Items {
		if it.Name == "dynamic" {
			it.Name = "dynamic_"
		}
		if it.Body != nil {
			noDynamic(it.Body)
		}
	}
}
