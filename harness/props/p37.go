package props

import (
	"fmt"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
)

func init() {
	register(&mon.Prop{
		ID: "P37",
		Rule: "configurations with one fault written into a body at any depth, parsed; every attribute and block that ends before the fault must be in the partial result exactly as written, with the blocks around the fault and nothing besides; " +
			"distinct = (fault, shape of what precedes it)",
		Assumptions: []string{"what follows a fault in the source may be left out or misread"},
		Quick:       200000,
		Thorough:    1000000,
		Require:     []string{"attribute kept", "block kept", "body kept"},
		Run:         runP37,
	})
}

func runP37(c *mon.Case) {
	g := &gen.G{R: c.Rand, Env: gen.NewEnv(c.Rand), Hostile: 15}
	b := gen.GenBody(g, gen.BodyOpts{MaxItems: c.Size(8, 40), Depth: c.Size(3, 8), ExprDepth: c.Range(1, 4), Heredocs: true})
	// The chain of bodies down to the one to damage, with the number of
	// items that precede the fault in each.
	type link struct {
		body *gen.Body
		n    int
	}
	var chain []link
	for t := b; ; {
		var bs []int
		for i, it := range t.Items {
			if it.Body != nil {
				bs = append(bs, i)
			}
		}
		if len(bs) == 0 || c.Chance(1, 3) {
			chain = append(chain, link{t, c.Intn(len(t.Items) + 1)})
			break
		}
		k := bs[c.Intn(len(bs))]
		chain = append(chain, link{t, k})
		t = t.Items[k].Body
	}
	last := chain[len(chain)-1]
	bad := structFaults[c.Intn(len(structFaults))]
	if c.Chance(1, 3) {
		bad += gen.Broken(c.Rand)
		if c.Bool() {
			bad = "zz = " + gen.Broken(c.Rand)
		}
	}
	if as := (&gen.Body{Items: last.body.Items[:last.n]}).Attrs(); len(as) > 0 && c.Chance(1, 8) {
		// repeat an attribute
		bad = as[c.Intn(len(as))].Name + " = " + c.Pick("1", "other", "{}", "[", "")
	}
	it := &gen.Item{Name: "zz", Raw: bad}
	k := last.n
	last.body.Items = append(last.body.Items[:k:k], append([]*gen.Item{it}, last.body.Items[k:]...)...)
	w := gen.NewW(c.Rand)
	w.NoComments = c.Bool()
	src := w.Config(b)
	c.Input("source", src)
	var f *hcl.File
	var diags hcl.Diagnostics
	checkPanic(c, "parsing", func() { f, diags = hclsyntax.ParseConfig([]byte(src), "t.hcl", start) })
	if !diags.HasErrors() {
		c.Skip("no fault")
	}
	if f == nil || f.Body == nil {
		c.Failf("no partial result\nsource: %s", q(src))
	}
	body := f.Body.(*hclsyntax.Body)
	from := w.Items[it].Whole[0]
	for d, l := range chain {
		where := fmt.Sprintf("body at depth %d before %q", d, bad)
		nb := 0
		for _, it := range l.body.Items[:l.n] {
			if it.X != nil {
				at := body.Attributes[it.Name]
				if at == nil {
					c.Failf("%s: lacks attribute %q\n%s\nsource: %s", where, it.Name, diagStr(diags), q(src))
				}
				matchExpr(c, it.X, at.Expr, where+"/"+it.Name)
				c.Event("attribute kept")
				continue
			}
			if nb >= len(body.Blocks) {
				c.Failf("%s: lacks block %q\n%s\nsource: %s", where, it.Name, diagStr(diags), q(src))
			}
			matchBody(c, &gen.Body{Items: []*gen.Item{it}}, &hclsyntax.Body{Blocks: body.Blocks[nb : nb+1]}, where)
			nb++
			c.Event("block kept")
		}
		n := 0
		for _, at := range body.Attributes {
			if at.SrcRange.End.Byte <= from {
				n++
			}
		}
		if want := len((&gen.Body{Items: l.body.Items[:l.n]}).Attrs()); n != want {
			c.Failf("%s: %d attributes, should be %d\nsource: %s", where, n, want, q(src))
		}
		if nb < len(body.Blocks) && body.Blocks[nb].CloseBraceRange.End.Byte <= from && body.Blocks[nb].CloseBraceRange.End.Byte > 0 {
			c.Failf("%s: there is another block %q\nsource: %s", where, body.Blocks[nb].Type, q(src))
		}
		c.Event("body kept")
		if d == len(chain)-1 {
			break
		}
		if nb >= len(body.Blocks) || body.Blocks[nb].Type != l.body.Items[l.n].Name {
			c.Failf("%s: lacks the block %q around the fault\n%s\nsource: %s", where, l.body.Items[l.n].Name, diagStr(diags), q(src))
		}
		var labels []string
		for _, lb := range l.body.Items[l.n].Labels {
			labels = append(labels, lb.Text)
		}
		if fmt.Sprintf("%q", labels) != fmt.Sprintf("%q", body.Blocks[nb].Labels) {
			c.Failf("%s: the block %q around the fault has labels %q, should be %q\nsource: %s", where, l.body.Items[l.n].Name, body.Blocks[nb].Labels, labels, q(src))
		}
		body = body.Blocks[nb].Body
		if body == nil {
			c.Failf("%s: the block %q around the fault has no body\nsource: %s", where, l.body.Items[l.n].Name, q(src))
		}
	}
	c.Sig(bad, k, len(chain))
}
