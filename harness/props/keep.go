package props

import (
	"fmt"
	"strings"

	"github.com/hashicorp/hcl2/ext/dynblock"
	"github.com/hashicorp/hcl2/ext/transform"
	"github.com/hashicorp/hcl2/hcl"
)

// keepBody is a body that returns the same objects each time it is asked for
// the same content, as bodies are free to do.
type keepBody struct {
	inner hcl.Body
	k     *keeper
	memo  map[string]*keptContent
	attrs *keptContent
}

// keeper remembers what the contents looked like when they were delivered.
type keeper struct {
	all []*keptContent
}

type keptContent struct {
	content *hcl.BodyContent
	rest    hcl.Body
	diags   hcl.Diagnostics
	was     string
}

func keepIn(k *keeper, b hcl.Body) hcl.Body {
	return &keepBody{inner: b, k: k, memo: map[string]*keptContent{}}
}

func (kc *keptContent) describe() string {
	var b strings.Builder
	for _, n := range sortedAttrs(kc.content.Attributes) {
		a := kc.content.Attributes[n]
		fmt.Fprintf(&b, "%s: %p %s %p %v %v\n", n, a, a.Name, a.Expr, a.Range, a.NameRange)
	}
	for _, l := range kc.content.Blocks {
		fmt.Fprintf(&b, "block %p %s %q %p %v %v %v\n", l, l.Type, l.Labels, l.Body, l.DefRange, l.TypeRange, l.LabelRanges)
	}
	fmt.Fprintf(&b, "%v\n", kc.content.MissingItemRange)
	for _, d := range kc.diags {
		fmt.Fprintf(&b, "%p %v %q %q %p %p %p\n", d, d.Severity, d.Summary, d.Detail, d.Subject, d.Context, d.Expression)
	}
	return b.String()
}

func (b *keepBody) keep(content *hcl.BodyContent, rest hcl.Body, diags hcl.Diagnostics) *keptContent {
	kc := &keptContent{content: &hcl.BodyContent{Attributes: hcl.Attributes{}, MissingItemRange: content.MissingItemRange}, rest: rest}
	for n, a := range content.Attributes {
		kc.content.Attributes[n] = a
	}
	for _, l := range content.Blocks {
		cp := *l
		cp.Labels = append([]string(nil), l.Labels...)
		cp.Body = keepIn(b.k, l.Body)
		kc.content.Blocks = append(kc.content.Blocks, &cp)
	}
	// what readers append to the list doesn't count
	kc.diags = append(hcl.Diagnostics(nil), diags...)
	kc.was = kc.describe()
	b.k.all = append(b.k.all, kc)
	return kc
}

func (b *keepBody) Content(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Diagnostics) {
	key := "all " + schemaSet(schema)
	if b.memo[key] == nil {
		content, diags := b.inner.Content(schema)
		b.memo[key] = b.keep(content, nil, diags)
	}
	return b.memo[key].content, b.memo[key].diags
}

func (b *keepBody) PartialContent(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Body, hcl.Diagnostics) {
	key := "part " + schemaSet(schema)
	if b.memo[key] == nil {
		content, rest, diags := b.inner.PartialContent(schema)
		b.memo[key] = b.keep(content, keepIn(b.k, rest), diags)
	}
	return b.memo[key].content, b.memo[key].rest, b.memo[key].diags
}

func (b *keepBody) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
	if b.attrs == nil {
		attrs, diags := b.inner.JustAttributes()
		b.attrs = b.keep(&hcl.BodyContent{Attributes: attrs}, nil, diags)
	}
	return b.attrs.content.Attributes, b.attrs.diags
}

func (b *keepBody) MissingItemRange() hcl.Range { return b.inner.MissingItemRange() }

// changed finds a delivered content that looks different now.
func (k *keeper) changed() (before, after string, is bool) {
	for _, kc := range k.all {
		if now := kc.describe(); now != kc.was {
			return kc.was, now, true
		}
	}
	return "", "", false
}

// keep adds bodies that deliver the same objects again and again.
func (w *world) keep() *keeper {
	k := &keeper{}
	native, js := keepIn(k, w.native.Body), keepIn(k, w.json.Body)
	merged := w.bodies[len(w.bodies)-1]
	w.add("kept native", native)
	w.add("kept, expanded", dynblock.Expand(native, w.ctx))
	w.add("kept JSON, expanded", dynblock.Expand(js, w.ctx))
	w.add("kept, transformed", transform.Deep(native, transform.TransformerFunc(func(b hcl.Body) hcl.Body { return dynblock.Expand(b, w.ctx) })))
	w.add("kept, passed on", transform.Deep(native, transform.TransformerFunc(func(b hcl.Body) hcl.Body { return b })))
	w.add("kept, merged", hcl.MergeBodies([]hcl.Body{keepIn(k, merged), hcl.EmptyBody()}))
	w.add("kept, with warnings", transform.BodyWithDiagnostics(native, hcl.Diagnostics{{Severity: hcl.DiagWarning, Summary: "warning"}}))
	return k
}
