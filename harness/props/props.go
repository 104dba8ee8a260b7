// Package props has the workload and oracle of each property.
package props

import (
	"fmt"
	"sort"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/convert"
)

// All lists the properties in order of ID.
var All []*mon.Prop

func register(p *mon.Prop) {
	All = append(All, p)
	sort.Slice(All, func(i, j int) bool { return All[i].ID < All[j].ID })
}

// start is where parsing begins in most cases.
var start = hcl.Pos{Byte: 0, Line: 1, Column: 1}

// evalCtx converts a reference scope to an evaluation context. Outer scopes
// are made first, so that the chain has the same shape.
func evalCtx(env *gen.Env) *hcl.EvalContext {
	if env == nil {
		return nil
	}
	var ctx *hcl.EvalContext
	if env.Parent != nil {
		ctx = evalCtx(env.Parent).NewChild()
	} else {
		ctx = &hcl.EvalContext{}
	}
	if env.Vars != nil {
		ctx.Variables = map[string]cty.Value{}
		for k, v := range env.Vars {
			ctx.Variables[k] = v
		}
	}
	if env.Funcs != nil {
		ctx.Functions = env.Funcs
	}
	return ctx
}

func diagStr(diags hcl.Diagnostics) string {
	var ss []string
	for _, d := range diags {
		ss = append(ss, d.Error())
	}
	return clip(strings.Join(ss, " | "), 1200)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

func valStr(v cty.Value) string {
	if v == cty.NilVal {
		return "cty.NilVal"
	}
	return clip(fmt.Sprintf("%#v", v), 1500)
}

// envStr describes a scope for replay.
func envStr(env *gen.Env) string {
	var b strings.Builder
	for e := env; e != nil; e = e.Parent {
		names := make([]string, 0, len(e.Vars))
		for n := range e.Vars {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			fmt.Fprintf(&b, "%s = %s\n", n, valStr(e.Vars[n]))
		}
		if e.Parent != nil {
			b.WriteString("-- outer scope\n")
		}
	}
	return b.String()
}

// checkPanic fails if f panics.
func checkPanic(c *mon.Case, what string, f func()) {
	judgePanic(c, what, mon.Guard(f))
}

// judgePanic fails if there has been a panic.
func judgePanic(c *mon.Case, what, msg string) {
	if msg == "" {
		return
	}
	if convertPanic(msg) {
		c.Known("cty-convert-panic", "%s: %s", what, msg)
		c.Skip("crash in the conversion library")
	}
	c.Failf("%s: %s", what, msg)
}

// convertPanic recognises crashes inside the type unification and conversion
// code of the cty library when given valid types and values: the innermost
// frames, before any frame of the code under test, are in cty and include
// the conversion package's unify or conversion functions.
func convertPanic(msg string) bool {
	conv := false
	for _, line := range strings.Split(msg, "\n") {
		line = strings.TrimSpace(line)
		switch {
		case strings.HasPrefix(line, "github.com/hashicorp/hcl2/"):
			return conv
		case strings.HasPrefix(line, "github.com/zclconf/go-cty/cty/convert.unify"),
			strings.HasPrefix(line, "github.com/zclconf/go-cty/cty/convert.conversion"):
			conv = true
		}
	}
	return false
}

func q(s string) string { return clip(fmt.Sprintf("%q", s), 3000) }

func convString(v cty.Value) (cty.Value, error) { return convert.Convert(v, cty.String) }
