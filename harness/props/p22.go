package props

import (
	"errors"
	"fmt"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/ext/userfunc"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function"
)

func init() {
	register(&mon.Prop{
		ID: "P22",
		Rule: "sets of function declarations with any parameters and result expressions, some malformed, in all body forms, called directly and from expressions with right and wrong numbers of arguments, null and unknown arguments; " +
			"results are compared with the reference interpreter over the arguments, the context function with what it may be asked for, and the remainder with the other items; distinct = (form, shapes)",
		Assumptions: []string{
			"names of functions in a body and of parameters in a function are distinct",
			"a header without exactly one label makes the whole result unspecified, as documented",
		},
		Quick:    80000,
		Thorough: 500000,
		Require: []string{"result as specified", "error as specified", "variadic", "wrong argument count refused", "null argument refused", "called from an expression", "calls another user function",
			"malformed declaration reported", "others usable", "remainder exact", "unknown argument", "outer variable hidden", "no base scope", "calls itself"},
		Run: runP22,
	})
}

type userFunc struct {
	name     string
	params   []string
	variadic string
	result   *gen.Expr
	fault    string
	deep     bool // calls itself for each element of its first argument
}

var errUnsureCall = errors.New("unsure")

// ref is the reference implementation of the function.
func (f *userFunc) ref(env func() *gen.Env, unsure *bool) function.Function {
	spec := &function.Spec{}
	for _, p := range f.params {
		spec.Params = append(spec.Params, function.Parameter{Name: p, Type: cty.DynamicPseudoType})
	}
	if f.variadic != "" {
		spec.VarParam = &function.Parameter{Name: f.variadic, Type: cty.DynamicPseudoType}
	}
	impl := func(args []cty.Value) (cty.Value, error) {
		vars := map[string]cty.Value{}
		for i, p := range f.params {
			vars[p] = args[i]
		}
		if f.variadic != "" {
			vars[f.variadic] = cty.TupleVal(args[len(f.params):])
		}
		sub := &gen.Env{Vars: vars, Parent: env()}
		v, err := gen.Eval(f.result, sub)
		if err == gen.ErrUnsure {
			*unsure = true
			return cty.DynamicVal, errUnsureCall
		}
		if err != nil {
			return cty.DynamicVal, err
		}
		return v, nil
	}
	spec.Type = func(args []cty.Value) (cty.Type, error) {
		v, err := impl(args)
		return v.Type(), err
	}
	spec.Impl = func(args []cty.Value, _ cty.Type) (cty.Value, error) { return impl(args) }
	return function.New(spec)
}

func (f *userFunc) item(typ string) *gen.Item {
	b := &gen.Body{}
	add := func(it *gen.Item) { b.Items = append(b.Items, it) }
	params := &gen.Expr{Kind: gen.KTuple}
	for _, p := range f.params {
		params.X = append(params.X, gen.Var(p))
	}
	dotted := &gen.Expr{Kind: gen.KAttr, Text: "b", X: []*gen.Expr{gen.Var("a")}}
	switch f.fault {
	case "params a name":
		params = gen.Var("a")
	case "params an object":
		params = &gen.Expr{Kind: gen.KObject, X: []*gen.Expr{gen.Var("a"), gen.Var("b")}, Keys: []gen.KeyStyle{gen.KeyIdent}}
	case "param dotted":
		params.X = append(params.X, dotted)
	case "param a number":
		params.X = append(params.X, gen.Num("1"))
	}
	if f.fault != "no params" {
		add(&gen.Item{Name: "params", X: params, Static: true, Names: true})
	}
	switch f.fault {
	case "variadic dotted":
		add(&gen.Item{Name: "variadic_param", X: dotted, Static: true})
	case "variadic a number":
		add(&gen.Item{Name: "variadic_param", X: gen.Num("1"), Static: true})
	default:
		if f.variadic != "" {
			add(&gen.Item{Name: "variadic_param", X: gen.Var(f.variadic), Static: true})
		}
	}
	if f.fault != "no result" {
		add(&gen.Item{Name: "result", X: f.result})
	}
	switch f.fault {
	case "extra attribute":
		add(&gen.Item{Name: "description", X: gen.Lit("x")})
	case "extra block":
		add(&gen.Item{Name: "more", Body: &gen.Body{}})
	}
	return &gen.Item{Name: typ, Labels: []gen.Label{{Text: f.name}}, Body: b}
}

var funcFaults = []string{"params a name", "params an object", "param dotted", "param a number", "no params", "variadic dotted", "variadic a number", "no result", "extra attribute", "extra block"}

func runP22(c *mon.Case) {
	env := gen.NewEnv(c.Rand)
	typ := c.Pick("function", "func", "f")
	scope := c.Pick("nil function", "nil scope", "scope", "scope", "scope")
	base := env
	if scope != "scope" {
		base = nil
		c.Event("no base scope")
	}
	var fs []*userFunc
	var body gen.Body
	taken := map[string]bool{}
	for i, n := 0, c.Range(1, 4); i < n; i++ {
		f := &userFunc{name: c.Pick("add", "two words", "f", "upper", gen.Word(c.Rand)) + fmt.Sprint(i)}
		vars := map[string]cty.Value{}
		param := func() string {
			for {
				p := gen.Word(c.Rand)
				if base != nil && c.Chance(1, 3) {
					vs := sortedVars(base.Vars)
					if len(vs) > 0 {
						p = vs[c.Intn(len(vs))]
					}
				}
				if _, ok := vars[p]; !ok && p != "true" && p != "false" && p != "null" && p != "for" {
					if base != nil {
						if _, ok := base.Vars[p]; ok {
							c.Event("outer variable hidden")
						}
					}
					return p
				}
			}
		}
		for j, np := 0, c.Size(2, 6); j < np; j++ {
			p := param()
			f.params = append(f.params, p)
			vars[p] = gen.Value(c.Rand, gen.Type(c.Rand, 2), 0)
		}
		if c.Chance(1, 3) {
			f.variadic = param()
			vars[f.variadic] = cty.TupleVal([]cty.Value{gen.Value(c.Rand, cty.Number, 0), gen.Value(c.Rand, cty.String, 0)})
		}
		g := &gen.G{R: c.Rand, Env: &gen.Env{Vars: vars, Parent: base}, Hostile: 60, NoFunc: base == nil}
		if base != nil && c.Bool() {
			g.Env = &gen.Env{Vars: vars, Funcs: env.Funcs}
		}
		f.result = g.Expr(gen.Want(c.Intn(6)), c.Size(3, 5))
		if len(fs) > 0 && base != nil && c.Bool() {
			o := fs[c.Intn(len(fs))]
			if gen.IsIdent(o.name) {
				call := &gen.Expr{Kind: gen.KCall, Text: o.name}
				for range o.params {
					call.X = append(call.X, g.Expr(gen.WAny, 2))
				}
				f.result = &gen.Expr{Kind: gen.KTuple, X: []*gen.Expr{f.result, call}}
				c.Event("calls another user function")
			}
		}
		if base != nil && len(f.params) > 0 && gen.IsIdent(f.name) && c.Chance(1, 5) {
			// the arguments of the outer call must survive the inner ones
			f.deep = true
			call := &gen.Expr{Kind: gen.KCall, Text: f.name, X: []*gen.Expr{gen.Var("it_")}}
			all := &gen.Expr{Kind: gen.KTuple}
			for j, p := range f.params {
				all.X = append(all.X, gen.Var(p))
				if j > 0 {
					call.X = append(call.X, &gen.Expr{Kind: gen.KTuple, X: []*gen.Expr{gen.Var(p)}})
				}
			}
			if f.variadic != "" {
				all.X = append(all.X, gen.Var(f.variadic))
			}
			each := &gen.Expr{Kind: gen.KForTuple, Val: "it_", X: []*gen.Expr{gen.Var(f.params[0]), call, nil}}
			f.result = &gen.Expr{Kind: gen.KTuple, X: []*gen.Expr{each, all}}
		}
		if c.Chance(1, 6) {
			f.fault = funcFaults[c.Intn(len(funcFaults))]
		}
		fs = append(fs, f)
		taken[f.name] = true
		body.Items = append(body.Items, f.item(typ))
	}
	var extra []*gen.Item
	for i := 0; i < c.Intn(4); i++ {
		it := &gen.Item{Name: fmt.Sprintf("left%d", i)}
		if c.Bool() {
			it.X = gen.Num("5")
		} else {
			it.Labels = []gen.Label{{Text: "l"}}
			it.Body = &gen.Body{}
		}
		extra = append(extra, it)
		at := c.Intn(len(body.Items) + 1)
		body.Items = append(body.Items[:at:at], append([]*gen.Item{it}, body.Items[at:]...)...)
	}
	c.Input("scope", envStr(env))
	built := buildBody(c, &body, env, 1)

	// the scope has the functions themselves, so that they can call each other
	unsure := false
	refEnv := &gen.Env{Funcs: map[string]function.Function{}, Parent: base}
	refScope := func() *gen.Env {
		if base == nil {
			return &gen.Env{}
		}
		return refEnv
	}
	var ctx *hcl.EvalContext
	called := 0
	var cf userfunc.ContextFunc
	if scope != "nil function" {
		cf = func() *hcl.EvalContext {
			called++
			return ctx
		}
	}
	var funcs map[string]function.Function
	var rest hcl.Body
	var diags hcl.Diagnostics
	checkPanic(c, "decoding functions", func() { funcs, rest, diags = userfunc.DecodeUserFunctions(built.Body, typ, cf) })
	if called > 0 {
		c.Failf("scope asked for before any function is called, which is too early for functions that refer to each other")
	}
	bad := 0
	good := 0
	for _, f := range fs {
		if f.fault != "" {
			bad++
			if _, ok := funcs[f.name]; ok {
				c.Failf("function %q is malformed (%s) but was defined\nform: %s", f.name, f.fault, built.desc)
			}
			continue
		}
		good++
		if _, ok := funcs[f.name]; !ok {
			c.Failf("function %q missing: %s\nform: %s", f.name, diagStr(diags), built.desc)
		}
		refEnv.Funcs[f.name] = f.ref(refScope, &unsure)
	}
	if bad > 0 != diags.HasErrors() {
		c.Failf("%d malformed functions, but reported: %s\nform: %s", bad, diagStr(diags), built.desc)
	}
	if len(funcs) != good {
		c.Failf("%d functions defined, expected %d\nform: %s", len(funcs), good, built.desc)
	}
	if bad > 0 {
		c.Event("malformed declaration reported")
	}
	if !(built.json && len(extra) > 0 && strings.Contains(built.desc, "merged")) {
		checkLeft(c, rest, extra, built.desc)
	}
	if base != nil {
		ctx = evalCtx(&gen.Env{Vars: map[string]cty.Value{}, Funcs: funcs, Parent: env})
		if ctx.Functions == nil {
			ctx.Functions = funcs
		}
	}
	for _, f := range fs {
		if f.fault != "" {
			continue
		}
		if bad > 0 {
			c.Event("others usable")
		}
		for i := 0; i < 3; i++ {
			callUserFunc(c, f, funcs, refEnv, ctx, base, &unsure)
		}
		c.Sig(built.desc, f.result.Shape(), len(f.params), f.variadic != "")
	}
	c.Sample(fmt.Sprintf("%d functions, %d malformed, in %s form", len(fs), bad, built.desc))
}

func callUserFunc(c *mon.Case, f *userFunc, funcs map[string]function.Function, refEnv *gen.Env, ctx *hcl.EvalContext, base *gen.Env, unsure *bool) {
	n := len(f.params)
	if f.variadic != "" {
		n += c.Intn(4)
	}
	if c.Chance(1, 10) {
		n = c.Intn(n + 3)
	}
	args := make([]cty.Value, n)
	null := false
	for i := range args {
		args[i] = gen.Value(c.Rand, gen.Type(c.Rand, 2), 8)
		if c.Chance(1, 30) {
			args[i] = cty.NullVal(cty.DynamicPseudoType)
		}
		if i == 0 && f.deep && !c.Chance(1, 8) {
			args[i] = nestedTuple(c, 3)
		}
		null = null || args[i].IsNull()
	}
	count := n < len(f.params) || n > len(f.params) && f.variadic == ""
	*unsure = false
	var want cty.Value
	var werr error
	switch {
	case count:
		werr = fmt.Errorf("wrong number of arguments")
	case null:
		werr = fmt.Errorf("null argument")
	default:
		if msg := mon.Guard(func() { want, werr = refEnv.Funcs[f.name].Call(args) }); msg != "" {
			*unsure = true // in the conversion library
		}
	}
	what := fmt.Sprintf("%s(%s)", f.name, valsStr(args))
	c.Input("call", what)
	var got cty.Value
	var err error
	expr := gen.IsIdent(f.name) && c.Bool()
	if expr {
		// from an expression, where each argument is a variable
		cc := &hcl.EvalContext{Functions: funcs, Variables: map[string]cty.Value{}}
		src := f.name + "("
		for i, a := range args {
			v := fmt.Sprintf("arg%d", i)
			cc.Variables[v] = a
			if i > 0 {
				src += ", "
			}
			src += v
		}
		src += ")"
		x, diags := hclsyntax.ParseExpression([]byte(src), "call.hcl", start)
		if diags.HasErrors() {
			c.Failf("call rejected: %s\n%s", diagStr(diags), src)
		}
		checkPanic(c, "calling a user function", func() {
			got, diags = x.Value(cc)
			if diags.HasErrors() {
				err = diags
			}
		})
		c.Event("called from an expression")
	} else {
		checkPanic(c, "calling a user function", func() { got, err = funcs[f.name].Call(args) })
	}
	if *unsure {
		return
	}
	if werr != nil != (err != nil) {
		c.Failf("%s: error %v\nexpected: %v\nresult: %s", what, err, werr, gen.Source(f.result))
	}
	switch {
	case count:
		c.Event("wrong argument count refused")
		return
	case null:
		c.Event("null argument refused")
		return
	case werr != nil:
		c.Event("error as specified")
		return
	}
	if !gen.SameValue(got, want) {
		c.Failf("%s: got %s\nexpected: %s\nresult: %s", what, valStr(got), valStr(want), gen.Source(f.result))
	}
	c.Event("result as specified")
	if f.deep && args[0].Type().IsTupleType() && args[0].LengthInt() > 0 {
		c.Event("calls itself")
	}
	if f.variadic != "" && n > len(f.params) {
		c.Event("variadic")
	}
	if n > 0 && c.Chance(1, 4) && got.IsWhollyKnown() {
		// with an argument that isn't known yet
		part := append([]cty.Value(nil), args...)
		i := c.Intn(n)
		part[i] = cty.UnknownVal(args[i].Type())
		if c.Chance(1, 4) {
			part[i] = cty.DynamicVal
		}
		var pv cty.Value
		var perr error
		checkPanic(c, "calling a user function", func() { pv, perr = funcs[f.name].Call(part) })
		if perr == nil && pv.IsWhollyKnown() && !gen.SameValue(got, pv) {
			c.Failf("%s: result %s without knowing argument %d, which doesn't allow for %s\nresult: %s", what, valStr(pv), i, valStr(got), gen.Source(f.result))
		}
		c.Event("unknown argument")
	}
}

func nestedTuple(c *mon.Case, depth int) cty.Value {
	var vs []cty.Value
	if depth > 0 {
		for i, n := 0, c.Intn(3); i < n; i++ {
			vs = append(vs, nestedTuple(c, depth-1))
		}
	}
	return cty.TupleVal(vs)
}

func valsStr(vs []cty.Value) string {
	var ss []string
	for _, v := range vs {
		ss = append(ss, valStr(v))
	}
	return strings.Join(ss, ", ")
}
