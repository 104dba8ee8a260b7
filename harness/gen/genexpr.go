package gen

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"verif/harness/mon"

	"github.com/zclconf/go-cty/cty"
)

// Want is the kind of value that an expression should have, more or less.
type Want int

// Wanted kinds.
const (
	WAny Want = iota
	WNum
	WStr
	WBool
	WSeq
	WMap
	numWants
)

// G generates expressions that mostly make sense in an environment.
type G struct {
	R       *mon.Rand
	Env     *Env
	Hostile int  // one in this many choices ignores what is wanted
	NoFunc  bool // leave out function calls
	NoDir   bool // leave out template directives
	NoStrip bool // leave out strip markers
	Sure    bool // make values for attributes that can be converted
	paths   []path
	pathEnv *Env
	budget  int
}

type path struct {
	make func() *Expr
	val  cty.Value
}

// NewEnv makes an environment with variables of many types in one or more
// nested scopes.
func NewEnv(r *mon.Rand) *Env {
	env := &Env{Vars: map[string]cty.Value{}, Funcs: Funcs}
	n := r.Range(4, 10)
	for i := 0; i < n; i++ {
		env.Vars[Word(r)] = Value(r, Type(r, r.Range(0, 3)), 12)
	}
	env.Vars["n"] = NumVal(r)
	env.Vars["s"] = cty.StringVal(Str(r))
	env.Vars["t"] = cty.BoolVal(r.Bool())
	env.Vars["l"] = Value(r, cty.List(pickType(r, cty.String, cty.Number)), 0)
	env.Vars["objs"] = Value(r, cty.List(cty.Object(map[string]cty.Type{"name": cty.String, "n": cty.Number, "sub": cty.Object(map[string]cty.Type{"id": cty.String})})), 0)
	env.Vars["m"] = Value(r, cty.Map(pickType(r, cty.String, cty.Number)), 0)
	if r.Chance(1, 4) {
		env.Vars["nul"] = cty.NullVal(cty.DynamicPseudoType)
	}
	if r.Chance(1, 3) {
		inner := env.Child(map[string]cty.Value{})
		for i := 0; i < 2; i++ {
			inner.Vars[Word(r)] = Value(r, Type(r, 1), 12)
		}
		if r.Bool() {
			inner.Vars["n"] = NumVal(r)
		}
		return inner
	}
	return env
}

func (g *G) allPaths() []path {
	if g.pathEnv == g.Env {
		return g.paths
	}
	g.paths = nil
	g.pathEnv = g.Env
	seen := map[string]bool{}
	for e := g.Env; e != nil; e = e.Parent {
		names := make([]string, 0, len(e.Vars))
		for n := range e.Vars {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if seen[n] {
				continue
			}
			seen[n] = true
			n := n
			g.addPaths(func() *Expr { return Var(n) }, e.Vars[n], 3)
		}
	}
	return g.paths
}

func (g *G) addPaths(mk func() *Expr, v cty.Value, depth int) {
	if len(g.paths) > 200 {
		return
	}
	g.paths = append(g.paths, path{mk, v})
	if depth == 0 || v.IsNull() || !v.IsKnown() {
		return
	}
	ty := v.Type()
	switch {
	case ty.IsObjectType(), ty.IsMapType():
		i := 0
		for it := v.ElementIterator(); it.Next() && i < 4; i++ {
			k, el := it.Element()
			ks := k.AsString()
			style := g.R.Intn(4)
			g.addPaths(func() *Expr {
				if IsIdent(ks) && style != 0 {
					return &Expr{Kind: KAttr, Text: ks, X: []*Expr{mk()}}
				}
				return &Expr{Kind: KIndex, X: []*Expr{mk(), Lit(ks)}}
			}, el, depth-1)
		}
	case ty.IsListType(), ty.IsTupleType():
		i := 0
		for it := v.ElementIterator(); it.Next() && i < 3; i++ {
			_, el := it.Element()
			is := fmt.Sprint(i)
			style := g.R.Intn(5)
			g.addPaths(func() *Expr {
				switch style {
				case 0:
					return &Expr{Kind: KLegacy, Text: is, X: []*Expr{mk()}}
				case 1:
					return &Expr{Kind: KIndex, X: []*Expr{mk(), Lit(is)}}
				}
				return &Expr{Kind: KIndex, X: []*Expr{mk(), Num(is)}}
			}, el, depth-1)
		}
	}
}

func matches(v cty.Value, w Want) bool {
	ty := v.Type()
	switch w {
	case WNum:
		return ty == cty.Number
	case WStr:
		return ty == cty.String || ty == cty.Number
	case WBool:
		return ty == cty.Bool
	case WSeq:
		return ty.IsListType() || ty.IsTupleType() || ty.IsSetType()
	case WMap:
		return ty.IsMapType() || ty.IsObjectType()
	}
	return true
}

func (g *G) ref(w Want) *Expr {
	ps := g.allPaths()
	if len(ps) == 0 {
		return nil
	}
	start := g.R.Intn(len(ps))
	for i := range ps {
		p := ps[(start+i)%len(ps)]
		if matches(p.val, w) {
			return p.make()
		}
	}
	return nil
}

// Expr generates an expression.
func (g *G) Expr(w Want, depth int) *Expr {
	if g.budget == 0 {
		g.budget = 120
	}
	return g.expr(w, depth)
}

func (g *G) expr(w Want, d int) *Expr {
	r := g.R
	if g.Hostile > 0 && r.Chance(1, g.Hostile) {
		w = Want(r.Intn(int(numWants)))
	}
	g.budget--
	if d <= 0 || g.budget < 0 {
		return g.leaf(w)
	}
	if w == WAny {
		w = Want(1 + r.Intn(int(numWants)-1))
	}
	// Forms that can have any type
	switch r.Intn(16) {
	case 0:
		if e := g.ref(w); e != nil {
			return e
		}
	case 1:
		return &Expr{Kind: KCond, X: []*Expr{g.expr(WBool, d-1), g.expr(w, d-1), g.expr(w, d-1)}}
	case 2:
		// index into a constructor
		n := r.Range(1, 3)
		t := &Expr{Kind: KTuple}
		for i := 0; i < n; i++ {
			t.X = append(t.X, g.expr(w, d-1))
		}
		k := Num(fmt.Sprint(r.Intn(n)))
		if g.Hostile > 0 && r.Chance(1, 8) {
			k = g.expr(WNum, d-1)
		}
		return &Expr{Kind: KIndex, X: []*Expr{t, k}}
	case 3:
		name := Word(r)
		o := &Expr{Kind: KObject, X: []*Expr{Var(name), g.expr(w, d-1)}, Keys: []KeyStyle{KeyIdent}}
		if r.Bool() {
			o.X = append([]*Expr{Lit("z" + name), g.expr(WAny, d-2)}, o.X...)
			o.Keys = append([]KeyStyle{KeyStr}, o.Keys...)
		}
		if r.Bool() {
			return &Expr{Kind: KAttr, Text: name, X: []*Expr{o}}
		}
		return &Expr{Kind: KIndex, X: []*Expr{o, Lit(name)}}
	case 4:
		if !g.NoFunc {
			return &Expr{Kind: KCall, Text: "ident", X: []*Expr{g.expr(w, d-1)}}
		}
	case 5:
		if w != WSeq && r.Bool() {
			// A template holding just one interpolation
			return &Expr{Kind: KStr, Parts: []*Part{{Kind: PInterp, X: g.expr(w, d-1), L: r.Chance(1, 8), R: r.Chance(1, 8)}}}
		}
	}
	switch w {
	case WNum:
		switch r.Intn(6) {
		case 0:
			return &Expr{Kind: KUn, Text: "-", X: []*Expr{g.expr(WNum, d-1)}}
		case 1:
			if !g.NoFunc {
				return g.call(r.Pick("sum", "sub", "nonneg"), d)
			}
			fallthrough
		default:
			return &Expr{Kind: KBin, Text: r.Pick("+", "-", "*", "/", "%", "+", "-", "*"), X: []*Expr{g.expr(WNum, d-1), g.expr(WNum, d-1)}}
		}
	case WBool:
		switch r.Intn(6) {
		case 0:
			return &Expr{Kind: KUn, Text: "!", X: []*Expr{g.expr(WBool, d-1)}}
		case 1, 2:
			return &Expr{Kind: KBin, Text: r.Pick("&&", "||"), X: []*Expr{g.expr(WBool, d-1), g.expr(WBool, d-1)}}
		case 3:
			return &Expr{Kind: KBin, Text: r.Pick("<", ">", "<=", ">="), X: []*Expr{g.expr(WNum, d-1), g.expr(WNum, d-1)}}
		case 4:
			sub := Want(r.Intn(int(numWants)))
			a := g.expr(sub, d-1)
			b := g.expr(sub, d-1)
			if r.Chance(1, 5) {
				b = a
			}
			if r.Chance(1, 6) {
				b = &Expr{Kind: KNull}
			}
			return &Expr{Kind: KBin, Text: r.Pick("==", "!="), X: []*Expr{a, b}}
		default:
			if !g.NoFunc {
				return &Expr{Kind: KCall, Text: "isnull", X: []*Expr{g.expr(WAny, d-1)}}
			}
			return &Expr{Kind: KBool, Text: r.Pick("true", "false")}
		}
	case WStr:
		switch r.Intn(5) {
		case 0:
			if !g.NoFunc {
				return g.call(r.Pick("upper", "concat", "concat", "now", "mix"), d)
			}
			fallthrough
		default:
			return &Expr{Kind: KStr, Parts: g.Parts(d-1, true)}
		}
	case WSeq:
		switch r.Intn(6) {
		case 0, 1:
			n := r.Intn(5)
			if r.Chance(1, 60) {
				n = r.Range(10, 60)
			}
			e := &Expr{Kind: KTuple}
			sub := Want(r.Intn(int(numWants)))
			for i := 0; i < n; i++ {
				e.X = append(e.X, g.expr(sub, d-1))
			}
			return e
		case 2, 3:
			return g.forExpr(KForTuple, d)
		default:
			return g.splat(d)
		}
	case WMap:
		switch r.Intn(4) {
		case 0:
			return g.forExpr(KForObject, d)
		default:
			return g.object(d)
		}
	}
	return g.leaf(w)
}

func (g *G) object(d int) *Expr {
	r := g.R
	e := &Expr{Kind: KObject}
	n := r.Intn(5)
	for i := 0; i < n; i++ {
		switch r.Intn(6) {
		case 0:
			e.Keys = append(e.Keys, KeyStr)
			e.X = append(e.X, &Expr{Kind: KStr, Parts: g.Parts(d-2, true)})
		case 1:
			if r.Chance(1, 4) {
				e.Keys = append(e.Keys, KeyBare)
				e.X = append(e.X, g.bareKey(d-2))
				break
			}
			e.Keys = append(e.Keys, KeyParen)
			e.X = append(e.X, g.expr(WStr, d-2))
		case 2:
			if r.Chance(1, 3) {
				e.Keys = append(e.Keys, KeyNum)
				e.X = append(e.X, Num(fmt.Sprint(r.Intn(50))))
				break
			}
			e.Keys = append(e.Keys, KeyStr)
			e.X = append(e.X, Lit(Str(r)))
		case 3:
			e.Keys = append(e.Keys, KeyIdent)
			e.X = append(e.X, Var(r.Pick("true", "null", "false", "if", "in", "else")))
		default:
			e.Keys = append(e.Keys, KeyIdent)
			name := Name(r)
			if name == "for" && i == 0 {
				name = "fo"
			}
			e.X = append(e.X, Var(name))
		}
		e.X = append(e.X, g.expr(WAny, d-1))
	}
	return e
}

// bareKey makes an object key that is neither a name nor a literal and not in
// parentheses.
func (g *G) bareKey(d int) *Expr {
	r := g.R
	switch n := r.Intn(8); {
	case n == 0 && g.Hostile > 0: // not allowed
		e := &Expr{Kind: KAttr, Text: r.Pick("name", "id", Word(r)), X: []*Expr{Var(r.Pick("m", "objs", "s", Word(r)))}}
		if r.Bool() {
			e = &Expr{Kind: KIndex, X: []*Expr{e.X[0], Lit(e.Text)}}
		}
		return e
	case n < 3:
		return &Expr{Kind: KBin, Text: r.Pick("+", "*", "-"), X: []*Expr{Num(fmt.Sprint(r.Intn(9))), Num(fmt.Sprint(r.Intn(9)))}}
	case n == 3:
		return &Expr{Kind: KUn, Text: "-", X: []*Expr{Num(fmt.Sprint(r.Intn(9) + 1))}}
	case n == 4 || g.NoFunc:
		return &Expr{Kind: KCond, X: []*Expr{{Kind: KBool, Text: r.Pick("true", "false")}, Lit(Word(r)), Lit(Str(r))}}
	default:
		return g.call(r.Pick("upper", "concat", "now"), d)
	}
}

func (g *G) call(name string, d int) *Expr {
	r := g.R
	e := &Expr{Kind: KCall, Text: name}
	n := 0
	w := WNum
	switch name {
	case "upper":
		n, w = 1, WStr
	case "concat":
		n, w = r.Range(1, 4), WStr
	case "sum":
		n = r.Intn(4)
	case "sub", "nonneg":
		n = 2
	case "mix":
		n = r.Range(2, 5)
	}
	if g.Hostile > 0 && r.Chance(1, 25) {
		n = r.Intn(4)
	}
	if g.Hostile > 0 && r.Chance(1, 40) {
		e.Text = r.Pick("nosuch", "fail", "foo")
	}
	for i := 0; i < n; i++ {
		if name == "mix" {
			w = [...]Want{WNum, WStr, WBool, WBool, WBool}[i]
		}
		e.X = append(e.X, g.expr(w, d-1))
	}
	if n > 0 && r.Chance(1, 5) {
		e.Flag = true
		k := r.Intn(n)
		t := &Expr{Kind: KTuple, X: append([]*Expr{}, e.X[k:]...)}
		if g.Hostile > 0 && r.Chance(1, 8) {
			t = g.expr(WSeq, d-1)
		}
		e.X = append(e.X[:k:k], t)
	}
	return e
}

// sample evaluates the collection of a for expression in order to know what
// its variables will look like.
func (g *G) sample(coll *Expr) (k, v cty.Value) {
	val, err := Eval(coll, g.Env)
	k, v = cty.StringVal("k"), cty.StringVal("v")
	if err == nil && !val.IsNull() && val.IsKnown() && val.CanIterateElements() {
		if it := val.ElementIterator(); it.Next() {
			k, v = it.Element()
		}
	}
	return
}

func (g *G) forExpr(kind Kind, d int) *Expr {
	r := g.R
	e := &Expr{Kind: kind, X: make([]*Expr, 3)}
	w := WSeq
	if r.Bool() {
		w = WMap
	}
	e.X[0] = g.expr(w, d-1)
	k, v := g.sample(e.X[0])
	e.Val = r.Pick("v", "each", "x", "n", Word(r))
	vars := map[string]cty.Value{}
	if r.Bool() {
		e.Key = r.Pick("k", "i", "key", "n", Word(r))
		if e.Key == e.Val {
			e.Key += "k"
		}
		vars[e.Key] = k
	}
	vars[e.Val] = v
	outer := g.Env
	g.Env = outer.Child(vars)
	defer func() { g.Env = outer }()
	e.X[1] = g.bound(e, d)
	if r.Chance(1, 3) {
		e.X[2] = g.expr(WBool, d-1)
	}
	if kind == KForObject {
		key := g.expr(WStr, d-2)
		if r.Chance(2, 3) {
			if e.Key != "" {
				key = Var(e.Key)
			} else {
				key = Var(e.Val)
			}
		}
		e.X = append(e.X, key)
		e.Flag = r.Chance(1, 3)
	}
	return e
}

func (g *G) bound(e *Expr, d int) *Expr {
	switch g.R.Intn(4) {
	case 0:
		return Var(e.Val)
	case 1:
		if e.Key != "" {
			return &Expr{Kind: KTuple, X: []*Expr{Var(e.Key), Var(e.Val)}}
		}
	}
	return g.expr(WAny, d-1)
}

func (g *G) splat(d int) *Expr {
	r := g.R
	e := &Expr{Kind: KFullSplat}
	if r.Bool() {
		e.Kind = KAttrSplat
	}
	var src *Expr
	if r.Chance(1, 3) {
		src = Var("objs")
	} else if r.Chance(1, 5) {
		src = g.expr(WAny, d-1)
	} else {
		src = g.expr(WSeq, d-1)
	}
	_, v := g.sample(src)
	if full, err := Eval(src, g.Env); err == nil {
		ty := full.Type()
		if !(ty.IsTupleType() || ty.IsListType() || ty.IsSetType()) {
			v = full
		}
	}
	each := &Expr{Kind: KItem}
	for n := r.Intn(4); n > 0; n-- {
		if v == cty.NilVal || v.IsNull() || !v.IsKnown() {
			break
		}
		ty := v.Type()
		switch {
		case ty.IsObjectType() || ty.IsMapType():
			it := v.ElementIterator()
			if !it.Next() {
				n = 0
				break
			}
			k, el := it.Element()
			if r.Bool() && it.Next() {
				k, el = it.Element()
			}
			if IsIdent(k.AsString()) && (e.Kind == KAttrSplat || r.Chance(3, 4)) {
				each = &Expr{Kind: KAttr, Text: k.AsString(), X: []*Expr{each}}
				v = el
			} else if e.Kind == KFullSplat {
				each = &Expr{Kind: KIndex, X: []*Expr{each, Lit(k.AsString())}}
				v = el
			}
		case (ty.IsListType() || ty.IsTupleType()) && v.LengthInt() > 0:
			_, el := func() (a, b cty.Value) {
				it := v.ElementIterator()
				it.Next()
				return it.Element()
			}()
			if e.Kind == KAttrSplat {
				each = &Expr{Kind: KLegacy, Text: "0", X: []*Expr{each}}
			} else if r.Chance(1, 4) {
				each = &Expr{Kind: KFullSplat, X: []*Expr{each, {Kind: KItem}}}
				n = 0
				break
			} else {
				each = &Expr{Kind: KIndex, X: []*Expr{each, Num("0")}}
			}
			v = el
		default:
			n = 0
		}
		if n <= 0 {
			break
		}
	}
	if g.Hostile > 0 && r.Chance(1, 20) {
		if each.Kind == KFullSplat {
			each.X[1] = &Expr{Kind: KAttr, Text: Name(r), X: []*Expr{each.X[1]}}
		} else {
			each = &Expr{Kind: KAttr, Text: Name(r), X: []*Expr{each}}
		}
	}
	e.X = []*Expr{src, each}
	return e
}

func (g *G) leaf(w Want) *Expr {
	r := g.R
	if w == WAny {
		w = Want(1 + r.Intn(int(numWants)-1))
	}
	if r.Chance(1, 2) {
		if e := g.ref(w); e != nil {
			return e
		}
	}
	if g.Hostile > 0 && r.Chance(1, 25) {
		if r.Bool() {
			return Var(r.Pick("undefined", "nosuch", "fo", "l2"))
		}
		return &Expr{Kind: KNull}
	}
	switch w {
	case WNum:
		return Num(NumText(r))
	case WStr:
		return Lit(Str(r))
	case WBool:
		return &Expr{Kind: KBool, Text: r.Pick("true", "false")}
	case WSeq:
		e := &Expr{Kind: KTuple}
		for n := r.Intn(4); n > 0; n-- {
			e.X = append(e.X, Num(NumText(r)))
		}
		return e
	default:
		e := &Expr{Kind: KObject}
		for n := r.Intn(3); n > 0; n-- {
			e.Keys = append(e.Keys, KeyIdent)
			e.X = append(e.X, Var(Word(r)), Lit(Str(r)))
		}
		return e
	}
}

var markerOnly = regexp.MustCompile(`[$%]([\s$%]|$)`)

// bareText makes a literal suitable for a heredoc or standalone template, and
// breaks it into lines now and then.
func (g *G) bareText(s string) string {
	if g.R.Chance(1, 2) {
		indent := strings.Repeat(g.R.Pick(" ", " ", "\t", "\u00a0"), g.R.Intn(6))
		s = g.R.Pick(s, "") + g.R.Pick("\n", "\n", "\n\n", "\n  \n", "\r\n") + indent + g.R.Pick(s, Str(g.R), "")
	}
	if markerOnly.MatchString(s) || !BareOK(s, true) {
		s = strings.Replace(strings.Replace(s, "$", "S", -1), "%", "P", -1)
	}
	if s = strings.TrimLeft(s, "\ufeff"); s == "" {
		s = "\n"
	}
	return s
}

// Heredoc generates a heredoc.
func (g *G) Heredoc(d int, flush bool) *Expr {
	e := &Expr{Kind: KHeredoc, Flag: flush}
	old := g.NoStrip
	if flush {
		g.NoStrip = true
	}
	e.Parts = g.Parts(d, false)
	if flush && g.R.Chance(2, 3) && len(e.Parts) > 0 && e.Parts[0].Kind == PLit {
		// make indented lines more likely
		e.Parts[0].Text = strings.Repeat(" ", g.R.Range(1, 5)) + strings.Replace(e.Parts[0].Text, "\n", "\n"+strings.Repeat(" ", g.R.Intn(5)), -1)
	}
	g.NoStrip = old
	if n := len(e.Parts); n > 0 {
		if e.Parts[n-1].Kind != PLit {
			e.Parts = append(e.Parts, &Part{Kind: PLit, Text: "\n"})
		} else if !strings.HasSuffix(e.Parts[n-1].Text, "\n") {
			e.Parts[n-1].Text += "\n"
		}
	}
	for {
		e.Text = g.R.Pick("EOT", "EOF", "x", "END_OF-IT", "世", Word(g.R), fmt.Sprintf("M%d", g.R.Intn(1000)))
		if !partsContain(e.Parts, e.Text) {
			return e
		}
	}
}

func partsContain(parts []*Part, s string) bool {
	for _, p := range parts {
		if strings.Contains(p.Text, s) || partsContain(p.Then, s) || partsContain(p.Else, s) {
			return true
		}
	}
	return false
}

// Parts generates the parts of a template. Adjacent literals don't occur.
func (g *G) Parts(d int, quoted bool) []*Part {
	ps := g.parts(d, quoted)
	if g.NoStrip {
		for _, p := range ps {
			p.L, p.R, p.ElseL, p.ElseR, p.EndL, p.EndR = false, false, false, false, false, false
		}
	}
	return ps
}

func (g *G) parts(d int, quoted bool) []*Part {
	r := g.R
	n := r.Intn(5)
	if d <= 0 && n > 2 {
		n = 2
	}
	var ps []*Part
	for i := 0; i < n; i++ {
		k := r.Intn(10)
		lastLit := len(ps) > 0 && ps[len(ps)-1].Kind == PLit
		switch {
		case k < 4 && !lastLit:
			s := Str(r)
			if s == "" {
				s = " "
			}
			if r.Chance(1, 3) {
				s = r.Pick(" ", "  ", "\n", " \t ") + s + r.Pick(" ", "", "\n ")
			}
			if !quoted {
				s = g.bareText(s)
			}
			ps = append(ps, &Part{Kind: PLit, Text: s})
		case k < 8 || g.NoDir || d <= 0:
			w := WStr
			if r.Chance(1, 4) {
				w = Want(r.Intn(int(WSeq)))
			}
			ps = append(ps, &Part{Kind: PInterp, X: g.expr(w, d-1), L: r.Chance(1, 6), R: r.Chance(1, 6)})
		case k == 8:
			p := &Part{Kind: PIf, X: g.expr(WBool, d-1), L: r.Chance(1, 4), R: r.Chance(1, 4), EndL: r.Chance(1, 4), EndR: r.Chance(1, 4)}
			p.Then = g.Parts(d-1, quoted)
			if r.Bool() {
				p.HasElse = true
				p.ElseL, p.ElseR = r.Chance(1, 4), r.Chance(1, 4)
				p.Else = g.Parts(d-1, quoted)
			}
			ps = append(ps, p)
		default:
			w := WSeq
			if r.Bool() {
				w = WMap
			}
			p := &Part{Kind: PFor, X: g.expr(w, d-1), L: r.Chance(1, 4), R: r.Chance(1, 4), EndL: r.Chance(1, 4), EndR: r.Chance(1, 4)}
			kv, vv := g.sample(p.X)
			vars := map[string]cty.Value{}
			p.Val = r.Pick("v", "each", "x", Word(r))
			if r.Bool() {
				p.Key = r.Pick("k", "i") + "0"
				vars[p.Key] = kv
			}
			vars[p.Val] = vv
			outer := g.Env
			g.Env = outer.Child(vars)
			p.Then = g.Parts(d-1, quoted)
			if r.Bool() {
				p.Then = append(p.Then, &Part{Kind: PInterp, X: Var(p.Val)})
			}
			g.Env = outer
			ps = append(ps, p)
		}
	}
	return ps
}

func pickType(r *mon.Rand, tys ...cty.Type) cty.Type { return tys[r.Intn(len(tys))] }
