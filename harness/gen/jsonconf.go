package gen

import (
	stdjson "encoding/json"
	"regexp"
	"strings"

	"verif/harness/mon"

	"golang.org/x/text/unicode/norm"
)

var jsonNumRE = regexp.MustCompile(`^(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?$`)

// JSONExpr expresses an expression in JSON syntax.
func JSONExpr(r *mon.Rand, e *Expr) interface{} {
	if r.Chance(1, 8) {
		return jsonWrap(r, e)
	}
	switch e.Kind {
	case KNum:
		if jsonNumRE.MatchString(e.Text) {
			return stdjson.Number(e.Text)
		}
	case KBool:
		return e.Text == "true"
	case KNull:
		return nil
	case KStr:
		if s, ok := jsonTemplate(r, e.Parts); ok {
			return s
		}
	case KTuple:
		l := []interface{}{}
		for _, x := range e.X {
			l = append(l, JSONExpr(r, x))
		}
		return l
	case KObject:
		if o := jsonObject(r, e); o != nil {
			return o
		}
	}
	return jsonWrap(r, e)
}

func jsonObject(r *mon.Rand, e *Expr) *JObj {
	o := &JObj{}
	seen := map[string]bool{}
	for i, k := range e.Keys {
		var key string
		x := e.X[2*i]
		switch k {
		case KeyIdent:
			key = x.Text
		case KeyStr:
			if len(e.Keys) > 1 && (len(x.Parts) > 1 || len(x.Parts) == 1 && x.Parts[0].Kind != PLit) {
				return nil // might be a repeated key
			}
			s, ok := jsonTemplate(r, x.Parts)
			if !ok {
				return nil
			}
			key = s
		case KeyParen:
			if len(e.Keys) > 1 {
				return nil
			}
			key = jsonWrap(r, x)
		default:
			return nil
		}
		n := norm.NFC.String(key)
		if seen[n] {
			return nil // the syntaxes differ in how they treat repeated keys
		}
		seen[n] = true
		o.Add(key, JSONExpr(r, e.X[2*i+1]))
	}
	return o
}

// jsonTemplate expresses a quoted template as the content of a JSON string.
func jsonTemplate(r *mon.Rand, parts []*Part) (string, bool) {
	if !bareParts(parts) {
		return "", false
	}
	s := NewW(r).Template(parts)
	if strings.HasPrefix(s, "\ufeff") {
		return "", false
	}
	return s, true
}

func bareParts(parts []*Part) bool {
	for i, p := range parts {
		if p.L || p.R || p.ElseL || p.ElseR || p.EndL || p.EndR {
			return false
		}
		switch p.Kind {
		case PLit:
			if !BareOK(p.Text, i+1 < len(parts)) {
				return false
			}
		default:
			if !bareParts(p.Then) || !bareParts(p.Else) {
				return false
			}
			if n := len(p.Then); n > 0 && p.Then[n-1].Kind == PLit && !BareOK(p.Then[n-1].Text, true) {
				return false
			}
			if n := len(p.Else); n > 0 && p.Else[n-1].Kind == PLit && !BareOK(p.Else[n-1].Text, true) {
				return false
			}
		}
	}
	return true
}

func jsonWrap(r *mon.Rand, e *Expr) string {
	src, _ := RenderExpr(r, e)
	end := "}"
	if strings.ContainsAny(src, "#/<") {
		end = "\n}"
	}
	return "${" + src + end
}

// JSONOpts says which of the forms that mean the same are used.
type JSONOpts struct {
	Simple  bool // one array per block type and nothing else
	Objects bool // bodies are objects, not arrays of objects
}

// JSONBody expresses a body in JSON syntax. Blocks of one type must all have
// the same number of labels. The order of blocks of one type is kept.
func JSONBody(r *mon.Rand, b *Body, o JSONOpts) *JObj {
	obj := &JObj{}
	byType := map[string][]*Item{}
	left := map[string]int{}
	for _, it := range b.Items {
		if it.X == nil {
			byType[it.Name] = append(byType[it.Name], it)
			left[it.Name]++
		}
	}
	comment := func() {
		if !o.Simple && r.Chance(1, 8) {
			obj.Add("//", JSONValue(r, 1))
		}
	}
	for _, it := range b.Items {
		comment()
		if it.X != nil && it.Names && it.X.Kind == KTuple {
			l := []interface{}{}
			for _, x := range it.X.X {
				if x.Kind == KVar || x.Kind == KAttr {
					l = append(l, jsonStatic(r, x))
				} else {
					l = append(l, JSONExpr(r, x))
				}
			}
			obj.Add(it.Name, l)
			continue
		}
		if it.X != nil && it.Static {
			obj.Add(it.Name, jsonStatic(r, it.X))
			continue
		}
		if it.X != nil {
			obj.Add(it.Name, JSONExpr(r, it.X))
			continue
		}
		l := byType[it.Name]
		if len(l) == 0 {
			continue
		}
		n := len(l)
		if !o.Simple && r.Bool() {
			n = r.Range(1, n)
		}
		obj.Add(it.Name, jsonBlocks(r, l[:n], len(it.Labels), 0, o))
		byType[it.Name] = l[n:]
		if !o.Simple && len(it.Labels) == 0 && r.Chance(1, 30) {
			obj.Add(it.Name, nil)
		}
	}
	// whatever has been put off
	for _, it := range b.Items {
		if l := byType[it.Name]; it.X == nil && len(l) > 0 {
			obj.Add(it.Name, jsonBlocks(r, l, len(it.Labels), 0, o))
			delete(byType, it.Name)
		}
	}
	comment()
	return obj
}

// JSONBodyValue is JSONBody, or the same in pieces in an array.
func JSONBodyValue(r *mon.Rand, b *Body, o JSONOpts) interface{} {
	obj := JSONBody(r, b, o)
	if o.Simple || o.Objects || !r.Chance(1, 8) {
		return obj
	}
	l := []interface{}{}
	for i := 0; i < len(obj.Keys) || len(l) == 0; {
		piece := &JObj{}
		for n := r.Intn(4); n > 0 && i < len(obj.Keys); n-- {
			piece.Add(obj.Keys[i], obj.Vals[i])
			i++
		}
		l = append(l, piece)
	}
	return l
}

func jsonBlocks(r *mon.Rand, blocks []*Item, labels, at int, o JSONOpts) interface{} {
	if at == labels {
		if len(blocks) == 1 && (o.Simple || r.Bool()) {
			return JSONBody(r, blocks[0].Body, o)
		}
		l := []interface{}{}
		for _, b := range blocks {
			if b.Plain {
				l = append(l, JSONBody(r, b.Body, o))
			} else {
				l = append(l, JSONBodyValue(r, b.Body, o))
			}
		}
		return l
	}
	// split into runs with the same label
	var objs []interface{}
	cur := &JObj{}
	for i := 0; i < len(blocks); {
		j := i + 1
		for j < len(blocks) && blocks[j].Labels[at].Text == blocks[i].Labels[at].Text && (o.Simple || !r.Chance(1, 4)) {
			j++
		}
		if len(cur.Keys) > 0 && !o.Simple && r.Chance(1, 3) {
			objs = append(objs, cur)
			cur = &JObj{}
		}
		cur.Add(blocks[i].Labels[at].Text, jsonBlocks(r, blocks[i:j], labels, at+1, o))
		i = j
	}
	objs = append(objs, cur)
	if len(objs) == 1 && (o.Simple || r.Chance(3, 4)) {
		return objs[0]
	}
	return objs
}

// jsonStatic expresses a name or a list for use without evaluation.
func jsonStatic(r *mon.Rand, e *Expr) interface{} {
	switch e.Kind {
	case KVar:
		return e.Text
	case KAttr:
		return jsonStatic(r, e.X[0]).(string) + "." + e.Text
	}
	if e.Kind != KTuple {
		return JSONExpr(r, e)
	}
	l := []interface{}{}
	for _, x := range e.X {
		l = append(l, JSONExpr(r, x))
	}
	return l
}
