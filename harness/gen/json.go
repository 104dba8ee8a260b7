package gen

import (
	"bytes"
	stdjson "encoding/json"
	"fmt"
	"io"
	"strings"
	"unicode/utf8"

	"verif/harness/mon"
)

// JSON values in the model: nil, bool, stdjson.Number, string, []interface{},
// and *JObj, whose members have an order and may repeat.

// JObj is a JSON object.
type JObj struct {
	Keys []string
	Vals []interface{}
}

// Add appends a member.
func (o *JObj) Add(k string, v interface{}) { o.Keys = append(o.Keys, k); o.Vals = append(o.Vals, v) }

// JSONNum makes a JSON number.
func JSONNum(r *mon.Rand) stdjson.Number {
	s := ""
	switch r.Intn(6) {
	case 0:
		s = fmt.Sprint(r.Intn(10))
	case 1:
		s = fmt.Sprintf("%d.%d", r.Intn(100), r.Intn(1000))
	case 2:
		s = fmt.Sprintf("%d%s%d", r.Range(1, 99), r.Pick("e", "E", "e+", "E-", "e-"), r.Intn(20))
	case 3:
		s = r.Pick("0", "0.0", "0.1", "123456789012345678901234567890", "0.30000000000000004", "9007199254740993", "1e30", "1.5E+2", "3.14159265358979323846264338327950288", "0e5")
	case 4:
		s = fmt.Sprint(r.Range(1, 9))
		for n := r.Range(10, 50); n > 0; n-- {
			s += fmt.Sprint(r.Intn(10))
		}
	default:
		s = fmt.Sprint(r.Intn(100000))
	}
	if r.Chance(1, 4) {
		s = "-" + s
	}
	return stdjson.Number(s)
}

// JSONValue makes a random value.
func JSONValue(r *mon.Rand, depth int) interface{} {
	n := 8
	if depth <= 0 {
		n = 5
	}
	switch r.Intn(n) {
	case 0:
		return nil
	case 1:
		return r.Bool()
	case 2:
		return JSONNum(r)
	case 3, 4:
		return Str(r)
	case 5:
		var l []interface{}
		for k := r.Intn(4); k > 0; k-- {
			l = append(l, JSONValue(r, depth-1))
		}
		if r.Chance(1, 80) {
			for k := r.Range(50, 400); k > 0; k-- {
				l = append(l, JSONValue(r, 0))
			}
		}
		return l
	default:
		return JSONDoc(r, depth)
	}
}

// JSONDoc makes an object with distinct keys.
func JSONDoc(r *mon.Rand, depth int) *JObj {
	o := &JObj{}
	seen := map[string]bool{}
	for n := r.Intn(5); n > 0; n-- {
		k := Word(r)
		if r.Chance(1, 4) {
			k = Str(r)
		}
		if seen[k] || k == "//" {
			continue
		}
		seen[k] = true
		o.Add(k, JSONValue(r, depth-1))
	}
	return o
}

// JSONText writes a value with varying layout and escapes.
func JSONText(r *mon.Rand, v interface{}) string {
	w := &jw{r: r, style: r.Intn(3), crlf: r.Chance(1, 6)}
	w.ws()
	w.val(v)
	w.ws()
	return w.b.String()
}

type jw struct {
	r     *mon.Rand
	b     bytes.Buffer
	style int
	crlf  bool
}

func (w *jw) ws() {
	switch w.style {
	case 0:
		return
	case 1:
		if w.r.Chance(1, 3) {
			w.b.WriteByte(' ')
		}
		return
	}
	for w.r.Chance(1, 2) {
		if w.crlf {
			w.b.WriteString(w.r.Pick(" ", "\t", "\r\n"))
		} else {
			w.b.WriteString(w.r.Pick(" ", "  ", "\t", "\n"))
		}
	}
}

func (w *jw) val(v interface{}) {
	switch t := v.(type) {
	case nil:
		w.b.WriteString("null")
	case bool:
		fmt.Fprint(&w.b, t)
	case stdjson.Number:
		w.b.WriteString(string(t))
	case string:
		w.str(t)
	case []interface{}:
		w.b.WriteByte('[')
		for i, e := range t {
			if i > 0 {
				w.b.WriteByte(',')
			}
			w.ws()
			w.val(e)
			w.ws()
		}
		w.ws()
		w.b.WriteByte(']')
	case *JObj:
		w.b.WriteByte('{')
		for i, e := range t.Vals {
			if i > 0 {
				w.b.WriteByte(',')
			}
			w.ws()
			w.str(t.Keys[i])
			w.ws()
			w.b.WriteByte(':')
			w.ws()
			w.val(e)
			w.ws()
		}
		w.ws()
		w.b.WriteByte('}')
	default:
		panic(fmt.Sprintf("bad JSON model %T", v))
	}
}

func (w *jw) str(s string) {
	w.b.WriteByte('"')
	for _, c := range s {
		switch {
		case c == '"' || c == '\\':
			w.b.WriteByte('\\')
			w.b.WriteRune(c)
		case c == '/' && w.r.Chance(1, 4):
			w.b.WriteString("\\/")
		case c < 0x20:
			switch {
			case c == '\n' && w.r.Bool():
				w.b.WriteString("\\n")
			case c == '\t' && w.r.Bool():
				w.b.WriteString("\\t")
			case c == '\r' && w.r.Bool():
				w.b.WriteString("\\r")
			case c == '\b' && w.r.Bool():
				w.b.WriteString("\\b")
			case c == '\f' && w.r.Bool():
				w.b.WriteString("\\f")
			default:
				fmt.Fprintf(&w.b, "\\u%04x", c)
			}
		case w.style == 2 && w.r.Chance(1, 12):
			if c > 0xffff {
				x := c - 0x10000
				fmt.Fprintf(&w.b, "\\u%04x\\u%04X", 0xd800+(x>>10), 0xdc00+(x&0x3ff))
			} else {
				fmt.Fprintf(&w.b, "\\u%04x", c)
			}
		default:
			w.b.WriteRune(c)
		}
	}
	w.b.WriteByte('"')
}

// JSONDecode decodes a document into the model, independently of the code
// under test.
func JSONDecode(s string) (interface{}, error) {
	if !utf8.ValidString(s) {
		return nil, fmt.Errorf("invalid UTF-8")
	}
	d := stdjson.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	v, err := jsonNext(d)
	if err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("extra content")
	}
	if !stdjson.Valid([]byte(s)) {
		return nil, fmt.Errorf("invalid")
	}
	return v, nil
}

func jsonNext(d *stdjson.Decoder) (interface{}, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch v := t.(type) {
	case stdjson.Delim:
		switch v {
		case '[':
			l := []interface{}{}
			for d.More() {
				e, err := jsonNext(d)
				if err != nil {
					return nil, err
				}
				l = append(l, e)
			}
			_, err := d.Token()
			return l, err
		case '{':
			o := &JObj{}
			for d.More() {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				e, err := jsonNext(d)
				if err != nil {
					return nil, err
				}
				o.Add(k.(string), e)
			}
			_, err := d.Token()
			return o, err
		}
		return nil, fmt.Errorf("unexpected %v", v)
	default:
		return v, nil
	}
}
