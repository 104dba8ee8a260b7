package props

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/gocty"
)

// goStruct describes a structure type with hcl tags.
type goStruct struct {
	fields []*goField
	rt     reflect.Type
	labels int
	remain *goField
}

type goField struct {
	kind  string // attr, optional, block, label, remain or none
	name  string
	t     reflect.Type
	ty    cty.Type // of attributes that are decoded
	sub   *goStruct
	slice bool
	ptr   bool
	index int
}

var (
	valueRT = reflect.TypeOf(cty.Value{})
	exprRT  = reflect.TypeOf((*hcl.Expression)(nil)).Elem()
	bodyRT  = reflect.TypeOf((*hcl.Body)(nil)).Elem()
	attrRT  = reflect.TypeOf((*hcl.Attribute)(nil))
	attrsRT = reflect.TypeOf(hcl.Attributes(nil))
)

// goType makes the type of an attribute field. Elements of collections have
// one type, so none of them is an arbitrary value.
func goType(r *mon.Rand, depth int, elem bool) reflect.Type {
	n := 12
	if depth <= 0 {
		n = 8
	}
	switch r.Intn(n) {
	case 0:
		return reflect.TypeOf(false)
	case 1:
		return reflect.TypeOf(int(0))
	case 2:
		return []reflect.Type{reflect.TypeOf(int8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(int32(0))}[r.Intn(6)]
	case 3:
		return reflect.TypeOf(float64(0))
	case 4, 5:
		return reflect.TypeOf("")
	case 6:
		if !elem && r.Chance(1, 3) {
			return valueRT
		}
		return reflect.TypeOf("")
	case 7:
		return reflect.PtrTo([]reflect.Type{reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf(false), reflect.TypeOf(1.5)}[r.Intn(4)])
	case 8, 9:
		return reflect.SliceOf(goType(r, depth-1, true))
	case 10:
		return reflect.MapOf(reflect.TypeOf(""), goType(r, depth-1, true))
	default:
		used := map[string]bool{}
		var fs []reflect.StructField
		for i, n := 0, r.Range(1, 3); i < n; i++ {
			name := tagName(r, used)
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: goType(r, depth-1, elem), Tag: reflect.StructTag(fmt.Sprintf(`cty:"%s"`, name))})
		}
		return reflect.StructOf(fs)
	}
}

// tagName picks a name that isn't used yet.
func tagName(r *mon.Rand, used map[string]bool) string {
	for {
		n := gen.Word(r)
		if n == "dynamic" || used[n] {
			n = fmt.Sprintf("n%d", r.Intn(1000))
		}
		if !used[n] {
			used[n] = true
			return n
		}
	}
}

// structType makes a structure type. In a plain one there are only fields
// which can be encoded.
func structType(r *mon.Rand, depth int, inBlock, plain bool) *goStruct {
	s := &goStruct{}
	used := map[string]bool{}
	add := func(f *goField) {
		f.index = len(s.fields)
		s.fields = append(s.fields, f)
	}
	if inBlock {
		for i, n := 0, []int{0, 0, 0, 1, 1, 2, 3}[r.Intn(7)]; i < n; i++ {
			add(&goField{kind: "label", name: tagName(r, used), t: reflect.TypeOf("")})
			s.labels++
		}
	}
	for i, n := 0, r.Range(0, 5); i < n; i++ {
		switch {
		case depth > 0 && r.Chance(1, 2):
			f := &goField{kind: "block", name: tagName(r, used), sub: structType(r, depth-1, true, plain), slice: r.Bool(), ptr: r.Bool()}
			f.t = f.sub.rt
			if f.ptr {
				f.t = reflect.PtrTo(f.t)
			}
			if f.slice {
				f.t = reflect.SliceOf(f.t)
			}
			add(f)
		case r.Chance(1, 12):
			add(&goField{kind: "none", t: goType(r, 1, false)})
		default:
			f := &goField{kind: "attr", name: tagName(r, used), t: goType(r, r.Intn(3), false)}
			if r.Chance(1, 3) {
				f.kind = "optional"
			}
			if !plain {
				switch r.Intn(12) {
				case 0:
					f.t = exprRT
				case 1:
					f.t = attrRT
				}
			}
			if f.t != exprRT && f.t != attrRT {
				var err error
				if f.ty, err = gocty.ImpliedType(reflect.Zero(f.t).Interface()); err != nil {
					panic(err)
				}
			}
			add(f)
		}
	}
	if !plain && r.Chance(1, 4) {
		f := &goField{kind: "remain", t: []reflect.Type{bodyRT, bodyRT, attrsRT, reflect.TypeOf(map[string]string(nil)), reflect.TypeOf(map[string]cty.Value(nil)), reflect.TypeOf(map[string]hcl.Expression(nil)), reflect.TypeOf(map[string]*hcl.Attribute(nil))}[r.Intn(7)]}
		add(f)
		s.remain = f
	}
	var fs []reflect.StructField
	for i, f := range s.fields {
		sf := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: f.t}
		switch f.kind {
		case "none":
		case "attr":
			sf.Tag = reflect.StructTag(fmt.Sprintf(`hcl:"%s,attr"`, f.name))
			if i%3 == 0 {
				sf.Tag = reflect.StructTag(fmt.Sprintf(`hcl:"%s"`, f.name))
			}
		default:
			sf.Tag = reflect.StructTag(fmt.Sprintf(`hcl:"%s,%s"`, f.name, f.kind))
		}
		fs = append(fs, sf)
	}
	s.rt = reflect.StructOf(fs)
	return s
}

// required is whether an attribute must be present.
func (f *goField) required() bool {
	return f.kind == "attr" && f.t.Kind() != reflect.Ptr && f.t != exprRT
}

// fillGo assigns a random value. Only what source can express is used.
func fillGo(r *mon.Rand, v reflect.Value, depth int) {
	t := v.Type()
	switch {
	case t == valueRT:
		v.Set(reflect.ValueOf(hardValue(r, 2)))
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(r.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n := int64(r.Intn(math.MaxInt64))
		switch r.Intn(3) {
		case 0:
			n = int64(r.Intn(100))
		case 1:
			n = math.MaxInt64
		}
		n >>= uint(64 - t.Bits())
		if r.Chance(1, 3) {
			n = -n - int64(r.Intn(2))
		}
		v.SetInt(n)
	case reflect.Uint8, reflect.Uint16, reflect.Uint64:
		n := uint64(r.Intn(math.MaxInt64))<<1 | 1
		if r.Chance(1, 3) {
			n = math.MaxUint64
		} else if r.Chance(1, 2) {
			n = uint64(r.Intn(100)) << uint(64-t.Bits())
		}
		v.SetUint(n >> uint(64-t.Bits()))
	case reflect.Float64:
		switch r.Intn(3) {
		case 0:
			v.SetFloat(math.Float64frombits(finiteBits(r)))
		case 1:
			v.SetFloat(float64(r.Intn(1000)) / 8)
		default:
			v.SetFloat([]float64{0, 0.1, -0.1, 1e300, 5e-324, 1e21, 123456789.123456789, math.MaxFloat64}[r.Intn(8)])
		}
	case reflect.String:
		v.SetString(cty.StringVal(hardStr(r)).AsString())
	case reflect.Ptr:
		if !r.Chance(1, 3) {
			n := reflect.New(t.Elem())
			fillGo(r, n.Elem(), depth)
			v.Set(n)
		}
	case reflect.Slice:
		if r.Chance(1, 5) {
			return
		}
		n := r.Intn(4)
		s := reflect.MakeSlice(t, n, n)
		for i := 0; i < n; i++ {
			fillGo(r, s.Index(i), depth)
		}
		v.Set(s)
	case reflect.Map:
		if r.Chance(1, 5) {
			return
		}
		m := reflect.MakeMap(t)
		for i, n := 0, r.Intn(4); i < n; i++ {
			e := reflect.New(t.Elem()).Elem()
			fillGo(r, e, depth)
			m.SetMapIndex(reflect.ValueOf(cty.StringVal(hardKey(r)).AsString()), e)
		}
		v.Set(m)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			fillGo(r, v.Field(i), depth)
		}
	default:
		panic("unhandled kind " + t.String())
	}
}

// fillStruct assigns random values to the fields of a plain structure.
func fillStruct(r *mon.Rand, s *goStruct, v reflect.Value) {
	for i, f := range s.fields {
		fv := v.Field(i)
		switch f.kind {
		case "block":
			one := func() reflect.Value {
				n := reflect.New(f.sub.rt)
				fillStruct(r, f.sub, n.Elem())
				if f.ptr {
					return n
				}
				return n.Elem()
			}
			switch {
			case f.slice:
				n := r.Size(3, 12)
				for j := 0; j < n; j++ {
					fv.Set(reflect.Append(fv, one()))
				}
			case f.ptr && r.Chance(1, 3):
			default:
				fv.Set(one())
			}
		default:
			fillGo(r, fv, 2)
		}
	}
}

// undecoded is a structure type with the fields of another and some more that
// can't be encoded, because what they hold isn't decoded.
type undecoded struct {
	s    *goStruct
	from []int // field of the other, or -1
	rt   reflect.Type
	subs map[*goField]*undecoded
}

func addUndecoded(r *mon.Rand, s *goStruct) *undecoded {
	u := &undecoded{s: s, subs: map[*goField]*undecoded{}}
	var fs []reflect.StructField
	remain := false
	add := func(from int, t reflect.Type, tag string) {
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", len(fs)), Type: t, Tag: reflect.StructTag(tag)})
		u.from = append(u.from, from)
	}
	more := func() {
		for r.Chance(1, 3) {
			name := fmt.Sprintf("raw%d", len(fs))
			switch n := r.Intn(9); n {
			case 0, 1:
				add(-1, exprRT, fmt.Sprintf(`hcl:"%s,%s"`, name, r.Pick("attr", "optional")))
			case 2, 3:
				add(-1, attrRT, fmt.Sprintf(`hcl:"%s,%s"`, name, r.Pick("attr", "optional")))
			case 8:
				if !remain {
					remain = true
					add(-1, bodyRT, `hcl:",remain"`)
				}
			default:
				add(-1, []reflect.Type{attrsRT, bodyRT, reflect.SliceOf(attrsRT), reflect.SliceOf(bodyRT)}[n-4], fmt.Sprintf(`hcl:"%s,block"`, name))
			}
		}
	}
	for i, f := range s.fields {
		more()
		t := f.t
		if f.kind == "block" {
			u.subs[f] = addUndecoded(r, f.sub)
			t = u.subs[f].rt
			if f.ptr {
				t = reflect.PtrTo(t)
			}
			if f.slice {
				t = reflect.SliceOf(t)
			}
		}
		add(i, t, string(s.rt.Field(i).Tag))
	}
	more()
	u.rt = reflect.StructOf(fs)
	return u
}

// fill copies a value of the other structure.
func (u *undecoded) fill(r *mon.Rand, v reflect.Value) reflect.Value {
	ret := reflect.New(u.rt).Elem()
	for i, from := range u.from {
		fv := ret.Field(i)
		if from < 0 {
			x := hcl.StaticExpr(cty.True, hcl.Range{})
			a := &hcl.Attribute{Name: "x", Expr: x}
			if r.Chance(1, 3) {
				continue
			}
			switch fv.Interface().(type) {
			case *hcl.Attribute:
				fv.Set(reflect.ValueOf(a))
			case hcl.Attributes:
				fv.Set(reflect.ValueOf(hcl.Attributes{"x": a}))
			case []hcl.Attributes:
				fv.Set(reflect.ValueOf([]hcl.Attributes{{"x": a}, nil}))
			case []hcl.Body:
				fv.Set(reflect.ValueOf([]hcl.Body{hcl.EmptyBody(), hcl.EmptyBody()}))
			default:
				if fv.Type() == exprRT {
					fv.Set(reflect.ValueOf(x))
				} else {
					fv.Set(reflect.ValueOf(hcl.EmptyBody()))
				}
			}
			continue
		}
		f, ov := u.s.fields[from], v.Field(from)
		if f.kind != "block" {
			fv.Set(ov)
			continue
		}
		one := func(ov reflect.Value) reflect.Value {
			if !f.ptr {
				return u.subs[f].fill(r, ov)
			}
			if ov.IsNil() {
				return reflect.Zero(reflect.PtrTo(u.subs[f].rt))
			}
			p := reflect.New(u.subs[f].rt)
			p.Elem().Set(u.subs[f].fill(r, ov.Elem()))
			return p
		}
		if !f.slice {
			fv.Set(one(ov))
			continue
		}
		for j := 0; j < ov.Len(); j++ {
			fv.Set(reflect.Append(fv, one(ov.Index(j))))
		}
	}
	return ret
}

// sameGo compares values of an attribute type.
func sameGo(a, b reflect.Value) bool {
	t := a.Type()
	if t == valueRT {
		x, y := a.Interface().(cty.Value), b.Interface().(cty.Value)
		if x.Type() == cty.NilType || y.Type() == cty.NilType {
			return x.Type() == y.Type()
		}
		return gen.SameValue(x, y) || reproduced(x, y)
	}
	switch t.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return sameGo(a.Elem(), b.Elem())
	case reflect.Slice:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !sameGo(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			y := b.MapIndex(k)
			if !y.IsValid() || !sameGo(a.MapIndex(k), y) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !sameGo(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	default:
		return a.Interface() == b.Interface()
	}
}

// addNils puts nil pointers among the blocks of a plain structure.
func addNils(r *mon.Rand, s *goStruct, v reflect.Value) bool {
	added := false
	for i, f := range s.fields {
		if f.kind != "block" {
			continue
		}
		fv := v.Field(i)
		one := func(e reflect.Value) {
			if f.ptr {
				if e.IsNil() {
					return
				}
				e = e.Elem()
			}
			if addNils(r, f.sub, e) {
				added = true
			}
		}
		if !f.slice {
			one(fv)
			continue
		}
		for j := 0; j < fv.Len(); j++ {
			one(fv.Index(j))
		}
		if f.ptr && r.Bool() {
			at := r.Intn(fv.Len() + 1)
			nv := reflect.MakeSlice(fv.Type(), 0, fv.Len()+1)
			nv = reflect.AppendSlice(nv, fv.Slice(0, at))
			nv = reflect.Append(nv, reflect.Zero(fv.Type().Elem()))
			nv = reflect.AppendSlice(nv, fv.Slice(at, fv.Len()))
			fv.Set(nv)
			added = true
		}
	}
	return added
}

// sameStruct compares plain structures and says where they differ.
func sameStruct(s *goStruct, a, b reflect.Value, where string) string {
	for i, f := range s.fields {
		x, y := a.Field(i), b.Field(i)
		at := where + "." + f.name
		switch {
		case f.kind == "none":
			if !isZero(y) {
				return at + " (no tag) was assigned"
			}
		case f.kind == "block" && f.slice:
			if f.ptr {
				// nothing is written for elements that are nil
				all := x
				x = reflect.MakeSlice(all.Type(), 0, all.Len())
				for j := 0; j < all.Len(); j++ {
					if !all.Index(j).IsNil() {
						x = reflect.Append(x, all.Index(j))
					}
				}
			}
			if x.Len() != y.Len() {
				return fmt.Sprintf("%s has %d blocks instead of %d", at, y.Len(), x.Len())
			}
			for j := 0; j < x.Len(); j++ {
				p, q := x.Index(j), y.Index(j)
				if f.ptr {
					if q.IsNil() {
						return fmt.Sprintf("%s[%d] is nil", at, j)
					}
					p, q = p.Elem(), q.Elem()
				}
				if d := sameStruct(f.sub, p, q, fmt.Sprintf("%s[%d]", at, j)); d != "" {
					return d
				}
			}
		case f.kind == "block":
			if f.ptr {
				if x.IsNil() != y.IsNil() {
					return at + " is present in only one of them"
				}
				if x.IsNil() {
					continue
				}
				x, y = x.Elem(), y.Elem()
			}
			if d := sameStruct(f.sub, x, y, at); d != "" {
				return d
			}
		default:
			if !sameGo(x, y) {
				return fmt.Sprintf("%s is %s instead of %s", at, goStr(y), goStr(x))
			}
		}
	}
	return ""
}

func isZero(v reflect.Value) bool {
	return reflect.DeepEqual(v.Interface(), reflect.Zero(v.Type()).Interface())
}

func goStr(v reflect.Value) string {
	if v.Kind() == reflect.Ptr && !v.IsNil() {
		return "&" + goStr(v.Elem())
	}
	return clip(fmt.Sprintf("%#v", v.Interface()), 300)
}

func (s *goStruct) String() string {
	var parts []string
	for _, f := range s.fields {
		p := f.kind + " " + f.name
		if f.sub != nil {
			if f.slice {
				p += "[]"
			}
			if f.ptr {
				p += "*"
			}
			p += f.sub.String()
		} else {
			p += " " + f.t.String()
		}
		parts = append(parts, p)
	}
	return "{" + strings.Join(parts, "; ") + "}"
}

func (s *goStruct) shape() string {
	var b strings.Builder
	for _, f := range s.fields {
		b.WriteString(f.kind[:1])
		if f.sub != nil {
			fmt.Fprintf(&b, "%v%v%s", f.slice, f.ptr, f.sub.shape())
		} else {
			b.WriteString(f.t.Kind().String()[:2])
		}
	}
	return b.String()
}
