package gen

import (
	"errors"
	"fmt"
	"strings"

	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function"
)

// Funcs is a table of simple functions for use in expressions.
var Funcs = map[string]function.Function{
	"upper": function.New(&function.Spec{
		Params: []function.Parameter{{Name: "s", Type: cty.String}},
		Type:   function.StaticReturnType(cty.String),
		Impl: func(args []cty.Value, _ cty.Type) (cty.Value, error) {
			return cty.StringVal(strings.ToUpper(args[0].AsString())), nil
		},
	}),
	"concat": function.New(&function.Spec{
		Params:   []function.Parameter{{Name: "first", Type: cty.String}},
		VarParam: &function.Parameter{Name: "rest", Type: cty.String},
		Type:     function.StaticReturnType(cty.String),
		Impl: func(args []cty.Value, _ cty.Type) (cty.Value, error) {
			s := ""
			for _, a := range args {
				s += a.AsString() + ";"
			}
			return cty.StringVal(s), nil
		},
	}),
	"sum": function.New(&function.Spec{
		VarParam: &function.Parameter{Name: "nums", Type: cty.Number},
		Type:     function.StaticReturnType(cty.Number),
		Impl: func(args []cty.Value, _ cty.Type) (cty.Value, error) {
			n := cty.Zero
			for _, a := range args {
				n = n.Add(a)
			}
			return n, nil
		},
	}),
	"ident": function.New(&function.Spec{
		Params: []function.Parameter{{Name: "v", Type: cty.DynamicPseudoType, AllowNull: true}},
		Type:   func(args []cty.Value) (cty.Type, error) { return args[0].Type(), nil },
		Impl:   func(args []cty.Value, _ cty.Type) (cty.Value, error) { return args[0], nil },
	}),
	"isnull": function.New(&function.Spec{
		Params: []function.Parameter{{Name: "v", Type: cty.DynamicPseudoType, AllowNull: true}},
		Type:   function.StaticReturnType(cty.Bool),
		Impl: func(args []cty.Value, _ cty.Type) (cty.Value, error) {
			return cty.BoolVal(args[0].IsNull()), nil
		},
	}),
	"pair": function.New(&function.Spec{
		Params: []function.Parameter{
			{Name: "a", Type: cty.DynamicPseudoType, AllowNull: true},
			{Name: "b", Type: cty.DynamicPseudoType, AllowNull: true},
		},
		Type: func(args []cty.Value) (cty.Type, error) {
			return cty.Tuple([]cty.Type{args[0].Type(), args[1].Type()}), nil
		},
		Impl: func(args []cty.Value, _ cty.Type) (cty.Value, error) { return cty.TupleVal(args), nil },
	}),
	"sub": function.New(&function.Spec{
		Params: []function.Parameter{{Name: "a", Type: cty.Number}, {Name: "b", Type: cty.Number}},
		Type:   function.StaticReturnType(cty.Number),
		Impl: func(args []cty.Value, _ cty.Type) (cty.Value, error) {
			return args[0].Subtract(args[1]), nil
		},
	}),
	"nonneg": function.New(&function.Spec{
		Params: []function.Parameter{{Name: "a", Type: cty.Number}, {Name: "b", Type: cty.Number}},
		Type:   function.StaticReturnType(cty.Number),
		Impl: func(args []cty.Value, _ cty.Type) (cty.Value, error) {
			for i, a := range args {
				if a.AsBigFloat().Sign() < 0 {
					return cty.NilVal, function.NewArgErrorf(i, "must not be negative")
				}
			}
			return args[1], nil
		},
	}),
	// a number and a string, then flags
	"mix": function.New(&function.Spec{
		Params:   []function.Parameter{{Name: "n", Type: cty.Number}, {Name: "s", Type: cty.String}},
		VarParam: &function.Parameter{Name: "flags", Type: cty.Bool},
		Type:     function.StaticReturnType(cty.String),
		Impl: func(args []cty.Value, _ cty.Type) (cty.Value, error) {
			s := args[0].AsBigFloat().Text('g', 10) + "," + args[1].AsString()
			for _, a := range args[2:] {
				s += fmt.Sprintf(",%v", a.True())
			}
			return cty.StringVal(s), nil
		},
	}),
	// fails for the first argument that isn't positive
	"positive": function.New(&function.Spec{
		Params:   []function.Parameter{{Name: "first", Type: cty.Number}},
		VarParam: &function.Parameter{Name: "rest", Type: cty.Number},
		Type:     function.StaticReturnType(cty.Number),
		Impl: func(args []cty.Value, _ cty.Type) (cty.Value, error) {
			for i, a := range args {
				if a.AsBigFloat().Sign() <= 0 {
					return cty.NilVal, function.NewArgErrorf(i, "must be positive")
				}
			}
			return args[len(args)-1], nil
		},
	}),
	"fail": function.New(&function.Spec{
		VarParam: &function.Parameter{Name: "v", Type: cty.DynamicPseudoType, AllowNull: true},
		Type:     function.StaticReturnType(cty.String),
		Impl: func(args []cty.Value, _ cty.Type) (cty.Value, error) {
			return cty.NilVal, errors.New("always fails")
		},
	}),
	"now": function.New(&function.Spec{
		Type: function.StaticReturnType(cty.String),
		Impl: func(args []cty.Value, _ cty.Type) (cty.Value, error) { return cty.StringVal("then"), nil },
	}),
}
