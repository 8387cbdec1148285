package verifharness

import (
	"bytes"

	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/verifharness/v"
)

// generated is the text the generator emits for vals.
func generated(vals ...*jsval.JSVal) string {
	var buf bytes.Buffer
	err := jsval.NewGenerator().Process(&buf, vals...)
	v.Assert(err == nil, "code can be generated for every validator made of the constraints of this package")
	v.Assume(err == nil)
	return buf.String()
}

// regenerate is the validator that the generated program sets up.
func regenerate(val *jsval.JSVal) *jsval.JSVal {
	text := generated(val)
	ok := v.Compiles(text)
	v.Assert(ok, "generated code compiles")
	v.Assume(ok)
	v.RunGenerated()
	return v.GeneratedVar(val.Name).(*jsval.JSVal)
}

func named(c jsval.Constraint) *jsval.JSVal {
	return jsval.New().SetName("V").SetRoot(c)
}

const sameVerdict = "the generated validator accepts exactly the values that the original accepts"

func Spec_C17_number() {
	n := anyNumSpec(false)
	val := named(n.number())
	gen := regenerate(val)
	x, _ := anyJSON("x")
	v.Assert(accepts(gen, x) == accepts(val, x), sameVerdict)
}

func Spec_C17_integer() {
	n := anyNumSpec(false)
	val := named(n.integer())
	gen := regenerate(val)
	x, _ := anyJSON("x")
	v.Assert(accepts(gen, x) == accepts(val, x), sameVerdict)
}

func Spec_C17_string() {
	s := anyStrSpec()
	val := named(s.constraint())
	gen := regenerate(val)
	x, _ := anyJSON("x")
	v.Assert(accepts(gen, x) == accepts(val, x), sameVerdict)
}

func Spec_C17_format() {
	f := v.Str("format")
	v.Assume(f != "hostname" && f != "ipv4" && f != "ipv6")
	val := named(jsval.String().Format(f))
	gen := regenerate(val)
	x, _ := anyJSON("x")
	v.Assert(accepts(gen, x) == accepts(val, x), sameVerdict)
}

func Spec_C17_loopedFormat() {
	f := []string{"hostname", "ipv4", "ipv6"}[v.Choose(3)]
	val := named(jsval.String().Format(f))
	gen := regenerate(val)
	x := []string{"", "::1", "a.b", "-", "a..b", "g::", "10.0.0.1"}[v.Choose(7)]
	v.Assert(accepts(gen, x) == accepts(val, x), sameVerdict)
}

func Spec_C17_basic() {
	var c jsval.Constraint
	switch v.Choose(3) {
	case 0:
		c = jsval.Boolean()
	case 1:
		c = jsval.NullConstraint
	default:
		c = jsval.EmptyConstraint
	}
	val := named(c)
	gen := regenerate(val)
	x, _ := anyJSON("x")
	v.Assert(accepts(gen, x) == accepts(val, x), sameVerdict)
}

// anyEnumValue is a value that an enumeration of a schema can hold.
func anyEnumValue(name string) interface{} {
	switch v.Choose(8) {
	case 0:
		return nil
	case 1:
		return v.Bool(name + ".bool")
	case 2:
		return v.Float(name + ".num")
	case 3:
		return v.Str(name + ".str")
	case 4:
		return []interface{}{v.Float(name + "[0]"), v.Str(name + "[1]")}
	case 5:
		return map[string]interface{}{"a": v.Float(name + ".a"), "b": v.Bool(name + ".b")}
	case 6:
		return v.Int(name + ".int")
	default:
		return v.Uint64(name + ".uint")
	}
}

func Spec_C17_enum() {
	var c jsval.Constraint
	e := anyEnumValue("enum")
	if v.Choose(2) == 1 {
		c = jsval.Enum(e, v.Str("other"))
	} else {
		c = jsval.Enum(e)
	}
	val := named(c)
	gen := regenerate(val)
	x := anyEnumValue("x")
	v.Assert(accepts(gen, x) == accepts(val, x), sameVerdict)
}

func Spec_C17_numberEnum() {
	var c jsval.Constraint
	e := []interface{}{v.Float("e0"), v.Float("e1")}
	if v.Choose(2) == 1 {
		c = jsval.Number().Enum(e...)
	} else {
		c = jsval.Integer().Enum(e...)
	}
	val := named(c)
	gen := regenerate(val)
	x, _ := anyJSON("x")
	v.Assert(accepts(gen, x) == accepts(val, x), sameVerdict)
}

// An enumeration without values accepts nothing, and so does its generated
// counterpart.
func Spec_C17_emptyEnum() {
	var c jsval.Constraint
	switch v.Choose(3) {
	case 0:
		c = jsval.Enum()
	case 1:
		c = jsval.Number().Enum()
	default:
		c = jsval.String().Enum()
	}
	val := named(c)
	gen := regenerate(val)
	x, _ := anyJSON("x")
	v.Assert(accepts(gen, x) == accepts(val, x), sameVerdict)
}

// Defaults survive, with their type.
func Spec_C17_defaults() {
	var c jsval.Constraint
	switch v.Choose(6) {
	case 0:
		c = jsval.String().Default(v.Str("default"))
	case 1:
		c = jsval.Boolean().Default(v.Bool("default"))
	case 2:
		c = jsval.Number().Default(v.Float("default"))
	case 3:
		c = jsval.Integer().Default(v.Float("default"))
	case 4:
		c = jsval.Integer().Default(v.Int("default"))
	default:
		c = jsval.String()
	}
	val := named(c)
	gen := regenerate(val)
	v.Assert(gen.Root().HasDefault() == c.HasDefault(), "the generated validator has a default exactly when the original has one")
	v.Assert(gen.Root().DefaultValue() == c.DefaultValue(), "the generated validator has the default of the original")
}

// The generated variable is named after the validator, and so is the
// validator it holds.
func Spec_C17_name() {
	a := jsval.New().SetRoot(jsval.Boolean())
	b := jsval.New().SetName("B").SetRoot(jsval.NullConstraint)
	text := generated(a, b)
	ok := v.Compiles(text)
	v.Assert(ok, "generated code compiles")
	v.Assume(ok)
	v.RunGenerated()
	x, _ := anyJSON("x")
	ga := v.GeneratedVar("V0").(*jsval.JSVal)
	gb := v.GeneratedVar("B").(*jsval.JSVal)
	v.Assert(accepts(ga, x) == accepts(a, x) && accepts(gb, x) == accepts(b, x), sameVerdict)
	v.Assert(gb.Name == "B" && ga.Name == a.Name, "generated validators keep their names")
}
