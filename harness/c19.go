package verifharness

import (
	"regexp"

	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/verifharness/v"
)

// Every text of a schema is data in the generated program, whatever
// characters it is made of.

func Spec_C19_propertyNames() {
	a, b := v.Str("a"), v.Str("b")
	c := jsval.Object()
	switch v.Choose(4) {
	case 0:
		c.AddProp(a, leaf("p"))
	case 1:
		c.Required(a).AdditionalProperties(jsval.EmptyConstraint)
	case 2:
		v.Assume(a < b)
		c.Required(a, b).AdditionalProperties(jsval.EmptyConstraint)
	default:
		v.Assume(a < b)
		c.AddProp(a, leaf("p")).AddProp(b, leaf("q"))
	}
	x := map[string]interface{}{}
	switch v.Choose(3) {
	case 0:
		x[a] = v.Str("x")
	case 1:
		v.Assume(a != b)
		x[a] = v.Str("x")
		x[b] = v.Str("y")
	}
	same(named(c), x)
}

func Spec_C19_dependencyNames() {
	a, b := v.Str("a"), v.Str("b")
	v.Assume(a != b)
	c := jsval.Object().AddProp(a, jsval.EmptyConstraint).AddProp(b, jsval.EmptyConstraint)
	if v.Choose(2) == 1 {
		c.PropDependency(a, b)
	} else {
		c.SchemaDependency(a, jsval.Object().MaxProperties(1))
	}
	x := map[string]interface{}{}
	if v.Choose(2) == 1 {
		x[a] = v.Str("x")
	}
	if v.Choose(2) == 1 {
		x[b] = v.Str("y")
	}
	same(named(c), x)
}

func Spec_C19_patterns() {
	src := v.Str("pattern")
	v.Assume(v.ValidPattern(src))
	x := v.Str("x")
	if v.Choose(2) == 1 {
		same(named(jsval.String().RegexpString(src)), x)
		return
	}
	c := jsval.Object().PatternProperties(regexp.MustCompile(src), jsval.NullConstraint)
	same(named(c), map[string]interface{}{x: v.Str("y")})
}

func Spec_C19_texts() {
	s := v.Str("text")
	x := v.Str("x")
	switch v.Choose(3) {
	case 0:
		same(named(jsval.String().Enum(s)), x)
	case 1:
		same(named(jsval.Enum(s, nil)), x)
	default:
		same(named(jsval.Enum(map[string]interface{}{s: x})), map[string]interface{}{v.Str("k"): x})
	}
}

// Texts nested in other constraints pass through more than one writer.
func Spec_C19_nestedTexts() {
	s := v.Str("text")
	x := v.Str("x")
	c := jsval.Constraint(jsval.String().Enum(s))
	switch v.Choose(4) {
	case 0:
		same(named(jsval.Not(jsval.All().Add(c))), x)
	case 1:
		same(named(jsval.Array().Items(c)), []interface{}{x})
	case 2:
		same(named(jsval.Object().AdditionalProperties(jsval.Object().AddProp(s, c))),
			map[string]interface{}{"o": map[string]interface{}{s: x}})
	default:
		val := named(nil)
		val.SetReference("#/definitions/r", jsval.Any().Add(c))
		val.SetRoot(jsval.Not(jsval.Reference(val.ConstraintMap).RefersTo("#/definitions/r")))
		same(val, x)
	}
}

func Spec_C19_referenceNames() {
	val := named(nil)
	a, b := v.Str("ref0"), v.Str("ref1")
	v.Assume(a < b)
	val.SetReference(a, leaf("r"))
	if v.Choose(2) == 1 {
		val.SetReference(b, leaf("s"))
	}
	val.SetRoot(jsval.Not(jsval.Reference(val.ConstraintMap).RefersTo(a)))
	same(val, v.Str("x"))
}

func Spec_C19_defaults() {
	s := v.Str("text")
	val := named(jsval.Object().AddProp("a", jsval.String().Default(s)))
	gen := regenerate(val)
	y := map[string]interface{}{}
	err := gen.Validate(y)
	v.Assert(err == nil && y["a"] == s, "a default is the same text in generated code")
}
