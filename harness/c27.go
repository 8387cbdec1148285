package verifharness

import (
	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/verifharness/v"
)

// made is a new constraint of kind k.
func made(k int) jsval.Constraint {
	switch k {
	case 0:
		return jsval.String().MinLength(1).MaxLength(3).Enum("x", "yy").Default("x")
	case 1:
		return jsval.Number().Minimum(1).ExclusiveMinimum(true).MultipleOf(2).Enum(2.0, 3.0)
	case 2:
		return jsval.Array().Items(child{"i"}).UniqueItems(true).MinItems(1).MaxItems(2)
	case 3:
		return jsval.Array().PositionalItems([]jsval.Constraint{child{"p"}}).AdditionalItems(child{"q"})
	case 4:
		return jsval.Object().AddProp("a", child{"a"}).Required("a").AdditionalProperties(child{"r"})
	case 5:
		return jsval.Object().AddProp("a", child{"a"}).PatternPropertiesString("^p", child{"p"}).MaxProperties(2)
	case 6:
		return jsval.Object().AdditionalProperties(jsval.EmptyConstraint).PropDependency("a", "b").SchemaDependency("b", jsval.Object().MaxProperties(2).AdditionalProperties(child{"d"}))
	case 7:
		return jsval.OneOf().Add(child{"a"}).Add(child{"b"})
	case 8:
		return jsval.Any().Add(child{"a"}).Add(jsval.Not(child{"b"}))
	case 9:
		val := jsval.New()
		val.SetReference("#/r", jsval.All().Add(child{"a"}).Add(child{"b"}))
		return jsval.Reference(val).RefersTo("#/r")
	default:
		return jsval.Enum("x", nil, 1.0, []interface{}{"a"})
	}
}

// instance is a value worth validating with made(k).
func instance(k int, name string) interface{} {
	s := v.Str(name)
	switch k {
	case 0, 7, 8, 9:
		if v.Choose(2) == 0 {
			return nil
		}
		return s
	case 1:
		if v.Choose(2) == 0 {
			return s
		}
		return v.Float(name + ".n")
	case 2, 3:
		switch v.Choose(5) {
		case 0:
			return []interface{}{}
		case 1:
			return []interface{}{s}
		case 3:
			return []interface{}{s, v.Str(name + ".2")}
		case 4:
			return []interface{}{"a", s, "a"}
		default:
			return []interface{}{s, nil}
		}
	case 4, 5, 6:
		switch v.Choose(5) {
		case 0:
			return map[string]interface{}{}
		case 1:
			return map[string]interface{}{"a": s}
		case 2:
			return map[string]interface{}{"b": s, "c": nil}
		case 3:
			return map[string]interface{}{"a": s, "b": nil, "c": 1.0}
		default:
			return map[string]interface{}{"p": s}
		}
	default:
		switch v.Choose(3) {
		case 0:
			return s
		case 1:
			return nil
		default:
			return []interface{}{s}
		}
	}
}

// What was validated before does not matter.
func Spec_C27_history() {
	k := v.Choose(11)
	used := made(k)
	if v.Choose(2) == 1 {
		used.Validate(instance(k, "y"))
	} else {
		used.Validate(nil)
		used.Validate(instance(k, "y"))
	}
	x := instance(k, "x")
	v.Assert(accepts2(used, x) == accepts2(made(k), x), "the verdict on a value does not depend on what was validated before")
}

// The same value gets the same verdict again.
func Spec_C27_again() {
	k := v.Choose(11)
	c := made(k)
	x := instance(k, "x")
	first := accepts2(c, x)
	v.Assert(accepts2(c, x) == first, "the same value gets the same verdict again")
	v.Assert(accepts2(c, x) == first, "the same value gets the same verdict again")
}

// Neither does what other constraints validated.
func Spec_C27_others() {
	k := v.Choose(11)
	j := (k + []int{0, 1, 4}[v.Choose(3)]) % 11
	c := made(k)
	x := instance(k, "x")
	first := accepts2(c, x)
	made(j).Validate(instance(j, "z"))
	v.Assert(accepts2(c, x) == first, "the verdict on a value does not depend on what other constraints validate")
}

// Verdicts on structs do not depend on the types seen before.
type seen1 struct {
	A string `json:"a"`
	B string `json:"-"`
}
type seen2 struct {
	A string `json:"b"`
	B string `json:"a"`
}

func Spec_C27_structs() {
	c := jsval.Object().AddProp("a", child{"a"}).AdditionalProperties(child{"r"})
	x := v.Str("x")
	switch v.Choose(4) {
	case 1:
		c.Validate(seen1{"1", "2"})
	case 2:
		c.Validate(&seen2{"1", "2"})
	case 3:
		c.Validate(seen2{"1", "2"})
		c.Validate(seen1{"1", "2"})
	}
	if v.Choose(2) == 0 {
		v.Assert(accepts2(c, seen1{x, "y"}) == okFor("a", x), "the verdict on a struct does not depend on the types validated before")
	} else {
		v.Assert(accepts2(c, &seen2{"y", x}) == (okFor("a", x) && okFor("r", "y")), "the verdict on a struct does not depend on the types validated before")
	}
}

func accepts2(c jsval.Constraint, x interface{}) bool { return c.Validate(x) == nil }
