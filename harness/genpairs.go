package verifharness

import (
	"regexp"

	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/verifharness/v"
)

func size(name string) int {
	n := v.Int(name)
	v.Assume(n >= 0)
	return n
}

func arrayPart(c *jsval.ArrayConstraint, k int) {
	switch k {
	case 0:
		c.MinItems(size("minItems"))
	case 1:
		c.MaxItems(size("maxItems"))
	case 2:
		c.UniqueItems(true)
	case 3:
		c.Items(leaf("items"))
	case 4:
		c.Items(jsval.EmptyConstraint)
	case 5:
		c.PositionalItems([]jsval.Constraint{leaf("first"), leaf("second")})
	case 6:
		c.PositionalItems([]jsval.Constraint{jsval.EmptyConstraint})
	case 7:
		c.AdditionalItems(leaf("rest"))
	case 8:
		c.AdditionalItems(nil)
	case 9:
		c.AdditionalItems(jsval.EmptyConstraint)
	}
}

// Any three parts of an array constraint.
func Spec_C18_arrayParts() {
	c := jsval.Array()
	const n = 10
	i := v.Choose(n)
	j := i + v.Choose(n-i)
	k := j + v.Choose(n-j)
	arrayPart(c, i)
	if j != i {
		arrayPart(c, j)
	}
	if k != j {
		arrayPart(c, k)
	}
	val := named(c)
	gen := regenerate(val)
	x := []interface{}{}
	for i := 0; i < 3; i++ {
		if v.Choose(2) == 0 {
			break
		}
		x = append(x, v.Str([]string{"x0", "x1", "x2"}[i]))
	}
	v.Assert(accepts(val, x) == accepts(gen, x), sameVerdict)
}

func objectPart(c *jsval.ObjectConstraint, k int) {
	switch k {
	case 0:
		c.MinProperties(size("minProperties"))
	case 1:
		c.MaxProperties(size("maxProperties"))
	case 2:
		c.Required("a")
	case 3:
		c.Required("b", "")
	case 4:
		c.AddProp("a", leaf("p.a"))
	case 5:
		c.AddProp("b", jsval.EmptyConstraint)
	case 6:
		c.AddProp("", leaf("p.")).AddProp("c", jsval.NullConstraint)
	case 7:
		c.PatternProperties(v.Regexp("rx"), leaf("m"))
	case 8:
		c.PatternProperties(regexp.MustCompile("a"), leaf("ma"))
	case 9:
		c.AdditionalProperties(leaf("rest"))
	case 10:
		c.AdditionalProperties(jsval.EmptyConstraint)
	case 11:
		c.PropDependency("a", "b", "c")
	case 12:
		c.PropDependency("b", "a").PropDependency("", "b")
	case 13:
		c.SchemaDependency("b", jsval.Object().AdditionalProperties(leaf("dep")))
	}
}

func objectParts(c *jsval.ObjectConstraint) {
	v.Assume(v.Regexp("rx").String() != "a")
	const n = 14
	i := v.Choose(n)
	j := i + v.Choose(n-i)
	objectPart(c, i)
	if j != i {
		objectPart(c, j)
	}
	val := named(c)
	gen := regenerate(val)
	x := map[string]interface{}{}
	for _, k := range [][]string{{}, {"a"}, {"b"}, {"", "b"}, {"a", "b"}, {"a", "b", ""}}[v.Choose(6)] {
		x[k] = v.Str("x." + k)
	}
	v.Assert(accepts(val, x) == accepts(gen, x), sameVerdict)
}

// Any two parts of an object constraint.
func Spec_C18_objectParts() { objectParts(jsval.Object()) }

func Spec_C18_objectPartsOpen() {
	objectParts(jsval.Object().AdditionalProperties(jsval.EmptyConstraint))
}

// Members that are one and the same constraint.
func Spec_C18_sameMembers() {
	a, b := leaf("a"), leaf("b")
	l := [][]jsval.Constraint{{a, a}, {a, b, a}, {a, a, b}, {b, a, a}}[v.Choose(4)]
	all, any, one := jsval.All(), jsval.Any(), jsval.OneOf()
	for _, m := range l {
		all.Add(m)
		any.Add(m)
		one.Add(m)
	}
	c := []jsval.Constraint{all, any, one}[v.Choose(3)]
	same(named(c), v.Str("x"))
}

// Defaults of properties, wherever their constraints come from.
func Spec_C18_defaults() {
	val := named(nil)
	d := jsval.String().Default(v.Str("default"))
	var p jsval.Constraint
	switch v.Choose(10) {
	case 0:
		p = d
	case 1:
		p = jsval.All().Add(d)
	case 2:
		p = jsval.All().Add(leaf("l")).Add(d)
	case 3:
		p = jsval.Any().Add(d)
	case 4:
		p = jsval.OneOf().Add(d)
	case 5:
		p = jsval.Not(d)
	case 6:
		p = jsval.Not(jsval.Not(d))
	case 7:
		val.SetReference("r", d)
		p = jsval.Reference(val.ConstraintMap).RefersTo("r")
	case 8:
		val.SetReference("r", d)
		val.SetReference("s", jsval.Reference(val.ConstraintMap).RefersTo("r"))
		p = jsval.Reference(val.ConstraintMap).RefersTo("s")
	case 9:
		p = leaf("l")
	}
	c := jsval.Object().AddProp("p", p).AddProp("q", jsval.Boolean().Default(v.Bool("q")))
	if v.Choose(2) == 1 {
		c.Required("q")
	}
	val.SetRoot(c)
	gen := regenerate(val)
	x, y := map[string]interface{}{}, map[string]interface{}{}
	if v.Choose(2) == 1 {
		x["q"], y["q"] = true, true
	}
	e, f := val.Validate(x), gen.Validate(y)
	v.Assert((e == nil) == (f == nil), sameVerdict)
	v.Assert(e != nil || v.DeepEq(x, y), "the generated validator fills in the defaults that the original fills in")
}

func stringPart(c *jsval.StringConstraint, k int) {
	switch k {
	case 0:
		c.MinLength(size("minLength"))
	case 1:
		c.MaxLength(size("maxLength"))
	case 2:
		c.Regexp(v.Regexp("rx"))
	case 3:
		c.Format("email")
	case 4:
		c.Enum(v.Str("e0"), "s")
	case 5:
		c.Default(v.Str("default"))
	case 6:
		c.Format("")
	case 7:
		c.RegexpString(v.Str("rxs"))
	}
}

// Any three parts of a string constraint.
func Spec_C17_stringParts() {
	c := jsval.String()
	v.Assume(v.ValidPattern(v.Str("rxs")))
	const n = 8
	i := v.Choose(n)
	j := i + v.Choose(n-i)
	k := j + v.Choose(n-j)
	stringPart(c, i)
	if j != i {
		stringPart(c, j)
	}
	if k != j {
		stringPart(c, k)
	}
	val := named(c)
	gen := regenerate(val)
	v.Assert(gen.Root().HasDefault() == c.HasDefault(), "the generated validator has a default exactly when the original has one")
	v.Assert(gen.Root().DefaultValue() == c.DefaultValue(), "the generated validator has the default of the original")
	x := v.Str("x")
	v.Assert(accepts(gen, x) == accepts(val, x), sameVerdict)
}

// A default next to every keyword of a number.
func Spec_C17_numberDefault() {
	var c jsval.Constraint
	d := v.Float("default")
	if v.Choose(2) == 1 {
		c = anyNumSpec(false).number().Default(d)
	} else {
		c = anyNumSpec(false).integer().Default(d)
	}
	gen := regenerate(named(c))
	v.Assert(gen.Root().HasDefault(), "the generated validator has a default exactly when the original has one")
	v.Assert(gen.Root().DefaultValue() == c.DefaultValue(), "the generated validator has the default of the original")
}

// Values inside of values.
func Spec_C17_enumNested() {
	var e interface{}
	switch v.Choose(6) {
	case 0:
		e = []interface{}{part(0), part(1)}
	case 1:
		e = map[string]interface{}{"a": part(0), "b": part(1)}
	case 2:
		e = []interface{}{[]interface{}{}, map[string]interface{}{"a": part(0)}}
	case 3:
		e = map[string]interface{}{"l": []interface{}{part(0), nil}, "m": map[string]interface{}{}}
	case 4:
		e = []interface{}{nil, part(0), nil}
	case 5:
		e = map[string]interface{}{"": nil}
	}
	val := named(jsval.Enum(true, e, nil))
	gen := regenerate(val)
	v.Assert(accepts(gen, e), "the generated validator accepts every value that is enumerated")
	v.Assert(accepts(gen, true) && accepts(gen, nil) && !accepts(gen, false), sameVerdict)
	var x interface{} = []interface{}{}
	if v.Choose(2) == 1 {
		x = map[string]interface{}{}
	}
	v.Assert(accepts(gen, x) == accepts(val, x), sameVerdict)
}

func part(i int) interface{} {
	switch v.Choose(4) {
	case 0:
		return nil
	case 1:
		return v.Str("part" + []string{"0", "1", "2"}[i])
	case 2:
		return v.Float("num" + []string{"0", "1", "2"}[i])
	}
	return false
}
